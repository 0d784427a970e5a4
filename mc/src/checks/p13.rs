//! Compacting preserves the table and no crash point loses it.
use super::p03::full_exp_table;
use super::p01::full_table;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use crate::sys::{self, Plan};
use rayon::prelude::*;
use std::io::{Cursor, Read, Write};
use std::path::{Path, PathBuf};
use vpin::vpx;

/// Everything a container holds: streams, storages and their metadata.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Full {
    version: String,
    entries: Vec<(String, bool, u128, u32, Option<Vec<u8>>, [u128; 2])>,
}
fn ns(t: std::time::SystemTime) -> u128 {
    t.duration_since(std::time::SystemTime::UNIX_EPOCH).map(|d| d.as_nanos()).unwrap_or(0)
}
pub fn full_dump(b: &[u8]) -> Result<Full, String> {
    let mut c = cfb::CompoundFile::open_strict(Cursor::new(b)).map_err(|e| format!("container: {e}"))?;
    let es: Vec<_> = c.walk().map(|e| (e.path().to_path_buf(), e.is_stream(), e.clsid().as_u128(), e.state_bits(), [ns(e.created()), ns(e.modified())])).collect();
    let mut entries = vec![];
    for (p, s, id, bits, tm) in es {
        let d = if s {
            let mut d = vec![];
            c.open_stream(&p).and_then(|mut x| x.read_to_end(&mut d)).map_err(|e| format!("{}: {e}", p.display()))?;
            Some(d)
        } else {
            None
        };
        entries.push((p.to_string_lossy().to_string(), s, id, bits, d, tm));
    }
    entries.sort();
    Ok(Full { version: format!("{:?}", c.version()), entries })
}
fn diff_full(a: &Full, b: &Full) -> Option<String> {
    if a.version != b.version {
        return Some(format!("container version {} became {}", a.version, b.version));
    }
    for x in &a.entries {
        match b.entries.iter().find(|y| y.0 == x.0) {
            None => return Some(format!("{} is gone", x.0)),
            Some(y) if x != y => {
                return Some(format!("{} changed: class {:x}/{:x} state {}/{} times {:?}/{:?} data {}", x.0, x.2, y.2, x.3, y.3, x.5, y.5, diff_bytes(x.4.as_deref().unwrap_or(&[]), y.4.as_deref().unwrap_or(&[]))));
            }
            _ => {}
        }
    }
    b.entries.iter().find(|y| !a.entries.iter().any(|x| x.0 == y.0)).map(|y| format!("{} appeared", y.0))
}

pub fn tables(th: bool) -> Vec<(String, Vec<u8>)> {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    let mut out = vec![];
    let mut small = Table::new(&spec, 1072);
    out.push(("blank".to_string(), small.bytes()));
    small.images.push(Img::jpeg("i", "i.png", &vec![7; 5000]).enc());
    small.sounds.push(Snd::new("s", "s.wav", &[1; 600]).enc(1072));
    small.info.push(("TableName".into(), utf16("x")));
    out.push(("small".into(), small.bytes()));
    // a version 3 container needs fewer file system calls
    let mut c = cfb::CompoundFile::create_with_version(cfb::Version::V3, Cursor::new(Vec::new())).unwrap();
    for s in ["/GameStg", "/TableInfo"] {
        c.create_storage(s).unwrap();
    }
    for (p, d) in &small.streams() {
        let mut s = c.create_new_stream(p).unwrap();
        s.write_all(d).unwrap();
    }
    c.set_state_bits("/GameStg/Sound0", 5).unwrap();
    c.flush().unwrap();
    out.push(("small-V3".into(), c.into_inner().into_inner()));
    out.push(("full".into(), full_table(&spec, &g, 1081).bytes()));
    // an image that makes the file longer than one FAT sector covers in version 3 containers
    let mut big = Table::new(&spec, 1080);
    big.images.push(Img::jpeg("i", "i.png", &(0..150_000u32).map(|i| (i % 251) as u8).collect::<Vec<_>>()).enc());
    out.push(("big".into(), big.bytes()));
    // version 3 container, class ids, state bits, foreign streams and storages, free space
    let t = full_exp_table(&spec, &g, 1072);
    for v in [cfb::Version::V3, cfb::Version::V4] {
        let mut c = cfb::CompoundFile::create_with_version(v, Cursor::new(Vec::new())).unwrap();
        for s in ["/GameStg", "/TableInfo", "/Extra", "/Extra/Deep", "/Extra/Deep/Er", "/Empty"] {
            c.create_storage(s).unwrap();
        }
        let mut ss = t.streams();
        if !th {
            let keep: Vec<_> = ss.keys().filter(|k| !k.contains("GameItem") && !k.contains("Sound")).cloned().collect();
            ss.retain(|k, _| keep.contains(k));
        }
        for (p, d) in &ss {
            let mut s = c.create_new_stream(p).unwrap();
            s.write_all(d).unwrap();
        }
        for (p, n) in [("/Extra/one", 0usize), ("/Extra/Deep/two", 63), ("/Extra/Deep/Er/three", 4096), ("/root stream", 4095), ("/Extra/b4097", 4097), ("/gone", 20000), ("/tiny gone", 100)] {
            let mut s = c.create_new_stream(p).unwrap();
            s.write_all(&(0..n).map(|i| (i % 253) as u8).collect::<Vec<_>>()).unwrap();
        }
        c.remove_stream("/gone").unwrap();
        c.remove_stream("/tiny gone").unwrap();
        for (i, s) in ["/", "/GameStg", "/Extra", "/Extra/Deep/Er"].iter().enumerate() {
            c.set_storage_clsid(s, uuid::Uuid::from_u128(0x1234_5678_9abc_def0 + i as u128)).unwrap();
        }
        for (i, s) in ["/GameStg", "/Extra", "/Extra/Deep"].iter().enumerate() {
            let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000 + i as u64);
            c.set_created_time(s, t).unwrap();
            c.set_modified_time(s, t + std::time::Duration::from_secs(77)).unwrap();
        }
        c.set_state_bits("/Extra", 0x8000_0001).unwrap();
        c.set_state_bits("/Extra/Deep/two", 7).unwrap();
        c.flush().unwrap();
        out.push((format!("rich-{v:?}"), c.into_inner().into_inner()));
    }
    out
}

struct Dir {
    d: PathBuf,
}
impl Dir {
    fn new(ctx: &Ctx, label: &str) -> Dir {
        let d = ctx.scratch.join(format!("c{:x}", hash_of(label)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir { d }
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.d);
    }
}

fn verified(p: &Path) -> bool {
    matches!(vpx::verify(p), vpx::VerifyResult::Ok(_))
}

/// A complete copy exists in the directory.
fn survives(d: &Path, name: &str, bytes: &[u8], orig: &Full) -> Result<(), String> {
    if std::fs::read(d.join(name)).is_ok_and(|b| b == bytes) {
        return Ok(());
    }
    let mut seen = vec![];
    for e in std::fs::read_dir(d).map_err(|e| e.to_string())?.flatten() {
        let n = e.file_name();
        match std::fs::read(e.path()).map_err(|e| e.to_string()).and_then(|b| full_dump(&b)) {
            Ok(f) => match diff_full(orig, &f) {
                None => return Ok(()),
                Some(x) => seen.push(format!("{n:?}: {x}")),
            },
            Err(e) => seen.push(format!("{n:?}: {e}")),
        }
    }
    Err(format!("no complete copy of the table on disk: {seen:?}"))
}

/// Compacting again on whatever is on disk works and loses nothing.
fn recovers(d: &Path, name: &str, bytes: &[u8], orig: &Full) -> Result<(), String> {
    let p = d.join(name);
    if p.exists() {
        match vpx::compact(&p) {
            Ok(()) => {
                let b = std::fs::read(&p).map_err(|e| e.to_string())?;
                if let Some(x) = diff_full(orig, &full_dump(&b)?) {
                    return Err(format!("compacting again after the event: {x}"));
                }
            }
            Err(_) => survives(d, name, bytes, orig).map_err(|e| format!("compacting again: {e}"))?,
        }
        return Ok(());
    }
    for e in std::fs::read_dir(d).map_err(|e| e.to_string())?.flatten() {
        let from = e.path();
        vpx::compact(&from).map_err(|e| format!("compacting the surviving copy: {e}"))?;
        let b = std::fs::read(&from).map_err(|e| format!("compacting the surviving copy: {e}"))?;
        if let Some(x) = diff_full(orig, &full_dump(&b)?) {
            return Err(format!("compacting the surviving copy: {x}"));
        }
    }
    Ok(())
}

fn copy_dir(from: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        std::fs::copy(e.path(), to.join(e.file_name())).unwrap();
    }
}

pub fn run(ctx: &Ctx) {
    sys::self_test(&ctx.scratch);
    let th = ctx.thorough();
    ctx.rule("tables of several shapes (blank, small, full, several FAT sectors, foreign storages and streams at every size class, class ids, state bits, free space; both container versions): compaction compared entry by entry; then every file system call made during compaction is, in turn, the point of death, the point of death in mid-write (several split points), the one that fails, and the first of all failing; after each the disk must hold a complete copy; after repeated compactions and after compaction following a crash");
    ctx.assume("process death, not power loss: completed writes are not lost");
    // large parts and many parts, with free space before and behind them
    let spec = Spec::load();
    use super::large::{some, COUNTED, SIZED};
    let large = some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 2 });
    on_threads(&large, |l| {
        if ctx.too_many() {
            return;
        }
        let label = format!("compact/{}", l.label);
        ctx.case(&label, || {
            let d = Dir::new(ctx, &label);
            let p = d.d.join("t.vpx");
            let mut c = cfb::CompoundFile::create(Cursor::new(Vec::new())).unwrap();
            c.create_stream("/gone").unwrap().write_all(&[5; 9000]).unwrap();
            for s in ["/GameStg", "/TableInfo"] {
                c.create_storage(s).unwrap();
            }
            for (k, x) in &l.table(&spec).streams() {
                c.create_new_stream(k).unwrap().write_all(x).unwrap();
            }
            c.create_stream("/gone too").unwrap().write_all(&[6; 90_000]).unwrap();
            c.remove_stream("/gone").unwrap();
            c.remove_stream("/gone too").unwrap();
            c.flush().unwrap();
            let bytes = c.into_inner().into_inner();
            let orig = full_dump(&bytes)?;
            std::fs::write(&p, &bytes).unwrap();
            vpx::compact(&p).map_err(|e| format!("compact failed: {e}"))?;
            let b = std::fs::read(&p).map_err(|e| e.to_string())?;
            if let Some(x) = diff_full(&orig, &full_dump(&b)?) {
                return Err(x);
            }
            if !verified(&p) {
                return Err("the compacted table does not verify".into());
            }
            Ok(hash_of(&l.label))
        });
    });
    let ts = tables(th);
    for (name, bytes) in &ts {
        let orig = full_dump(bytes).unwrap();
        for (fi, file) in ["t.vpx", "no extension", "x.y.vpx", "t.compacting", ".vpx", "t\u{e9}.VPX"].iter().enumerate() {
            for stale in [0usize, 1, 2] {
                let label = format!("compact/{name}/{file}/stale={stale}");
                ctx.case(&label, || {
                    let d = Dir::new(ctx, &label);
                    let p = d.d.join(file);
                    let tmp = p.with_extension("compacting");
                    if tmp != p {
                        match stale {
                            1 => std::fs::write(&tmp, b"left over").unwrap(),
                            2 => std::fs::write(&tmp, vec![0xee; bytes.len() * 2 + 5000]).unwrap(),
                            _ => {}
                        }
                    }
                    std::fs::write(&p, bytes).unwrap();
                    std::fs::write(d.d.join("other.vpx"), b"untouched").unwrap();
                    let v0 = verified(&p);
                    for round in 0..2 {
                        vpx::compact(&p).map_err(|e| format!("compact failed: {e}"))?;
                        let b = std::fs::read(&p).map_err(|e| format!("after compaction: {e}"))?;
                        if let Some(x) = diff_full(&orig, &full_dump(&b)?) {
                            return Err(format!("round {round}: {x}"));
                        }
                        if verified(&p) != v0 {
                            return Err(format!("verification changed from {v0}"));
                        }
                        if b.len() > bytes.len() {
                            return Err(format!("compacting grew the file from {} to {}", bytes.len(), b.len()));
                        }
                    }
                    let mut l: Vec<_> = std::fs::read_dir(&d.d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
                    l.sort();
                    let mut want = vec![file.to_string(), "other.vpx".to_string()];
                    want.sort();
                    if l != want {
                        return Err(format!("directory holds {l:?} after compaction"));
                    }
                    Ok(hash_of(&(fi, stale, name)))
                });
            }
        }
        // bad verification stays bad
        let label = format!("compact/{name}/bad-mac");
        ctx.case(&label, || {
            let d = Dir::new(ctx, &label);
            let p = d.d.join("t.vpx");
            let mut s = dump(bytes)?;
            s.insert("/GameStg/MAC".into(), vec![9; 16]);
            let foreign: Vec<_> = s.keys().filter(|k| !k.starts_with("/GameStg") && !k.starts_with("/TableInfo")).cloned().collect();
            for k in foreign {
                s.remove(&k);
            }
            std::fs::write(&p, build(&s)).unwrap();
            vpx::compact(&p).map_err(|e| e.to_string())?;
            if verified(&p) {
                return Err("verification of a tampered table succeeds after compaction".into());
            }
            Ok(1)
        });
        // every point at which the process may die, and every torn write: the state of the disk is
        // examined before each call that changes something, and with each prefix of each write done
        let small = matches!(name.as_str(), "small-V3" | "blank" | "small");
        let deep = (th && small) || name == "small-V3";
        let stale_list: &[bool] = if deep { &[false, true] } else { &[false] };
        for stale in stale_list {
            let label = format!("crash/{name}/stale={stale}");
            ctx.case(&label, || {
                let d = Dir::new(ctx, &label);
                let p = d.d.join("t.vpx");
                std::fs::write(&p, bytes).unwrap();
                if *stale {
                    std::fs::write(p.with_extension("compacting"), vec![0xee; bytes.len() * 2]).unwrap();
                }
                let mut states = 0u64;
                let mut torn = 0u64;
                let mut bad: Option<String> = None;
                let copy = ctx.scratch.join(format!("copy{:x}", hash_of(&label)));
                let mut look = |at: String, recover: bool| {
                    states += 1;
                    if bad.is_some() {
                        return;
                    }
                    let r = survives(&d.d, "t.vpx", bytes, &orig).and_then(|()| {
                        if recover {
                            copy_dir(&d.d, &copy);
                            recovers(&copy, "t.vpx", bytes, &orig)
                        } else {
                            Ok(())
                        }
                    });
                    if let Err(e) = r {
                        bad = Some(format!("{at}: {e}"));
                    }
                };
                let (r, rep) = sys::observe(
                    |ev| {
                        look(format!("dying before call {} ({})", ev.n, ev.what), deep && (th || ev.n % 7 == 0) || ev.write.is_none());
                        if let Some((fd, data)) = ev.write {
                            let len = data.len();
                            for m in [1, len / 2, len.saturating_sub(1)] {
                                if m > 0 && m < len && (deep || m == len / 2) {
                                    let at = unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) };
                                    unsafe { libc::pwrite(fd, data.as_ptr() as *const _, m, at) };
                                    torn += 1;
                                    look(format!("dying in call {} ({}) after {m} of {len} bytes", ev.n, ev.what), deep && th && m == len / 2);
                                }
                            }
                        }
                    },
                    || vpx::compact(&p),
                );
                look("after the last call".into(), true);
                let _ = std::fs::remove_dir_all(&copy);
                r.map_err(|e| e.to_string())?;
                if let Some(b) = bad {
                    return Err(b);
                }
                ctx.add("crash_states", states);
                ctx.add("torn_writes", torn);
                ctx.add("calls_enumerated", rep.calls);
                ctx.add_states(states, rep.calls);
                ctx.bulk(states, [hash_of(&label)]);
                Ok(states)
            });
        }
        // every call fails, once or from then on
        if !deep && !th {
            continue;
        }
        let label = format!("calls/{name}");
        let d = Dir::new(ctx, &label);
        let p = d.d.join("t.vpx");
        std::fs::write(&p, bytes).unwrap();
        let (r, rep) = sys::with(Plan::Count, true, || vpx::compact(&p));
        if r.is_err() {
            continue;
        }
        let mut plans: Vec<Plan> = vec![];
        for (k, (what, _)) in rep.log.iter().enumerate() {
            plans.push(Plan::Fail(k as u64, libc::EIO));
            if deep && !matches!(*what, "read" | "seek") {
                plans.push(Plan::FailFrom(k as u64, libc::ENOSPC));
            }
        }
        ctx.note(&format!("failure_plans_{name}"), plans.len());
        plans.par_iter().for_each(|plan| {
            let label = format!("fault/{name}/{plan:?}").replace(' ', "");
            if ctx.too_many() {
                return;
            }
            ctx.case(&label, || {
                let d = Dir::new(ctx, &label);
                let p = d.d.join("t.vpx");
                std::fs::write(&p, bytes).unwrap();
                let (r, rep) = sys::with(*plan, false, || vpx::compact(&p));
                if !rep.hit {
                    return Err(format!("the planned event did not happen (calls {})", rep.calls));
                }
                survives(&d.d, "t.vpx", bytes, &orig)?;
                if r.is_ok() {
                    return Err("a failed step was reported as success".into());
                }
                Ok(hash_of(&(r.is_ok(), matches!(plan, Plan::Fail(..)))))
            });
        });
    }
}
