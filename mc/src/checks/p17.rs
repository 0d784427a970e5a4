//! The in-memory file system behaves like the real one.
use super::common::*;
use super::exp::*;
use super::p03::full_exp_table;
use crate::fw::*;
use crate::spec::*;
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use vpin::filesystem::{FileSystem, MemoryFileSystem, RealFileSystem};
use vpin::vpx::expanded::{self, PrimitiveMeshFormat as Pmf};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    WriteFile(usize, usize),
    Create(usize),
    CreateBuf(usize),
    W(usize, usize),
    Flush(usize),
    DropW(usize),
    Open(usize),
    OpenBuf(usize),
    Read(usize, usize),
    DropR(usize),
    Delete(usize),
}

/// Abstract state used only to keep sequences inside the stated domain.
#[derive(Clone, Default, PartialEq)]
struct St {
    exists: bool,
    writer: bool,
    /// everything written so far was flushed (and at least one flush happened)
    clean: bool,
    reader: bool,
}

struct Handles {
    w: [Option<Box<dyn Write>>; 2],
    r: [Option<Box<dyn Read>>; 2],
}

fn chunk(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"ab".to_vec(),
        2 => (0..20000u32).map(|i| (i * 7 % 251) as u8).collect(),
        _ => b"third, longer text\r\n\0\xff".to_vec(),
    }
}

fn enabled(s: &[St; 2], op: Op) -> bool {
    match op {
        Op::WriteFile(p, _) | Op::Create(p) | Op::CreateBuf(p) | Op::Delete(p) => !s[p].writer && !s[p].reader,
        Op::W(p, _) | Op::Flush(p) | Op::DropW(p) => s[p].writer,
        Op::Open(p) | Op::OpenBuf(p) => !s[p].writer && !s[p].reader,
        Op::Read(p, _) | Op::DropR(p) => s[p].reader,
    }
}
fn step(s: &mut [St; 2], op: Op) {
    match op {
        Op::WriteFile(p, _) => s[p].exists = true,
        Op::Create(p) | Op::CreateBuf(p) => {
            s[p].writer = true;
            s[p].clean = false;
        }
        Op::W(p, _) => s[p].clean = false,
        Op::Flush(p) => {
            s[p].clean = true;
            s[p].exists = true;
        }
        Op::DropW(p) => {
            s[p].writer = false;
            s[p].exists = true;
        }
        Op::Open(p) | Op::OpenBuf(p) => s[p].reader = s[p].exists,
        Op::DropR(p) => s[p].reader = false,
        Op::Delete(p) => s[p].exists = false,
        Op::Read(..) => {}
    }
}

fn res<T>(r: &std::io::Result<T>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}

fn exec(fs: &dyn FileSystem, paths: &[PathBuf; 2], del: &dyn Fn(&Path) -> String, h: &mut Handles, op: Op) -> String {
    match op {
        Op::WriteFile(p, k) => res(&fs.write_file(&paths[p], &chunk(k))),
        Op::Create(p) | Op::CreateBuf(p) => {
            let r = if matches!(op, Op::Create(_)) { fs.create_file(&paths[p]) } else { fs.create_buffered_file(&paths[p]) };
            let s = res(&r);
            h.w[p] = r.ok();
            s
        }
        Op::W(p, k) => res(&h.w[p].as_mut().unwrap().write_all(&chunk(k))),
        Op::Flush(p) => res(&h.w[p].as_mut().unwrap().flush()),
        Op::DropW(p) => {
            h.w[p] = None;
            String::new()
        }
        Op::Open(p) | Op::OpenBuf(p) => {
            let r = if matches!(op, Op::Open(_)) { fs.open_file(&paths[p]) } else { fs.open_buffered_file(&paths[p]) };
            let s = res(&r);
            h.r[p] = r.ok();
            s
        }
        Op::Read(p, n) => {
            let mut b = vec![];
            let r = h.r[p].as_mut().unwrap().take(n as u64).read_to_end(&mut b);
            format!("{} {}", res(&r), hex(&b[..b.len().min(64)]))
        }
        Op::DropR(p) => {
            h.r[p] = None;
            String::new()
        }
        Op::Delete(p) => del(&paths[p]),
    }
}

fn observe(fs: &dyn FileSystem, paths: &[PathBuf; 2], s: &[St; 2]) -> String {
    let mut out = String::new();
    for p in 0..2 {
        if s[p].writer && !s[p].clean {
            continue;
        }
        let rf = fs.read_file(&paths[p]);
        let of = fs.open_file(&paths[p]).and_then(|mut r| {
            let mut v = vec![];
            r.read_to_end(&mut v).map(|_| v)
        });
        let show = |r: std::io::Result<Vec<u8>>| match r {
            Ok(v) => format!("{}:{:x}", v.len(), hash_of(&v)),
            Err(e) => format!("{:?}", e.kind()),
        };
        out += &format!("[{p} exists={} read={} open={}]", fs.exists(&paths[p]), show(rf), show(of));
    }
    out
}

pub fn ops(th: bool) -> Vec<Op> {
    let mut v = vec![];
    for p in 0..2 {
        v.extend([Op::WriteFile(p, 0), Op::WriteFile(p, 1), Op::WriteFile(p, 3), Op::Create(p), Op::CreateBuf(p), Op::W(p, 1), Op::W(p, 2), Op::Flush(p), Op::DropW(p)]);
        v.extend([Op::Open(p), Op::OpenBuf(p), Op::Read(p, 1), Op::DropR(p), Op::Delete(p)]);
        if th {
            v.extend([Op::W(p, 0), Op::Read(p, 100000)]);
        }
    }
    v
}

struct World {
    real_dir: PathBuf,
}
impl World {
    fn run(&self, seq: &[Op]) -> Result<u64, String> {
        let rp = [self.real_dir.join("p one"), self.real_dir.join("q.ext")];
        for p in &rp {
            let _ = std::fs::remove_file(p);
        }
        let mem = MemoryFileSystem::new();
        let mp = [PathBuf::from("dir/p one"), PathBuf::from("dir/q.ext")];
        let mem2 = mem.clone();
        let real = RealFileSystem;
        let mut hm = Handles { w: [None, None], r: [None, None] };
        let mut hr = Handles { w: [None, None], r: [None, None] };
        let mut s: [St; 2] = Default::default();
        let (a, b) = (res(&mem.create_dir_all(Path::new("dir"))), res(&real.create_dir_all(&self.real_dir)));
        if a != b {
            return Err(format!("create_dir_all: memory {a}, real {b}"));
        }
        let mut h = 0;
        for (i, op) in seq.iter().enumerate() {
            // clones of the in-memory file system are the same file system
            let m: &MemoryFileSystem = if i % 2 == 0 { &mem } else { &mem2 };
            let delm = |p: &Path| {
                m.delete_file(&p.to_string_lossy());
                String::new()
            };
            let delr = |p: &Path| {
                let _ = std::fs::remove_file(p);
                String::new()
            };
            let em = exec(m, &mp, &delm, &mut hm, *op);
            let er = exec(&real, &rp, &delr, &mut hr, *op);
            if em != er {
                return Err(format!("step {i} {op:?}: memory {em}, real {er}"));
            }
            step(&mut s, *op);
            let om = observe(m, &mp, &s);
            let or = observe(&real, &rp, &s);
            if om != or {
                return Err(format!("after step {i} {op:?}: memory {om}, real {or}"));
            }
            h = hash_of(&(h, om, em));
        }
        for p in 0..2 {
            hm.w[p] = None;
            hr.w[p] = None;
            hm.r[p] = None;
            hr.r[p] = None;
        }
        let done: [St; 2] = Default::default();
        let om = observe(&mem, &mp, &done);
        let or = observe(&real, &rp, &done);
        if om != or {
            return Err(format!("at the end: memory {om}, real {or}"));
        }
        let mut l = mem.list_files();
        l.sort();
        let mut rl = vec![];
        for p in 0..2 {
            if rp[p].exists() {
                rl.push(mp[p].to_string_lossy().to_string());
            }
            let g = mem.get_file(&mp[p].to_string_lossy());
            if g != std::fs::read(&rp[p]).ok() {
                return Err(format!("get_file of {:?} differs from the real file", mp[p]));
            }
        }
        rl.sort();
        if l != rl {
            return Err(format!("list_files gives {l:?}, the real directory has {rl:?}"));
        }
        Ok(hash_of(&(h, om)))
    }
}

fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn rec(root: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap().path();
            if e.is_dir() {
                rec(root, &e, out);
            } else {
                out.insert(e.strip_prefix(root).unwrap().to_string_lossy().to_string(), std::fs::read(&e).unwrap());
            }
        }
    }
    let mut out = BTreeMap::new();
    rec(d, d, &mut out);
    out
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    let depth = if th { 6 } else { 4 };
    ctx.rule(&format!("every sequence of up to {depth} operations over two files (whole-file write, create and buffered create, small/large/empty writes, flush, close, open and buffered open, partial and full reads, close, delete), alternating between two clones of the in-memory file system, run on both file systems; after every step existence and contents are observed in every way; then every table of a family extracted and assembled on both, with every extracted file in turn missing, empty or truncated"));
    ctx.assume("file operations on file paths below an existing directory; no operation touches a file while a writer for it has unflushed data, nor writes it while a reader is open");
    let ops = ops(th);
    let base = ctx.scratch.clone();
    // first two operations select the parallel job
    let mut starts: Vec<Vec<Op>> = vec![];
    for a in &ops {
        let mut s: [St; 2] = Default::default();
        if !enabled(&s, *a) {
            continue;
        }
        step(&mut s, *a);
        for b in &ops {
            if enabled(&s, *b) {
                starts.push(vec![*a, *b]);
            }
        }
    }
    let show = |q: &[Op]| format!("ops/{}", q.iter().map(|o| format!("{o:?}").replace(' ', "")).collect::<Vec<_>>().join(";"));
    let jobs: Vec<(usize, &Vec<Op>)> = starts.iter().enumerate().collect();
    jobs.par_iter().for_each(|(j, st)| {
        let w = World { real_dir: base.join(format!("fs{j}")) };
        std::fs::create_dir_all(&w.real_dir).unwrap();
        let mut hs = std::collections::HashSet::new();
        let mut n = 0u64;
        let mut stack: Vec<Vec<Op>> = vec![(*st).clone()];
        while let Some(seq) = stack.pop() {
            if ctx.too_many() {
                break;
            }
            let mut s: [St; 2] = Default::default();
            for o in &seq {
                step(&mut s, *o);
            }
            if seq.len() < depth {
                for o in &ops {
                    // symmetric start: the first operation is on file 0
                    if matches!(seq[0], Op::WriteFile(1, _) | Op::Create(1) | Op::CreateBuf(1) | Op::Open(1) | Op::OpenBuf(1) | Op::Delete(1)) && th {
                        break;
                    }
                    if enabled(&s, *o) {
                        let mut q = seq.clone();
                        q.push(*o);
                        stack.push(q);
                    }
                }
                if !ctx.replaying() && seq.len() > 2 {
                    continue; // covered as a prefix of the longer sequences
                }
            }
            let label = show(&seq);
            if !ctx.wants(&label) {
                continue;
            }
            match guard(|| w.run(&seq)) {
                Ok(h) => {
                    hs.insert(h);
                    n += 1;
                }
                Err(_) => {
                    ctx.case(&label, || w.run(&seq));
                }
            }
        }
        ctx.bulk(n, hs);
        let _ = std::fs::remove_dir_all(&w.real_dir);
    });
    // tables
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    let both = |t: &crate::cont::Table, f: Pmf, dir: &Path| -> Result<u64, String> {
        let _ = std::fs::remove_dir_all(dir);
                std::fs::create_dir_all(dir).unwrap();
        let v = load(&t.bytes())?;
        let mem = extract(&v, f, true)?;
                expanded::write_fs(&v, &dir, &options(f, true), &RealFileSystem).map_err(err("real extraction"))?;
        let mf: BTreeMap<String, Vec<u8>> = files(&mem).into_iter().map(|(k, v)| (k.strip_prefix(&format!("{ROOT}/")).unwrap_or(&k).to_string(), v)).collect();
        let rf = tree(dir);
                if mf != rf {
            let mk: Vec<_> = mf.keys().filter(|k| mf.get(*k) != rf.get(*k)).collect();
            let rk: Vec<_> = rf.keys().filter(|k| mf.get(*k) != rf.get(*k)).collect();
                    return Err(format!("extracted files differ: in memory {mk:?}, on disk {rk:?}"));
                }
        let a = assemble(&mem)?;
        let b = expanded::read_fs(&dir, &RealFileSystem).map_err(err("real assembly"))?;
                if let Some(d) = diff_streams(&crate::cont::dump(&save(&a)?)?, &crate::cont::dump(&save(&b)?)?) {
                    return Err(format!("assembled tables differ: {d}"));
                }
        let _ = std::fs::remove_dir_all(dir);
        Ok(hash_of(&rf.keys().collect::<Vec<_>>()))
    };
    use super::large::{some, COUNTED, SIZED};
    some(ctx.thorough(), &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 4 }).par_iter().for_each(|l| {
        if !ctx.too_many() {
            ctx.case(&l.label, || both(&l.table(&spec), FORMATS[0], &base.join(l.label.replace('/', "-"))));
        }
    });
    for ver in VERSIONS {
        for f in FORMATS {
            let dir = base.join(format!("t{ver}{f:?}"));
            let t = full_exp_table(&spec, &g, ver);
            ctx.case(&format!("table/{ver}/{f:?}"), || {
                both(&t, f, &dir)
            });
            if ver != 1081 && !th {
                continue;
            }
            // every file missing / empty / cut
            let v = match load(&t.bytes()) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let Ok(mem) = extract(&v, f, true) else { continue };
            let all = files(&mem);
            all.par_iter().for_each(|(k, data)| {
                for how in ["missing", "empty", "cut"] {
                    let label = format!("damage/{ver}/{f:?}/{how}/{k}");
                    ctx.case(&label, || {
                        let tag = format!("d{:x}", hash_of(&label));
                        let rd = base.join(&tag);
                        let m = MemoryFileSystem::new();
                        for (p, d) in &all {
                            let real = rd.join(p.strip_prefix(&format!("{ROOT}/")).unwrap());
                            std::fs::create_dir_all(real.parent().unwrap()).unwrap();
                            let d2 = if p == k {
                                match how {
                                    "missing" => continue,
                                    "empty" => vec![],
                                    _ => data[..data.len() / 2].to_vec(),
                                }
                            } else {
                                d.clone()
                            };
                            m.write_file(Path::new(p), &d2).unwrap();
                            std::fs::write(&real, &d2).unwrap();
                        }
                        let sh = |r: Result<Vec<u8>, String>| match r {
                            Ok(b) => format!("ok {:x}", hash_of(&crate::cont::dump(&b).unwrap())),
                            Err(e) => {
                                // same failure up to the wording and the path
                                if e.contains("NotFound") || e.contains("not found") || e.contains("No such file") { "missing file".to_string() } else if e.starts_with("panic") { "panic".to_string() } else { "error".to_string() }
                            }
                        };
                        let a = sh(guard(|| save(&assemble(&m)?)));
                        let b = sh(guard(|| save(&expanded::read_fs(&rd, &RealFileSystem).map_err(|e| e.to_string())?)));
                        let _ = std::fs::remove_dir_all(&rd);
                        if a != b {
                            return Err(format!("memory: {a}; real: {b}"));
                        }
                        Ok(hash_of(&a))
                    });
                }
            });
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
}
