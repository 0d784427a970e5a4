//! Parallel extraction and assembly behave as if sequential.
use super::common::*;
use super::exp::*;
use super::p03::full_exp_table;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::expanded::{self, PrimitiveMeshFormat as Pmf};

type Key = (&'static str, String);

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// What a run did: the files, or the error.
#[derive(Clone, PartialEq)]
struct Out {
    files: Files,
    res: Result<Streams, String>,
}
fn diff(a: &Out, b: &Out, faults: usize) -> Option<String> {
    match (&a.res, &b.res) {
        // with two operations failing, either may be the one that is reported
        (Err(_), Err(y)) if faults > 1 && y.contains("injected") => None,
        (Ok(x), Ok(y)) => diff_streams(x, y).map(|d| format!("assembled table: {d}")).or_else(|| diff_files(&a.files, &b.files)),
        (Err(x), Err(y)) if x == y => None,
        (Err(x), Err(y)) => Some(format!("fails with {y:?} instead of {x:?}")),
        (Ok(_), Err(y)) => Some(format!("fails with {y:?} instead of succeeding")),
        (Err(x), Ok(_)) => Some(format!("succeeds instead of failing with {x:?}")),
    }
}

// ------------------------------------------------------------ the scheduling file system

struct S {
    /// items whose next operation waits
    waiting: BTreeSet<usize>,
    granted: Option<usize>,
    running: bool,
    left: BTreeMap<usize, usize>,
    last: Option<usize>,
    prefix: Vec<usize>,
    /// (enabled items, position chosen, whether the last one was among them)
    trace: Vec<(usize, usize, bool)>,
    /// decisions taken without everyone having arrived
    early: u64,
    diverged: bool,
    log: Vec<Key>,
}
struct SchedFs<'a> {
    fs: &'a MemoryFileSystem,
    /// operations of these kinds are scheduled
    gated: &'a (dyn Fn(&str, &str) -> Option<usize> + Sync),
    fail: Vec<Key>,
    off: bool,
    m: Mutex<S>,
    cv: Condvar,
}
impl<'a> SchedFs<'a> {
    fn new(fs: &'a MemoryFileSystem, gated: &'a (dyn Fn(&str, &str) -> Option<usize> + Sync), fail: &[Key], left: Option<&BTreeMap<usize, usize>>, prefix: &[usize]) -> SchedFs<'a> {
        SchedFs {
            fs,
            gated,
            fail: fail.to_vec(),
            off: left.is_none(),
            m: Mutex::new(S {
                waiting: BTreeSet::new(),
                granted: None,
                running: false,
                left: left.cloned().unwrap_or_default(),
                last: None,
                prefix: prefix.to_vec(),
                trace: vec![],
                early: 0,
                diverged: false,
                log: vec![],
            }),
            cv: Condvar::new(),
        }
    }
    fn choose(&self, s: &mut S) {
        let mut en: Vec<usize> = s.waiting.iter().copied().collect();
        let cont = s.last.filter(|l| s.waiting.contains(l));
        if let Some(l) = cont {
            en.retain(|x| *x != l);
            en.insert(0, l);
        }
        let k = s.prefix.get(s.trace.len()).copied().unwrap_or(0);
        let k = if k >= en.len() {
            s.diverged = true;
            0
        } else {
            k
        };
        s.trace.push((en.len(), k, cont.is_some()));
        s.granted = Some(en[k]);
        s.last = Some(en[k]);
    }
    fn run<T>(&self, what: &'static str, p: &Path, f: impl FnOnce() -> T, err: impl FnOnce(io::Error) -> T) -> T {
        let path = p.to_string_lossy().to_string();
        let item = if self.off { None } else { (self.gated)(what, &path) };
        if let Some(i) = item {
            let mut s = self.m.lock().unwrap();
            s.waiting.insert(i);
            self.cv.notify_all();
            let mut since = Instant::now();
            loop {
                if s.granted == Some(i) {
                    break;
                }
                if s.granted.is_none() && !s.running {
                    let all = s.left.iter().filter(|(_, n)| **n > 0).all(|(k, _)| s.waiting.contains(k));
                    let late = since.elapsed() > Duration::from_millis(60);
                    if all || late {
                        s.early += !all as u64;
                        self.choose(&mut s);
                        self.cv.notify_all();
                        continue;
                    }
                } else {
                    since = Instant::now();
                }
                s = self.cv.wait_timeout(s, Duration::from_millis(10)).unwrap().0;
            }
            s.granted = None;
            s.running = true;
            s.waiting.remove(&i);
        }
        let key = (what, path);
        let r = if self.fail.contains(&key) { err(io::Error::other(format!("injected {what} {}", key.1))) } else { f() };
        let mut s = self.m.lock().unwrap();
        s.log.push(key);
        if let Some(i) = item {
            s.running = false;
            if let Some(n) = s.left.get_mut(&i) {
                *n = n.saturating_sub(1);
            }
            self.cv.notify_all();
        }
        r
    }
}
impl FileSystem for SchedFs<'_> {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        self.run("create", p, || self.fs.create_file(p), Err)
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        self.run("open", p, || self.fs.open_file(p), Err)
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.run("read_file", p, || self.fs.read_file(p), Err)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        self.run("write_file", p, || self.fs.write_file(p, d), Err)
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        self.run("mkdir", p, || self.fs.create_dir_all(p), Err)
    }
    fn exists(&self, p: &Path) -> bool {
        self.run("exists", p, || self.fs.exists(p), |_| false)
    }
}

/// The item a path belongs to: items are called `iK`.
fn item_of(path: &str) -> Option<usize> {
    let n = path.split("/gameitems/").nth(1)?;
    let n = n.split('.').nth(1)?;
    n.strip_prefix('i')?.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
}

/// A table with items named i0, i1, ...: a primitive with a mesh for 'p', with frames for 'f', else a light sequencer.
fn items(spec: &Spec, kinds: &str) -> Table {
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let mut t = Table::new(spec, 1080);
    for (i, k) in kinds.chars().enumerate() {
        let name = rec("NAME", &wstr(&format!("i{i}")));
        let patch = |vals: Vec<Val>, l: &Layout| {
            let vals: Vec<Val> = l
                .fields
                .iter()
                .zip(vals)
                .map(|(f, mut v)| {
                    if f.tag == "NAME" {
                        v.enc = name.clone();
                    }
                    v
                })
                .collect();
            g.item_bytes(l, &vals.iter().collect::<Vec<_>>())
        };
        t.items.push(match k {
            'p' => patch(prim_vals(&g, Some(&Mesh::new(3 + i, 1 + i))), spec.get("Primitive")),
            'f' => patch(prim_vals(&g, Some(&Mesh::new(3 + i, 1 + i).with_frames(1))), spec.get("Primitive")),
            'b' => patch(g.base_vals(spec.get("Bumper")), spec.get("Bumper")),
            _ => patch(g.base_vals(spec.get("Timer")), spec.get("Timer")),
        });
    }
    t
}

#[derive(Clone, Copy, PartialEq)]
enum Dir {
    Write,
    Read,
}

struct Job<'a> {
    v: &'a VPX,
    src: Option<&'a MemoryFileSystem>,
    fmt: Pmf,
    derived: bool,
}
/// One execution under a prefix of scheduling decisions.
fn exec(j: &Job, p: &rayon::ThreadPool, fail: &[Key], left: Option<&BTreeMap<usize, usize>>, prefix: &[usize]) -> Result<(Out, Vec<(usize, usize, bool)>, u64, bool, Vec<Key>), String> {
    let fresh = MemoryFileSystem::new();
    let gate_w = |what: &str, path: &str| if what == "exists" || what == "mkdir" { None } else { item_of(path) };
    let gate_r = |_: &str, path: &str| item_of(path);
    let (fs, gated): (&MemoryFileSystem, &(dyn Fn(&str, &str) -> Option<usize> + Sync)) = match j.src {
        None => (&fresh, &gate_w),
        Some(s) => (s, &gate_r),
    };
    let s = SchedFs::new(fs, gated, fail, left, prefix);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        p.install(|| {
            let sh = &s;
            match j.src {
                None => expanded::write_fs(j.v, &Path::new(ROOT), &options(j.fmt, j.derived), sh).map(|_| None).map_err(|e| e.to_string()),
                Some(_) => expanded::read_fs(&Path::new(ROOT), sh).map(Some).map_err(|e| e.to_string()),
            }
        })
    }));
    let r = r.unwrap_or_else(|_| Err("panic".into()));
    let res = match r {
        Ok(None) => Ok(Streams::new()),
        Ok(Some(v)) => Ok(dump(&save(&v)?)?),
        Err(e) => Err(e),
    };
    let files = if j.src.is_none() { files(fs) } else { Files::new() };
    let st = s.m.into_inner().unwrap();
    Ok((Out { files, res }, st.trace, st.early, st.diverged, st.log))
}

/// Every schedule of the items' operations with at most `bound` preemptions.
fn explore(ctx: &Ctx, label: &str, j: &Job, fail: &[Key], bound: usize, items: usize, cap: usize) -> Result<u64, String> {
    // sequential run: the reference, and how many operations each item performs
    let one = pool(1);
    let (base, _, _, _, log) = exec(j, &one, fail, None, &[])?;
    let mut left: BTreeMap<usize, usize> = BTreeMap::new();
    for (w, p) in &log {
        if j.src.is_none() && (*w == "exists" || *w == "mkdir") {
            continue;
        }
        if let Some(i) = item_of(p) {
            *left.entry(i).or_default() += 1;
        }
    }
    let p = pool((items * 2).next_power_of_two().max(4));
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    let mut runs = 0u64;
    let mut early = 0u64;
    while let Some((prefix, cost)) = stack.pop() {
        if runs as usize >= cap {
            ctx.add("schedules cut off", stack.len() as u64 + 1);
            break;
        }
        let (out, trace, e, diverged, _) = exec(j, &p, fail, Some(&left), &prefix)?;
        runs += 1;
        early += e;
        if let Some(d) = diff(&base, &out, fail.len()) {
            return Err(format!("schedule {:?}: {d}", trace.iter().map(|t| t.1).collect::<Vec<_>>()));
        }
        if diverged {
            ctx.add("schedules that could not be repeated", 1);
            continue;
        }
        ctx.add_states(1, trace.len() as u64);
        for i in prefix.len()..trace.len() {
            let (n, _, cont) = trace[i];
            for k in 1..n {
                let c = cost + cont as usize;
                if c <= bound {
                    let mut q: Vec<usize> = trace[..i].iter().map(|t| t.1).collect();
                    q.push(k);
                    stack.push((q, c));
                }
            }
        }
    }
    ctx.add("schedules", runs);
    ctx.add("decisions before every item had arrived", early);
    let _ = label;
    Ok(hash_of(&(runs, base.res.is_ok(), base.files.len())))
}

// ------------------------------------------------------------ a file system that delays operations

struct DelayFs<'a> {
    fs: &'a MemoryFileSystem,
    slow: Vec<Key>,
    seen: Mutex<(u64, Vec<Key>)>,
}
impl DelayFs<'_> {
    fn at(&self, what: &'static str, p: &Path) {
        let k = (what, p.to_string_lossy().to_string());
        let slow = self.slow.contains(&k);
        {
            let mut s = self.seen.lock().unwrap();
            s.0 += 1;
            s.1.push(k);
        }
        if slow {
            // until nobody else does anything any more
            let mut n = self.seen.lock().unwrap().0;
            loop {
                std::thread::sleep(Duration::from_micros(1500));
                let m = self.seen.lock().unwrap().0;
                if m == n {
                    break;
                }
                n = m;
            }
        }
    }
}
impl FileSystem for DelayFs<'_> {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        self.at("create", p);
        self.fs.create_file(p)
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        self.at("open", p);
        self.fs.open_file(p)
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.at("read_file", p);
        self.fs.read_file(p)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        self.at("write_file", p);
        self.fs.write_file(p, d)
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        self.at("mkdir", p);
        self.fs.create_dir_all(p)
    }
    fn exists(&self, p: &Path) -> bool {
        self.at("exists", p);
        self.fs.exists(p)
    }
}

fn delayed(v: &VPX, src: Option<&MemoryFileSystem>, p: &rayon::ThreadPool, slow: &[Key], derived: bool) -> Result<(Out, Vec<Key>), String> {
    let fresh = MemoryFileSystem::new();
    let d = DelayFs { fs: src.unwrap_or(&fresh), slow: slow.to_vec(), seen: Mutex::default() };
    let r = guard(|| {
        p.install(|| match src {
            None => expanded::write_fs(v, &Path::new(ROOT), &options(Pmf::Gltf, derived), &d).map(|_| None).map_err(|e| e.to_string()),
            Some(_) => expanded::read_fs(&Path::new(ROOT), &d).map(Some).map_err(|e| e.to_string()),
        })
    });
    let res = match r {
        Ok(None) => Ok(Streams::new()),
        Ok(Some(v)) => Ok(dump(&save(&v)?)?),
        Err(e) => Err(e),
    };
    let files = if src.is_none() { files(&fresh) } else { Files::new() };
    Ok((Out { files, res }, d.seen.into_inner().unwrap().1))
}

/// A table with several components of every kind, some of equal names.
fn many(spec: &Spec, n: usize) -> Table {
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let mut t = full_exp_table(spec, &g, 1080);
    for i in 0..n {
        let nm = format!("same{}", i % 3);
        t.images.push(Img::jpeg(&nm, &format!("p{i}.png"), &super::p03::png(1 + i as u32, 2)).enc());
        t.images.push(Img::bmp(&nm, &format!("p{i}.bmp"), 2, 2, super::p03::bits(2, 2, 255)).enc());
        t.sounds.push(Snd::new(&nm, &format!("s{i}.wav"), &[i as u8; 40]).enc(1080));
        let l = spec.get("Timer");
        let v = g.base_vals(l);
        t.items.push(item_patch(&g, l, &[("NAME", Some(rec("NAME", &wstr(&nm))))]));
        let _ = v;
        let l = spec.get("Primitive");
        let pv: Vec<Val> = l
            .fields
            .iter()
            .zip(prim_vals(&g, Some(&Mesh::new(3 + i, 2))))
            .map(|(f, mut v)| {
                if f.tag == "NAME" {
                    v.enc = rec("NAME", &wstr(&nm));
                }
                v
            })
            .collect();
        t.items.push(g.item_bytes(l, &pv.iter().collect::<Vec<_>>()));
    }
    t
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    ctx.rule("under every enumerated schedule of the items' file operations: the same files, byte for byte, the same assembled table, or the same error as with one worker");
    ctx.rule("with one operation failing: the same error; with two: a failure all the same");
    ctx.rule("with every operation delayed until all others are done, with 1..32 workers, and again and again: likewise");
    ctx.assume("workers interact through the file system and through the results they return; a schedule is the order of the file operations of different items");
    // schedules
    struct Plan {
        kinds: &'static str,
        dir: Dir,
        fmt: Pmf,
        derived: bool,
        bound: usize,
    }
    let mut plans = vec![];
    let inf = usize::MAX;
    for (kinds, fmt, derived, bound) in [
        ("tttt", Pmf::Obj, false, inf),
        ("ppt", Pmf::Obj, false, inf),
        ("fft", Pmf::Obj, false, inf),
        ("ppt", Pmf::Gltf, false, inf),
        ("bt", Pmf::Obj, true, inf),
        ("bbt", Pmf::Glb, true, if th { inf } else { 4 }),
        ("fff", Pmf::Glb, false, if th { inf } else { 4 }),
        ("pptt", Pmf::Obj, false, if th { inf } else { 3 }),
        ("ttttt", Pmf::Obj, false, inf),
        ("ff", Pmf::Gltf, false, inf),
    ] {
        plans.push(Plan { kinds, dir: Dir::Write, fmt, derived, bound });
    }
    for (kinds, fmt, bound) in [("tttt", Pmf::Obj, if th { 4 } else { 2 }), ("pt", Pmf::Obj, if th { inf } else { 6 }), ("pp", Pmf::Glb, if th { inf } else { 4 }), ("ff", Pmf::Gltf, if th { 5 } else { 3 }), ("fpt", Pmf::Obj, if th { 3 } else { 2 }), ("pppp", Pmf::Gltf, if th { 2 } else { 1 })] {
        plans.push(Plan { kinds, dir: Dir::Read, fmt, derived: false, bound });
    }
    let cap = if th { 400_000 } else { 6_000 };
    let cores = pool(6);
    cores.install(|| {
        plans.par_iter().with_max_len(1).for_each(|p| {
            let t = items(&spec, p.kinds);
            let f = |x: Pmf| match x {
                Pmf::Obj => "obj",
                Pmf::Glb => "glb",
                Pmf::Gltf => "gltf",
            };
            let d = if p.dir == Dir::Write { "extract" } else { "assemble" };
            let bs = if p.bound == inf { "all".to_string() } else { p.bound.to_string() };
            ctx.case(&format!("schedules/{d}/{}/{}/derived={}/preemptions={bs}", p.kinds, f(p.fmt), p.derived), || {
                let v = load(&build(&t.streams()))?;
                let src = extract(&v, p.fmt, p.derived)?;
                let j = Job { v: &v, src: (p.dir == Dir::Read).then_some(&src), fmt: p.fmt, derived: p.derived };
                explore(ctx, p.kinds, &j, &[], p.bound, p.kinds.len(), cap)
            });
        });
    });
    // failing operations, alone and in pairs, in every order of the items
    let mut fplans: Vec<(String, &'static str, Dir, Vec<Key>)> = vec![];
    for (kinds, dir) in [("ppt", Dir::Write), ("fp", Dir::Write), ("ppt", Dir::Read), ("fp", Dir::Read)] {
        let t = items(&spec, kinds);
        let log = guard(|| {
            let v = load(&build(&t.streams()))?;
            let src = extract(&v, Pmf::Obj, false)?;
            let j = Job { v: &v, src: (dir == Dir::Read).then_some(&src), fmt: Pmf::Obj, derived: false };
            Ok(exec(&j, &pool(1), &[], None, &[])?.4)
        });
        let log = match log {
            Ok(l) => l,
            Err(m) => {
                ctx.violation(&format!("failures/{kinds}"), &m, serde_json::Value::Null);
                continue;
            }
        };
        let mut ops: Vec<Key> = log.into_iter().filter(|(w, p)| item_of(p).is_some() && *w != "exists" && *w != "mkdir").collect();
        ops.dedup();
        let d = if dir == Dir::Write { "extract" } else { "assemble" };
        let short = |k: &Key| format!("{} {}", k.0, k.1.rsplit('/').next().unwrap());
        for (i, a) in ops.iter().enumerate() {
            fplans.push((format!("failures/{d}/{kinds}/{}", short(a)), kinds, dir, vec![a.clone()]));
            for b in &ops[..i] {
                if item_of(&a.1) != item_of(&b.1) {
                    fplans.push((format!("failures/{d}/{kinds}/{} + {}", short(b), short(a)), kinds, dir, vec![a.clone(), b.clone()]));
                }
            }
        }
    }
    ctx.note("failure plans", fplans.len());
    cores.install(|| {
        fplans.par_iter().with_max_len(1).for_each(|(l, kinds, dir, fail)| {
            ctx.case(l, || {
                let t = items(&spec, kinds);
                let v = load(&build(&t.streams()))?;
                let src = extract(&v, Pmf::Obj, false)?;
                let j = Job { v: &v, src: (*dir == Dir::Read).then_some(&src), fmt: Pmf::Obj, derived: false };
                let bound = match (dir, th) {
                    (Dir::Write, true) => inf,
                    (Dir::Write, false) => 2,
                    (Dir::Read, true) => 2,
                    (Dir::Read, false) => 1,
                };
                explore(ctx, kinds, &j, fail, bound, kinds.len(), cap)
            });
        });
    });
    // every operation of a full table delayed
    let t = many(&spec, 4);
    let streams = t.streams();
    let one = pool(1);
    for derived in [true, false] {
        let v = match load(&build(&streams)) {
            Ok(v) => v,
            Err(m) => {
                ctx.violation("delays", &m, serde_json::Value::Null);
                return;
            }
        };
        let src = match extract(&v, Pmf::Gltf, derived) {
            Ok(s) => s,
            Err(m) => {
                ctx.violation("delays", &m, serde_json::Value::Null);
                return;
            }
        };
        for (d, s) in [("extract", None), ("assemble", Some(&src))] {
            if derived && d == "assemble" {
                continue;
            }
            let (base, ops) = match delayed(&v, s, &one, &[], derived) {
                Ok(x) => x,
                Err(m) => {
                    ctx.violation(&format!("delays/{d}"), &m, serde_json::Value::Null);
                    continue;
                }
            };
            let mut ops: Vec<Key> = ops;
            ops.sort();
            ops.dedup();
            ctx.note(&format!("operations delayed, {d}, derived={derived}"), ops.len());
            let work: Vec<&Key> = ops.iter().collect();
            let pools: Vec<rayon::ThreadPool> = (0..6).map(|_| pool(4)).collect();
            let next = std::sync::atomic::AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for p in &pools {
                    let (next, work, base, v) = (&next, &work, &base, &v);
                    sc.spawn(move || {
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            let Some(k) = work.get(i) else { break };
                            ctx.case(&format!("delays/{d}/derived={derived}/{} {}", k.0, k.1), || {
                                let (out, _) = delayed(v, s, p, std::slice::from_ref(*k), derived)?;
                                match diff(base, &out, 0) {
                                    Some(m) => Err(m),
                                    None => Ok(hash_of(&(k.0, out.files.len()))),
                                }
                            });
                        }
                    });
                }
            });
        }
    }
    // numbers of workers, repeated
    let reps = if th { 60 } else { 12 };
    let big = many(&spec, if th { 120 } else { 40 });
    let v = load(&build(&big.streams()));
    for n in [1usize, 2, 3, 4, 8, 16, 32] {
        for (fl, fmt) in [("obj", Pmf::Obj), ("gltf", Pmf::Gltf)] {
            ctx.case(&format!("workers/{n}/{fl}"), || {
                let v = v.as_ref().map_err(|e| e.clone())?;
                let base = pool(1).install(|| extract(v, fmt, true))?;
                let fb = files(&base);
                let tb = dump(&save(&pool(1).install(|| assemble(&base))?)?)?;
                let p = pool(n);
                for r in 0..reps {
                    let fs = p.install(|| extract(v, fmt, true))?;
                    if let Some(d) = diff_files(&fb, &files(&fs)) {
                        return Err(format!("run {r}: {d}"));
                    }
                    let back = p.install(|| assemble(&fs))?;
                    if let Some(d) = diff_streams(&tb, &dump(&save(&back)?)?) {
                        return Err(format!("run {r}, assembled: {d}"));
                    }
                }
                Ok(hash_of(&(n, fb.len())))
            });
        }
    }
    // every number of items
    let pools: Vec<(usize, rayon::ThreadPool)> = [1usize, 2, 3, 5, 8, 12].iter().map(|n| (*n, pool(*n))).collect();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    // all of them up to a bound, and those around the sizes in which work may be cut
    let mut counts: Vec<usize> = (0..=(if th { 300 } else { 48 })).collect();
    counts.extend([50, 64, 96, 100, 128, 192, 200, 256, 300, 384, 500, 512, 640, 768, 1000, 1024].iter().flat_map(|c| [c - 1, *c, *c + 1]));
    if th {
        counts.extend([2000, 2048, 4096].iter().flat_map(|c| [c - 1, *c, *c + 1]));
    }
    counts.sort();
    counts.dedup();
    ctx.note("numbers of items", counts.len());
    for n in counts {
        ctx.case(&format!("items/{n}"), || {
            let mut t = Table::new(&spec, 1080);
            let l = spec.get("Timer");
            for i in 0..n {
                t.items.push(item_patch(&g, l, &[("NAME", Some(rec("NAME", &wstr(&format!("{}{}", ["Aa", "aA", "b"][i % 3], i / 6)))))]));
            }
            let v = load(&build(&t.streams()))?;
            let want = norm(&t.streams())?;
            let mut first: Option<Files> = None;
            for (w, p) in pools.iter().filter(|(w, _)| n <= 48 || th && n <= 300 || matches!(w, 1 | 3 | 8)) {
                let fs = p.install(|| extract(&v, Pmf::Obj, true))?;
                let f = files(&fs);
                if let Some(d) = first.as_ref().and_then(|x| diff_files(x, &f)) {
                    return Err(format!("{w} workers: {d}"));
                }
                let back = p.install(|| assemble(&fs))?;
                if let Some(d) = diff_streams(&want, &norm(&dump(&save(&back)?)?)?) {
                    return Err(format!("{w} workers, assembled: {d}"));
                }
                first.get_or_insert(f);
            }
            Ok(hash_of(&(n, first.unwrap().len())))
        });
    }
    // on disk as well
    for n in [1usize, 8] {
        ctx.case(&format!("disk/workers={n}"), || {
            let v = load(&build(&t.streams()))?;
            let base = files(&extract(&v, Pmf::Obj, true)?);
            let root = ctx.scratch.join(format!("d{n}"));
            for r in 0..3 {
                let _ = std::fs::remove_dir_all(&root);
                std::fs::create_dir_all(&root).map_err(|e| e.to_string())?;
                pool(n).install(|| expanded::write(&v, &root, &options(Pmf::Obj, true))).map_err(err("extraction"))?;
                let mut got = Files::new();
                let mut dirs = vec![root.clone()];
                while let Some(d) = dirs.pop() {
                    for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
                        let p = e.map_err(|e| e.to_string())?.path();
                        if p.is_dir() {
                            dirs.push(p);
                        } else {
                            let rel = p.strip_prefix(&root).unwrap().to_string_lossy().to_string();
                            got.insert(format!("{ROOT}/{rel}"), std::fs::read(&p).map_err(|e| e.to_string())?);
                        }
                    }
                }
                if let Some(d) = diff_files(&base, &got) {
                    return Err(format!("run {r}: {d}"));
                }
                let back = pool(n).install(|| expanded::read(&root)).map_err(err("assembly"))?;
                let a = norm(&dump(&save(&back)?)?)?;
                if let Some(d) = diff_streams(&norm(&t.streams())?, &a) {
                    return Err(format!("run {r}: {d}"));
                }
            }
            let _ = std::fs::remove_dir_all(&root);
            Ok(n as u64)
        });
    }
}
