//! A failed disk operation is reported, never silently swallowed.
use super::common::*;
use super::exp::*;
use super::p01::{full_table, header_optional_patterns};
use super::p03::{Mat, full_exp_table, image_set, set_materials, sound_set};
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use crate::sys::{self, Plan};
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::export::gltf_export::{GltfExportOptions, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::expanded::{self, ExpandOptions};
use vpin::vpx::{self, VPX};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPlan {
    None,
    /// operation k fails with this kind
    Fail(u64),
    FailFrom(u64),
    /// operation k, if it transfers data, moves half of it; the following one fails
    Half(u64),
    /// operation k, if a write, accepts nothing
    Zero(u64),
}
#[derive(Default)]
struct Inner {
    n: u64,
    hit: bool,
    log: Vec<&'static str>,
    /// (kind, path): every such operation fails
    path: Option<(String, String)>,
    ops: Vec<(String, String)>,
}
/// The in-memory file system with failing operations. Writers store their data as it is written,
/// like files do, and nothing when dropped.
pub struct FaultFs {
    pub fs: MemoryFileSystem,
    plan: FPlan,
    st: Arc<Mutex<Inner>>,
}
enum D {
    Go,
    Err,
    Half,
    Zero,
}
fn decide(st: &Mutex<Inner>, plan: FPlan, what: &'static str, path: &str) -> D {
    let mut s = st.lock().unwrap();
    let n = s.n;
    s.n += 1;
    s.log.push(what);
    s.ops.push((what.to_string(), path.to_string()));
    if let Some((w, p)) = &s.path {
        if w == what && p == path {
            s.hit = true;
            return D::Err;
        }
    }
    let transfer = matches!(what, "write" | "read");
    let r = match plan {
        FPlan::Fail(k) if n == k => D::Err,
        FPlan::FailFrom(k) if n >= k => D::Err,
        FPlan::Half(k) if n == k && transfer => D::Half,
        FPlan::Half(k) if n == k + 1 => D::Err,
        FPlan::Zero(k) if n == k && what == "write" => D::Zero,
        _ => D::Go,
    };
    if matches!(r, D::Err | D::Zero) {
        s.hit = true;
    }
    r
}
fn boom() -> io::Error {
    io::Error::from_raw_os_error(libc::ENOSPC)
}
struct W {
    fs: MemoryFileSystem,
    path: String,
    data: Vec<u8>,
    plan: FPlan,
    st: Arc<Mutex<Inner>>,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = match decide(&self.st, self.plan, "write", &self.path) {
            D::Go => b.len(),
            D::Err => return Err(boom()),
            D::Half => b.len().div_ceil(2),
            D::Zero => 0,
        };
        self.data.extend_from_slice(&b[..n]);
        self.fs.write_file(Path::new(&self.path), &self.data)?;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match decide(&self.st, self.plan, "flush", &self.path) {
            D::Err => Err(boom()),
            _ => Ok(()),
        }
    }
}
struct R {
    data: io::Cursor<Vec<u8>>,
    path: String,
    plan: FPlan,
    st: Arc<Mutex<Inner>>,
}
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        match decide(&self.st, self.plan, "read", &self.path) {
            D::Err => Err(boom()),
            D::Half => {
                let n = b.len().div_ceil(2);
                self.data.read(&mut b[..n])
            }
            _ => self.data.read(b),
        }
    }
}
impl FaultFs {
    pub fn new(fs: MemoryFileSystem, plan: FPlan) -> FaultFs {
        FaultFs { fs, plan, st: Arc::default() }
    }
    fn op(&self, what: &'static str, p: &Path) -> io::Result<()> {
        match decide(&self.st, self.plan, what, &p.to_string_lossy()) {
            D::Err => Err(boom()),
            _ => Ok(()),
        }
    }
    fn hit(&self) -> bool {
        self.st.lock().unwrap().hit
    }
}
impl FileSystem for FaultFs {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        self.op("create", path)?;
        self.fs.write_file(path, b"")?;
        Ok(Box::new(W { fs: self.fs.clone(), path: path.to_string_lossy().to_string(), data: vec![], plan: self.plan, st: self.st.clone() }))
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        self.op("open", path)?;
        let d = self.fs.read_file(path)?;
        Ok(Box::new(R { data: io::Cursor::new(d), path: path.to_string_lossy().to_string(), plan: self.plan, st: self.st.clone() }))
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        self.op("read_file", path)?;
        self.fs.read_file(path)
    }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
        if let Err(e) = self.op("write_file", path) {
            let _ = self.fs.write_file(path, &data[..data.len() / 2]);
            return Err(e);
        }
        self.fs.write_file(path, data)
    }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        self.op("create_dir_all", path)
    }
    fn exists(&self, path: &Path) -> bool {
        self.fs.exists(path)
    }
}

pub fn one_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    thread_local! { static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(32 << 20).build().unwrap(); }
    POOL.with(|p| p.install(f))
}

pub type FsOp<'a> = Box<dyn Fn(&dyn FileSystem) -> Result<(), String> + Sync + Send + 'a>;

pub fn fs_ops<'a>(v: &'a VPX) -> Vec<(String, bool, FsOp<'a>)> {
    let mut o: Vec<(String, bool, FsOp)> = vec![];
    for f in FORMATS {
        for derived in [false, true] {
            let opt: ExpandOptions = options(f, derived);
            o.push((format!("extract/{f:?}/derived={derived}"), false, Box::new(move |fs| expanded::write_fs(v, &Path::new(ROOT), &opt, fs).map_err(es))));
        }
        o.push((format!("assemble/{f:?}"), true, Box::new(move |fs| expanded::read_fs(&Path::new(ROOT), fs).map(|_| ()).map_err(es))));
    }
    for (n, opt) in [("glb", GltfExportOptions::glb()), ("gltf", GltfExportOptions::gltf())] {
        o.push((format!("export/{n}"), false, Box::new(move |fs| export_gltf(v, &Path::new(ROOT).join("scene.x"), fs, &opt).map_err(es))));
    }
    o.push(("export/obj".into(), false, Box::new(move |fs| export_obj(v, &Path::new(ROOT).join("scene.obj"), fs, &ObjExportOptions::default()).map_err(es))));
    o
}

fn fs_faults(ctx: &Ctx, name: &str, v: &VPX) {
    for (op, reads, f) in fs_ops(v) {
        let source = if reads {
            let fm = FORMATS.iter().find(|x| op == format!("assemble/{x:?}")).unwrap();
            Some(extract(v, *fm, false).unwrap())
        } else {
            None
        };
        let start = || match &source {
            Some(s) => {
                let c = MemoryFileSystem::new();
                for (p, d) in files(s) {
                    c.write_file(Path::new(&p), &d).unwrap();
                }
                c
            }
            None => MemoryFileSystem::new(),
        };
        // reading does not change the file system, so it can be shared
        let mk = |plan| FaultFs::new(source.clone().unwrap_or_else(start), plan);
        let base = mk(FPlan::None);
        let label = format!("fs/{name}/{op}");
        if let Err(e) = one_thread(|| f(&base)) {
            // an export of a table without geometry is refused
            ctx.case(&label, || if op.starts_with("export") { Ok(0) } else { Err(e.clone()) });
            continue;
        }
        let (n, log, mut ops) = {
            let s = base.st.lock().unwrap();
            (s.n, s.log.clone(), s.ops.clone())
        };
        ctx.add("file_system_operations", n);
        let mut plans = vec![];
        for k in 0..n {
            plans.push(FPlan::Fail(k));
            plans.push(FPlan::FailFrom(k));
            if log[k as usize] == "write" {
                plans.push(FPlan::Zero(k));
            }
            if matches!(log[k as usize], "write" | "read") {
                plans.push(FPlan::Half(k));
            }
        }
        on_threads(&plans, |plan| {
            let label = format!("{label}/{plan:?}");
            if ctx.too_many() {
                return;
            }
            ctx.case(&label, || {
                let fs = mk(*plan);
                let r = one_thread(|| guard(|| Ok(f(&fs))))?;
                if !fs.hit() {
                    return match (plan, r) {
                        // nothing came after the shortened transfer
                        (FPlan::Half(_), Ok(())) => Ok(2),
                        (_, r) => Err(format!("the planned failure did not happen: {r:?}")),
                    };
                }
                match r {
                    Err(_) => Ok(hash_of(&(&op, log.get(match plan { FPlan::Fail(k) | FPlan::FailFrom(k) | FPlan::Half(k) | FPlan::Zero(k) => *k as usize, _ => 0 })))),
                    Ok(()) => Err("a failed operation was reported as success".into()),
                }
            });
        });
        // the same by path, on all threads
        ops.sort();
        ops.dedup();
        ops.into_iter().for_each(|(w, p)| {
            let label = format!("{label}/path/{w}/{p}");
            if ctx.too_many() {
                return;
            }
            ctx.case(&label, || {
                let fs = mk(FPlan::None);
                fs.st.lock().unwrap().path = Some((w.clone(), p.clone()));
                let r = guard(|| Ok(f(&fs)))?;
                if !fs.hit() {
                    return Err("the planned failure did not happen".into());
                }
                match r {
                    Err(_) => Ok(hash_of(&(&op, &w))),
                    Ok(()) => Err("a failed operation was reported as success".into()),
                }
            });
        });
    }
}

/// Small tables, one for each part, presence pattern and kind of content an extraction treats on a
/// path of its own; every single operation of extracting and of assembling each fails.
fn shapes(ctx: &Ctx, spec: &Spec, g: &Gen) {
    let th = ctx.thorough();
    let mut v: Vec<(String, VPX)> = vec![];
    let mut add = |n: String, t: &Table| match load(&t.bytes()) {
        Ok(x) => v.push((n, x)),
        Err(e) => drop(ctx.case(&n, || Err(e.clone()))),
    };
    for (n, ver, absent) in header_optional_patterns(spec, g, false) {
        if !th && n.contains("without") {
            continue;
        }
        let mut t = Table::new(spec, ver);
        for i in absent {
            t.gamedata[i].1 = vec![];
        }
        add(n, &t);
    }
    for n in 0..3usize {
        let mut t = Table::new(spec, 1080);
        set_materials(&mut t, g, &(0..n).map(|i| Mat::new(&format!("m{i}"))).collect::<Vec<_>>());
        add(format!("materials={n}"), &t);
    }
    for (n, i) in image_set(th) {
        let mut t = Table::new(spec, 1080);
        t.images.push(i.enc());
        add(format!("image/{n}"), &t);
    }
    for (n, s) in sound_set(th) {
        let mut t = Table::new(spec, 1080);
        t.sounds.push(s.enc(1080));
        add(format!("sound/{n}"), &t);
    }
    for n in 0..3usize {
        let mut t = Table::new(spec, 1080);
        for i in 0..n {
            t.fonts.push(font_stream(format!("f{i}").as_bytes(), b"f.ttf", &vec![3; 9000 * i]));
            t.collections.push(collection_stream(&format!("c{i}"), &["a", "b"][..i], [true, false, true]));
        }
        add(format!("fonts={n}"), &t);
        let mut t = Table::new(spec, 1080);
        t.custom_tags = (n > 0).then(|| (1..n).map(|i| format!("tag{i}")).collect());
        for i in 1..n {
            t.info.push((format!("tag{i}"), utf16("value")));
        }
        add(format!("tags={n}"), &t);
    }
    for i in INFO_NAMES {
        let mut t = Table::new(spec, 1080);
        t.info.push((i.into(), if i == "Screenshot" { vec![9; 20000] } else { utf16(&"x".repeat(9000)) }));
        add(format!("info/{i}"), &t);
    }
    for l in spec.items() {
        let mut vs = exp_variants(g, l);
        if !th {
            // enumerations, switches and absences decide which files there are
            vs.retain(|v| !v.label.contains("=f") && !v.label.contains("=s"));
            vs.truncate(140);
        }
        for x in vs {
            let mut t = Table::new(spec, 1080);
            t.items.push(x.bytes);
            add(format!("item/{}", x.label), &t);
        }
    }
    for (n, m) in [(3, 1), (6, 4), (24, 12)] {
        for k in [0, 1, 3] {
            let mut t = Table::new(spec, 1080);
            t.items.push(prim_item(g, Some(&Mesh::new(n, m).with_frames(k))));
            add(format!("mesh/{n}-{m}-{k}"), &t);
        }
    }
    let blank = || load(&Table::new(spec, 1081).bytes()).unwrap();
    let full = || load(&full_exp_table(spec, g, 1081).bytes()).unwrap();
    // lists that are there but empty, or not there
    for k in 0..8 {
        let mut x = blank();
        let mut y = full();
        match k {
            0 => x.gamedata.render_probes = Some(vec![]),
            1 => x.gamedata.materials = Some(vec![]),
            2 => x.gamedata.materials = None,
            3 => y.gamedata.render_probes = None,
            4 => drop(x.set_script(String::new())),
            5 => drop(x.set_script("' a script\r\n".repeat(2000))),
            6 => x.collections = full().collections,
            _ => x.sounds = full().sounds,
        }
        y.gameitems.clear();
        v.push((format!("lists/{k}/0"), x));
        v.push((format!("lists/{k}/1"), y));
    }
    ctx.note("shapes", v.len() as u64);
    on_threads(&v, |(name, x)| {
        let fms: &[_] = if name.starts_with("mesh") { &FORMATS } else { &FORMATS[..1] };
        for fm in fms {
            let Ok(src) = extract(x, *fm, true) else {
                ctx.case(&format!("shape/{name}/{fm:?}"), || Err("it cannot be extracted".into()));
                continue;
            };
            for reads in [false, true] {
                let op = |fs: &FaultFs| -> Result<(), String> {
                    if reads {
                        expanded::read_fs(&Path::new(ROOT), fs).map(|_| ()).map_err(es)
                    } else {
                        expanded::write_fs(x, &Path::new(ROOT), &options(*fm, true), fs).map_err(es)
                    }
                };
                let mk = |p| FaultFs::new(if reads { src.clone() } else { MemoryFileSystem::new() }, p);
                let base = mk(FPlan::None);
                let label = format!("shape/{name}/{fm:?}/{}", if reads { "assemble" } else { "extract" });
                {
                    if let Err(e) = one_thread(|| guard(|| op(&base))) {
                        ctx.case(&label, || Err(format!("without any failure: {e}")));
                        continue;
                    }
                }
                let n = base.st.lock().unwrap().n;
                ctx.add("file_system_operations", n);
                for k in 0..n {
                    if ctx.too_many() {
                        return;
                    }
                    ctx.case(&format!("{label}/{k}"), || {
                        let fs = mk(FPlan::Fail(k));
                        let r = one_thread(|| guard(|| Ok(op(&fs))))?;
                        match r {
                            _ if !fs.hit() => Err("the planned failure did not happen".into()),
                            Err(_) => Ok(hash_of(&(reads, base.st.lock().unwrap().log[k as usize]))),
                            Ok(()) => Err(format!("a failed {:?} was reported as success", base.st.lock().unwrap().ops[k as usize])),
                        }
                    });
                }
            }
        }
    });
}

/// Every way in which the library uses a table file.
pub type FileOp = (&'static str, fn(&Path) -> Result<(), String>);

pub fn file_ops() -> Vec<FileOp> {
    fn rw(p: &Path) -> Result<vpx::VpxFile<std::fs::File>, String> {
        vpx::open_rw(p).map_err(es)
    }
    vec![
        ("read", |p| vpx::read(p).map(|_| ()).map_err(es)),
        ("open+read all", |p| {
            let mut f = vpx::open(p).map_err(es)?;
            f.read_version().map_err(es)?;
            f.read_tableinfo().map_err(es)?;
            f.read_gamedata().map_err(es)?;
            f.is_locked().map_err(es)?;
            f.read_gameitems().map_err(es)?;
            f.read_images().map_err(es)?;
            f.read_sounds().map_err(es)?;
            f.read_fonts().map_err(es)?;
            f.read_collections().map_err(es)?;
            f.read_custominfotags().map_err(es)?;
            Ok(())
        }),
        ("lock", |p| rw(p)?.lock().map(|_| ()).map_err(es)),
        ("lock+unlock", |p| {
            let mut f = rw(p)?;
            f.lock().map_err(es)?;
            f.unlock().map(|_| ()).map_err(es)
        }),
        ("write_gamedata", |p| {
            let mut f = rw(p)?;
            let mut g = f.read_gamedata().map_err(es)?;
            g.set_code("' changed\n".repeat(400));
            f.write_gamedata(&g).map_err(es)
        }),
        ("images_to_webp", |p| rw(p)?.images_to_webp().map(|_| ()).map_err(es)),
        ("importvbs", |p| vpx::importvbs(p, Some(p.with_file_name("new.vbs"))).map(|_| ()).map_err(es)),
        ("extractvbs", |p| match vpx::extractvbs(p, Some(p.with_file_name("out.vbs")), true) {
            Ok(vpx::ExtractResult::Extracted(_)) => Ok(()),
            Ok(vpx::ExtractResult::Existed(_)) => Err("reported as existing".into()),
            Err(e) => Err(es(e)),
        }),
        ("verify", |p| match vpx::verify(p) {
            vpx::VerifyResult::Ok(_) => Ok(()),
            vpx::VerifyResult::Failed(_, m) => Err(m),
        }),
        ("new_minimal", |p| vpx::new_minimal_vpx(p.with_file_name("min.vpx")).map_err(es)),
        ("compact", |p| vpx::compact(p).map_err(es)),
    ]
}

/// Everything in the directory, with table files as their content.
fn state(d: &Path) -> Vec<(PathBuf, Result<Streams, Vec<u8>>)> {
    let mut o = vec![];
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let b = std::fs::read(e.path()).unwrap();
        o.push((PathBuf::from(e.file_name()), dump(&b).map_err(|_| b.clone())));
    }
    o.sort_by(|a, b| a.0.cmp(&b.0));
    o
}

fn file_faults(ctx: &Ctx, name: &str, bytes: &[u8], every: bool) {
    let v = load(bytes).unwrap();
    let vref = &v;
    type Op<'a> = Box<dyn Fn(&Path) -> Result<(), String> + Sync + Send + 'a>;
    let mut ops: Vec<(String, Op)> = file_ops().into_iter().map(|(n, f)| -> (String, Op) { (n.to_string(), Box::new(f)) }).collect();
    ops.push(("write".into(), Box::new(move |p: &Path| vpx::write(&p.with_file_name("copy.vpx"), vref).map_err(es))));
    ops.push(("overwrite".into(), Box::new(move |p: &Path| vpx::write(p, vref).map_err(es))));
    for f in FORMATS {
        ops.push((format!("extract to disk/{f:?}"), Box::new(move |p: &Path| {
            let d = p.with_file_name("x");
            expanded::write(vref, &d, &options(f, true)).map_err(es)
        })));
    }
    ops.push(("assemble from disk".into(), Box::new(move |p: &Path| expanded::read(&p.with_file_name("src")).map(|_| ()).map_err(es))));
    for (op, f) in &ops {
        let label = format!("file/{name}/{op}");
        let on_disk = op.contains("disk");
        let setup = |d: &Path| {
            let _ = std::fs::remove_dir_all(d);
            std::fs::create_dir_all(d).unwrap();
            let p = d.join("t.vpx");
            if !on_disk {
                std::fs::write(&p, bytes).unwrap();
                std::fs::write(d.join("new.vbs"), "' a new script\r\n".repeat(9)).unwrap();
            }
            if op.starts_with("extract to") {
                std::fs::create_dir_all(d.join("x")).unwrap();
            }
            if op.starts_with("assemble") {
                std::fs::create_dir_all(d.join("src")).unwrap();
                expanded::write(vref, &d.join("src"), &options(FORMATS[0], false)).unwrap();
            }
            p
        };
        let d = ctx.scratch.join(format!("b{:x}", hash_of(&label)));
        let p = setup(&d);
        let (r, rep) = one_thread(|| sys::with(Plan::Count, true, || f(&p)));
        let good = if on_disk { vec![] } else { state(&d) };
        let _ = std::fs::remove_dir_all(&d);
        if let Err(e) = r {
            ctx.case(&label, || Err(format!("without any failure: {e}")));
            continue;
        }
        ctx.add("system_calls", rep.calls);
        let mut plans = vec![];
        let mut reads = 0u64;
        for (k, (w, _)) in rep.log.iter().enumerate() {
            let k = k as u64;
            let mutates = !matches!(*w, "read" | "seek");
            reads += !mutates as u64;
            // bound for the large table: its first reads and every call that changes something
            if every || mutates || reads <= 200 {
                plans.push(Plan::Fail(k, libc::EIO));
            }
            if mutates {
                plans.push(Plan::FailFrom(k, libc::ENOSPC));
            }
        }
        on_threads(&plans, |plan| {
            let label = format!("{label}/{plan:?}").replace(' ', "");
            if ctx.too_many() {
                return;
            }
            ctx.case(&label, || {
                let d = ctx.scratch.join(format!("f{:x}", hash_of(&label)));
                let p = setup(&d);
                let (r, rp) = one_thread(|| sys::with(*plan, false, || guard(|| Ok(f(&p)))));
                let (Plan::Fail(k, _) | Plan::FailFrom(k, _)) = *plan else { unreachable!() };
                let what = rep.log[k as usize].0;
                let out = (|| {
                    let r = r?;
                    if !rp.hit {
                        return Err(format!("the planned failure did not happen ({} calls)", rp.calls));
                    }
                    match r {
                        Err(_) => Ok(hash_of(&(op, what))),
                        // the standard library asks for the position only to size a buffer
                        Ok(()) if what == "seek" && !on_disk && state(&d) == good => Ok(1),
                        Ok(()) if what == "seek" && on_disk => Ok(1),
                        Ok(()) => Err(format!("a failed {what} was reported as success")),
                    }
                })();
                let _ = std::fs::remove_dir_all(&d);
                out
            });
        });
    }
}

pub fn run(ctx: &Ctx) {
    sys::self_test(&ctx.scratch);
    let th = ctx.thorough();
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    ctx.rule("for each library call that touches files (extraction and assembly in every mesh format with and without derived meshes, scene exports; read, write, save header, lock, unlock, image conversion, script import and export, verification, creation, compaction; extraction to and assembly from a real directory): every file-system operation it performs is, in turn, the one that fails, the first of all failing, the one that transfers half before a failure, the one that accepts nothing; by position on one thread and by path on all threads; the call must report an error and not panic");
    ctx.assume("existence queries and closing a file do not fail; a failing position query that the standard library only uses to size a buffer changes nothing");
    let mut ts: Vec<(String, Vec<u8>)> = vec![];
    let mut versions = vec![1060, 1072, 1081];
    if th {
        versions = VERSIONS.to_vec();
    }
    for ver in &versions {
        ts.push((format!("full-{ver}"), full_exp_table(&spec, &g, *ver).bytes()));
    }
    ts.push(("minimal".into(), {
        let p = ctx.scratch.join("m.vpx");
        vpx::new_minimal_vpx(&p).unwrap();
        std::fs::read(&p).unwrap()
    }));
    for (n, b) in &ts {
        fs_faults(ctx, n, &load(b).unwrap());
    }
    shapes(ctx, &spec, &g);
    // files: a version 3 container needs fewer calls
    let mut small = Table::new(&spec, 1080);
    small.images.push(Img::jpeg("i", "i.png", &super::p03::png(3, 2)).enc());
    small.images.push(Img::bmp("b", "b.bmp", 5, 4, super::p03::bits(5, 4, 0x80)).enc());
    small.sounds.push(Snd::new("s", "s.wav", &[1; 600]).enc(1080));
    small.fonts.push(font_stream(b"arial", b"C:\\f.ttf", &[7; 5000]));
    small.collections.push(collection_stream("c", &["a", "b"], [true, false, true]));
    let l = spec.items()[0];
    let bv = g.base_vals(l);
    small.items.push(g.item_bytes(l, &bv.iter().collect::<Vec<_>>()));
    small.custom_tags = Some(vec!["tag".into()]);
    small.info.push(("tag".into(), utf16("value")));
    small.info.push(("TableName".into(), utf16("x")));
    small.info.push(("Screenshot".into(), vec![1; 700]));
    let mut c = cfb::CompoundFile::create_with_version(cfb::Version::V3, io::Cursor::new(Vec::new())).unwrap();
    for s in ["/GameStg", "/TableInfo"] {
        c.create_storage(s).unwrap();
    }
    for (p, d) in &small.streams() {
        let mut s = c.create_new_stream(p).unwrap();
        s.write_all(d).unwrap();
    }
    c.flush().unwrap();
    file_faults(ctx, "small", &c.into_inner().into_inner(), true);
    if th {
        file_faults(ctx, "full-1081", &full_table(&spec, &g, 1081).bytes(), false);
    }
}


fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
