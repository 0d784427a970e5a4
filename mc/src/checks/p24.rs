//! Short reads and writes never change the result.
//!
//! The environment answers every transfer of the real code; the deviations from the default answer
//! (everything requested is transferred) are enumerated: every transfer short, any single one short
//! or interrupted, every other one interrupted.
use super::common::*;
use super::exp::*;
use super::p03::full_exp_table;
use super::p14::{file_ops, fs_ops, one_thread};
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use crate::sys::{self, Plan};
use rayon::prelude::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::expanded;
use vpin::vpx::{self, VPX, VpxFile};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    Full,
    /// at most n bytes each
    Limit(usize),
    /// every other transfer interrupted, the others limited
    Intr(usize),
    /// transfer k moves at most n bytes
    At(u64, usize),
    /// transfer k is interrupted, once
    IntrAt(u64),
    /// sizes 1, 2, 3, ... in turn
    Ramp,
}
#[derive(Default)]
struct Env {
    n: AtomicU64,
    hit: AtomicU64,
}
impl Env {
    /// what the next transfer of len bytes may move
    fn next(&self, t: T, len: usize) -> io::Result<usize> {
        if len == 0 {
            return Ok(0);
        }
        let n = self.n.fetch_add(1, Ordering::Relaxed);
        let intr = match t {
            T::Intr(_) => n % 2 == 0,
            T::IntrAt(k) => n == k,
            _ => false,
        };
        if intr {
            self.hit.fetch_add(1, Ordering::Relaxed);
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let m = match t {
            T::Limit(m) | T::Intr(m) => m,
            T::At(k, m) if n == k => m,
            T::Ramp => n as usize % 5 + 1,
            _ => len,
        };
        if m < len {
            self.hit.fetch_add(1, Ordering::Relaxed);
        }
        Ok(m.min(len))
    }
}

struct ShortFs {
    fs: MemoryFileSystem,
    t: T,
    env: Arc<Env>,
}
struct W {
    fs: MemoryFileSystem,
    path: PathBuf,
    data: Vec<u8>,
    t: T,
    env: Arc<Env>,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.env.next(self.t, b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for W {
    fn drop(&mut self) {
        let _ = self.fs.write_file(&self.path, &self.data);
    }
}
struct R {
    data: Cursor<Vec<u8>>,
    t: T,
    env: Arc<Env>,
}
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.env.next(self.t, b.len())?;
        self.data.read(&mut b[..n])
    }
}
impl FileSystem for ShortFs {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        self.fs.write_file(path, b"")?;
        Ok(Box::new(W { fs: self.fs.clone(), path: path.to_path_buf(), data: vec![], t: self.t, env: self.env.clone() }))
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        Ok(Box::new(R { data: Cursor::new(self.fs.read_file(path)?), t: self.t, env: self.env.clone() }))
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        let mut d = vec![];
        self.open_file(path)?.read_to_end(&mut d)?;
        Ok(d)
    }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
        self.fs.write_file(path, data)
    }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        self.fs.create_dir_all(path)
    }
    fn exists(&self, path: &Path) -> bool {
        self.fs.exists(path)
    }
}
/// The same without the library's buffering: every small transfer meets the environment.
struct Unbuffered(ShortFs);
impl FileSystem for Unbuffered {
    fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        self.0.create_file(path)
    }
    fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        self.0.open_file(path)
    }
    fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
        self.0.read_file(path)
    }
    fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
        self.0.write_file(path, data)
    }
    fn create_dir_all(&self, path: &Path) -> io::Result<()> {
        self.0.create_dir_all(path)
    }
    fn exists(&self, path: &Path) -> bool {
        self.0.exists(path)
    }
    fn create_buffered_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
        self.0.create_file(path)
    }
    fn open_buffered_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        self.0.open_file(path)
    }
}

fn always() -> Vec<T> {
    let mut o = vec![T::Ramp];
    for n in [1, 2, 3, 4, 7, 64, 511, 4095, 8191] {
        o.push(T::Limit(n));
    }
    for n in [1, 5, 100_000_000] {
        o.push(T::Intr(n));
    }
    o
}

fn model(v: &VPX) -> String {
    // the map of custom information has no order
    let p = &v.info.properties;
    let sorted: std::collections::BTreeMap<_, _> = p.iter().collect();
    format!("{v:?}").replacen(&format!("{p:?}"), &format!("{sorted:?}"), 1)
}

fn file_systems(ctx: &Ctx, name: &str, v: &VPX, th: bool) {
    for (op, reads, f) in fs_ops(v) {
        let fm = FORMATS.iter().find(|x| op.contains(&format!("/{x:?}"))).copied();
        let source = if reads { Some(extract(v, fm.unwrap(), false).unwrap()) } else { None };
        for unbuffered in [false, true] {
            let run = |t: T| -> Result<(u64, u64, Files, String), String> {
                let env = Arc::new(Env::default());
                let fs = source.clone().unwrap_or_default();
                let s = ShortFs { fs: fs.clone(), t, env: env.clone() };
                let mut m = String::new();
                one_thread(|| {
                    let u;
                    let dynfs: &dyn FileSystem = if unbuffered {
                        u = Unbuffered(s);
                        &u
                    } else {
                        &s
                    };
                    guard(|| {
                        if reads {
                            m = model(&expanded::read_fs(&Path::new(ROOT), dynfs).map_err(|e| e.to_string())?);
                            Ok(())
                        } else {
                            f(dynfs)
                        }
                    })
                })?;
                Ok((env.n.load(Ordering::Relaxed), env.hit.load(Ordering::Relaxed), if reads { Files::new() } else { files(&fs) }, m))
            };
            let label = format!("fs/{name}/{op}/{}", if unbuffered { "unbuffered" } else { "buffered" });
            let base = match run(T::Full) {
                Ok(b) => b,
                Err(e) => {
                    // an export of a table without geometry is refused
                    ctx.case(&label, || if op.starts_with("export") { Ok(0) } else { Err(e.clone()) });
                    continue;
                }
            };
            ctx.add("transfers", base.0);
            let mut plans = always();
            let limit = if th { 60_000 } else { 4000 };
            for k in 0..base.0.min(limit) {
                plans.push(T::At(k, 1));
                plans.push(T::IntrAt(k));
            }
            if base.0 > limit {
                ctx.add("single_deviations_beyond_the_bound", base.0 - limit);
            }
            on_threads(&plans, |t| {
                let label = format!("{label}/{t:?}").replace(' ', "");
                if ctx.too_many() {
                    return;
                }
                ctx.case(&label, || {
                    let (_, hit, fs, m) = run(*t)?;
                    if let Some(d) = diff_files(&base.2, &fs) {
                        return Err(d);
                    }
                    if m != base.3 {
                        return Err("the assembled table differs".into());
                    }
                    Ok(hash_of(&(hit > 0, &op, unbuffered)))
                });
            });
        }
    }
}

/// A file held in memory with short transfers.
struct ShortFile {
    c: Arc<Mutex<Cursor<Vec<u8>>>>,
    t: T,
    env: Arc<Env>,
}
impl Read for ShortFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.env.next(self.t, b.len())?;
        self.c.lock().unwrap().read(&mut b[..n])
    }
}
impl Write for ShortFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.env.next(self.t, b.len())?;
        self.c.lock().unwrap().write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for ShortFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.lock().unwrap().seek(p)
    }
}

type HandleOp = (&'static str, fn(&mut VpxFile<ShortFile>) -> io::Result<String>);
fn handle_ops() -> Vec<HandleOp> {
    vec![
        ("read_version", |f| f.read_version().map(|x| format!("{x:?}"))),
        ("read_tableinfo", |f| f.read_tableinfo().map(|x| format!("{x:?}"))),
        ("read_gamedata", |f| f.read_gamedata().map(|x| format!("{x:?}"))),
        ("read_gameitems", |f| f.read_gameitems().map(|x| format!("{x:?}"))),
        ("read_images", |f| f.read_images().map(|x| format!("{x:?}"))),
        ("read_sounds", |f| f.read_sounds().map(|x| format!("{x:?}"))),
        ("read_fonts", |f| f.read_fonts().map(|x| format!("{x:?}"))),
        ("read_collections", |f| f.read_collections().map(|x| format!("{x:?}"))),
        ("read_custominfotags", |f| f.read_custominfotags().map(|x| format!("{x:?}"))),
        ("is_locked", |f| f.is_locked().map(|x| format!("{x:?}"))),
        ("lock", |f| f.lock().map(|x| format!("{x:?}"))),
        ("unlock", |f| f.unlock().map(|x| format!("{x:?}"))),
        ("write_gamedata", |f| {
            let mut g = f.read_gamedata()?;
            g.set_code("' changed\r\n".repeat(900));
            f.write_gamedata(&g).map(|()| String::new())
        }),
        ("images_to_webp", |f| f.images_to_webp().map(|x| format!("{x:?}"))),
    ]
}

fn handles(ctx: &Ctx, name: &str, bytes: &[u8], th: bool) {
    for rw in [false, true] {
        for (op, f) in handle_ops() {
            let mutates = matches!(op, "lock" | "unlock" | "write_gamedata" | "images_to_webp");
            if mutates && !rw {
                continue;
            }
            let run = |t: T| -> Result<(u64, u64, String, Streams), String> {
                let env = Arc::new(Env::default());
                let c = Arc::new(Mutex::new(Cursor::new(bytes.to_vec())));
                let file = ShortFile { c: c.clone(), t, env: env.clone() };
                let mut h = if rw { VpxFile::open_rw(file) } else { VpxFile::open(file) }.map_err(err("open"))?;
                let r = f(&mut h).map_err(err(op))?;
                drop(h);
                let b = c.lock().unwrap().get_ref().clone();
                Ok((env.n.load(Ordering::Relaxed), env.hit.load(Ordering::Relaxed), r, dump(&b)?))
            };
            let label = format!("handle/{name}/{}{op}", if rw { "rw/" } else { "" });
            let base = match guard(|| run(T::Full)) {
                Ok(b) => b,
                Err(e) => {
                    ctx.case(&label, || Err(e.clone()));
                    continue;
                }
            };
            let mut plans = always();
            let limit = if th { u64::MAX } else { 2000 };
            for k in 0..base.0.min(limit) {
                plans.push(T::At(k, 1));
                plans.push(T::IntrAt(k));
            }
            if base.0 > limit {
                ctx.add("single_deviations_beyond_the_bound", base.0 - limit);
            }
            plans.par_iter().for_each(|t| {
                let label = format!("{label}/{t:?}").replace(' ', "");
                if ctx.too_many() {
                    return;
                }
                ctx.case(&label, || {
                    let (_, hit, r, s) = run(*t)?;
                    if r != base.2 {
                        return Err("the result differs".into());
                    }
                    if let Some(d) = diff_streams(&base.3, &s) {
                        return Err(d);
                    }
                    Ok(hash_of(&(hit > 0, op, rw)))
                });
            });
        }
    }
}

type Tree = Vec<(PathBuf, Result<Streams, Vec<u8>>)>;
fn tree(d: &Path) -> Tree {
    let mut o = vec![];
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in std::fs::read_dir(&x).unwrap().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
                continue;
            }
            let b = std::fs::read(e.path()).unwrap();
            o.push((e.path().strip_prefix(d).unwrap().to_path_buf(), dump(&b).map_err(|_| b.clone())));
        }
    }
    o.sort_by(|a, b| a.0.cmp(&b.0));
    o
}

/// The same on a real directory, the C library's transfers being the short ones.
fn disk(ctx: &Ctx, name: &str, bytes: &[u8], th: bool, light: bool) {
    let v = load(bytes).unwrap();
    let vref = &v;
    type Op<'a> = Box<dyn Fn(&Path) -> Result<String, String> + Sync + Send + 'a>;
    let mut ops: Vec<(String, Op)> = vec![];
    for (n, f) in file_ops() {
        if n != "read" {
            ops.push((n.to_string(), Box::new(move |p: &Path| f(p).map(|()| String::new()))));
        }
    }
    ops.push(("read".into(), Box::new(|p: &Path| vpx::read(p).map(|v| model(&v)).map_err(|e| e.to_string()))));
    ops.push(("write".into(), Box::new(move |p: &Path| vpx::write(&p.with_file_name("copy.vpx"), vref).map(|()| String::new()).map_err(|e| e.to_string()))));
    ops.push(("overwrite".into(), Box::new(move |p: &Path| vpx::write(p, vref).map(|()| String::new()).map_err(|e| e.to_string()))));
    for f in FORMATS.into_iter().take(if light { 1 } else { FORMATS.len() }) {
        ops.push((format!("extract to disk/{f:?}"), Box::new(move |p: &Path| expanded::write(vref, &p.with_file_name("x"), &options(f, true)).map(|()| String::new()).map_err(|e| e.to_string()))));
        ops.push((format!("assemble from disk/{f:?}"), Box::new(move |p: &Path| expanded::read(&p.with_file_name("src")).map(|v| model(&v)).map_err(|e| e.to_string()))));
    }
    for (op, f) in &ops {
        let label = format!("disk/{name}/{op}");
        let setup = |d: &Path| {
            let _ = std::fs::remove_dir_all(d);
            std::fs::create_dir_all(d.join("x")).unwrap();
            let p = d.join("t.vpx");
            std::fs::write(&p, bytes).unwrap();
            std::fs::write(d.join("new.vbs"), "' a new script\r\n".repeat(90)).unwrap();
            if op.starts_with("assemble") {
                let fm = FORMATS.iter().find(|x| op.ends_with(&format!("/{x:?}"))).unwrap();
                std::fs::create_dir_all(d.join("src")).unwrap();
                expanded::write(vref, &d.join("src"), &options(*fm, false)).unwrap();
            }
            p
        };
        let run = |plan: Plan| -> Result<(u64, bool, String, Tree, Vec<(&'static str, usize)>), String> {
            let d = ctx.scratch.join(format!("d{:x}", hash_of(&format!("{label}{plan:?}"))));
            let p = setup(&d);
            let (r, rep) = one_thread(|| sys::with(plan, plan == Plan::Count, || guard(|| f(&p))));
            let t = tree(&d);
            let _ = std::fs::remove_dir_all(&d);
            Ok((rep.calls, rep.hit, r?, t, rep.log))
        };
        let mut base = match run(Plan::Count) {
            Ok(b) => b,
            Err(e) => {
                ctx.case(&label, || Err(e.clone()));
                continue;
            }
        };
        let mut plans = vec![];
        for n in if light { &[1000usize, 4095][..] } else { &[1usize, 3, 511, 4095] } {
            let n = *n;
            plans.push(Plan::Short(n));
            plans.push(Plan::IntrShort(n));
        }
        plans.push(Plan::IntrShort(usize::MAX));
        let limit = if th { 20_000 } else { 500 };
        if light {
            plans.retain(|p| *p != Plan::IntrShort(1000));
            base.4.clear();
        }
        let mut n = 0;
        for (k, (w, len)) in base.4.iter().enumerate() {
            if !w.contains("read") && !w.contains("write") {
                continue;
            }
            n += 1;
            if n > limit {
                continue;
            }
            plans.push(Plan::IntrAt(k as u64));
            if *len > 1 {
                plans.push(Plan::ShortAt(k as u64, 1));
            }
        }
        if n > limit {
            ctx.add("single_deviations_beyond_the_bound", (n - limit) as u64);
        }
        on_threads(&plans, |plan| {
            let label = format!("{label}/{plan:?}").replace(' ', "");
            if ctx.too_many() {
                return;
            }
            ctx.case(&label, || {
                let (_, hit, r, t, _) = run(*plan)?;
                if r != base.2 {
                    return Err("the result differs".into());
                }
                if t != base.3 {
                    let n: Vec<_> = t.iter().filter(|x| !base.3.contains(x)).map(|x| x.0.display().to_string()).collect();
                    return Err(format!("the files differ: {n:?}"));
                }
                Ok(hash_of(&(hit, op)))
            });
        });
    }
}

pub fn run(ctx: &Ctx) {
    sys::self_test(&ctx.scratch);
    let th = ctx.thorough();
    ctx.rule("extraction, assembly and scene exports through a file system, table handles over any readable and writable source, and every file operation on disk: with every transfer limited to n bytes (several n), of varying size, every other one interrupted, and with any single transfer short or interrupted; result and files must be those of unrestricted transfers");
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    let full = full_exp_table(&spec, &g, 1081).bytes();
    file_systems(ctx, "full", &load(&full).unwrap(), th);
    let mut small = Table::new(&spec, 1072);
    small.images.push(Img::jpeg("i", "i.png", &super::p03::png(3, 2)).enc());
    small.images.push(Img::jpeg("big", "big.jpg", &(0..30_000u32).map(|i| (i % 251) as u8).collect::<Vec<_>>()).enc());
    small.images.push(Img::bmp("b", "b.bmp", 5, 4, super::p03::bits(5, 4, 0x80)).enc());
    small.sounds.push(Snd::new("s", "s.wav", &[1; 600]).enc(1072));
    small.fonts.push(font_stream(b"arial", b"C:\\f.ttf", &[7; 5000]));
    small.collections.push(collection_stream("c", &["a", "b"], [true, false, true]));
    small.custom_tags = Some(vec!["tag".into()]);
    small.info.push(("tag".into(), utf16("value")));
    small.info.push(("TableName".into(), utf16("x")));
    small.info.push(("Screenshot".into(), vec![1; 700]));
    let small = small.bytes();
    handles(ctx, "small", &small, th);
    handles(ctx, "full", &full, false);
    disk(ctx, "small", &small, th, false);
    disk(ctx, "full", &full, false, false);
    // large parts and many parts
    use super::large::{some, COUNTED, SIZED};
    let large: Vec<_> = some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 4 } else { 24 }).into_iter().filter(|l| th || l.n <= 130 || l.n > 3000).collect();
    on_threads(&large, |l| {
        if !ctx.too_many() {
            disk(ctx, &l.label, &l.table(&spec).bytes(), false, true);
        }
    });
}
