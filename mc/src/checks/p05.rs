//! Components with equal or hostile names all survive extraction, in order.
use super::common::*;
use super::exp::*;
use super::p03::bits;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Write};
use std::path::{Component, Path};
use std::sync::{Arc, Mutex};
use vpin::filesystem::FileSystem;
use vpin::vpx::expanded::{self, PrimitiveMeshFormat as Pmf};

/// A strict file system: names are case-insensitive, at most 255 bytes long, contain none of the
/// characters a common file system can not hold and lose trailing dots and spaces; files never
/// replace each other and need their directory.
#[derive(Default)]
pub struct StrictFs {
    st: Arc<Mutex<State>>,
}
#[derive(Default)]
struct State {
    /// by folded path: the path as given and its content
    files: HashMap<String, (String, Vec<u8>)>,
    dirs: std::collections::HashSet<String>,
    problem: Option<String>,
}
fn bad(m: String) -> io::Error {
    io::Error::new(io::ErrorKind::InvalidInput, m)
}
fn fold(p: &Path) -> Result<String, String> {
    fn one(mut i: impl Iterator<Item = char>, c: char) -> char {
        let first = i.next();
        if i.next().is_none() { first.unwrap_or(c) } else { c }
    }
    let mut o: Vec<String> = vec![];
    for c in p.components() {
        let Component::Normal(c) = c else { return Err(format!("path {p:?} is not a plain relative path")) };
        let c = c.to_str().ok_or("not unicode")?;
        if c.len() > 255 {
            return Err(format!("name of {} bytes: {c:?}", c.len()));
        }
        if let Some(x) = c.chars().find(|x| "<>:\"/\\|?*".contains(*x) || (*x as u32) < 32) {
            return Err(format!("name {c:?} contains {x:?}"));
        }
        let t = c.trim_end_matches(['.', ' ']);
        if t.is_empty() {
            return Err(format!("name {c:?} is nothing but dots and spaces"));
        }
        // letter by letter, as file systems do
        o.push(t.chars().map(|c| one(c.to_uppercase(), c)).map(|c| one(c.to_lowercase(), c)).collect());
    }
    Ok(o.join("/"))
}
struct W {
    st: Arc<Mutex<State>>,
    key: String,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.st.lock().unwrap().files.get_mut(&self.key).unwrap().1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl StrictFs {
    fn problem(&self, m: String) -> io::Error {
        self.st.lock().unwrap().problem.get_or_insert(m.clone());
        bad(m)
    }
    fn create(&self, p: &Path) -> io::Result<String> {
        let k = fold(p).map_err(|m| self.problem(m))?;
        let dir = k.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default();
        let st = self.st.lock().unwrap();
        // directories of the target itself are the caller's business
        if dir != ROOT && !st.dirs.contains(&dir) {
            drop(st);
            return Err(self.problem(format!("{p:?}: no such directory")));
        }
        if let Some((old, _)) = st.files.get(&k) {
            let m = format!("{p:?} replaces {old:?}");
            drop(st);
            return Err(self.problem(m));
        }
        drop(st);
        self.st.lock().unwrap().files.insert(k.clone(), (p.to_str().unwrap().to_string(), vec![]));
        Ok(k)
    }
    fn get(&self, p: &Path) -> io::Result<Vec<u8>> {
        let k = fold(p).map_err(bad)?;
        self.st.lock().unwrap().files.get(&k).map(|f| f.1.clone()).ok_or_else(|| io::ErrorKind::NotFound.into())
    }
    pub fn files(&self) -> Files {
        self.st.lock().unwrap().files.values().cloned().collect()
    }
    pub fn first_problem(&self) -> Option<String> {
        self.st.lock().unwrap().problem.clone()
    }
}
impl FileSystem for StrictFs {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        Ok(Box::new(W { key: self.create(p)?, st: self.st.clone() }))
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        Ok(Box::new(Cursor::new(self.get(p)?)))
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.get(p)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        let k = self.create(p)?;
        self.st.lock().unwrap().files.get_mut(&k).unwrap().1 = d.to_vec();
        Ok(())
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        let k = fold(p).map_err(|m| self.problem(m))?;
        self.st.lock().unwrap().dirs.insert(k);
        Ok(())
    }
    fn exists(&self, p: &Path) -> bool {
        self.get(p).is_ok()
    }
}

/// Extracts to the strict file system and assembles again; every stream must come back, and
/// `expect` data files must exist.
fn survive(t: &Table, f: Pmf, derived: bool, expect: usize) -> Result<u64, String> {
    let orig = t.streams();
    let v = load(&build(&orig))?;
    let fs = StrictFs::default();
    let r = expanded::write_fs(&v, &Path::new(ROOT), &options(f, derived), &fs);
    if let Some(p) = fs.first_problem() {
        return Err(format!("extraction: {p}"));
    }
    r.map_err(|e| format!("extraction failed: {e}"))?;
    let files = fs.files();
    let n = files.keys().filter(|k| k[ROOT.len() + 1..].contains('/')).count();
    if n < expect {
        return Err(format!("{n} files for {expect} components: {:?}", files.keys()));
    }
    let v2 = expanded::read_fs(&Path::new(ROOT), &fs).map_err(|e| format!("assembly failed: {e}"))?;
    let got = dump(&save(&v2)?)?;
    match diff_streams(&norm(&orig)?, &norm(&got)?) {
        None => Ok(hash_of(&files.keys().collect::<Vec<_>>())),
        Some(d) => Err(d),
    }
}

fn l1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// All tuples of length 1..=n over 0..k, as index lists.
fn tuples(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        level = level
            .iter()
            .flat_map(|p| {
                (0..k).map(move |i| {
                    let mut q = p.clone();
                    q.push(i);
                    q
                })
            })
            .collect();
        all.extend(level.iter().cloned());
    }
    all
}

/// Names, those most likely to collide first.
fn names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "A", "a_dedup1", "a__1", "a:", "", "a_anim_0", "unnamed", "a?", "A_dedup1", "a_dedup2", "A__1", "a__2", "a_", "a_anim_0__1", "a_anim_1", "a/", "../a", "/", "..", ".", "a.", "a ", " a", "a.json", "a.obj", "a.png",
        "a.wav", "a.webp", "con", "CON", "nul.txt", "com1", "COM1.", "lpt9.x", "a\\b", "a/b", "a_b", "a b", "a-b", "aux", "_", "__1", "_dedup1", "\u{e4}", "\u{c4}", "\u{df}", "\u{ff}", "a\nb", "a\tb", "\u{7f}", "\u{80}", "\u{9f}",
        "\u{a0}", "\"", "<>|*", "a_anim_", "a_anim_x", "a_anim_00", "unnamed__1", "Wall.a", "~", "$a", "%2e", "a;b", "-", "a_dedup1_dedup1", "a_dedup", "index", "images", "a#b", "a{}",
    ]
    .map(String::from)
    .to_vec();
    for n in [100, 179, 180, 181, 199, 200, 201, 220, 255, 256, 300] {
        v.push("x".repeat(n));
        v.push("x".repeat(n - 1) + "y");
        v.push("X".repeat(n));
    }
    for n in [99usize, 100, 101, 120] {
        v.push("\u{e4}".repeat(n));
        v.push("x".to_string() + &"\u{e4}".repeat(n));
    }
    v
}
/// Names outside Latin-1, for items.
fn wide_names() -> Vec<String> {
    let mut v: Vec<String> = ["\u{130}", "i\u{307}", "\u{212a}", "k", "K", "\u{3a3}", "\u{3c3}", "\u{3c2}", "\u{1e9e}", "\u{df}", "ss", "\u{feff}a", "a\u{200b}", "a\u{301}", "\u{e1}", "\u{1f600}", "\u{202e}a", "\u{ff0f}", "\u{ff21}", "\u{ff41}", "\u{661}", "\u{1c4}", "\u{1c6}", "\u{1c5}", "a_anim_\u{661}", "\u{2160}", "\u{2170}"]
        .map(String::from)
        .to_vec();
    for n in [44usize, 45, 46, 59, 60, 61, 90] {
        v.push("\u{1f600}".repeat(n));
        v.push("\u{4e2d}".repeat(n));
        v.push("a".to_string() + &"\u{4e2d}".repeat(n));
        v.push("ab".to_string() + &"\u{4e2d}".repeat(n));
        v.push("\u{10400}".repeat(n));
        v.push("\u{10428}".repeat(n));
    }
    v
}

fn run_cases<T: Sync>(ctx: &Ctx, items: &[T], label: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<u64, String> + Sync) {
    items.par_iter().for_each(|x| {
        if !ctx.too_many() {
            ctx.case(&label(x), || f(x));
        }
    });
}

/// An item of a kind, distinguishable by its index.
fn item(g: &Gen, kind: &str, name: &str, i: usize) -> Vec<u8> {
    let l = g.spec.get(kind);
    let mut vals = exp_base(g, l);
    if kind == "Primitive" {
        vals = prim_vals(g, Some(&Mesh::new(4 + i, 2 + i).with_frames(i % 3)));
    }
    let k = l.fields.iter().position(|f| f.tag == "NAME").unwrap();
    vals[k].enc = wrec("NAME", name);
    if let Some(k) = l.fields.iter().position(|f| f.tag == "TMIN") {
        vals[k].enc = rec("TMIN", &(100 + i as u32).to_le_bytes());
    } else if let Some(k) = l.fields.iter().position(|f| f.tag == "TMIN" || f.tag == "TMIT" || f.tag == "TMRI") {
        vals[k].enc = rec(&l.fields[k].tag, &(100 + i as u32).to_le_bytes());
    }
    g.item_bytes(l, &vals.iter().collect::<Vec<_>>())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Comp {
    Image,
    Sound,
    Font,
}
/// A component with a name and extension variant, distinguishable by its index.
fn component(t: &mut Table, c: Comp, name: &str, path: &str, how: usize, i: usize) -> usize {
    match c {
        Comp::Image => {
            let n = name;
            let mut im = match how {
                1 => Img::bmp("n", path, 2 + i as u32, 1, bits(2 + i as u32, 1, 255)),
                _ => Img::jpeg("n", path, format!("image data {i}").as_bytes()),
            };
            im.name = l1(n);
            if let Some(j) = &mut im.jpeg {
                j.name = l1(n);
            }
            if how == 2 {
                im.jpeg = None;
                im.link = Some(1);
                im.w = 10 + i as u32;
            }
            t.images.push(im.enc());
            (how != 2) as usize
        }
        Comp::Sound => {
            let mut s = Snd::new("n", path, &[i as u8, 1, 2, 3]);
            s.name = l1(name);
            s.internal = l1(&format!("internal{i}"));
            t.sounds.push(s.enc(t.version));
            1
        }
        Comp::Font => {
            t.fonts.push(font_stream(&l1(name), &l1(path), format!("font data {i}").as_bytes()));
            1
        }
    }
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: ctx.thorough() };
    let latin = names();
    let wide: Vec<String> = latin.iter().cloned().chain(wide_names()).collect();
    let th = ctx.thorough();
    let kinds: Vec<String> = spec.items().iter().map(|l| l.name.clone()).collect();

    // every kind of item alone and twice with every name
    let mut cs: Vec<(String, usize, usize)> = vec![];
    for k in &kinds {
        for n in 0..wide.len() {
            for times in 1..=3 {
                cs.push((k.clone(), n, times));
            }
        }
    }
    run_cases(ctx, &cs, |c| format!("item/{}/{:?}x{}", c.0, wide[c.1], c.2), |(k, n, times)| {
        let mut t = Table::new(&spec, 1080);
        for i in 0..*times {
            t.items.push(item(&g, k, &wide[*n], i));
        }
        survive(&t, Pmf::Obj, false, *times)
    });

    // all pairs of names; tuples over the ones most likely to collide
    let mut tup: Vec<Vec<(usize, usize)>> = vec![];
    let two = ["Primitive", "Wall", "Light", "Ramp"];
    for a in 0..wide.len() {
        for b in 0..wide.len() {
            tup.push(vec![(0, a), (0, b)]);
            if th {
                tup.push(vec![(1, a), (1, b)]);
                tup.push(vec![(0, a), (1, b)]);
            }
        }
    }
    for (types, names, depth) in if th { [(1, 16, 4), (2, 10, 4), (4, 4, 4), (1, 5, 6)] } else { [(1, 16, 3), (2, 9, 3), (4, 3, 3), (1, 6, 4)] } {
        for t in tuples(types * names, depth) {
            if t.len() > 2 || types > 1 {
                tup.push(t.iter().map(|x| (x % types, x / types)).collect());
            }
        }
    }
    tup.sort();
    tup.dedup();
    let lab = |c: &Vec<(usize, usize)>| format!("items/{:?}", c.iter().map(|(k, n)| format!("{}.{}", two[*k], wide[*n])).collect::<Vec<_>>());
    run_cases(ctx, &tup, lab, |c| {
        let mut t = Table::new(&spec, 1080);
        for (i, (k, n)) in c.iter().enumerate() {
            t.items.push(item(&g, two[*k], &wide[*n], i));
        }
        survive(&t, Pmf::Obj, false, c.len())
    });
    // primitives with many frames, in the other formats, and with generated meshes
    let mut cs = vec![];
    for f in FORMATS {
        for derived in [false, true] {
            for k in two {
                for t in tuples(9, if th { 3 } else { 2 }) {
                    cs.push((f, derived, k, t));
                }
            }
        }
    }
    run_cases(ctx, &cs, |c| format!("formats/{:?}", c), |(f, derived, k, c)| {
        let mut t = Table::new(&spec, 1080);
        for (i, n) in c.iter().enumerate() {
            t.items.push(item(&g, k, &wide[*n], i + 2));
        }
        survive(&t, *f, *derived, c.len())
    });

    // images, sounds, fonts
    let exts: Vec<String> = ["png", "PNG", "jpg", "webp", "bmp", "wav", "mp3", "ogg", "ttf", "", "p/q", "..", "json", "a:b", "p\\q", "png ", "con"].iter().map(|e| format!("C:\\dir\\x.{e}")).chain(["".into(), "x".into(), ".".into(), "/".into(), "a.b\\c".into(), "x.".to_string() + &"e".repeat(31), "x.".to_string() + &"e".repeat(40), "x.".to_string() + &"\u{e9}".repeat(40), "x.".to_string() + &"e".repeat(300)]).collect();
    for c in [Comp::Image, Comp::Sound, Comp::Font] {
        let hows = if c == Comp::Image { 3 } else { 1 };
        // (name, path, how)
        let mut cs: Vec<Vec<(usize, usize, usize)>> = vec![];
        for n in 0..latin.len() {
            for e in 0..exts.len() {
                for h in 0..hows {
                    cs.push(vec![(n, e, h)]);
                    cs.push(vec![(n, e, h), (n, e, h)]);
                }
            }
            for m in 0..latin.len() {
                for h in 0..if th { hows } else { 1 } {
                    cs.push(vec![(n, 0, h), (m, 0, 0)]);
                }
            }
        }
        // the same name, different paths and kinds
        for a in 0..exts.len() * hows {
            for b in 0..exts.len() * hows {
                cs.push(vec![(0, a / hows, a % hows), (0, b / hows, b % hows)]);
                cs.push(vec![(0, a / hows, a % hows), (1, b / hows, b % hows)]);
            }
        }
        for (names, depth) in if th { [(14, 4), (6, 5)] } else { [(12, 3), (5, 4)] } {
            for t in tuples(names, depth) {
                if t.len() > 2 {
                    cs.push(t.iter().map(|n| (*n, 0, 0)).collect());
                }
            }
        }
        // names, two extensions
        for t in tuples(5 * 2, if th { 4 } else { 3 }) {
            cs.push(t.iter().map(|x| (x / 2, x % 2, 0)).collect());
        }
        if c == Comp::Image {
            // extracted as .webp / .png / bitmap / linked
            for t in tuples(3 * 4, if th { 4 } else { 3 }) {
                cs.push(t.iter().map(|x| (x / 4, [0, 3, 0, 0][x % 4], [0, 0, 1, 2][x % 4])).collect());
            }
        }
        cs.sort();
        cs.dedup();
        let lab = |x: &Vec<(usize, usize, usize)>| format!("{c:?}/{:?}", x.iter().map(|(n, e, h)| (&latin[*n], &exts[*e], *h)).collect::<Vec<_>>());
        run_cases(ctx, &cs, lab, |x| {
            let mut t = Table::new(&spec, 1080);
            let mut files = 0;
            for (i, (n, e, h)) in x.iter().enumerate() {
                files += component(&mut t, c, &latin[*n], &exts[*e], *h, i);
            }
            survive(&t, Pmf::Obj, false, files)
        });
    }
    // many with the same name
    for n in [10usize, 11, 50, 300] {
        for (k, name) in [("same", "a"), ("suffix", "a_dedup"), ("suffix2", "a__")] {
            for what in 0..4 {
                ctx.case(&format!("many/{n}/{k}/{what}"), || {
                    let mut t = Table::new(&spec, 1080);
                    for i in 0..n {
                        let nm = match k {
                            "same" => name.to_string(),
                            // taking the names that will be generated
                            _ if i % 2 == 0 => format!("{name}{}", i / 2),
                            _ => "A".to_string(),
                        };
                        match what {
                            0 => t.items.push(item(&g, "Wall", &nm, i)),
                            1 => _ = component(&mut t, Comp::Image, &nm, "x.png", 0, i),
                            2 => _ = component(&mut t, Comp::Sound, &nm, "x.wav", 0, i),
                            _ => _ = component(&mut t, Comp::Font, &nm, "x.ttf", 0, i),
                        }
                    }
                    survive(&t, Pmf::Obj, false, n)
                });
            }
        }
    }
    ctx.rule("extraction to a strict file system (case-insensitive, names of at most 255 bytes without reserved characters, trailing dots and spaces dropped, no file may replace another, directories needed) and assembly; every stream must come back: every item kind with every name of the menu once, twice and three times; all pairs of names; all tuples of the names most likely to collide (with generated suffixes, animation frames, sanitised forms) over one, two and four kinds; images, sounds and fonts: every name x every path, all pairs of names, of paths with equal names, all tuples; up to 300 components with equal names");
    ctx.assume("two names count as the same file when they differ only in case, letter by letter (one-to-one case mappings); device names of one operating system (con, aux) are valid file names elsewhere and are not excluded");
}
