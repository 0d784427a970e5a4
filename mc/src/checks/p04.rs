//! Extraction writes only inside the target directory.
use super::common::*;
use super::exp::*;
use super::p03::bits;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::expanded::{self, PrimitiveMeshFormat as Pmf};

/// Records what is created; nothing reaches a disk.
#[derive(Default)]
struct Recorder {
    fs: MemoryFileSystem,
    made: Mutex<Vec<(bool, PathBuf)>>,
}
impl FileSystem for Recorder {
    fn create_file(&self, p: &Path) -> io::Result<Box<dyn Write>> {
        self.made.lock().unwrap().push((false, p.into()));
        self.fs.create_file(p)
    }
    fn open_file(&self, p: &Path) -> io::Result<Box<dyn Read>> {
        self.fs.open_file(p)
    }
    fn read_file(&self, p: &Path) -> io::Result<Vec<u8>> {
        self.fs.read_file(p)
    }
    fn write_file(&self, p: &Path, d: &[u8]) -> io::Result<()> {
        self.made.lock().unwrap().push((false, p.into()));
        self.fs.write_file(p, d)
    }
    fn create_dir_all(&self, p: &Path) -> io::Result<()> {
        self.made.lock().unwrap().push((true, p.into()));
        self.fs.create_dir_all(p)
    }
    fn exists(&self, p: &Path) -> bool {
        self.fs.exists(p)
    }
}

const TOP: [&str; 14] = [
    "version.txt", "screenshot.png", "info.json", "collections.json", "gameitems.json", "images.json", "sounds.json", "fonts.json", "gamedata.json", "script.vbs", "materials.json", "materials-old.json", "materials-physics-old.json", "renderprobes.json",
];
const DIRS: [&str; 4] = ["gameitems", "images", "sounds", "fonts"];

fn confined(dir: bool, p: &Path, root: &str, types: &[String]) -> Result<(), String> {
    let bad = |m: &str| Err(format!("{} {p:?}: {m}", if dir { "directory" } else { "file" }));
    // taken as it stands: no normalisation
    let text = p.to_str().ok_or("not unicode")?;
    let Some(rest) = text.strip_prefix(root) else { return bad("outside of the target") };
    if rest.is_empty() && dir {
        return Ok(());
    }
    let Some(rest) = rest.strip_prefix('/') else { return bad("outside of the target") };
    let comps: Vec<&str> = rest.split('/').collect();
    if comps.iter().any(|c| c.is_empty() || *c == "." || *c == "..") {
        return bad("not a plain path");
    }
    if comps.iter().any(|c| c.chars().any(|x| "\\:\0".contains(x) || x.is_control())) {
        return bad("contains characters that mean something in a path");
    }
    match (dir, &comps[..]) {
        (true, [d]) if DIRS.contains(d) => Ok(()),
        (false, [f]) if TOP.contains(f) => Ok(()),
        (false, ["gameitems", f]) => {
            let Some((t, r)) = f.split_once('.') else { return bad("item file name without a type") };
            if !types.iter().any(|x| x == t) || !r.contains('.') {
                return bad("not named <type>.<name>.<extension>");
            }
            Ok(())
        }
        (false, [d, _]) if DIRS.contains(d) => Ok(()),
        _ => bad("not in the documented layout"),
    }
}

fn check(t: &Table, root: &str, f: Pmf, derived: bool, types: &[String]) -> Result<u64, String> {
    let v = load(&build(&t.streams()))?;
    let fs = Recorder::default();
    let r = expanded::write_fs(&v, &Path::new(root), &options(f, derived), &fs);
    let made = fs.made.into_inner().unwrap();
    for (dir, p) in &made {
        confined(*dir, p, root, types)?;
    }
    Ok(hash_of(&(r.is_ok(), made.len(), made.iter().map(|m| &m.1).collect::<std::collections::BTreeSet<_>>())))
}

fn l1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// All strings of up to `n` fragments.
fn strings(frags: &[&str], n: usize) -> Vec<String> {
    let mut all: Vec<String> = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..n {
        level = level.iter().flat_map(|p| frags.iter().map(move |f| format!("{p}{f}"))).collect();
        all.extend(level.iter().cloned());
    }
    all.sort();
    all.dedup();
    all
}

#[derive(Clone, Debug)]
enum Pos {
    /// record of an item
    Item(String, String),
    Header(String),
    Image(&'static str),
    Sound(&'static str),
    Font(&'static str),
    Collection(&'static str),
    Info(&'static str),
    CustomValue,
    Material,
    Probe,
}

fn put(t: &mut Table, g: &Gen, pos: &Pos, s: &str, twice: usize) {
    let spec = g.spec;
    let b = l1(s);
    for k in 0..twice {
        match pos {
            Pos::Item(l, tag) => {
                let l = spec.get(l);
                let mut vals = exp_base(g, l);
                if l.name == "Primitive" {
                    vals = prim_vals(g, Some(&Mesh::new(4, 2).with_frames(2)));
                }
                let i = l.fields.iter().position(|f| f.tag == *tag).unwrap();
                vals[i].enc = match l.fields[i].kind {
                    Kind::WStr => wrec(tag, s),
                    _ => rec(tag, &lstr(&b)),
                };
                t.items.push(g.item_bytes(l, &vals.iter().collect::<Vec<_>>()));
            }
            Pos::Header(tag) => {
                let l = spec.get("GameData");
                let f = l.fields.iter().find(|f| f.tag == *tag).unwrap();
                let e = match f.kind {
                    Kind::WStr => wrec(tag, s),
                    Kind::Code => {
                        let mut d = rec("CODE", &[]);
                        d.extend(lstr(&b));
                        d
                    }
                    _ => rec(tag, &lstr(&b)),
                };
                t.set(tag, e);
            }
            Pos::Image(what) => {
                let mut im = match *what {
                    "bmp-name" | "bmp-path" => Img::bmp("n", "x.bmp", 2, 1, bits(2, 1, 255)),
                    _ => Img::jpeg("n", "x.png", b"image data"),
                };
                match *what {
                    "name" | "bmp-name" | "link-name" => im.name = b.clone(),
                    "path" | "bmp-path" => im.path = b.clone(),
                    "inme" => im.inme = Some(b.clone()),
                    "jpeg-name" => im.jpeg.as_mut().unwrap().name = b.clone(),
                    "jpeg-path" => im.jpeg.as_mut().unwrap().path = b.clone(),
                    _ => im.jpeg.as_mut().unwrap().inme = Some(b.clone()),
                }
                if *what == "link-name" {
                    im.jpeg = None;
                    im.link = Some(1);
                }
                t.images.push(im.enc());
            }
            Pos::Sound(what) => {
                let mut sn = Snd::new("n", if *what == "mp3-name" { "x.mp3" } else { "x.wav" }, &[1, 2, 3, 4]);
                match *what {
                    "name" | "mp3-name" => sn.name = b.clone(),
                    "path" => sn.path = b.clone(),
                    _ => sn.internal = b.clone(),
                }
                t.sounds.push(sn.enc(t.version));
            }
            Pos::Font(what) => t.fonts.push(if *what == "name" { font_stream(&b, b"x.ttf", b"font") } else { font_stream(b"font", &b, b"font") }),
            Pos::Collection(what) => t.collections.push(if *what == "name" { collection_stream(s, &["Wall1"], [true; 3]) } else { collection_stream("c", &[s, "Wall1"], [true; 3]) }),
            Pos::Info(name) => t.info.push((name.to_string(), utf16(s))),
            Pos::CustomValue => {
                if k == 0 {
                    t.custom_tags = Some(vec!["tag".into()]);
                    t.info.push(("tag".into(), utf16(s)));
                }
            }
            Pos::Material => {
                let mut m = super::p03::Mat::new("m");
                m.name = b.clone();
                super::p03::set_materials(t, g, &vec![m; twice]);
            }
            Pos::Probe => {
                let l = spec.get("RenderProbe");
                let vals = g.base_vals(l);
                let d: Vec<u8> = l.fields.iter().zip(&vals).flat_map(|(f, v)| if f.tag == "NAME" { rec("NAME", &lstr(&b)) } else { v.enc.clone() }).chain(endb()).collect();
                t.set("RPRB", rec("RPRB", &d).repeat(twice));
            }
        }
    }
}

fn positions(spec: &Spec) -> Vec<Pos> {
    let mut v = vec![];
    for l in spec.items() {
        for f in &l.fields {
            if matches!(f.kind, Kind::Str | Kind::WStr) {
                v.push(Pos::Item(l.name.clone(), f.tag.clone()));
            }
        }
    }
    for f in &spec.get("GameData").fields {
        if matches!(f.kind, Kind::Str | Kind::WStr | Kind::Code) {
            v.push(Pos::Header(f.tag.clone()));
        }
    }
    for w in ["name", "path", "inme", "jpeg-name", "jpeg-path", "jpeg-inme", "bmp-name", "bmp-path", "link-name"] {
        v.push(Pos::Image(w));
    }
    for w in ["name", "path", "internal", "mp3-name"] {
        v.push(Pos::Sound(w));
    }
    v.extend([Pos::Font("name"), Pos::Font("path"), Pos::Collection("name"), Pos::Collection("item"), Pos::CustomValue, Pos::Material, Pos::Probe]);
    for n in INFO_NAMES {
        if n != "Screenshot" {
            v.push(Pos::Info(n));
        }
    }
    v
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: ctx.thorough() };
    let mut types: Vec<String> = spec.items().iter().map(|l| l.name.clone()).collect();
    types.push("Generic".into());
    let th = ctx.thorough();
    let frags = [".", "/", "\\", "a", ":", "\0", " ", "\u{e9}", "\n"];
    let mut strs = strings(&frags, if th { 4 } else { 3 });
    for s in [
        "../../../../../../etc/passwd", "/etc/passwd", "C:\\Windows\\x", "\\\\server\\share", "a/../../..", "x.png/../../y", "x./../../y", "x./etc/passwd", "x.\\..\\..\\y", "../version.txt", "..\\gamedata.json", "con", "nul", "aux.png", "com1", "~/x", "$HOME", "%2e%2e%2f", "%00", "a.b.c",
        "..a", "a..", "...", "....", "CON:", "a|b", "a?b", "a*b", "<a>", "\"", "-rf", "x.", "x.p ng", ".png", "x.png\0.txt",
    ] {
        strs.push(s.into());
        strs.push(format!("n.{s}"));
        strs.push(format!("{s}.png"));
        strs.push(format!("{s}/"));
    }
    for n in [100usize, 200, 255, 300, 5000] {
        strs.push("a".repeat(n));
        strs.push("../".repeat(n));
        strs.push("/".repeat(n));
        strs.push(format!("x.{}", "../".repeat(n)));
        strs.push(format!("x.{}", "/a".repeat(n)));
        strs.push("\u{e9}".repeat(n));
    }
    let wide = ["\u{ff0f}", "\u{2024}\u{2024}\u{2215}", "\u{ff0e}\u{ff0e}\u{ff0f}etc", "\u{202e}gnp.x", "\u{2044}", "\u{29f8}", "\u{ff3c}", "\u{ff1a}", "\u{feff}..", "a\u{0}b", "\u{d7ff}", "\u{1f600}/.."];
    let pos = positions(&spec);
    let hot = |p: &Pos| match p {
        Pos::Item(_, t) => t == "NAME",
        Pos::Image(_) | Pos::Sound(_) | Pos::Font(_) => true,
        _ => false,
    };
    let short = strings(&frags, if th { 3 } else { 2 });
    let mut cs: Vec<(usize, String, usize)> = vec![];
    for (i, p) in pos.iter().enumerate() {
        // item names of the kinds that have files of their own get all strings, as do components
        let deep = hot(p) && !matches!(p, Pos::Item(l, _) if !["Wall", "Primitive"].contains(&l.as_str()));
        let set = if deep || th && hot(p) { &strs } else { &short };
        cs.extend(set.iter().map(|s| (i, s.clone(), 1)));
        if !std::ptr::eq(set, &strs) {
            cs.extend(strs[strs.len() - 170..].iter().map(|s| (i, s.clone(), 1)));
        }
        if hot(p) {
            cs.extend(short.iter().map(|s| (i, s.clone(), 2)));
        }
        if let Pos::Item(..) = p {
            cs.extend(wide.iter().map(|s| (i, s.to_string(), 2)));
        }
    }
    cs.par_iter().for_each(|(i, s, n)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(&format!("{:?}/{s:?}x{n}", pos[*i]), || {
            let mut t = Table::new(&spec, 1081);
            put(&mut t, &g, &pos[*i], s, *n);
            check(&t, ROOT, Pmf::Obj, false, &types)
        });
    });
    // everywhere at once, each format, generated meshes, several targets
    let mut cs = vec![];
    for s in &strs {
        for f in FORMATS {
            for derived in [false, true] {
                if f == Pmf::Obj || th || s.len() < 3 {
                    cs.push((s.clone(), f, derived, ROOT));
                }
            }
        }
        if s.len() < 2 || th {
            for r in ["/abs/dir", "x", "../rel", "a b/c.d"] {
                cs.push((s.clone(), Pmf::Obj, false, r));
            }
        }
    }
    cs.par_iter().for_each(|(s, f, derived, root)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(&format!("all/{s:?}/{f:?}/{derived}/{root}"), || {
            let mut t = Table::new(&spec, 1081);
            t.info.push(("Screenshot".into(), b"screenshot".to_vec()));
            for p in &pos {
                let skip = match p {
                    Pos::Item(l, tag) => tag != "NAME" || l == "Primitive" && !derived,
                    Pos::Header(t) => t == "CODE",
                    _ => false,
                };
                if !skip {
                    put(&mut t, &g, p, s, 1);
                }
            }
            put(&mut t, &g, &Pos::Item("Primitive".into(), "NAME".into()), s, 2);
            check(&t, root, *f, *derived, &types)
        });
    });
    // pairs of components with different names
    let few = strings(&[".", "/", "a", "\\"], 2);
    let mut cs = vec![];
    for p in [Pos::Item("Primitive".into(), "NAME".into()), Pos::Item("Wall".into(), "NAME".into()), Pos::Image("name"), Pos::Image("path"), Pos::Sound("name"), Pos::Sound("path"), Pos::Font("name"), Pos::Font("path")] {
        for a in &few {
            for b in &few {
                cs.push((p.clone(), a.clone(), b.clone()));
            }
        }
    }
    cs.par_iter().for_each(|(p, a, b)| {
        ctx.case(&format!("pair/{p:?}/{a:?}/{b:?}"), || {
            let mut t = Table::new(&spec, 1081);
            put(&mut t, &g, p, a, 1);
            put(&mut t, &g, p, b, 1);
            check(&t, ROOT, Pmf::Glb, false, &types)
        });
    });
    ctx.rule("every string of up to 3 (quick) / 4 (thorough) fragments of {. / \\ a : NUL blank e-acute newline} plus traversal, absolute, device and very long strings in the name, path and internal-name position of every component and every string record of every item kind and the header, alone, repeated, in pairs and everywhere at once, in all mesh formats with and without generated meshes and for several target directories; every file or directory that is created is recorded and must lie, without normalisation, in the documented layout of the target");
    ctx.assume("the layout: the files and the four directories gameitems, images, sounds, fonts that the expanded module documents and writes; the check records paths, nothing reaches a disk");
}
