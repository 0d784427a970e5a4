//! Unknown, reordered or missing records never corrupt their neighbours.
use super::common::*;
use super::exp::*;
use super::p01::batched;
use super::p03::{Mat, bits, legacy_of};
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use std::collections::BTreeMap;

/// Documented defaults: what a missing record stands for, as stored when the item is written.
const DEFAULTS: &str = include_str!("../../spec/defaults.spec");

type Chunks = Vec<(String, Vec<u8>)>;

/// One rearrangement of a list of records.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Re {
    /// record i goes to position j
    Move(usize, usize),
    Swap(usize, usize),
    Reverse,
    Rotate(usize),
    Interleave(usize),
    /// an unknown record (shape) in front of position i
    Insert(usize, usize),
    Insert2(usize, usize, usize, usize),
    /// unknown records everywhere
    InsertAll(usize),
    /// only / all but these
    Only(Vec<usize>),
    Without(Vec<usize>),
}

/// Unknown records of all sizes; contents that look like records, terminators, lengths.
fn unknown(k: usize, foreign: &[String]) -> Vec<u8> {
    let fake = |n: usize| -> Vec<u8> { endb().into_iter().chain(rec("NAME", &wstr("fake"))).cycle().take(n).collect() };
    match k {
        0 => rec("ZZZZ", &[]),
        1 => rec("QQQQ", &[1]),
        2 => rec("XTRA", &7u32.to_le_bytes()),
        3 => rec("XYZ", &[0xff; 7]),
        4 => rec("endb", &fake(24)),
        5 => rec("ENDX", &fake(255)),
        6 => rec("U1U2", &fake(256)),
        7 => rec("LONG", &fake(70000)),
        8 => rec("Q", &[0; 12]),
        9 => rec("name", &wstr("lower")),
        10 => rec("WSTR", &lstr(b"text")),
        11 => rec("ZEND", &endb()),
        12 => rec("a_-1", &[0x80; 3]),
        13 => rec("ZZZZ", &[9; 65533]),
        k => rec(&foreign[k - 14], &1065353216u32.to_le_bytes()),
    }
}

fn apply(r: &Re, base: &Chunks, foreign: &[String]) -> Chunks {
    let mut c = base.clone();
    let n = c.len();
    let u = |k: usize| ("?".to_string(), unknown(k, foreign));
    match r {
        Re::Move(i, j) => {
            let x = c.remove(*i);
            c.insert(*j, x);
        }
        Re::Swap(i, j) => c.swap(*i, *j),
        Re::Reverse => c.reverse(),
        Re::Rotate(k) => c.rotate_left(*k),
        Re::Interleave(k) => c = (0..*k).flat_map(|o| base.iter().skip(o).step_by(*k).cloned().collect::<Vec<_>>()).collect(),
        Re::Insert(i, k) => c.insert(*i, u(*k)),
        Re::Insert2(i, k, j, m) => {
            c.insert(*j, u(*m));
            c.insert(*i, u(*k));
        }
        Re::InsertAll(k) => c = (0..=n).flat_map(|i| std::iter::once(u(*k)).chain(base.get(i).cloned())).collect(),
        Re::Only(v) => c = v.iter().map(|i| base[*i].clone()).collect(),
        Re::Without(v) => c = (0..n).filter(|i| !v.contains(i)).map(|i| base[i].clone()).collect(),
    }
    c
}

/// All rearrangements; `order[i]` says whether record i may change its place relative to the
/// records of the same tag (it may not) and `fixed` which pairs of tags keep their order.
fn rearrangements(base: &Chunks, th: bool, foreign: usize, fixed: &[(&str, &str)]) -> Vec<Re> {
    let n = base.len();
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            let near = i.abs_diff(j) <= 3 || j == 0 || j == n - 1 || j == n / 2 || (i + j) % 7 == 0;
            if i != j && (th || n <= 60 || near) {
                v.push(Re::Move(i, j));
            }
            if i + 1 < j && (th || (n <= 40 || (i * 31 + j) % 11 == 0)) {
                v.push(Re::Swap(i, j));
            }
        }
    }
    v.push(Re::Reverse);
    v.extend((1..n).map(Re::Rotate));
    v.extend((2..=n / 2).map(Re::Interleave));
    let shapes = 14 + foreign;
    for i in 0..=n {
        v.extend((0..14).map(|k| Re::Insert(i, k)));
        // known elsewhere, unknown here
        let fs: Vec<usize> = (14..shapes).filter(|k| th || (k + i) % 17 == 0 || i == 0).collect();
        v.extend(fs.into_iter().map(|k| Re::Insert(i, k)));
        for j in i..=n {
            if th || j - i < 2 {
                v.push(Re::Insert2(i, 3, j, 5));
            }
        }
    }
    v.extend((0..shapes).filter(|k| *k != 7 && *k != 13).map(Re::InsertAll));
    // absences
    v.push(Re::Only(vec![]));
    for i in 0..n {
        v.push(Re::Only(vec![i]));
        v.push(Re::Without(vec![i]));
        v.push(Re::Without((i..n).collect()));
        for j in i + 1..n {
            if th || n <= 60 || j - i < 4 || (i * 17 + j) % 5 == 0 {
                v.push(Re::Only(vec![i, j]));
                v.push(Re::Without(vec![i, j]));
                v.push(Re::Only(vec![j, i]));
            }
        }
    }
    v.retain(|r| respects(r, base, fixed));
    v
}

/// Whether a rearrangement keeps the order the format gives a meaning to.
fn respects(r: &Re, base: &Chunks, fixed: &[(&str, &str)]) -> bool {
    let c: Chunks = match r {
        Re::Insert(..) | Re::Insert2(..) | Re::InsertAll(_) => return true,
        r => apply(r, base, &[]),
    };
    let pos = |t: &str| c.iter().position(|x| x.0 == t);
    if fixed.iter().any(|(a, b)| match (pos(a), pos(b)) {
        (Some(x), Some(y)) => x > y,
        (None, Some(_)) => true,
        _ => false,
    }) {
        return false;
    }
    // several records of one tag are a list
    let mut last: BTreeMap<&str, usize> = BTreeMap::new();
    for (t, e) in &c {
        let at = base.iter().position(|(u, f)| u == t && f == e).unwrap();
        if last.insert(t, at).is_some_and(|l| l > at) {
            return false;
        }
    }
    true
}

/// All other values of records with few values, each with its record before and after every other one.
fn valued(l: &Layout, base: &Chunks, th: bool, fixed: &[(&str, &str)]) -> Vec<(String, Chunks, Vec<Re>)> {
    let n = base.len();
    let mut out = vec![];
    for f in &l.fields {
        let values: Vec<u32> = match f.kind {
            Kind::Bool => vec![0, 1],
            Kind::Enum(a, b) => (a..=b).collect(),
            Kind::IEnum(a, b) => (a..=b).map(|x| x as u32).collect(),
            _ => continue,
        };
        let at: Vec<usize> = (0..n).filter(|i| base[*i].0 == f.tag).collect();
        let [i] = at[..] else { continue };
        for x in values {
            let e = rec(&f.tag, &x.to_le_bytes());
            if e == base[i].1 {
                continue;
            }
            let mut c = base.clone();
            c[i].1 = e;
            let mut v = vec![Re::Reverse, Re::Only(vec![i])];
            v.extend([0, n - 1].into_iter().filter(|j| *j != i).map(|j| Re::Move(i, j)));
            for j in (0..n).filter(|j| *j != i) {
                v.push(Re::Without(vec![j]));
                v.push(Re::Only(vec![i, j]));
                v.push(Re::Only(vec![j, i]));
                if th {
                    v.push(Re::Move(i, j));
                    v.push(Re::Move(j, 0));
                    v.push(Re::Move(j, n - 1));
                }
            }
            v.retain(|r| respects(r, &c, fixed));
            out.push((format!("{}={x}", f.tag), c, v));
        }
    }
    out
}

pub struct Defaults(BTreeMap<(String, String), Vec<u8>>);
impl Defaults {
    pub fn load() -> Defaults {
        let mut m = BTreeMap::new();
        for l in DEFAULTS.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
            let mut w = l.split_whitespace();
            let (a, b, h) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap_or(""));
            let d: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            m.insert((a.to_string(), b.to_string()), d);
        }
        Defaults(m)
    }
    pub fn get(&self, l: &str, t: &str) -> Vec<u8> {
        self.0.get(&(l.to_string(), t.to_string())).cloned().unwrap_or_else(|| panic!("no default for {l} {t}"))
    }
}

/// The canonical form of records: the present ones in the order of `base`, a default for the others.
fn expected(d: &Defaults, l: &str, base: &Chunks, r: &Re) -> Vec<u8> {
    let present: Vec<bool> = match r {
        Re::Only(v) => (0..base.len()).map(|i| v.contains(&i)).collect(),
        Re::Without(v) => (0..base.len()).map(|i| !v.contains(&i)).collect(),
        _ => vec![true; base.len()],
    };
    let mut o = vec![];
    for (i, (t, e)) in base.iter().enumerate() {
        if present[i] {
            o.extend(e);
        } else if base.iter().filter(|x| x.0 == *t).count() == 1 {
            o.extend(d.get(l, t));
        }
    }
    o
}
fn join(c: &Chunks) -> Vec<u8> {
    c.iter().flat_map(|x| x.1.clone()).collect()
}

/// Records of one layout with a distinct value each.
fn chunks(g: &Gen, l: &Layout) -> Chunks {
    let mut o: Chunks = vec![];
    for (i, f) in l.fields.iter().enumerate() {
        let e = match f.kind {
            Kind::Points => {
                for k in 0..3 {
                    o.push((f.tag.clone(), g.points_val("", &f.tag, &[g.point(i, k)]).enc));
                }
                continue;
            }
            Kind::WStr if f.req == Req::Many => {
                for k in 0..3 {
                    o.push((f.tag.clone(), rec(&f.tag, &wstr(&format!("entry{k}")))));
                }
                continue;
            }
            Kind::Bool => rec(&f.tag, &1u32.to_le_bytes()),
            Kind::Color => rec(&f.tag, &[i as u8 + 1, 2 * i as u8 + 1, 3 * i as u8 + 1, 0]),
            Kind::Enum(_, b) => rec(&f.tag, &b.to_le_bytes()),
            Kind::IEnum(_, b) => rec(&f.tag, &b.to_le_bytes()),
            _ => g.base(f, i).enc,
        };
        if !e.is_empty() {
            o.push((f.tag.clone(), e));
        }
    }
    o
}
fn item_chunks(g: &Gen, l: &Layout) -> Chunks {
    if l.name == "Primitive" {
        let m = Mesh::new(6, 4);
        let mut c: Chunks = l.fields.iter().zip(prim_vals(g, Some(&m))).map(|(f, v)| (f.tag.clone(), v.enc)).filter(|x| !x.1.is_empty() && x.0 != "M3AY").collect();
        let at = c.iter().position(|x| x.0 == "M3CI").unwrap() + 1;
        for k in 0..2u8 {
            c.insert(at + k as usize, ("M3A".into(), rec("M3AY", &(9 + k as u32).to_le_bytes()).into_iter().chain(rec("M3AX", &[k; 9])).collect()));
        }
        return c;
    }
    chunks(g, l)
}

fn foreign_tags(spec: &Spec, l: &Layout) -> Vec<String> {
    let mut v: Vec<String> = spec.layouts.values().flat_map(|l| l.fields.iter().map(|f| f.tag.clone())).collect();
    v.sort();
    v.dedup();
    // read by any item although not among its own records
    let own: Vec<&str> = l.fields.iter().map(|f| f.tag.as_str()).collect();
    v.retain(|t| !own.contains(&t.as_str()) && t != "ENDB" && !t.starts_with("M3") && t != "CODE" && t != "DPNT");
    // walls accept these as other spellings of IMAG, SIMA, WFCT and WSCT
    v.retain(|t| l.name != "Wall" || !["IMGF", "MATR", "FRIC", "SCAT"].contains(&t.as_str()));
    v
}

/// Reads the streams of `t` with `bytes` in place of one part, writes the table again.
fn through(t: &Table) -> Result<Streams, String> {
    dump(&save(&load(&t.bytes())?)?)
}

fn put(t: &mut Table, kind: &str, b: Vec<u8>) {
    match kind {
        "items" => t.items.push(b),
        "images" => t.images.push(b),
        "fonts" => t.fonts.push(b),
        "collections" => t.collections.push(b),
        "header" => t.gamedata = vec![("all".into(), b)],
        tag => t.gamedata.iter_mut().find(|x| x.0 == tag).unwrap().1.extend(b),
    }
}

/// `wrap` turns a list of records into a stored component.
#[allow(clippy::too_many_arguments)]
fn component(ctx: &Ctx, spec: &Spec, d: &Defaults, ver: u32, name: &str, dl: &str, kind: &str, base: &Chunks, foreign: &[String], fixed: &[(&str, &str)], wrap: &(dyn Fn(Vec<u8>) -> Vec<u8> + Sync)) {
    let rs = rearrangements(base, ctx.thorough(), foreign.len(), fixed);
    ctx.note(&format!("rearrangements_{name}"), rs.len() as u64);
    arranged(ctx, spec, d, ver, name, dl, kind, base, foreign, &rs, wrap);
}
#[allow(clippy::too_many_arguments)]
fn arranged(ctx: &Ctx, spec: &Spec, d: &Defaults, ver: u32, name: &str, dl: &str, kind: &str, base: &Chunks, foreign: &[String], rs: &[Re], wrap: &(dyn Fn(Vec<u8>) -> Vec<u8> + Sync)) {
    batched(
        ctx,
        rs,
        if kind == "header" { 1 } else { 50 },
        |r| format!("{name}/{r:?}").replace(' ', ""),
        |rs| {
            let mut t = Table::new(spec, ver);
            let mut e = t.clone();
            for r in rs {
                put(&mut t, kind, wrap(join(&apply(r, base, foreign))));
                put(&mut e, kind, wrap(expected(d, dl, base, r)));
            }
            let got = through(&t)?;
            match diff_streams(&e.streams(), &got) {
                None => Ok(hash_streams(&got)),
                Some(x) => Err(x),
            }
        },
        |r| hash_of(&(name, r)),
    );
}

/// Header records; version 1080 has a record whose position means something.
fn header_chunks(spec: &Spec, g: &Gen, ver: u32) -> Chunks {
    let gl = spec.get("GameData");
    let mut o: Chunks = vec![];
    for ((name, e), f) in header_base(g, ver).into_iter().zip(&gl.fields) {
        let i = o.len();
        let one = |e: Vec<u8>| vec![(f.tag.clone(), e)];
        let counts = ["SEDT", "SSND", "SIMG", "SFNT", "SCOL"].contains(&name.as_str());
        o.extend(match f.kind {
            _ if counts => one(rec(&f.tag, &0u32.to_le_bytes())),
            Kind::Efss => one(e),
            Kind::Mate => one(rec("MATE", &[])),
            Kind::Phma => continue,
            Kind::Matr => (0..2).map(|k| (f.tag.clone(), rec("MATR", &g.nested(spec.get("Material"), 40 * k, None)))).collect(),
            Kind::Rprb => (0..2).map(|k| (f.tag.clone(), rec("RPRB", &g.nested(spec.get("RenderProbe"), 40 * k, None)))).collect(),
            Kind::Bool => one(rec(&f.tag, &1u32.to_le_bytes())),
            Kind::Color => one(rec(&f.tag, &[i as u8 + 1, (2 * i) as u8 | 1, (3 * i) as u8 | 1, 0])),
            Kind::Enum(_, b) => one(rec(&f.tag, &b.to_le_bytes())),
            Kind::IEnum(_, b) => one(rec(&f.tag, &b.to_le_bytes())),
            _ if f.tag == "MASI" => one(rec("MASI", &0u32.to_le_bytes())),
            _ => one(e),
        });
        o.retain(|x| !x.1.is_empty());
    }
    o
}
/// The same with two materials in the form of older versions.
fn legacy(c: &Chunks) -> Chunks {
    let ms: Vec<Mat> = (0..2).map(|i| Mat::new(&format!("m{i}"))).collect();
    let (a, b) = legacy_of(&ms);
    let at = c.iter().position(|x| x.0 == "MASI").unwrap();
    let mut o = c.clone();
    o[at].1 = rec("MASI", &2u32.to_le_bytes());
    o[at + 1].1 = rec("MATE", &a);
    o.insert(at + 2, ("PHMA".into(), rec("PHMA", &b)));
    o
}

fn image_chunks(im: &Img) -> Chunks {
    let mut c: Chunks = vec![("NAME".into(), rec("NAME", &lstr(&im.name)))];
    if let Some(i) = &im.inme {
        c.push(("INME".into(), rec("INME", &lstr(i))));
    }
    c.push(("PATH".into(), rec("PATH", &lstr(&im.path))));
    c.push(("WDTH".into(), rec("WDTH", &im.w.to_le_bytes())));
    c.push(("HGHT".into(), rec("HGHT", &im.h.to_le_bytes())));
    if let Some(l) = im.link {
        c.push(("LINK".into(), rec("LINK", &l.to_le_bytes())));
    }
    if let Some(b) = &im.bits {
        c.push(("BITS".into(), rec_len("BITS", b, 4)));
    }
    if let Some(j) = &im.jpeg {
        let mut n = join(&jpeg_chunks(j));
        n.extend(endb());
        c.push(("JPEG".into(), rec_len("JPEG", &n, 4)));
    }
    c.push(("ALTV".into(), rec("ALTV", &im.altv.to_le_bytes())));
    if let Some(m) = &im.md5 {
        c.push(("MD5H".into(), rec("MD5H", m)));
    }
    if let Some(b) = im.opaq {
        c.push(("OPAQ".into(), rec("OPAQ", &(b as u32).to_le_bytes())));
    }
    if let Some(b) = im.sign {
        c.push(("SIGN".into(), rec("SIGN", &(b as u32).to_le_bytes())));
    }
    assert_eq!(join(&c).into_iter().chain(endb()).collect::<Vec<u8>>(), im.enc());
    c
}
fn jpeg_chunks(j: &Jpg) -> Chunks {
    let mut c: Chunks = vec![("NAME".into(), rec("NAME", &lstr(&j.name)))];
    if let Some(i) = &j.inme {
        c.push(("INME".into(), rec("INME", &lstr(i))));
    }
    c.push(("PATH".into(), rec("PATH", &lstr(&j.path))));
    c.push(("SIZE".into(), rec("SIZE", &(j.data.len() as u32).to_le_bytes())));
    c.push(("DATA".into(), rec("DATA", &j.data)));
    c
}

type Wrap<'a> = Box<dyn Fn(Vec<u8>) -> Vec<u8> + Sync + 'a>;
/// (name, layout of the defaults, kind of component, version, records, order kept, how it is stored)
#[allow(clippy::type_complexity)]
fn parts<'a>(spec: &'a Spec, g: &'a Gen<'a>) -> Vec<(String, String, &'static str, u32, Chunks, Vec<(&'static str, &'static str)>, Wrap<'a>)> {
    let mut v: Vec<(String, String, &'static str, u32, Chunks, Vec<(&str, &str)>, Wrap)> = vec![];
    let ended = |mut b: Vec<u8>| {
        b.extend(endb());
        b
    };
    for l in spec.items() {
        let id = (l.id as u32).to_le_bytes().to_vec();
        v.push((l.name.clone(), l.name.clone(), "items", 1072, item_chunks(g, l), vec![], Box::new(move |b| id.iter().copied().chain(b).chain(endb()).collect())));
    }
    for ver in [1081u32, 1072] {
        let c = header_chunks(spec, g, ver);
        v.push((format!("GameData@{ver}"), format!("GameData@{ver}"), "header", ver, c.clone(), vec![("MASI", "MATE")], Box::new(|b| b)));
        v.push((format!("legacy GameData@{ver}"), format!("GameData@{ver}"), "header", ver, legacy(&c), vec![("MASI", "MATE"), ("MASI", "PHMA")], Box::new(|b| b)));
    }
    // parts inside others
    for l in spec.items() {
        let Some(at) = l.fields.iter().position(|f| matches!(f.kind, Kind::Points)) else { continue };
        let before: Vec<u8> = (l.id as u32).to_le_bytes().into_iter().chain(g.base_vals(l)[..at].iter().flat_map(|x| x.enc.clone())).collect();
        let after: Vec<u8> = g.base_vals(l)[at + 1..].iter().flat_map(|x| x.enc.clone()).chain(endb()).collect();
        let other = g.points_val("", "DPNT", &[g.point(at, 7)]).enc;
        v.push((format!("point of {}", l.name), "DragPoint".into(), "items", 1072, chunks(g, spec.get("DragPoint")), vec![], Box::new(move |mut b| {
            b.extend(endb());
            let p = rec_len("DPNT", &b, 4);
            [&before[..], &other, &p, &other, &after].concat()
        })));
    }
    v.push(("RenderProbe".into(), "RenderProbe".into(), "RPRB", 1081, chunks(g, spec.get("RenderProbe")), vec![], Box::new(move |mut b| {
        b.extend(endb());
        rec("RPRB", &b)
    })));
    v.push(("Material".into(), "Material".into(), "MATR", 1081, chunks(g, spec.get("Material")), vec![], Box::new(move |mut b| {
        b.extend(endb());
        rec("MATR", &b)
    })));
    v.push(("Collection".into(), "Collection".into(), "collections", 1072, chunks(g, spec.get("Collection")), vec![], Box::new(ended)));
    let font: Chunks = vec![
        ("NAME".into(), rec("NAME", &lstr(b"fontname"))),
        ("PATH".into(), rec("PATH", &lstr(b"C:\\f.ttf"))),
        ("SIZE".into(), rec("SIZE", &9u32.to_le_bytes())),
        ("DATA".into(), rec("DATA", b"font data")),
    ];
    v.push(("Font".into(), "Font".into(), "fonts", 1072, font, vec![("SIZE", "DATA"), ("DATA", "SIZE")], Box::new(ended)));
    let mut jpg = Img::jpeg("picture", "C:\\picture.png", b"the picture data");
    jpg.inme = Some(b"inner".to_vec());
    jpg.link = Some(7);
    jpg.md5 = Some([5; 16]);
    jpg.opaq = Some(true);
    jpg.sign = Some(true);
    jpg.altv = 3.5f32.to_bits();
    let mut bmp = Img::bmp("bitmap", "C:\\bitmap.bmp", 5, 4, bits(5, 4, 0x80));
    bmp.md5 = Some([6; 16]);
    bmp.altv = 4.5f32.to_bits();
    v.push(("Image".into(), "Image".into(), "images", 1081, image_chunks(&jpg), vec![], Box::new(ended)));
    v.push(("Bitmap".into(), "Image".into(), "images", 1081, image_chunks(&bmp), vec![("WDTH", "BITS"), ("HGHT", "BITS")], Box::new(ended)));
    // data in several blocks, by other encoders, containing what looks like a record header
    let mut px: Vec<u8> = (0..16 * 16 * 4u32).map(|i| (i * 37 ^ i >> 3) as u8).collect();
    px[40..48].copy_from_slice(b"\x08\x00\x00\x00ALTV");
    for (max_match, block, terminator) in [(1, 254, true), (1, 255, false), (usize::MAX, 254, true), (1, 7, true)] {
        let st = crate::lzw::Style { max_match, clear_every: 0, keep_full: false, block, terminator };
        let mut bmp = Img::bmp("bitmap", "C:\\bitmap.bmp", 16, 16, crate::lzw::encode(&px, st));
        bmp.md5 = Some([6; 16]);
        bmp.altv = 4.5f32.to_bits();
        v.push((format!("Bitmap{block}{terminator}{}", max_match == 1), "Image".into(), "images", 1081, image_chunks(&bmp), vec![("WDTH", "BITS"), ("HGHT", "BITS")], Box::new(ended)));
    }
    let mut j = jpg.jpeg.clone().unwrap();
    j.inme = Some(b"inner".to_vec());
    v.push(("ImageData".into(), "ImageData".into(), "images", 1081, jpeg_chunks(&j), vec![("SIZE", "DATA"), ("DATA", "SIZE")], Box::new(move |mut b| {
        b.extend(endb());
        let c = image_chunks(&jpg);
        c.into_iter().flat_map(|(t, e)| if t == "JPEG" { rec_len("JPEG", &b, 4) } else { e }).chain(endb()).collect()
    })));
    v
}

/// What is written when everything is missing, record by record.
fn bootstrap(spec: &Spec, g: &Gen) {
    let mut done: Vec<String> = vec![];
    for (name, dl, kind, ver, c, _, wrap) in parts(spec, g) {
        let mut t = Table::new(spec, ver);
        put(&mut t, kind, wrap(vec![]));
        let got = guard(|| through(&t));
        let s = match got {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{name}: {e}");
                continue;
            }
        };
        let find = |d: &[u8], tag: &[u8]| d.windows(4).rposition(|w| w == tag);
        let d: Vec<u8> = match (kind, dl.as_str()) {
            ("items", "DragPoint") => {
                // between the two other points
                let d = &s["/GameStg/GameItem0"];
                let at: Vec<usize> = d.windows(4).enumerate().filter(|(_, w)| *w == b"DPNT").map(|x| x.0).collect();
                d[at[1] + 4..at[2] - 4].to_vec()
            }
            ("items", _) => s["/GameStg/GameItem0"][4..].to_vec(),
            ("images", "ImageData") => {
                let d = &s["/GameStg/Image0"];
                d[find(d, b"JPEG").unwrap() + 4..].to_vec()
            }
            ("images", _) => s["/GameStg/Image0"].to_vec(),
            ("fonts", _) => s["/GameStg/Font0"].to_vec(),
            ("collections", _) => s["/GameStg/Collection0"].to_vec(),
            ("header", _) => s["/GameStg/GameData"].to_vec(),
            (k, _) => {
                let d = &s["/GameStg/GameData"];
                d[find(d, k.as_bytes()).unwrap() + 4..].to_vec()
            }
        };
        let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut p = 0;
        while p + 8 <= d.len() {
            let tag: String = d[p + 4..p + 8].iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
            let len = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
            let mut end = p + 4 + len;
            match tag.as_str() {
                "CODE" => end += 4 + u32::from_le_bytes(d[end..end + 4].try_into().unwrap()) as usize,
                // a font description without a length: up to a known record
                "FONT" => {
                    end = (end..d.len() - 8).find(|q| c.iter().any(|(t, _)| t.len() == 4 && &d[q + 4..q + 8] == t.as_bytes())).unwrap_or(d.len() - 8)
                }
                _ => {}
            }
            m.insert(tag.clone(), d[p..end].to_vec());
            p = end;
            if tag == "ENDB" {
                break;
            }
        }
        for (t, _) in c {
            let line = format!("{} {t} {}", dl.replace(' ', "_"), m.get(&t).map(|x| x.iter().map(|b| format!("{b:02x}")).collect::<String>()).unwrap_or_default());
            if !done.contains(&line) {
                println!("{line}");
                done.push(line);
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: ctx.thorough() };
    if std::env::var("MC_BOOTSTRAP").is_ok() {
        bootstrap(&spec, &g);
        return;
    }
    let d = Defaults::load();
    for (name, dl, kind, ver, base, fixed, wrap) in parts(&spec, &g) {
        let l = spec.layouts.get(dl.split('@').next().unwrap());
        let mut foreign = l.map(|l| foreign_tags(&spec, l)).unwrap_or_default();
        if kind != "items" || !ctx.thorough() {
            foreign.truncate(60);
        }
        component(ctx, &spec, &d, ver, &name, &dl, kind, &base, &foreign, &fixed, &*wrap);
        let Some(l) = l else { continue };
        let vs = valued(l, &base, ctx.thorough() || kind != "header", &fixed);
        ctx.add("other_values", vs.len() as u64);
        for (vn, c, rs) in vs {
            ctx.add("rearrangements_of_other_values", rs.len() as u64);
            arranged(ctx, &spec, &d, ver, &format!("{name}/{vn}"), &dl, kind, &c, &[], &rs, &*wrap);
        }
    }
    custom_tags(ctx, &spec);
    ctx.rule("for every record layout (items, both header generations with modern and legacy materials, drag points and render probes within items, materials, collections, fonts, images, image data, custom tags): every move, exchange, rotation, reversal and interleaving of its records, unknown records of 14 shapes (empty, huge, containing terminators or records, tags of other layouts) at every position, every single and pair absence and presence; every other value of the records with few values (switches, kinds), with its record before and after every other one and with every other one missing or alone; expected: the canonical form of the records present with the documented default for the rest, from a table of defaults");
    ctx.assume("records the format itself couples keep their order (SIZE before DATA, material count before the materials, BITS after the dimensions, the editor settings at version 1080 whose position carries meaning); an image without an alpha test value has 0");
}

/// The list of custom tags, with unknown records in between.
fn custom_tags(ctx: &Ctx, spec: &Spec) {
    for n in 0..4usize {
        for at in 0..=n {
            for k in 0..14 {
                ctx.case(&format!("CustomInfoTags/{n}/{at}/{k}"), || {
                    let mut t = Table::new(spec, 1080);
                    t.custom_tags = Some((0..n).map(|i| format!("tag{i}")).collect());
                    for i in 0..n {
                        t.info.push((format!("tag{i}"), utf16(&format!("value{i}"))));
                    }
                    let e = t.streams();
                    let mut s = e.clone();
                    let mut d = vec![];
                    for i in 0..=n {
                        if i == at {
                            d.extend(unknown(k, &[]));
                        }
                        if i < n {
                            d.extend(rec("CUST", &lstr(format!("tag{i}").as_bytes())));
                        }
                    }
                    d.extend(endb());
                    s.insert("/GameStg/CustomInfoTags".into(), d);
                    let got = dump(&save(&load(&build(&s))?)?)?;
                    match diff_streams(&e, &got) {
                        None => Ok(hash_streams(&got)),
                        Some(x) => Err(x),
                    }
                });
            }
        }
    }
}
