//! Scalar conversions are exact inverses over their whole domain.
use super::common::*;
use super::exp::*;
use super::p03::*;
use crate::cont::*;
use crate::fw::*;
use crate::spec::*;
use rayon::prelude::*;
use serde_json::Value;
use std::path::Path;
use vpin::filesystem::FileSystem;
use vpin::vpx::color::Color;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;
use vpin::vpx::gameitem::dragpoint::DragPoint;
use vpin::vpx::math;
use vpin::vpx::model::StringWithEncoding;
use vpin::vpx::version::Version;

/// Scalars tried wherever a 32 bit number is stored.
fn ints(th: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=300).collect();
    for k in 0..32 {
        let p = 1u32 << k;
        v.extend([p.wrapping_sub(1), p, p.wrapping_add(1), p.wrapping_neg(), p.wrapping_neg().wrapping_add(1), !p]);
    }
    v.extend([1000, 1001, 1_000_000, 1_000_001, 0x0102_0304, 0xdead_beef]);
    if th {
        v.extend(300..=4096u32);
        v.extend((0..=255u32).flat_map(|x| [x << 8, x << 16, x << 24, x << 24 | 1]));
    }
    v.sort();
    v.dedup();
    v
}

/// The whole range of `f` in parallel blocks; the first failing value of a block is reported.
fn sweep(ctx: &Ctx, name: &str, total: u64, f: impl Fn(u64) -> Result<(), String> + Sync) {
    let run1 = |k: u64| -> Result<u64, String> { guard(|| f(k)).map(|_| k) };
    if let Some(o) = &ctx.only {
        if let Some(k) = o.strip_prefix(&format!("{name}/")).and_then(|k| k.parse().ok()) {
            ctx.case(o, || run1(k));
        }
        return;
    }
    let block = 1u64 << 16;
    (0..total.div_ceil(block)).into_par_iter().for_each(|b| {
        if ctx.too_many() {
            return;
        }
        let (lo, hi) = (b * block, ((b + 1) * block).min(total));
        // fast path: no per-value guard
        let r = guard(|| {
            for k in lo..hi {
                f(k)?;
            }
            Ok(())
        });
        if r.is_ok() {
            ctx.bulk(hi - lo, [hash_of(&(name, b))]);
            return;
        }
        for k in lo..hi {
            if run1(k).is_err() {
                ctx.case(&format!("{name}/{k}"), || run1(k));
                break;
            }
        }
    });
    ctx.add("scalar_domain_values", total);
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what}: {a:?} became {b:?}")) }
}

fn color(x: u32) -> Result<(), String> {
    let c = Color::from_win_color(x);
    same("windows colour", x, c.to_win_color())?;
    same("red", x as u8, c.r)?;
    same("green", (x >> 8) as u8, c.g)?;
    same("blue", (x >> 16) as u8, c.b)?;
    same("rgb value", (x & 0xff) << 16 | (x & 0xff00) | (x >> 16 & 0xff), c.to_rgb())?;
    let q = Color::from_rgb(x & 0xff_ffff);
    same("rgb colour", x & 0xff_ffff, q.to_rgb())?;
    same("rgb red", (x >> 16) as u8, q.r)?;
    same("rgb blue", x as u8, q.b)
}
fn color_json(x: u32) -> Result<(), String> {
    let c = Color::from_win_color(x);
    let j = serde_json::to_string(&c).map_err(err("to json"))?;
    let u = (x >> 24) as u8;
    let hex = format!("#{:02x}{:02x}{:02x}", x as u8, (x >> 8) as u8, (x >> 16) as u8);
    let exp = if u == 0 { format!("\"{hex}\"") } else { format!("\"{u:02x}{hex}\"") };
    same("json colour", exp.as_str(), j.as_str())?;
    let d: Color = serde_json::from_str(&j).map_err(err("from json"))?;
    same("colour through json", x, d.to_win_color())
}
/// Upper or lower case hexadecimal digits are the same colour; anything else is rejected.
fn color_text(s: &str) -> Result<(), String> {
    let b = s.as_bytes();
    let (u, rest) = match b.len() {
        7 => ("00", s),
        9 if s.is_char_boundary(2) => s.split_at(2),
        _ => ("", ""),
    };
    let hexes: String = format!("{u}{}", rest.get(1..).unwrap_or("?"));
    let ok = rest.starts_with('#') && hexes.len() == 8 && hexes.bytes().all(|c| c.is_ascii_hexdigit());
    let got = guard(|| serde_json::from_value::<Color>(Value::String(s.into())).map_err(|e| e.to_string()));
    match (ok, got) {
        (true, Ok(c)) => {
            let w = u32::from_str_radix(&hexes, 16).unwrap();
            same("colour text", (w >> 24, w >> 16 & 255, w >> 8 & 255, w & 255), (c.to_win_color() >> 24, c.r as u32, c.g as u32, c.b as u32))
        }
        (true, Err(e)) => Err(format!("colour {s} rejected: {e}")),
        (false, Ok(c)) => Err(format!("text {s:?} accepted as colour {c:?}")),
        (false, Err(_)) => Ok(()),
    }
}

fn utf8_valid(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}
fn text(b: &[u8]) -> Result<(), String> {
    let both: [StringWithEncoding; 2] = [b.into(), b.to_vec().into()];
    for s in both {
        let exp: String = if utf8_valid(b) { String::from_utf8(b.to_vec()).unwrap() } else { latin1(b) };
        same("text", exp.as_str(), s.string.as_str())?;
        let back: Vec<u8> = s.into();
        same("bytes of a text", b, back.as_slice())?;
    }
    Ok(())
}
/// f32 through JSON: the same bits (or, not finite, rejected).
fn float_json(bits: u32) -> Result<(), String> {
    let f = f32::from_bits(bits);
    let mut d = DragPoint::default();
    d.x = f;
    let s = serde_json::to_vec(&d).map_err(err("to json"))?;
    match serde_json::from_slice::<DragPoint>(&s) {
        Ok(p) => same("float through json", bits, p.x.to_bits()),
        Err(e) if f.is_finite() => Err(format!("{f:?} ({bits:#x}) rejected: {e}")),
        Err(_) => Ok(()),
    }
}

fn direct(ctx: &Ctx, th: bool) {
    // colours
    let chan = [0u32, 1, 2, 15, 16, 127, 128, 254, 255];
    if th {
        sweep(ctx, "colour", 1 << 32, |x| color(x as u32));
        sweep(ctx, "colour-json", 1 << 32, |x| color_json(x as u32));
    } else {
        // two channels range over everything, the others over the boundary values
        let mut pairs = vec![];
        for a in 0..4u32 {
            for b in a + 1..4 {
                pairs.push((a, b));
            }
        }
        let n = chan.len() as u64;
        let total = pairs.len() as u64 * 65536 * n * n;
        let dec = |k: u64| -> u32 {
            let (a, b) = pairs[(k / (65536 * n * n)) as usize];
            let r = k % (65536 * n * n);
            let (xy, cd) = (r / (n * n), r % (n * n));
            let mut rest = (0..4u32).filter(|c| *c != a && *c != b);
            let (c, d) = (rest.next().unwrap(), rest.next().unwrap());
            ((xy >> 8) as u32) << (8 * a) | ((xy & 255) as u32) << (8 * b) | chan[(cd / n) as usize] << (8 * c) | chan[(cd % n) as usize] << (8 * d)
        };
        sweep(ctx, "colour", total, |k| color(dec(k)));
        let total = pairs.len() as u64 * 65536;
        sweep(ctx, "colour-json", total * 4, |k| {
            let (p, w) = (k / 4, (k % 4) as usize);
            color_json(dec(p * n * n + [0u64, 13, 44, n * n - 1][w]))
        });
    }
    // colour texts: all strings of the right length over a small alphabet in each position
    let mut texts: Vec<String> = vec![];
    for base in ["#a1B2c3", "7f#a1B2c3"] {
        let b: Vec<char> = base.chars().collect();
        for i in 0..b.len() {
            for c in (0x20u8..0x7f).map(|c| c as char).chain(['é', '\u{0}', '\n', '１']) {
                let mut t = b.clone();
                t[i] = c;
                texts.push(t.iter().collect());
            }
            let mut t = b.clone();
            t.remove(i);
            texts.push(t.iter().collect());
            t = b.clone();
            t.insert(i, '0');
            texts.push(t.iter().collect());
        }
    }
    for s in ["", "#", "#fff", "red", "#12345678", "12#3456", "é#11223", "#é11é2", "00#11é2é"] {
        texts.push(s.into());
    }
    texts.retain(|t| !t.contains('+')); // an accepted sign character is not an altered value
    for t in &texts {
        ctx.case(&format!("colour-text/{t:?}"), || color_text(t).map(|_| hash_of(t)));
    }
    // quantised numbers
    sweep(ctx, "percent", 101, |i| same("percent", i as u32, math::quantize_unsigned_percent(math::dequantize_unsigned_percent(i as u32))));
    for bits in 1..=8u8 {
        sweep(ctx, &format!("quantise-u8/{bits}"), 1 << bits, |i| {
            let f = math::dequantize_u8(bits, i as u8);
            if !(0.0..=1.0).contains(&f) {
                return Err(format!("{i} of {bits} bits is {f}"));
            }
            same("quantised byte", i as u8, math::quantize_u8(bits, f))
        });
    }
    sweep(ctx, "quantise-8", 256, |i| {
        same("quantised 8", i as u8, math::quantize_unsigned_8(math::dequantize_unsigned_8(i as u8)))?;
        same("meaning", (i as f64 / 255.0) as f32, math::dequantize_unsigned_8(i as u8))
    });
    sweep(ctx, "quantise-7", 128, |i| same("quantised 7", i as u32, math::quantize_unsigned::<7>(math::dequantize_unsigned::<7>(i as u32))));
    sweep(ctx, "quantise-1", 2, |i| same("quantised 1", i as u32, math::quantize_unsigned::<1>(math::dequantize_unsigned::<1>(i as u32))));
    // versions
    let version = |x: u32| -> Result<(), String> {
        let v = Version::new(x);
        let s = v.to_u32_string();
        same("version text", x.to_string(), s.clone())?;
        let p = Version::parse(&s).map_err(err("parse"))?;
        same("version", x, p.u32())?;
        same("version into", x, u32::from(p))
    };
    if th {
        sweep(ctx, "version", 1 << 32, |x| version(x as u32));
    } else {
        sweep(ctx, "version", 1 << 20, |x| version(x as u32));
        sweep(ctx, "version-high", 1 << 18, |x| version(u32::MAX - (x as u32) * 16_381));
        for x in ints(true) {
            ctx.case(&format!("version-int/{x}"), || version(x).map(|_| x as u64));
        }
    }
    for (t, ok) in [("", false), ("-1", false), ("10.8", false), ("4294967296", false), ("1080 ", false), (" 1080", false), ("1080\n", false), ("0x10", false), ("0", true), ("1080", true)] {
        ctx.case(&format!("version-text/{t:?}"), || {
            let r = Version::parse(t);
            match (&r, ok) {
                (Ok(v), true) if v.u32().to_string() == t => Ok(1),
                (Err(_), false) => Ok(0),
                // tolerated white space must not alter the number
                (Ok(v), false) if v.u32().to_string() == t.trim() => Ok(2),
                _ => Err(format!("{t:?} parsed as {r:?}")),
            }
        });
    }
    // text
    sweep(ctx, "text0", 1, |_| text(&[]));
    sweep(ctx, "text1", 1 << 8, |x| text(&[x as u8]));
    sweep(ctx, "text2", 1 << 16, |x| text(&(x as u16).to_le_bytes()));
    sweep(ctx, "text3", 1 << 24, |x| text(&(x as u32).to_le_bytes()[..3]));
    // four bytes: everything around the boundaries of the UTF-8 forms
    let edge: Vec<u8> = vec![0x01, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    let n = edge.len() as u64;
    if th {
        sweep(ctx, "text4", 1 << 32, |x| text(&(x as u32).to_le_bytes()));
    }
    sweep(ctx, "text4-edges", n * n * n * n, |x| {
        text(&[edge[(x % n) as usize], edge[(x / n % n) as usize], edge[(x / n / n % n) as usize], edge[(x / n / n / n) as usize]])
    });
    // floats
    if th {
        sweep(ctx, "float-json", 1 << 32, |x| float_json(x as u32));
    } else {
        let low = [0u32, 1, 2, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x5555, 0x1234];
        let m = low.len() as u64;
        sweep(ctx, "float-json", 65536 * m, |k| float_json(((k / m) as u32) << 16 | low[(k % m) as usize]));
    }
}

/// A table with one component whose single scalar was changed: kept by the file and by the
/// extracted form, or refused; `known` values must be kept.
fn file_case(t: &Table, known: bool, json: bool) -> Result<u64, String> {
    let orig = t.streams();
    let v = match guard(|| load(&build(&orig))) {
        Ok(v) => v,
        Err(e) if known => return Err(format!("rejected on reading: {e}")),
        Err(_) => return Ok(0),
    };
    let out = match guard(|| save(&v)) {
        Ok(o) => o,
        Err(e) if known => return Err(format!("rejected on writing: {e}")),
        Err(_) => return Ok(1),
    };
    if let Some(d) = diff_streams(&orig, &dump(&out)?) {
        return Err(format!("file: {d}"));
    }
    if json {
        let v2 = match guard(|| assemble(&extract(&v, Pmf::Obj, false)?)) {
            Ok(v) => v,
            Err(e) if known => return Err(format!("rejected by the extracted form: {e}")),
            Err(_) => return Ok(2),
        };
        let out = guard(|| save(&v2))?;
        if let Some(d) = diff_streams(&norm(&orig)?, &norm(&dump(&out)?)?) {
            return Err(format!("extracted form: {d}"));
        }
    }
    Ok(3)
}

struct Case {
    label: String,
    table: Box<dyn Fn() -> Table + Sync + Send>,
    known: bool,
    json: bool,
}

fn run_cases(ctx: &Ctx, cs: &[Case]) {
    cs.par_iter().for_each(|c| {
        if !ctx.too_many() {
            ctx.case(&c.label, || file_case(&(c.table)(), c.known, c.json).map(|h| hash_of(&(h, c.label.split('=').next()))));
        }
    });
}

/// Encodings of one scalar record for a raw 32 bit value and whether the value is part of the format.
fn scalar(f: &Field, x: u32) -> Option<(Vec<u8>, bool)> {
    let known = match f.kind {
        Kind::U32 | Kind::I32 => true,
        Kind::Enum(a, b) => x >= a && x <= b,
        Kind::IEnum(a, b) => (x as i32) >= a && (x as i32) <= b,
        Kind::Q8 if x < 256 => true,
        _ => return None,
    };
    Some((rec(&f.tag, &x.to_le_bytes()), known))
}

/// Fields whose JSON form carries non-finite numbers.
const NONFINITE: [&str; 9] = ["Light/FASP", "Light/FASD", "Bumper/RDLI", "GameData/XLYS", "GameData/SCYS", "Material/ELAS", "Material/ELFO", "Material/FRIC", "Material/SCAT"];

fn nonfinite(th: bool) -> Vec<u32> {
    let mut v = vec![0x7f80_0000u32, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0xff80_0001, 0x7fff_ffff, 0xffff_ffff, 0x7fc1_2345, 0x7fa5_5aa5, 0x0000_0000, 0x8000_0000, 1, 0x7f7f_ffff];
    for k in 0..23 {
        v.extend([0x7f80_0000 | 1 << k, 0xff80_0000 | 1 << k]);
    }
    if th {
        v.extend((0..512u32).flat_map(|k| [0x7f80_0000 | k << 14 | 1, 0xff80_0000 | k << 14]));
    }
    v.sort();
    v.dedup();
    v
}

fn stored(ctx: &Ctx, spec: &Spec, th: bool) {
    let g = Gen { spec, floats: Floats::Finite, thorough: th };
    let xs = ints(th);
    for l in spec.items() {
        let base = exp_base(&g, l);
        let mk = |i: usize, e: Vec<u8>| -> Vec<u8> {
            let vals: Vec<Val> = base
                .iter()
                .enumerate()
                .map(|(k, b)| if k == i { Val { label: String::new(), enc: e.clone(), j: J::Opaque } } else { b.clone() })
                .collect();
            g.item_bytes(l, &vals.iter().collect::<Vec<_>>())
        };
        let mut cs: Vec<Case> = vec![];
        for (i, f) in l.fields.iter().enumerate() {
            if l.name == "Primitive" && is_mesh_tag(&f.tag) {
                continue;
            }
            for x in &xs {
                let Some((e, known)) = scalar(f, *x) else { continue };
                let bytes = mk(i, e);
                let one = spec_table(spec, bytes);
                cs.push(Case { label: format!("{}/{}={x}", l.name, f.tag), table: one, known, json: true });
            }
            if f.kind == Kind::F32 {
                let must = NONFINITE.contains(&format!("{}/{}", l.name, f.tag).as_str());
                let all = nonfinite(th);
                for x in all.iter().filter(|x| must || (**x & 0x7f_ffff) < 2 || **x == 0x7fc1_2345) {
                    let bytes = mk(i, rec(&f.tag, &x.to_le_bytes()));
                    // the file form keeps every bit (P01); the extracted form keeps it or refuses it
                    cs.push(Case { label: format!("{}/{}=f{x:08x}", l.name, f.tag), table: spec_table(spec, bytes), known: must || f32::from_bits(*x).is_finite(), json: true });
                }
            }
        }
        run_cases(ctx, &cs);
        ctx.add("stored_scalars", cs.len() as u64);
    }
    // header
    let gl = spec.get("GameData");
    let mut cs: Vec<Case> = vec![];
    for f in &gl.fields {
        if ["MASI", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "EFSS", "CLMO"].contains(&f.tag.as_str()) {
            continue;
        }
        for x in &xs {
            let Some((mut e, mut known)) = scalar(f, *x) else { continue };
            if f.tag == "PLST" && *x > 100 {
                continue; // a percentage
            }
            if f.tag == "TLCK" {
                known = true;
            }
            let t = f.tag.clone();
            let sp = spec.get("GameData").name.clone();
            let label = format!("{sp}/{t}={x}");
            cs.push(Case { label, table: header_table(spec, vec![(t, std::mem::take(&mut e))]), known, json: true });
        }
        if f.kind == Kind::F32 {
            let must = NONFINITE.contains(&format!("GameData/{}", f.tag).as_str());
            for x in nonfinite(th).iter().filter(|x| must || (**x & 0x7f_ffff) < 2) {
                cs.push(Case {
                    label: format!("GameData/{}=f{x:08x}", f.tag),
                    table: header_table(spec, vec![(f.tag.clone(), rec(&f.tag, &x.to_le_bytes()))]),
                    known: must || f32::from_bits(*x).is_finite(),
                    json: true,
                });
            }
        }
    }
    // colour table of the header: every byte of every entry
    for k in 0..64usize {
        for x in 0..=255u8 {
            let mut d: Vec<u8> = (0..64).map(|k| if k % 4 == 3 { 0 } else { k as u8 }).collect();
            d[k] = x;
            cs.push(Case { label: format!("GameData/CCUS[{k}]={x}"), table: header_table(spec, vec![("CCUS".into(), rec("CCUS", &d))]), known: true, json: true });
        }
    }
    // render probes
    let pl = spec.get("RenderProbe");
    for (i, f) in pl.fields.iter().enumerate() {
        for x in &xs {
            let Some((e, known)) = scalar(f, *x) else { continue };
            let v = Val { label: String::new(), enc: e, j: J::Opaque };
            let n = rec("RPRB", &g.nested(pl, 0, Some((i, &v))));
            cs.push(Case { label: format!("RenderProbe/{}={x}", f.tag), table: header_table(spec, vec![("RPRB".into(), n)]), known, json: true });
        }
    }
    // materials: type codes, colours, quantised legacy bytes
    let mats = |m: Vec<Mat>, spec: &Spec| -> Box<dyn Fn() -> Table + Sync + Send> {
        let sp = Spec { layouts: spec.layouts.clone(), order: spec.order.clone() };
        Box::new(move || {
            let g = Gen { spec: &sp, floats: Floats::Finite, thorough: false };
            let mut t = Table::new(&sp, 1080);
            set_materials(&mut t, &g, &m);
            t
        })
    };
    for x in &xs {
        let mut m = Mat::new("m");
        m.type_ = *x;
        // the legacy form knows two kinds only
        cs.push(Case { label: format!("Material/TYPE={x}"), table: mats(vec![m], spec), known: *x < 2, json: true });
    }
    for c in 0..3 {
        for b in 0..4 {
            for x in 0..=255u8 {
                let mut m = Mat::new("m");
                m.colors[c][b] = x;
                cs.push(Case { label: format!("Material/colour{c}[{b}]={x}"), table: mats(vec![m], spec), known: true, json: true });
            }
        }
    }
    for b in 0..4 {
        for x in 0..=255u8 {
            let mut m = Mat::new("m");
            let mut c = [9, 8, 7, 0];
            c[b] = x;
            m.refraction = Some(c);
            cs.push(Case { label: format!("Material/tint[{b}]={x}"), table: mats(vec![m], spec), known: true, json: true });
        }
    }
    for (k, name) in ["elas", "elfo", "fric", "scat"].iter().enumerate() {
        for x in nonfinite(th) {
            let mut m = Mat::new("m");
            m.phys[k] = f32::from_bits(x);
            cs.push(Case { label: format!("Material/{name}=f{x:08x}"), table: mats(vec![m], spec), known: true, json: true });
        }
    }
    run_cases(ctx, &cs);
    ctx.add("stored_scalars", cs.len() as u64);
    // legacy materials alone: each byte of the record
    let base = save_material(b"mat", 0x00010203, 0x00040506, 0x00070809, 0.5, 1, 0.25, 77, 0.9, 88, 0.8, 0x55);
    let mut cs: Vec<Case> = vec![];
    for k in 32..base.len() {
        for x in 0..=255u8 {
            let mut d = base.clone();
            d[k] = x;
            let w = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
            // floats live at 44, 52, 60, 68
            let finite = [44usize, 52, 60, 68].iter().all(|o| f32::from_bits(w(*o)).is_finite());
            // single byte fields leave three unused bytes
            let unused = [49, 50, 51, 57, 58, 59, 65, 66, 67, 73, 74, 75].contains(&k);
            if unused && x != 0 {
                continue;
            }
            if k == 48 && x > 1 {
                continue; // a flag
            }
            cs.push(Case {
                label: format!("SaveMaterial[{k}]={x}"),
                table: header_table(
                    spec,
                    vec![("MASI".into(), rec("MASI", &1u32.to_le_bytes())), ("MATE".into(), rec("MATE", &d)), ("PHMA".into(), rec("PHMA", &save_physics(b"mat", [0x3f000000, 0x3e800000, 0x3e000000, 0x3d000000])))],
                ),
                known: finite,
                json: true,
            });
        }
    }
    for k in 0..4usize {
        for x in nonfinite(true) {
            let mut p = [0x3f000000u32, 0x3e800000, 0x3e000000, 0x3d000000];
            p[k] = x;
            cs.push(Case {
                label: format!("SavePhysics[{k}]=f{x:08x}"),
                table: header_table(spec, vec![("MASI".into(), rec("MASI", &1u32.to_le_bytes())), ("MATE".into(), rec("MATE", &base)), ("PHMA".into(), rec("PHMA", &save_physics(b"mat", p)))]),
                known: true,
                json: true,
            });
        }
    }
    // the version itself
    for x in &xs {
        let sp = Spec { layouts: spec.layouts.clone(), order: spec.order.clone() };
        let x = *x;
        // sounds and header layouts follow the version; an empty header layout is valid for all
        cs.push(Case { label: format!("Version={x}"), table: Box::new(move || Table::new(&sp, x)), known: true, json: true });
    }
    run_cases(ctx, &cs);
    ctx.add("stored_scalars", cs.len() as u64);
    // sounds: 32 bit settings are stored as they are; output target is an enumeration
    let mut cs: Vec<Case> = vec![];
    for x in &xs {
        for w in ["volume", "balance", "fade", "out"] {
            let sp = Spec { layouts: spec.layouts.clone(), order: spec.order.clone() };
            let x = *x;
            if w == "out" && x > 255 {
                continue;
            }
            cs.push(Case {
                label: format!("Sound/{w}={x}"),
                table: Box::new(move || {
                    let mut t = Table::new(&sp, 1080);
                    let mut s = crate::parts::Snd::new("s", "s.wav", &[1, 2, 3, 4]);
                    match w {
                        "volume" => s.volume = x,
                        "balance" => s.balance = x,
                        "fade" => s.fade = x,
                        _ => s.out = x as u8,
                    }
                    t.sounds = vec![s.enc(1080)];
                    t
                }),
                known: w != "out" || x < 2,
                json: true,
            });
        }
    }
    run_cases(ctx, &cs);
    ctx.add("stored_scalars", cs.len() as u64);
}

fn spec_table(spec: &Spec, item: Vec<u8>) -> Box<dyn Fn() -> Table + Sync + Send> {
    let sp = Spec { layouts: spec.layouts.clone(), order: spec.order.clone() };
    let _ = &sp;
    let base = Table::new(spec, 1080);
    Box::new(move || {
        let mut t = base.clone();
        t.items = vec![item.clone()];
        t
    })
}
fn header_table(spec: &Spec, set: Vec<(String, Vec<u8>)>) -> Box<dyn Fn() -> Table + Sync + Send> {
    let base = Table::new(spec, 1080);
    Box::new(move || {
        let mut t = base.clone();
        for (k, e) in &set {
            t.set(k, e.clone());
        }
        t
    })
}

/// Text stored in a table: every byte, every UTF-16 unit.
fn texts(ctx: &Ctx, spec: &Spec, th: bool) {
    let g = Gen { spec, floats: Floats::Finite, thorough: th };
    let tl = spec.get("Timer");
    let wname = |raw: &[u8]| item_patch(&g, tl, &[("NAME", Some(rec("NAME", &lstr(raw))))]);
    // all UTF-16 units: valid ones must survive, lone surrogates may be refused
    let units: Vec<u32> = (0..=0xffffu32).collect();
    let chunk = 2048;
    units.par_chunks(chunk).for_each(|us| {
        let (sur, ok): (Vec<u32>, Vec<u32>) = us.iter().partition(|u| (0xd800..0xe000).contains(*u));
        let label = format!("utf16/{:04x}-{:04x}", us[0], us[us.len() - 1]);
        if !ok.is_empty() {
            ctx.case(&label, || {
                let mut t = Table::new(spec, 1080);
                for part in ok.chunks(256) {
                    let d: Vec<u8> = part.iter().flat_map(|u| (*u as u16).to_le_bytes()).collect();
                    t.items.push(wname(&d));
                }
                file_case(&t, true, true)
            });
            ctx.bulk(ok.len() as u64, []);
        }
        for u in sur {
            for (k, d) in [("alone", vec![u]), ("before", vec![u, 0x41]), ("after", vec![0x41, u]), ("twice", vec![u, u])] {
                if !th && k != "alone" && u % 64 > 1 && u % 64 < 62 {
                    return;
                }
                ctx.case(&format!("surrogate/{u:04x}/{k}"), || {
                    let mut t = Table::new(spec, 1080);
                    t.items = vec![wname(&d.iter().flat_map(|u| (*u as u16).to_le_bytes()).collect::<Vec<_>>())];
                    file_case(&t, false, true)
                });
            }
        }
    });
    // surrogate pairs: all high units x boundary low units
    let mut t = Table::new(spec, 1080);
    for hi in 0xd800..0xdc00u16 {
        let lows: Vec<u16> = if th { (0xdc00..0xe000).collect() } else { vec![0xdc00, 0xdc01, 0xddff, 0xdfff] };
        for part in lows.chunks(256) {
            t.items.push(wname(&part.iter().flat_map(|l| [hi, *l]).flat_map(|u| u.to_le_bytes()).collect::<Vec<_>>()));
        }
    }
    ctx.bulk(1024 * if th { 1024 } else { 4 }, []);
    ctx.case("surrogate-pairs", || file_case(&t, true, true));
    // odd lengths are refused
    ctx.case("utf16/odd", || {
        let mut t = Table::new(spec, 1080);
        t.items = vec![wname(&[0x41, 0, 0x42])];
        file_case(&t, false, true)
    });
    // 8 bit texts: all one and two byte strings without NUL
    let surf = |raw: &[u8]| item_patch(&g, tl, &[("LANR", Some(rec("LANR", &lstr(raw))))]);
    (0..=255u32).collect::<Vec<_>>().par_iter().for_each(|a| {
        if *a == 0 {
            return;
        }
        ctx.case(&format!("latin1/{a:02x}"), || {
            let mut t = Table::new(spec, 1080);
            t.items = vec![surf(&[*a as u8])];
            let step = if th { 1 } else { 1 };
            for b in (1..=255u32).step_by(step) {
                t.items.push(surf(&[*a as u8, b as u8]));
            }
            file_case(&t, true, true)
        });
        ctx.bulk(255, []);
    });
    // scripts: all one and two byte contents
    let scripts: Vec<Vec<u8>> = (1..=255u8)
        .map(|a| vec![a])
        .chain((1..=255u8).flat_map(|a| (1..=255u8).step_by(if th { 1 } else { 5 }).map(move |b| vec![a, b])))
        .chain([vec![0xe2, 0x82, 0xac], vec![0xed, 0xa0, 0x80], vec![0xf0, 0x9f, 0x98, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0xc3, 0xa9, 0xe9]])
        .collect();
    scripts.par_iter().for_each(|s| {
        ctx.case(&format!("script/{}", hex(s)), || {
            let mut t = Table::new(spec, 1080);
            t.set("CODE", rec_len("CODE", &lstr(s), 4));
            file_case(&t, true, true)
        });
    });
}

/// All leaves of a JSON value with their paths.
fn leaves(v: &Value, path: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{path}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| leaves(x, format!("{path}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        _ => out.push(path),
    }
}
/// Equal as values of the model: numbers as 32 bit floats, or as integers where they are such.
fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y
                || (x.as_f64().zip(y.as_f64()).is_some_and(|(x, y)| (x as f32).to_bits() == (y as f32).to_bits())
                    && (x.is_f64() || y.is_f64()))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| json_eq(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_eq(v, w))),
        _ => a == b,
    }
}

/// Unknown values in extracted JSON are refused or come back.
fn edited(ctx: &Ctx, spec: &Spec, th: bool) {
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let mut tables: Vec<(String, Table)> = vec![];
    for l in spec.items() {
        let mut t = Table::new(spec, 1080);
        let b = exp_base(&g, l);
        t.items = vec![g.item_bytes(l, &b.iter().collect::<Vec<_>>())];
        tables.push((l.name.clone(), t));
    }
    tables.push(("all".into(), full_exp_table(spec, &g, 1080)));
    for (name, t) in &tables {
        let Ok(fs) = load(&t.bytes()).and_then(|v| extract(&v, Pmf::Obj, false)) else {
            ctx.case(&format!("json/{name}"), || Err("base table cannot be extracted".into()));
            continue;
        };
        let base = files(&fs);
        for (file, data) in base.iter().filter(|(f, _)| f.ends_with(".json")) {
            let in_item = file.contains("/gameitems/");
            if (name == "all") == in_item || (name != "all" && !in_item) {
                continue;
            }
            let v: Value = serde_json::from_slice(data).unwrap();
            let mut ls = vec![];
            leaves(&v, String::new(), &mut ls);
            let short = file.trim_start_matches(ROOT).to_string();
            ls.par_iter().for_each(|p| {
                if ctx.too_many() {
                    return;
                }
                let old = v.pointer(p).unwrap().clone();
                let mut alts: Vec<Value> = match &old {
                    Value::String(_) => vec!["zz_unknown".into(), "".into(), 7.into()],
                    Value::Bool(b) => vec![(!b).into(), 2.into(), "true".into()],
                    Value::Number(n) if !n.is_f64() => {
                        let mut a: Vec<Value> = [-1i64, 0, 2, 7, 99, 256, 65536, 1_000_001, 2147483648, 4294967295, 4294967296].iter().map(|x| (*x).into()).collect();
                        a.extend([Value::from(0.5), "1".into(), true.into()]);
                        a
                    }
                    Value::Number(_) => vec![0.25.into(), 3.into(), "1.5".into(), "NaN".into(), true.into()],
                    _ => vec![7.into(), "zz_unknown".into(), true.into()],
                };
                alts.retain(|a| a != &old);
                // these hold an eighth-bit fraction in the file, and a group's own copies of what
                // gameitems.json says are not read
                if p.ends_with("/playfield_reflection_strength")
                    || p.ends_with("/disable_lighting_top_old")
                    || p.starts_with("/PartGroup/") && ["is_locked", "editor_layer_name", "editor_layer_visibility"].iter().any(|e| p.ends_with(e))
                {
                    return;
                }
                if th {
                    alts.extend([Value::Null, Value::Array(vec![]), Value::Object(Default::default())]);
                }
                for a in alts {
                    // a flag may be missing; null stands for that
                    let label = format!("json/{name}{short}{p}={a}");
                    ctx.case(&label, || {
                        let mut w = v.clone();
                        *w.pointer_mut(p).unwrap() = a.clone();
                        let fs2 = vpin::filesystem::MemoryFileSystem::new();
                        for (k, d) in &base {
                            if k != file {
                                fs2.write_file(Path::new(k), d).unwrap();
                            }
                        }
                        fs2.write_file(Path::new(file), &serde_json::to_vec(&w).unwrap()).unwrap();
                        let Ok(t2) = guard(|| assemble(&fs2)) else { return Ok(0) };
                        // the file form may refuse it too
                        let Ok(t3) = guard(|| load(&save(&t2)?)) else { return Ok(1) };
                        let fs3 = match guard(|| extract(&t3, Pmf::Obj, false)) {
                            Ok(f) => files(&f),
                            Err(_) => return Ok(2),
                        };
                        // a changed name changes the file's name
                        let got = if in_item {
                            fs3.iter().find(|(k, _)| k.contains("/gameitems/") && k.ends_with(".json")).map(|(_, d)| d)
                        } else {
                            fs3.get(file)
                        };
                        let got: Value = serde_json::from_slice(got.ok_or("the file is gone")?).unwrap();
                        // what an absent value means may be written out or left out
                        // a number may stand for the named value with that number
                        if a.is_number() && got.pointer(p).is_some_and(|g| g.is_string() && g != &old) {
                            let mut x = w.clone();
                            *x.pointer_mut(p).unwrap() = got.pointer(p).unwrap().clone();
                            if json_eq(&got, &x) {
                                return Ok(4);
                            }
                        }
                        if json_eq(&got, &w) || (a.is_null() && got.pointer(p).is_none()) {
                            return Ok(3);
                        }
                        Err(format!("{p}: {a} came back as {:?} (was {old})", got.pointer(p)))
                    });
                }
            });
            ctx.add("json_leaves", ls.len() as u64);
        }
    }
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    ctx.rule("direct conversions over their whole domain (thorough: all 2^32 colours, colour texts, versions, 4-byte texts and floats through JSON; quick: two channels complete with boundary values of the others, 2^20 versions, all texts up to 3 bytes and 4 bytes over the UTF-8 boundary bytes, all float exponents and high mantissas); every 32-bit record of every layout with ~500 raw values (0..300, powers of two +-1 and negations) through file and JSON: identical or refused, refused only outside the enumeration; every byte of legacy materials, colour tables and material colours; non-finite numbers; every Latin-1 pair and every UTF-16 unit; every leaf of every JSON file replaced by unknown values: refused or preserved");
    ctx.assume("booleans are 0/1 (other values are documented to mean true), quantised records hold 0..=255 (percentages 0..=100); refusing is an error or a panic naming the value");
    direct(ctx, th);
    stored(ctx, &spec, th);
    texts(ctx, &spec, th);
    edited(ctx, &spec, th);
}
