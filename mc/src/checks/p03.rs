//! Extracting a table to a directory and assembling it again loses nothing.
use super::common::*;
use super::exp::*;
use super::p01::{batched, full_table, header_optional_patterns};
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;

pub fn png(w: u32, h: u32) -> Vec<u8> {
    enc_img(w, h, image::ImageFormat::Png)
}
pub fn enc_img(w: u32, h: u32, f: image::ImageFormat) -> Vec<u8> {
    let im = image::RgbImage::from_fn(w, h, |x, y| image::Rgb([x as u8, y as u8, 7]));
    let mut c = std::io::Cursor::new(vec![]);
    image::DynamicImage::ImageRgb8(im).write_to(&mut c, f).unwrap();
    c.into_inner()
}
pub fn bits(w: u32, h: u32, alpha: u8) -> Vec<u8> {
    let d: Vec<u8> = (0..w * h).flat_map(|i| [i as u8, (i * 3) as u8, (i * 5 + 1) as u8, if i % 2 == 0 { alpha } else { 255 }]).collect();
    crate::lzw::encode(&d, crate::lzw::Style { max_match: usize::MAX, clear_every: 0, keep_full: false, block: 254, terminator: false })
}

/// Header whose legacy materials are the ones derived from the materials.
pub fn legacy_of(mats: &[Mat]) -> (Vec<u8>, Vec<u8>) {
    let mut a = vec![];
    let mut b = vec![];
    let q = |bits: u32, x: f32| ((x * (1u32 << bits) as f32) as u32).min((1 << bits) - 1) as u8;
    for m in mats {
        let mut n: Vec<u8> = m.name.clone();
        n.truncate(31);
        a.extend(save_material(
            &n,
            u32::from_le_bytes(m.colors[0]),
            u32::from_le_bytes(m.colors[1]),
            u32::from_le_bytes(m.colors[2]),
            m.wrap,
            (m.type_ == 1) as u8,
            m.rough,
            255 - q(8, m.gil.clamp(0.0, 1.0)),
            m.edge,
            q(8, m.thick.clamp(0.05, 1.0)),
            m.opacity,
            m.active as u8 | q(7, m.edge_alpha.clamp(0.0, 1.0)) << 1,
        ));
        b.extend(save_physics(&n, m.phys.map(|f| f.to_bits())));
    }
    (a, b)
}

#[derive(Clone, Debug)]
pub struct Mat {
    pub name: Vec<u8>,
    pub type_: u32,
    pub colors: [[u8; 4]; 3],
    pub wrap: f32,
    pub rough: f32,
    pub gil: f32,
    pub thick: f32,
    pub edge: f32,
    pub edge_alpha: f32,
    pub opacity: f32,
    pub active: bool,
    pub phys: [f32; 4],
    pub refraction: Option<[u8; 4]>,
}
impl Mat {
    pub fn new(name: &str) -> Mat {
        Mat {
            name: name.as_bytes().to_vec(),
            type_: 0,
            colors: [[1, 2, 3, 0], [4, 5, 6, 0], [7, 8, 9, 0]],
            wrap: 0.5,
            rough: 0.25,
            gil: 0.75,
            thick: 0.3,
            edge: 0.9,
            edge_alpha: 0.6,
            opacity: 0.8,
            active: true,
            phys: [0.1, 0.2, 0.3, 0.4],
            refraction: Some([9, 9, 9, 0]),
        }
    }
    pub fn enc(&self, g: &Gen) -> Vec<u8> {
        let l = g.spec.get("Material");
        let mut d = vec![];
        let f = |t: &str, x: f32| rec(t, &x.to_bits().to_le_bytes());
        for (i, fl) in l.fields.iter().enumerate() {
            let t = fl.tag.as_str();
            d.extend(match t {
                "TYPE" => rec(t, &self.type_.to_le_bytes()),
                "NAME" => rec(t, &lstr(&self.name)),
                "WLIG" => f(t, self.wrap),
                "ROUG" => f(t, self.rough),
                "GIML" => f(t, self.gil),
                "THCK" => f(t, self.thick),
                "EDGE" => f(t, self.edge),
                "EALP" => f(t, self.edge_alpha),
                "OPAC" => f(t, self.opacity),
                "BASE" => rec(t, &self.colors[0]),
                "GLOS" => rec(t, &self.colors[1]),
                "COAT" => rec(t, &self.colors[2]),
                "RTNT" => self.refraction.map(|c| rec(t, &c)).unwrap_or_default(),
                "EOPA" => rec(t, &(self.active as u32).to_le_bytes()),
                "ELAS" => f(t, self.phys[0]),
                "ELFO" => f(t, self.phys[1]),
                "FRIC" => f(t, self.phys[2]),
                "SCAT" => f(t, self.phys[3]),
                _ => g.base(fl, i).enc,
            });
        }
        d.extend(endb());
        rec("MATR", &d)
    }
}

/// Sets the materials of a table in both representations.
pub fn set_materials(t: &mut Table, g: &Gen, ms: &[Mat]) {
    let (a, b) = legacy_of(ms);
    t.set("MASI", rec("MASI", &(ms.len() as u32).to_le_bytes()));
    t.set("MATE", rec("MATE", &a));
    t.set("PHMA", rec("PHMA", &b));
    t.set("MATR", ms.iter().flat_map(|m| m.enc(g)).collect());
}

pub fn image_set(thorough: bool) -> Vec<(String, Img)> {
    use image::ImageFormat as F;
    let mut o: Vec<(String, Img)> = vec![];
    for (ext, f) in [("png", F::Png), ("PNG", F::Png), ("jpg", F::Jpeg), ("jpeg", F::Jpeg), ("webp", F::WebP), ("bmp", F::Bmp), ("BMP", F::Bmp), ("tga", F::Tga), ("gif", F::Gif), ("hdr", F::Png), ("png", F::Jpeg), ("exr", F::Png), ("dds", F::Png), ("xyz", F::Png)] {
        for (w, h) in [(3u32, 2u32), (0, 0), (3, 9), (7, 2), (u32::MAX, 1)] {
            let path = format!("C:\\a b\\x.{ext}");
            let mut i = Img::jpeg("img", &path, &enc_img(3, 2, f));
            i.w = w;
            i.h = h;
            o.push((format!("{ext}({f:?})/{w}x{h}"), i));
        }
    }
    for ext in ["png", "jpg", "bmp", "webp", "hdr", "exr", "", "zzz"] {
        for (l, d) in [("empty", vec![]), ("text", b"not an image".to_vec()), ("trunc", png(4, 4)[..20].to_vec()), ("bm", b"BM".to_vec())] {
            o.push((format!("junk/{ext}/{l}"), Img::jpeg("img", &format!("d\\x.{ext}"), &d)));
        }
    }
    for p in ["noext", "", "a.b\\c", "x.tar.png", "http://h/x.png", ".", "..", "x."] {
        o.push((format!("path={p:?}"), Img::jpeg("img", p, &png(3, 2))));
    }
    for (w, h) in [(1u32, 1u32), (1, 7), (7, 1), (3, 2), (5, 5), (64, 3)] {
        for ext in ["bmp", "BMP", "Bmp"] {
            for a in [255u8, 0, 128] {
                o.push((format!("bits/{ext}/{w}x{h}/a{a}"), Img::bmp("img", &format!("x.{ext}"), w, h, bits(w, h, a))));
            }
        }
        for ext in ["png", "tga", "", "jpg"] {
            o.push((format!("bits/{ext}/{w}x{h}"), Img::bmp("img", &format!("x.{ext}"), w, h, bits(w, h, 255))));
        }
    }
    let base = {
        let mut i = Img::jpeg("img", "c:\\img.png", &png(3, 2));
        i.inme = Some(b"INNER".to_vec());
        i.link = Some(0);
        i.md5 = Some([0xab; 16]);
        i.opaq = Some(true);
        i.sign = Some(false);
        i
    };
    let mut add = |l: String, f: &dyn Fn(&mut Img)| {
        for b in [false, true] {
            let mut i = base.clone();
            if b {
                i.jpeg = None;
                i.path = b"c:\\img.bmp".to_vec();
                i.bits = Some(bits(3, 2, 255));
            }
            f(&mut i);
            o.push((format!("{l}/bits={b}"), i));
        }
    };
    add("base".into(), &|_| {});
    for (l, b) in latin1_menu(thorough) {
        add(format!("name={l}"), &|i| i.name = b.clone());
        add(format!("inme={l}"), &|i| i.inme = Some(b.clone()));
        add(format!("path={l}"), &|i| i.path = b.clone());
        add(format!("jname={l}"), &|i| if let Some(j) = &mut i.jpeg { j.name = b.clone() });
        add(format!("jinme={l}"), &|i| if let Some(j) = &mut i.jpeg { j.inme = Some(b.clone()) });
        add(format!("jpath={l}"), &|i| if let Some(j) = &mut i.jpeg { j.path = b.clone() });
    }
    for (l, b) in float_menu(Floats::Finite, thorough) {
        add(format!("altv={l}"), &|i| i.altv = b);
    }
    add("altv=-1".into(), &|i| i.altv = (-1f32).to_bits());
    for m in 0..64u32 {
        add(format!("opts={m:06b}"), &|i| {
            i.md5 = (m & 1 != 0).then_some([m as u8; 16]);
            i.opaq = (m & 2 != 0).then_some(m & 32 != 0);
            i.sign = (m & 4 != 0).then_some(m & 32 == 0);
            i.link = (m & 8 != 0).then_some(3);
            i.inme = (m & 16 != 0).then_some(b"q".to_vec());
        });
    }
    for l in [2u32, 3, u32::MAX] {
        add(format!("link={l}"), &|i| i.link = Some(l));
    }
    // links carry no data
    for (w, h) in [(0u32, 0u32), (3, 2), (u32::MAX, 7)] {
        for ext in ["png", "bmp", "jpg", ""] {
            let mut i = Img::jpeg("link", &format!("x.{ext}"), b"");
            i.jpeg = None;
            i.link = Some(1);
            i.w = w;
            i.h = h;
            o.push((format!("link/{ext}/{w}x{h}"), i));
        }
    }
    o
}

pub fn sound_set(thorough: bool) -> Vec<(String, Snd)> {
    let base = Snd::new("snd", "C:\\a\\snd.wav", &[1, 2, 3, 4]);
    let mut o: Vec<(String, Snd)> = vec![("base".into(), base.clone())];
    let mut add = |l: String, f: &dyn Fn(&mut Snd)| {
        let mut i = base.clone();
        f(&mut i);
        o.push((l, i));
    };
    for (l, b) in latin1_menu(thorough) {
        add(format!("name={l}"), &|i| i.name = b.clone());
        add(format!("path={l}"), &|i| i.path = b.clone());
        add(format!("internal={l}"), &|i| i.internal = b.clone());
    }
    for p in [
        "", "x", "x.wav", "x.WAV", "x.WaV", "x.ogg", "x.mp3", "x.wav.ogg", "x.ogg.wav", ".wav",
        "* Backglass Output *", "a.b/c", "x.", "x.w", "dir.wav/y", "C:\\s.t\\x", "x.wavx", "a/b.o/g\\g",
    ] {
        add(format!("path={p:?}"), &|i| i.path = p.as_bytes().to_vec());
    }
    // every PCM header shape, data of every length around chunk padding
    for ch in [1u16, 2, 6, 0, 65535] {
        for bits in [0u16, 4, 8, 12, 16, 24, 32, 65535] {
            add(format!("pcm/{ch}/{bits}"), &|i| {
                i.wave.channels = ch;
                i.wave.bits = bits;
                i.wave.align = ch.wrapping_mul(bits / 8);
                i.wave.bps = i.wave.align as u32 * 11025;
                i.wave.rate = 11025;
            });
        }
    }
    for x in [0u32, 1, 7, 8000, 0x7fff_ffff, u32::MAX] {
        add(format!("rate={x}"), &|i| i.wave.rate = x);
        add(format!("bps={x}"), &|i| i.wave.bps = x);
        add(format!("volume={x}"), &|i| i.volume = x);
        add(format!("balance={x}"), &|i| i.balance = x);
        add(format!("fade={x}"), &|i| i.fade = x);
    }
    for x in [0u16, 1, 3, 0xff, 0xffff] {
        add(format!("align={x}"), &|i| i.wave.align = x);
    }
    for tag in [0u16, 2, 3, 6, 7, 17, 80, 85, 0xfffe, 0xffff] {
        for cb in [0u16, 1, 22, 32, 0xffff] {
            for n in [0usize, 1, 5, 64] {
                add(format!("tag={tag}/cb={cb}/data={n}"), &|i| {
                    i.wave.tag = tag;
                    i.wave.cb = cb;
                    i.data = (0..n).map(|k| k as u8 ^ 0x5a).collect();
                });
            }
        }
    }
    for n in [0usize, 1, 2, 3, 255, 256, 65535, 65536] {
        add(format!("data={n}"), &|i| i.data = (0..n).map(|k| k as u8).collect());
    }
    for (l, d) in [
        ("data", b"data\x04\x00\x00\x00abcd".to_vec()),
        ("nul", vec![0u8; 9]),
        ("nuldata", b"\x00\x00data\x00\x00\x00\x00xy".to_vec()),
        ("riff", b"RIFF\x24\x00\x00\x00WAVEfmt ".to_vec()),
        ("list", b"LIST\x04\x00\x00\x00abcd".to_vec()),
    ] {
        for p in ["x.wav", "x.ogg"] {
            add(format!("content={l}/{p}"), &|i| {
                i.path = p.as_bytes().to_vec();
                i.data = d.clone();
            });
        }
    }
    add("out=1".into(), &|i| i.out = 1);
    o
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: th };
    ctx.rule("every record deviation and optional-record pattern of every item type, header, material, render probe, image, sound, font, collection, table info; meshes of many shapes in three formats; every case: file -> table -> extracted files (in memory) -> table -> file, all streams compared with the stored ones (compressed payloads compared by content), then extracted again and all files compared");
    ctx.assume("extraction target is empty; floats are finite except in fields whose JSON form carries non-finite values; a table with both material representations holds the legacy one derived from the new one; PCM sounds have a zero extension size; links (LINK=1) carry no image data; bitmap data has width*height pixels");
    // items
    for l in spec.items() {
        let mut vs = exp_variants(&g, l);
        if th {
            let base = exp_base(&g, l);
            let prim = l.name == "Primitive";
            for (i, j, a, b) in pairs(&g, l, 2) {
                if prim && (is_mesh_tag(&l.fields[i].tag) || is_mesh_tag(&l.fields[j].tag)) {
                    continue;
                }
                let v: Vec<&Val> = base
                    .iter()
                    .enumerate()
                    .map(|(k, x)| if k == i { &a } else if k == j { &b } else { x })
                    .collect();
                vs.push(Variant {
                    label: format!("{}/{}={},{}={}", l.name, l.fields[i].tag, a.label, l.fields[j].tag, b.label),
                    bytes: g.item_bytes(l, &v),
                });
            }
        }
        ctx.note(&format!("variants_{}", l.name), vs.len() as u64);
        let fm: &[Pmf] = if l.name == "Primitive" { &FORMATS } else { &FORMATS[..1] };
        for f in fm {
            batched(
                ctx,
                &vs,
                60,
                |v| if fm.len() > 1 { format!("{f:?}/{}", v.label) } else { v.label.clone() },
                |vs| {
                    let mut t = Table::new(&spec, 1080);
                    t.items = vs.iter().map(|v| v.bytes.clone()).collect();
                    exp_roundtrip(&t, *f, false)
                },
                |v| hash_of(&v.bytes),
            );
        }
        // with generated meshes next to the items the assembled table is the same
        if th {
            for f in FORMATS {
                batched(
                    ctx,
                    &vs[..vs.len().min(200)],
                    20,
                    |v| format!("derived/{f:?}/{}", v.label),
                    |vs| {
                        let mut t = Table::new(&spec, 1080);
                        t.items = vs.iter().map(|v| v.bytes.clone()).collect();
                        exp_roundtrip(&t, f, true)
                    },
                    |v| hash_of(&v.bytes),
                );
            }
        }
    }
    // header
    let gl = spec.get("GameData");
    let mut hv: Vec<(String, u32, usize, Val)> = vec![];
    let versions: &[u32] = if th { &VERSIONS } else { &[1030, 1072, 1080, 1081] };
    for &ver in versions {
        for (i, f) in gl.fields.iter().enumerate() {
            if ["MASI", "MATE", "PHMA", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "EFSS", "MATR"].contains(&f.tag.as_str()) {
                continue;
            }
            for a in g.menu(f, i) {
                hv.push((format!("GameData@{ver}/{}={}", f.tag, a.label), ver, i, a));
            }
        }
    }
    ctx.note("header_variants", hv.len() as u64);
    hv.par_iter().for_each(|(label, ver, i, a)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(label, || {
            let mut t = Table::new(&spec, *ver);
            t.gamedata[*i].1 = a.enc.clone();
            exp_roundtrip(&t, Pmf::Obj, false)
        });
    });
    for ver in VERSIONS {
        for clmo in [None, Some(0u32), Some(1)] {
            for pos in ["absent", "new", "old"] {
                if (ver < 1080 && pos == "new") || (ver > 1080 && pos == "old") {
                    continue;
                }
                for on in [0u32, 1] {
                    for vsm in [true, false] {
                        ctx.case(&format!("EFSS@{ver}/clmo={clmo:?}/{pos}/{on}/vsm={vsm}"), || {
                            let mut t = Table::new(&spec, ver);
                            t.set("CLMO", clmo.map(|c| rec("CLMO", &c.to_le_bytes())).unwrap_or_default());
                            t.set("EFSS@new", vec![]);
                            t.set("EFSS@old", vec![]);
                            if pos != "absent" {
                                t.set(&format!("EFSS@{pos}"), rec("EFSS", &on.to_le_bytes()));
                            }
                            if !vsm {
                                t.set("VSM0", vec![]);
                            }
                            exp_roundtrip(&t, Pmf::Obj, false)
                        });
                    }
                }
            }
        }
    }
    let ov = header_optional_patterns(&spec, &g, th);
    ov.par_iter().for_each(|(label, ver, absent)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(label, || {
            let mut t = Table::new(&spec, *ver);
            for i in absent {
                t.gamedata[*i].1 = vec![];
            }
            exp_roundtrip(&t, Pmf::Obj, false)
        });
    });
    materials(ctx, &spec, &g);
    // images, sounds
    let iv = image_set(th);
    batched(ctx, &iv, 1, |v| format!("Image/{}", v.0), |vs| {
        let mut t = Table::new(&spec, 1080);
        t.images = vs.iter().map(|v| v.1.enc()).collect();
        exp_roundtrip(&t, Pmf::Obj, false)
    }, |v| hash_of(&v.1.enc()));
    for ver in [1030u32, 1031, 1080] {
        let sv = sound_set(th);
        batched(ctx, &sv, 1, |v| format!("Sound@{ver}/{}", v.0), |vs| {
            let mut t = Table::new(&spec, ver);
            t.sounds = vs.iter().map(|v| v.1.enc(ver)).collect();
            exp_roundtrip(&t, Pmf::Obj, false)
        }, |v| hash_of(&(ver, v.1.enc(ver))));
    }
    // large parts and many parts
    super::large::all(th).par_iter().for_each(|l| {
        if !ctx.too_many() {
            ctx.case(&l.label, || exp_roundtrip(&l.table(&spec), Pmf::Obj, false));
        }
    });
    // fonts, collections
    let mut fv: Vec<(String, Vec<u8>)> = vec![];
    for (l, b) in latin1_menu(th) {
        fv.push((format!("Font/name={l}"), font_stream(&b, b"f.ttf", b"data")));
        fv.push((format!("Font/path={l}"), font_stream(b"f", &b, b"data")));
    }
    for n in [0usize, 1, 255, 256, 70000] {
        fv.push((format!("Font/data={n}"), font_stream(b"f", b"f.ttf", &vec![n as u8; n])));
    }
    batched(ctx, &fv, 1, |v| v.0.clone(), |vs| {
        let mut t = Table::new(&spec, 1080);
        t.fonts = vs.iter().map(|v| v.1.clone()).collect();
        exp_roundtrip(&t, Pmf::Obj, false)
    }, |v| hash_of(&v.1));
    let mut cv: Vec<(String, Vec<u8>)> = vec![];
    for (l, b) in wide_menu(true) {
        cv.push((format!("Collection/name={l}"), collection_stream(&b, &["a", "b"], [true, false, true])));
        cv.push((format!("Collection/item={l}"), collection_stream("c", &["a", &b, "b"], [true, false, true])));
    }
    for m in 0..8 {
        cv.push((format!("Collection/flags={m}"), collection_stream("c", &["x"], [m & 1 != 0, m & 2 != 0, m & 4 != 0])));
    }
    for n in [0usize, 1, 2, 3, 300] {
        let names: Vec<String> = (0..n).map(|i| format!("item{}", i % 7)).collect();
        let r: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        cv.push((format!("Collection/count={n}"), collection_stream("c", &r, [false; 3])));
    }
    batched(ctx, &cv, 10, |v| v.0.clone(), |vs| {
        let mut t = Table::new(&spec, 1080);
        t.collections = vs.iter().map(|v| v.1.clone()).collect();
        exp_roundtrip(&t, Pmf::Obj, false)
    }, |v| hash_of(&v.1));
    // table info
    let mut menu = wide_menu(true);
    menu.push(("big".into(), "z".repeat(5000)));
    for n in INFO_NAMES {
        for (l, s) in &menu {
            ctx.case(&format!("Info/{n}={l}"), || {
                let mut t = Table::new(&spec, 1072);
                let d = if n == "Screenshot" { s.as_bytes().to_vec() } else { utf16(s) };
                t.info.push((n.into(), d));
                exp_roundtrip(&t, Pmf::Obj, false)
            });
        }
    }
    for m in 0..(1u32 << 12) {
        if !th && m.count_ones() > 2 && m.count_ones() < 11 {
            continue;
        }
        ctx.case(&format!("Info/mask={m:012b}"), || {
            let mut t = Table::new(&spec, 1072);
            for (i, n) in INFO_NAMES.iter().enumerate() {
                if m >> i & 1 == 1 {
                    t.info.push((n.to_string(), if *n == "Screenshot" { vec![1, 2, 3] } else { utf16(&format!("v{i}")) }));
                }
            }
            exp_roundtrip(&t, Pmf::Obj, false)
        });
    }
    for tags in [
        vec!["A"],
        vec!["B", "A"],
        vec!["A", "A"],
        vec!["x y", "Z\u{e9}", "q"],
        vec!["z", "m", "a"],
        vec![],
    ] {
        for m in 0..(1u32 << tags.len().min(3)) {
            for extra in [false, true] {
                ctx.case(&format!("Custom/{tags:?}/values={m:03b}/extra={extra}"), || {
                    let mut t = Table::new(&spec, 1072);
                    t.custom_tags = Some(tags.iter().map(|s| s.to_string()).collect());
                    let mut seen = vec![];
                    for (i, n) in tags.iter().enumerate() {
                        if m >> i & 1 == 1 && !seen.contains(n) {
                            seen.push(*n);
                            t.info.push((n.to_string(), utf16(&format!("val{i} é"))));
                        }
                    }
                    if extra {
                        t.info.push(("Unlisted".into(), utf16("free")));
                    }
                    exp_roundtrip(&t, Pmf::Obj, false)
                });
            }
        }
    }
    // orders
    let items = spec.items();
    for a in &items {
        for b in &items {
            ctx.case(&format!("Order/{},{}", a.name, b.name), || {
                let mut t = Table::new(&spec, 1080);
                for l in [a, b] {
                    let v = exp_base(&g, l);
                    t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
                }
                exp_roundtrip(&t, Pmf::Obj, false)
            });
        }
    }
    for ver in VERSIONS {
        for f in FORMATS {
            for derived in [false, true] {
                ctx.case(&format!("Full@{ver}/{f:?}/derived={derived}"), || {
                    exp_roundtrip(&full_exp_table(&spec, &g, ver), f, derived)
                });
            }
        }
    }
}

/// A table with every kind of component, extractable.
pub fn full_exp_table(spec: &Spec, g: &Gen, ver: u32) -> Table {
    let mut t = full_table(spec, g, ver);
    for (it, l) in t.items.iter_mut().zip(spec.items()) {
        let v = if l.name == "Primitive" { prim_vals(g, Some(&Mesh::new(6, 4).with_frames(2))) } else { g.base_vals(l) };
        *it = g.item_bytes(l, &v.iter().collect::<Vec<_>>());
    }
    t.images.push(Img::jpeg("photo", "c:\\photo.png", &png(4, 3)).enc());
    t.images.push(Img::bmp("bitmap", "c:\\bitmap.bmp", 5, 4, bits(5, 4, 255)).enc());
    t
}

fn materials(ctx: &Ctx, spec: &Spec, g: &Gen) {
    let mut ms: Vec<(String, Mat)> = vec![];
    let base = Mat::new("mat");
    let mut add = |l: String, f: &dyn Fn(&mut Mat)| {
        let mut m = base.clone();
        f(&mut m);
        ms.push((l, m));
    };
    add("base".into(), &|_| {});
    for (l, b) in latin1_menu(g.thorough) {
        if b.len() <= 31 {
            add(format!("name={l}"), &|m| m.name = b.clone());
        }
    }
    for x in 0..2u32 {
        add(format!("type={x}"), &|m| m.type_ = x);
    }
    for k in 0..3usize {
        for c in [[0, 0, 0, 0u8], [255, 0, 0, 0], [0, 255, 0, 0], [0, 0, 255, 0], [255, 255, 255, 0]] {
            add(format!("color{k}={}", hex(&c)), &|m| m.colors[k] = c);
        }
    }
    for (l, b) in float_menu(Floats::Finite, g.thorough) {
        let x = f32::from_bits(b);
        add(format!("wrap={l}"), &|m| m.wrap = x);
        add(format!("rough={l}"), &|m| m.rough = x);
        add(format!("gil={l}"), &|m| m.gil = x);
        add(format!("thick={l}"), &|m| m.thick = x);
        add(format!("edge={l}"), &|m| m.edge = x);
        add(format!("ealp={l}"), &|m| m.edge_alpha = x);
        add(format!("opac={l}"), &|m| m.opacity = x);
        for k in 0..4 {
            add(format!("phys{k}={l}"), &|m| m.phys[k] = x);
        }
    }
    let n = if g.thorough { 2048 } else { 520 };
    for i in 0..=n {
        let x = i as f32 / (n - 8) as f32;
        add(format!("grid={i}"), &|m| {
            m.gil = x;
            m.thick = 1.0 - x;
            m.edge_alpha = x;
        });
    }
    add("inactive".into(), &|m| m.active = false);
    batched(ctx, &ms, 50, |m| format!("Material/{}", m.0), |vs| {
        let mut t = Table::new(spec, 1080);
        set_materials(&mut t, g, &vs.iter().map(|v| v.1.clone()).collect::<Vec<_>>());
        exp_roundtrip(&t, Pmf::Obj, false)
    }, |m| hash_of(&m.1.enc(g)));
    for n in 0..4usize {
        ctx.case(&format!("Material/count={n}"), || {
            let mut t = Table::new(spec, 1080);
            set_materials(&mut t, g, &(0..n).map(|i| Mat::new(&format!("m{i}"))).collect::<Vec<_>>());
            exp_roundtrip(&t, Pmf::Obj, false)
        });
    }
    // legacy only
    let mut ls: Vec<(String, Vec<u8>, Vec<u8>)> = vec![];
    let m = |n: &[u8]| save_material(n, 0x112233, 0x445566, 0x778899, 0.5, 0, 0.25, 128, 0.75, 13, 0.9, 1);
    let p = |n: &[u8]| save_physics(n, [1, 2, 3, 4].map(|x: u32| (x as f32).to_bits()));
    ls.push(("base".into(), m(b"x"), p(b"x")));
    for (l, n) in latin1_menu(g.thorough) {
        if n.len() <= 31 {
            ls.push((format!("name={l}"), m(&n), p(b"q")));
            ls.push((format!("pname={l}"), m(b"q"), p(&n)));
        }
    }
    for x in 0..=255u8 {
        ls.push((format!("gil={x}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, x, 0.75, 13, 0.9, 1), p(b"m")));
        ls.push((format!("thick={x}"), save_material(b"m", 1, 2, 3, 0.5, 1, 0.25, 9, 0.75, x, 0.9, 1), p(b"m")));
        ls.push((format!("oaea={x}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, 0.75, 4, 0.9, x), p(b"m")));
    }
    for (l, f) in float_menu(Floats::Finite, g.thorough) {
        let f = f32::from_bits(f);
        ls.push((format!("wrap={l}"), save_material(b"m", 1, 2, 3, f, 0, 0.25, 9, 0.75, 4, 0.9, 1), p(b"m")));
        ls.push((format!("rough={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, f, 9, 0.75, 4, 0.9, 1), p(b"m")));
        ls.push((format!("edge={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, f, 4, 0.9, 1), p(b"m")));
        ls.push((format!("opacity={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, 0.75, 4, f, 1), p(b"m")));
    }
    for (l, f) in float_menu(Floats::All, g.thorough) {
        for k in 0..4 {
            let mut a = [1f32.to_bits(); 4];
            a[k] = f;
            ls.push((format!("phys{k}={l}"), m(b"m"), save_physics(b"m", a)));
        }
    }
    batched(ctx, &ls, 50, |m| format!("Legacy/{}", m.0), |vs| {
        let mut t = Table::new(spec, 1072);
        t.set("MASI", rec("MASI", &(vs.len() as u32).to_le_bytes()));
        t.set("MATE", rec("MATE", &vs.iter().flat_map(|v| v.1.clone()).collect::<Vec<_>>()));
        t.set("PHMA", rec("PHMA", &vs.iter().flat_map(|v| v.2.clone()).collect::<Vec<_>>()));
        exp_roundtrip(&t, Pmf::Obj, false)
    }, |m| hash_of(&(&m.1, &m.2)));
    ctx.case("Legacy/no-physics", || {
        let mut t = Table::new(spec, 1060);
        t.set("MASI", rec("MASI", &1u32.to_le_bytes()));
        t.set("MATE", rec("MATE", &m(b"mm")));
        t.set("PHMA", vec![]);
        exp_roundtrip(&t, Pmf::Obj, false)
    });
}
