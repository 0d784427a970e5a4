//! Bitmap extraction and WebP conversion never change a pixel.
use super::common::*;
use super::exp::*;
use crate::cont::*;
use crate::fw::*;
use crate::lzw;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;

/// A bitmap: BGRA pixels, top row first.
#[derive(Clone)]
struct Bmp {
    label: String,
    w: u32,
    h: u32,
    px: Vec<u8>,
}

fn compress(d: &[u8]) -> Vec<u8> {
    lzw::encode(d, lzw::Style { max_match: usize::MAX, clear_every: 0, keep_full: false, block: 254, terminator: false })
}

/// Independent decoder of BMP files: BGRA, top row first; whether the file has an alpha channel.
fn read_bmp(f: &[u8]) -> Result<(u32, u32, Vec<u8>, bool), String> {
    let u16_ = |p: usize| u16::from_le_bytes(f[p..p + 2].try_into().unwrap()) as usize;
    let u32_ = |p: usize| u32::from_le_bytes(f[p..p + 4].try_into().unwrap());
    if f.len() < 54 || &f[..2] != b"BM" {
        return Err("not a BMP file".into());
    }
    if u32_(2) as usize != f.len() {
        return Err(format!("the BMP header says {} bytes, the file has {}", u32_(2), f.len()));
    }
    let (off, hs) = (u32_(10) as usize, u32_(14) as usize);
    let (w, h) = (u32_(18) as i32, u32_(22) as i32);
    let (planes, bpp, comp) = (u16_(26), u16_(28), u32_(30));
    if w < 0 || planes != 1 {
        return Err(format!("BMP width {w}, {planes} planes"));
    }
    let (uw, uh) = (w as usize, h.unsigned_abs() as usize);
    let masks: [u32; 4] = match (bpp, comp) {
        (24, 0) => [0xff0000, 0xff00, 0xff, 0],
        (32, 0) => [0xff0000, 0xff00, 0xff, 0],
        (32, 3) if hs >= 56 => [u32_(54), u32_(58), u32_(62), u32_(66)],
        x => return Err(format!("BMP with {x:?} (bits, compression)")),
    };
    if off < 14 + hs {
        return Err("pixels inside the BMP header".into());
    }
    let stride = (uw * bpp / 8).div_ceil(4) * 4;
    if off + stride * uh != f.len() {
        return Err(format!("BMP of {} bytes, {off}+{stride}x{uh} needed", f.len()));
    }
    let mut px = Vec::with_capacity(uw * uh * 4);
    for y in 0..uh {
        let row = off + stride * if h > 0 { uh - 1 - y } else { y };
        for x in 0..uw {
            let mut v = 0u32;
            for b in 0..bpp / 8 {
                v |= (f[row + x * bpp / 8 + b] as u32) << (8 * b);
            }
            let ch = |m: u32| if m == 0 { 255 } else { ((v & m) >> m.trailing_zeros()) as u8 };
            px.extend([ch(masks[2]), ch(masks[1]), ch(masks[0]), ch(masks[3])]);
        }
    }
    Ok((uw as u32, uh as u32, px, masks[3] != 0))
}

/// Bitmaps of every small size with position-dependent pixels, every alpha pattern, every
/// assignment of a small colour set to few pixels, every value of every channel, long rows.
fn bitmaps(thorough: bool) -> Vec<Bmp> {
    let mut o = vec![];
    let mut add = |label: String, w: u32, h: u32, px: Vec<u8>| o.push(Bmp { label, w, h, px });
    let pos = |w: u32, h: u32, a: &dyn Fn(u32) -> u8| -> Vec<u8> {
        (0..w * h).flat_map(|i| [(i * 7 + 1) as u8, (i / w * 31 + 2) as u8, (i % w * 13 + 3) as u8 ^ (i >> 8) as u8, a(i)]).collect()
    };
    let m = if thorough { 33 } else { 12 };
    for w in 1..=m {
        for h in 1..=m {
            for a in [255u8, 0, 254] {
                add(format!("size/{w}x{h}/alpha={a}"), w, h, pos(w, h, &|_| a));
            }
            // one pixel that is not opaque: first, last, middle
            for k in [0, w * h - 1, w * h / 2] {
                for v in [0u8, 254] {
                    add(format!("size/{w}x{h}/alpha[{k}]={v}"), w, h, pos(w, h, &|i| if i == k { v } else { 255 }));
                }
            }
        }
    }
    // every alpha pattern over {0, 128, 255} of small bitmaps
    for (w, h) in [(1u32, 1u32), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3), (3, 2), (2, 3), (4, 2)] {
        let n = w * h;
        if n > 6 && !thorough {
            continue;
        }
        for c in 0..3u32.pow(n) {
            let d = |i: u32| [255u8, 0, 128][(c / 3u32.pow(i) % 3) as usize];
            add(format!("alphas/{w}x{h}/{c}"), w, h, pos(w, h, &d));
        }
    }
    // every assignment of colours to few pixels
    let colors: [[u8; 4]; 7] = [[0, 0, 0, 255], [255, 0, 0, 255], [0, 255, 0, 255], [0, 0, 255, 255], [255, 255, 255, 255], [1, 2, 3, 0], [254, 128, 127, 128]];
    for (w, h) in [(1u32, 1u32), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (1, 4)] {
        let n = w * h;
        if n > 3 && !thorough {
            continue;
        }
        for c in 0..7u32.pow(n) {
            let px = (0..n).flat_map(|i| colors[(c / 7u32.pow(i) % 7) as usize]).collect();
            add(format!("colors/{w}x{h}/{c}"), w, h, px);
        }
    }
    // every value of every channel, others at either end
    for ch in 0..4 {
        for v in 0..=255u8 {
            for rest in [0u8, 255] {
                let mut p = [rest, rest, rest, 255];
                p[ch] = v;
                add(format!("channel{ch}={v}/{rest}"), 1, 1, p.to_vec());
                add(format!("channel{ch}={v}/{rest}/2x1"), 2, 1, [p, [9, 8, 7, 255]].concat());
            }
        }
    }
    let long: &[u32] = if thorough { &[100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65535] } else { &[255, 256, 257, 4097, 16383, 16384, 65535] };
    for &n in long {
        for a in [255u8, 7] {
            add(format!("long/{n}x1/alpha={a}"), n, 1, pos(n, 1, &|i| if i == n - 1 { a } else { 255 }));
            add(format!("long/1x{n}/alpha={a}"), 1, n, pos(1, n, &|i| if i == n - 1 { a } else { 255 }));
            add(format!("long/flat/{n}x2/alpha={a}"), n, 2, [5, 6, 7, a].repeat(2 * n as usize));
        }
    }
    // large ones, opaque but for one pixel: the ends, and every position modulo 4 inside
    let mut large: Vec<(u32, u32)> = vec![(63, 65), (64, 64), (65, 64), (128, 128), (129, 127), (255, 257), (256, 256), (257, 256), (300, 301), (513, 512)];
    if thorough {
        large.extend([(512, 512), (511, 513), (640, 480), (1023, 1025), (1024, 1024), (1025, 1024), (2048, 1025)]);
    }
    for (w, h) in large {
        let n = w * h;
        let mid = n / 2 / 4 * 4;
        for k in [0, 1, 2, 3, w - 1, w, mid, mid + 1, mid + 2, mid + 3, n - 4, n - 3, n - 2, n - 1] {
            add(format!("large/{w}x{h}/alpha[{k}]=254"), w, h, pos(w, h, &|i| if i == k { 254 } else { 255 }));
        }
        add(format!("large/{w}x{h}/opaque"), w, h, pos(w, h, &|_| 255));
    }
    for k in [1u32, 3, 1024 * 1025 - 1] {
        add(format!("large/1024x1025/alpha[{k}]=0"), 1024, 1025, pos(1024, 1025, &|i| if i == k { 0 } else { 255 }));
    }
    o
}

const EXTS: [&str; 6] = ["bmp", "BMP", "png", "jpg", "tga", ""];

fn table_of(spec: &Spec, ver: u32, images: &[Img]) -> Streams {
    let mut t = Table::new(spec, ver);
    t.images = images.iter().map(|i| i.enc()).collect();
    t.streams()
}

/// Extraction of the bitmaps in one table, and their way back.
fn check_extract(spec: &Spec, b: &[Bmp], ext: &str) -> Result<u64, String> {
    let imgs: Vec<Img> = b.iter().enumerate().map(|(i, x)| Img::bmp(&format!("img{i}"), &format!("c:\\t\\pic{i}.{ext}"), x.w, x.h, compress(&x.px))).collect();
    let v = load(&build(&table_of(spec, 1080, &imgs)))?;
    let fs = extract(&v, Pmf::Obj, false)?;
    let fl = files(&fs);
    let mut out = vec![];
    for (i, x) in b.iter().enumerate() {
        let mut own = fl.iter().filter(|(p, _)| p.contains(&format!("/images/img{i}.")));
        let (p, d) = own.next().ok_or_else(|| format!("{}: no file for image img{i}", x.label))?;
        if own.next().is_some() {
            return Err(format!("{}: two files for image img{i}", x.label));
        }
        if !p.to_lowercase().ends_with(".bmp") {
            return Err(format!("{}: bitmap extracted as {p}", x.label));
        }
        let (w, h, px, alpha) = read_bmp(d).map_err(|m| format!("{}: {m}", x.label))?;
        if (w, h) != (x.w, x.h) {
            return Err(format!("{}: extracted as {w}x{h}", x.label));
        }
        if px != x.px {
            return Err(format!("{}: pixels differ: {}", x.label, diff_bytes(&x.px, &px)));
        }
        // what other programs see
        let g = image::load_from_memory_with_format(d, image::ImageFormat::Bmp).map_err(|m| format!("{}: {m}", x.label))?.to_rgba8();
        let exp: Vec<u8> = x.px.chunks(4).flat_map(|p| [p[2], p[1], p[0], p[3]]).collect();
        if g.as_raw() != &exp {
            return Err(format!("{}: the file shows other pixels: {}", x.label, diff_bytes(&exp, g.as_raw())));
        }
        out.push((w, h, alpha, hash_of(&px)));
    }
    let back = assemble(&fs)?;
    if back.images.len() != b.len() {
        return Err(format!("{} images came back of {}", back.images.len(), b.len()));
    }
    for ((x, i), im) in b.iter().zip(&back.images).zip(&imgs) {
        let l = &x.label;
        if (i.width, i.height) != (x.w, x.h) || i.path.as_bytes() != im.path || i.name.as_bytes() != im.name {
            return Err(format!("{l}: came back as {:?} {:?} {}x{}", i.name, i.path, i.width, i.height));
        }
        let c = match (&i.bits, &i.jpeg) {
            (Some(c), None) => c,
            _ => return Err(format!("{l}: came back as another kind of image")),
        };
        let d = lzw::decode(&c.lzw_compressed_data).map_err(|m| format!("{l}: {m}"))?;
        if d.data != x.px {
            return Err(format!("{l}: the assembled bitmap differs: {}", diff_bytes(&x.px, &d.data)));
        }
    }
    Ok(hash_of(&out))
}

// ---------------------------------------------------------------- PNG files of every kind

fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xedb88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

#[derive(Clone)]
pub struct Png {
    pub label: String,
    pub file: Vec<u8>,
    pub w: u32,
    pub h: u32,
    /// RGBA with 16 bits per channel
    pub px: Vec<u16>,
}

/// Encodes samples (raw values of `depth` bits) as PNG, by the specification.
fn png_of(label: &str, w: u32, h: u32, ct: u8, depth: u32, samples: &[u16], plte: &[[u8; 3]], trns: Option<Vec<u8>>, extra: &[(&[u8; 4], Vec<u8>)]) -> Png {
    let nc = match ct {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        _ => 4,
    };
    let mut raw = vec![];
    for y in 0..h as usize {
        raw.push(0);
        let row = &samples[y * w as usize * nc..(y + 1) * w as usize * nc];
        match depth {
            16 => row.iter().for_each(|s| raw.extend(s.to_be_bytes())),
            8 => row.iter().for_each(|s| raw.push(*s as u8)),
            n => {
                let per = 8 / n as usize;
                for c in row.chunks(per) {
                    let mut b = 0u8;
                    for (i, s) in c.iter().enumerate() {
                        b |= (*s as u8) << (8 - n as usize * (i + 1));
                    }
                    raw.push(b);
                }
            }
        }
    }
    let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut chunk = |t: &[u8], d: &[u8]| {
        f.extend((d.len() as u32).to_be_bytes());
        let mut b = t.to_vec();
        b.extend(d);
        f.extend(&b);
        f.extend(crc(&b).to_be_bytes());
    };
    let mut ihdr = vec![];
    ihdr.extend(w.to_be_bytes());
    ihdr.extend(h.to_be_bytes());
    ihdr.extend([depth as u8, ct, 0, 0, 0]);
    chunk(b"IHDR", &ihdr);
    for (t, d) in extra {
        chunk(*t, d);
    }
    if ct == 3 {
        chunk(b"PLTE", &plte.concat());
    }
    if let Some(t) = &trns {
        chunk(b"tRNS", t);
    }
    chunk(b"IDAT", &zlib(&raw));
    chunk(b"IEND", b"");
    let max = (1u32 << depth) - 1;
    let up = |s: u16| (s as u32 * 65535 / max) as u16;
    let be = |t: &Vec<u8>, i: usize| u16::from_be_bytes([t[2 * i], t[2 * i + 1]]);
    let mut px = vec![];
    for s in samples.chunks(nc) {
        match ct {
            0 => {
                let a = if trns.as_ref().is_some_and(|t| be(t, 0) == s[0]) { 0 } else { 65535 };
                px.extend([up(s[0]), up(s[0]), up(s[0]), a]);
            }
            2 => {
                let a = if trns.as_ref().is_some_and(|t| (0..3).all(|i| be(t, i) == s[i])) { 0 } else { 65535 };
                px.extend([up(s[0]), up(s[1]), up(s[2]), a]);
            }
            3 => {
                let c = plte[s[0] as usize];
                let a = trns.as_ref().and_then(|t| t.get(s[0] as usize).copied()).unwrap_or(255);
                px.extend([c[0], c[1], c[2], a].map(|v| v as u16 * 257));
            }
            4 => px.extend([up(s[0]), up(s[0]), up(s[0]), up(s[1])]),
            _ => px.extend([up(s[0]), up(s[1]), up(s[2]), up(s[3])]),
        }
    }
    Png { label: label.to_string(), file: f, w, h, px }
}

pub fn pngs(thorough: bool) -> Vec<Png> {
    let mut o = vec![];
    let sizes: &[(u32, u32)] = if thorough { &[(1, 1), (2, 1), (1, 2), (3, 2), (5, 3), (7, 7), (8, 8), (9, 2), (17, 5), (33, 33), (300, 2)] } else { &[(1, 1), (3, 2), (5, 3), (9, 2), (17, 5)] };
    for &(w, h) in sizes {
        let n = (w * h) as usize;
        for (ct, nc, depths) in [(0u8, 1usize, vec![1u32, 2, 4, 8, 16]), (2, 3, vec![8, 16]), (3, 1, vec![1, 2, 4, 8]), (4, 2, vec![8, 16]), (6, 4, vec![8, 16])] {
            for d in depths {
                let max = ((1u32 << d) - 1) as u16;
                // ramps; for 16 bits also values that 8 bits hold exactly
                for mode in 0..5 {
                    let s: Vec<u16> = (0..n * nc)
                        .map(|i| {
                            let v = match mode {
                                0 => (i as u32 * 40503 / 7) as u16,
                                1 => 0,
                                2 => max,
                                3 => ((i as u32 * 37 % 256) as u16) * 257,
                                _ => if i % nc == nc - 1 { max } else { (i as u32 * 91) as u16 },
                            };
                            if d == 16 { v } else { v & max }
                        })
                        .collect();
                    let pl: Vec<[u8; 3]> = (0..1u32 << d.min(8)).map(|i| [(i * 83) as u8, (i * 151 + 9) as u8, (i * 29 + 200) as u8]).collect();
                    let l = format!("png/{w}x{h}/type{ct}/{d}bit/m{mode}");
                    let mut add = |l: &str, t: Option<Vec<u8>>| o.push(png_of(l, w, h, ct, d, &s, if ct == 3 { &pl } else { &[] }, t, &[]));
                    add(&l, None);
                    match ct {
                        0 => add(&format!("{l}/trns"), Some(s[n / 2].to_be_bytes().to_vec())),
                        2 => add(&format!("{l}/trns"), Some(s[n / 2 * 3..n / 2 * 3 + 3].iter().flat_map(|v| v.to_be_bytes()).collect())),
                        3 => {
                            add(&format!("{l}/trns"), Some((0..pl.len()).map(|i| (i * 77) as u8).collect()));
                            add(&format!("{l}/trns1"), Some(vec![0]));
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------- conversion

#[derive(Clone)]
enum Want {
    /// becomes WebP with these pixels (RGBA)
    Webp(u32, u32, Vec<u8>),
    /// stays exactly as it is
    Same,
    /// either; if converted, with these pixels
    Either(u32, u32, Vec<u8>),
}

#[derive(Clone)]
struct Case {
    label: String,
    img: Img,
    want: Want,
    old: &'static str,
}

/// Pixels in 8 bits if that loses nothing.
fn exact8(p: &[u16]) -> Option<Vec<u8>> {
    p.iter().map(|v| (v % 257 == 0).then_some((v / 257) as u8)).collect()
}
fn png_case(p: &Png, ext: &str) -> Case {
    let mut img = Img::jpeg("x", &format!("c:\\pics\\a.b {}.{ext}", p.w), &p.file);
    (img.w, img.h) = (p.w, p.h);
    let want = match exact8(&p.px) {
        // WebP holds 8 bits per channel and up to 16383 pixels in each direction
        Some(px) if p.w <= 16383 && p.h <= 16383 => {
            if p.label.contains("16bit") { Want::Either(p.w, p.h, px) } else { Want::Webp(p.w, p.h, px) }
        }
        _ => Want::Same,
    };
    Case { label: format!("{}/.{ext}", p.label), img, want, old: "png" }
}
fn bmp_case(b: &Bmp, ext: &str) -> Case {
    let px: Vec<u8> = b.px.chunks(4).flat_map(|p| [p[2], p[1], p[0], p[3]]).collect();
    Case {
        label: format!("bits/{}/.{ext}", b.label),
        img: Img::bmp("x", &format!("c:\\pics\\a.b {}.{ext}", b.w), b.w, b.h, compress(&b.px)),
        want: if b.w <= 16383 && b.h <= 16383 { Want::Webp(b.w, b.h, px) } else { Want::Same },
        old: "bmp",
    }
}

fn with_webp_ext(path: &[u8]) -> Vec<u8> {
    match path.iter().rposition(|b| *b == b'.') {
        Some(p) if p + 1 < path.len() && path[p + 1..].iter().all(u8::is_ascii_alphanumeric) => [&path[..=p], b"webp"].concat(),
        _ => path.to_vec(),
    }
}

fn check_convert(spec: &Spec, ver: u32, dir: &std::path::Path, cases: &[Case], again: bool) -> Result<u64, String> {
    let imgs: Vec<Img> = cases
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let mut m = c.img.clone();
            m.name = [&m.name[..], i.to_string().as_bytes()].concat();
            m
        })
        .collect();
    let mut t = Table::new(spec, ver);
    t.images = imgs.iter().map(|i| i.enc()).collect();
    t.items = vec![prim_item(&Gen { spec, floats: Floats::Finite, thorough: false }, Some(&Mesh::new(3, 1)))];
    let before = t.streams();
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("t{:?}.vpx", std::thread::current().id()));
    std::fs::write(&path, build(&before)).map_err(|e| e.to_string())?;
    let run = || -> Result<_, String> {
        let mut f = vpin::vpx::open_rw(&path).map_err(err("open_rw"))?;
        f.images_to_webp().map_err(err("images_to_webp"))
    };
    let conv = run();
    let conv = match conv {
        Ok(c) => c,
        Err(m) => {
            let _ = std::fs::remove_file(&path);
            return Err(if cases.len() == 1 { format!("{}: {m}", cases[0].label) } else { m });
        }
    };
    let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
    let after = dump(&bytes)?;
    if again {
        let c2 = run()?;
        let b2 = std::fs::read(&path).map_err(|e| e.to_string())?;
        if let Some(d) = diff_streams(&after, &dump(&b2)?) {
            let _ = std::fs::remove_file(&path);
            return Err(format!("converting a second time changes {d}"));
        }
        if !c2.is_empty() {
            let _ = std::fs::remove_file(&path);
            return Err(format!("converting a second time reports {c2:?}"));
        }
    }
    let _ = std::fs::remove_file(&path);
    let mut reported = conv.iter();
    let mut out = vec![];
    let other = |k: &str| k.starts_with("/GameStg/Image");
    for (k, v) in &before {
        if !other(k) && after.get(k) != Some(v) {
            return Err(format!("conversion changed {k}"));
        }
    }
    if let Some(k) = after.keys().find(|k| !before.contains_key(*k)) {
        return Err(format!("conversion made {k}"));
    }
    for (i, (c, img)) in cases.iter().zip(&imgs).enumerate() {
        let l = &c.label;
        let k = format!("/GameStg/Image{i}");
        let (old, new) = (&before[&k], after.get(&k).ok_or_else(|| format!("{l}: {k} is gone"))?);
        let (w, h, px) = match (&c.want, old == new) {
            (Want::Same, true) | (Want::Either(..), true) => {
                out.push(0u64);
                continue;
            }
            (Want::Same, false) => return Err(format!("{l}: an image to be left alone was changed: {}", diff_bytes(old, new))),
            (Want::Webp(..), true) => return Err(format!("{l}: the image was not converted")),
            (Want::Webp(w, h, p) | Want::Either(w, h, p), false) => (*w, *h, p),
        };
        let r = reported.next().ok_or_else(|| format!("{l}: converted but not reported"))?;
        if r.name != latin1(&img.name) || r.new_extension != "webp" || r.old_extension != c.old {
            return Err(format!("{l}: reported as {r:?}, its name is {:?}", latin1(&img.name)));
        }
        // every record as before, but for the data and the extension
        let mut exp = img.clone();
        exp.path = with_webp_ext(&exp.path);
        exp.bits = None;
        let recs = split_records(new).ok_or_else(|| format!("{l}: the converted image does not parse"))?;
        let mut jd = None;
        for (t, p) in &recs {
            if t == "JPEG" {
                // payload of the container record: what follows it belongs to the stream itself
                let _ = p;
            }
            if t == "BITS" {
                return Err(format!("{l}: the converted image still has a bitmap"));
            }
            if t == "DATA" {
                jd = Some(p.clone());
            }
        }
        let jd = match jd {
            Some(d) => d,
            None => {
                // JPEG container kept as one record
                let p = &recs.iter().find(|(t, _)| t == "JPEG").ok_or_else(|| format!("{l}: no data left"))?.1;
                let at = p.windows(4).position(|w| w == b"DATA").ok_or_else(|| format!("{l}: no data left"))?;
                p[at + 4..p.len() - 8].to_vec()
            }
        };
        let j = match &img.jpeg {
            Some(j) => Jpg { path: with_webp_ext(&j.path), data: jd.clone(), ..j.clone() },
            None => Jpg { name: img.name.clone(), inme: None, path: exp.path.clone(), data: jd.clone() },
        };
        exp.jpeg = Some(j);
        if exp.enc() != *new {
            return Err(format!("{l}: metadata changed by the conversion: {}", diff_bytes(&exp.enc(), new)));
        }
        if jd.len() < 16 || &jd[..4] != b"RIFF" || &jd[8..12] != b"WEBP" || u32::from_le_bytes(jd[4..8].try_into().unwrap()) as usize + 8 != jd.len() {
            return Err(format!("{l}: the data is not a WebP file"));
        }
        let g = image::load_from_memory_with_format(&jd, image::ImageFormat::WebP).map_err(|m| format!("{l}: the WebP does not decode: {m}"))?.to_rgba8();
        if (g.width(), g.height()) != (w, h) {
            return Err(format!("{l}: {}x{} after the conversion, {w}x{h} before", g.width(), g.height()));
        }
        if g.as_raw() != px {
            return Err(format!("{l}: pixels changed: {}", diff_bytes(px, g.as_raw())));
        }
        out.push(hash_of(px));
    }
    if let Some(r) = reported.next() {
        return Err(format!("reported but not converted: {r:?}"));
    }
    Ok(hash_of(&out))
}

/// The kinds of images a list is made of.
fn kinds() -> Vec<Case> {
    let px = |n: u32| -> Vec<u8> { (0..n * 4).map(|i| if i % 4 == 3 { 255 } else { (i * 17) as u8 }).collect() };
    let b = Bmp { label: "b".into(), w: 3, h: 2, px: px(6) };
    let mut ba = b.clone();
    ba.px[11] = 9;
    ba.label = "b-alpha".into();
    let p8 = png_of("p8", 3, 2, 6, 8, &(0..24).map(|i| i * 10).collect::<Vec<_>>(), &[], None, &[]);
    let p16 = png_of("p16bit", 3, 2, 2, 16, &(0..18).map(|i| i * 3001).collect::<Vec<_>>(), &[], None, &[]);
    let same = |label: &str, img: Img| Case { label: label.into(), img, want: Want::Same, old: "png" };
    let f = super::p03::enc_img;
    use image::ImageFormat as F;
    let jpg = |ext: &str, d: Vec<u8>| {
        let mut i = Img::jpeg("x", &format!("c:\\a\\q.{ext}"), &d);
        i.w = 3;
        i
    };
    let mut link = jpg("png", vec![]);
    link.jpeg = None;
    link.link = Some(1);
    let mut linkb = link.clone();
    linkb.path = b"screen.bmp".to_vec();
    let rgba: Vec<u8> = image::load_from_memory(&f(3, 2, F::Bmp)).unwrap().to_rgba8().into_raw();
    vec![
        bmp_case(&b, "bmp"),
        bmp_case(&ba, "BMP"),
        bmp_case(&ba, "png"),
        bmp_case(&b, "jpg"),
        png_case(&p8, "png"),
        png_case(&p8, "PNG"),
        png_case(&p16, "png"),
        Case { want: Want::Either(3, 2, exact8(&p8.px).unwrap()), ..png_case(&p8, "hdr") },
        Case { want: Want::Either(3, 2, rgba), old: "bmp", ..same("bmp file", jpg("bmp", f(3, 2, F::Bmp))) },
        same("jpg", jpg("jpg", f(3, 2, F::Jpeg))),
        same("webp", jpg("webp", f(3, 2, F::WebP))),
        same("gif", jpg("gif", f(3, 2, F::Gif))),
        same("tga", jpg("tga", f(3, 2, F::Tga))),
        same("jpg named png", jpg("png", f(3, 2, F::Jpeg))),
        same("webp named png", jpg("png", f(3, 2, F::WebP))),
        same("junk png", jpg("png", b"no picture".to_vec())),
        same("cut png", jpg("png", p8.file[..40].to_vec())),
        same("empty png", jpg("png", vec![])),
        same("link", link),
        same("link bmp", linkb),
    ]
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    ctx.rule("an extracted bitmap, read by an independent BMP decoder and by a standard one, has the stored size and pixels; the assembled bitmap decodes (independent LZW machine) to the stored pixels");
    ctx.rule("after the conversion every bitmap and 8-bit PNG is a WebP file of the same pixels with the same records otherwise, the path's extension apart; every other image, and every other stream, is byte-identical; exactly the converted images are reported, in order");
    ctx.assume("WebP holds 8 bits per channel and 16383 pixels each way: an image it cannot hold has to stay as it is");
    ctx.assume("PNG data under another extension, and BMP files stored as such, may be converted or left alone");
    let all = bitmaps(th);
    ctx.note("bitmaps", all.len());
    for (k, ext) in EXTS.iter().enumerate() {
        // every bitmap with the usual extension, a part of them with every other one
        let sel: Vec<&Bmp> = all.iter().enumerate().filter(|(i, b)| k == 0 || th && i % 3 == 0 || i % 23 == k || b.label.starts_with("alphas/2x2")).map(|(_, b)| b).collect();
        let single = |b: &Bmp| format!("extract/.{ext}/{}", b.label);
        sel.par_chunks(60).for_each(|c| {
            if ctx.replaying() {
                for b in c {
                    ctx.case(&single(b), || check_extract(&spec, &[(*b).clone()], ext));
                }
                return;
            }
            let v: Vec<Bmp> = c.iter().map(|b| (*b).clone()).collect();
            match guard(|| check_extract(&spec, &v, ext)) {
                Ok(h) => ctx.bulk(v.len() as u64, [h]),
                Err(m) => {
                    let mut any = false;
                    for b in &v {
                        any |= !ctx.case(&single(b), || check_extract(&spec, std::slice::from_ref(b), ext));
                    }
                    if !any {
                        ctx.violation(&format!("extract/.{ext}/together/{}", v[0].label), &m, serde_json::Value::Null);
                    }
                }
            }
        });
    }
    // conversion: every bitmap, every PNG
    let mut cases: Vec<Case> = vec![];
    for (k, ext) in EXTS.iter().enumerate() {
        cases.extend(all.iter().enumerate().filter(|(i, b)| k == 0 || th && i % 3 == 0 || i % 23 == k || b.label.starts_with("alphas/2x2")).map(|(_, b)| bmp_case(b, ext)));
    }
    for p in pngs(th) {
        for ext in ["png", "Png"] {
            cases.push(png_case(&p, ext));
        }
    }
    for (w, h) in [(16383u32, 1u32), (16384, 1), (1, 16383), (1, 16384), (65535, 1)] {
        let p = png_of(&format!("png/long/{w}x{h}"), w, h, 2, 8, &(0..w * h * 3).map(|i| (i * 7 % 251) as u16).collect::<Vec<_>>(), &[], None, &[]);
        cases.push(png_case(&p, "png"));
    }
    ctx.note("images converted one by one in lists", cases.len());
    let dir = ctx.scratch.clone();
    cases.par_chunks(60).for_each(|c| {
        let single = |c: &Case| format!("convert/{}", c.label);
        if ctx.replaying() {
            for x in c {
                ctx.case(&single(x), || check_convert(&spec, 1080, &dir, std::slice::from_ref(x), true));
            }
            return;
        }
        match guard(|| check_convert(&spec, 1080, &dir, c, true)) {
            Ok(h) => ctx.bulk(c.len() as u64, [h]),
            Err(m) => {
                let mut any = false;
                for x in c {
                    any |= !ctx.case(&single(x), || check_convert(&spec, 1080, &dir, std::slice::from_ref(x), true));
                }
                if !any {
                    ctx.violation(&format!("convert/together/{}", c[0].label), &m, serde_json::Value::Null);
                }
            }
        }
    });
    // metadata: optional records, names, dimensions that disagree with the data
    let ks = kinds();
    let mut meta: Vec<Case> = vec![];
    for base in [&ks[0], &ks[1], &ks[4], &ks[5], &ks[9]] {
        for m in 0..64u32 {
            let mut c = base.clone();
            c.label = format!("{}/opts={m:06b}", c.label);
            let i = &mut c.img;
            i.md5 = (m & 1 != 0).then_some([m as u8; 16]);
            i.opaq = (m & 2 != 0).then_some(m & 32 != 0);
            i.sign = (m & 4 != 0).then_some(m & 32 == 0);
            i.link = (m & 8 != 0).then_some(0);
            i.inme = (m & 16 != 0).then_some(b"inner".to_vec());
            if let Some(j) = &mut i.jpeg {
                j.inme = (m & 32 != 0).then_some(b"jinner".to_vec());
                j.path = b"d:\\other.place\\y.png".to_vec();
                j.name = b"another".to_vec();
            }
            meta.push(c);
        }
        for (l, b) in latin1_menu(th) {
            let mut c = base.clone();
            c.label = format!("{}/name={l}", c.label);
            c.img.name = b.clone();
            meta.push(c);
            if base.img.jpeg.is_some() {
                let mut c = base.clone();
                c.label = format!("{}/jname={l}", c.label);
                c.img.jpeg.as_mut().unwrap().name = b.clone();
                meta.push(c);
            }
        }
        for (l, b) in float_menu(Floats::All, th) {
            let mut c = base.clone();
            c.label = format!("{}/altv={l}", c.label);
            c.img.altv = b;
            meta.push(c);
        }
        if base.img.jpeg.is_some() {
            for (w, h) in [(0u32, 0u32), (1, 1), (9, 9), (u32::MAX, u32::MAX)] {
                let mut c = base.clone();
                c.label = format!("{}/dims={w}x{h}", c.label);
                (c.img.w, c.img.h) = (w, h);
                meta.push(c);
            }
        }
    }
    for c in meta.iter_mut() {
        // file names of every shape, the extension apart
        c.img.path = [&b"c:\\v1.0\\na.me"[..], &c.img.path[c.img.path.iter().rposition(|b| *b == b'.').unwrap()..]].concat();
    }
    meta.par_iter().for_each(|c| {
        for ver in VERSIONS.iter().copied().filter(|v| th || *v == 1060 || *v == 1080) {
            ctx.case(&format!("meta/{ver}/{}", c.label), || check_convert(&spec, ver, &dir, std::slice::from_ref(c), false));
        }
    });
    // lists of every kind
    let depth = if th { 4 } else { 3 };
    let sel: Vec<usize> = if th { (0..ks.len()).collect() } else { vec![0, 2, 4, 6, 9, 13, 15, 18] };
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = vec![vec![]];
    for d in 0..depth {
        let s: Vec<usize> = if d >= 3 { vec![0, 2, 4, 9, 15] } else { sel.clone() };
        level = level.iter().flat_map(|l: &Vec<usize>| s.iter().map(move |k| [l.clone(), vec![*k]].concat())).collect();
        lists.extend(level.iter().cloned());
    }
    for a in 0..ks.len() {
        for b in 0..ks.len() {
            lists.push(vec![a, b]);
        }
    }
    ctx.note("image lists", lists.len());
    lists.par_iter().for_each(|l| {
        let name = l.iter().map(|k| ks[*k].label.clone()).collect::<Vec<_>>().join(" , ");
        ctx.case(&format!("list/{name}"), || {
            let v: Vec<Case> = l.iter().map(|k| ks[*k].clone()).collect();
            check_convert(&spec, 1080, &dir, &v, true)
        });
    });

}
