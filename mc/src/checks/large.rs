//! Tables in which one part is large, or occurs many times: every class of part, with sizes and
//! counts on both sides of the limits an implementation could have.
use super::common::*;
use super::exp::*;
use super::p03::{bits, enc_img, set_materials, Mat};
use crate::cont::*;
use crate::parts::*;
use crate::spec::*;

/// Bytes without a period, so that a piece missing or repeated anywhere shows.
pub fn noise(n: usize, seed: u32) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x9E37_79B9) | 1;
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 17;
            s ^= s << 5;
            (s >> 11) as u8
        })
        .collect()
}
pub fn text(n: usize) -> String {
    let mut s = String::with_capacity(n + 30);
    let mut i = 0u32;
    while s.len() < n {
        s.push_str(&format!("Sub line_{i}() ' {}\r\n", i.wrapping_mul(2_654_435_761)));
        i += 1;
    }
    s.truncate(n);
    s
}

#[derive(Clone, Debug)]
pub struct Large {
    pub label: String,
    part: &'static str,
    pub n: usize,
}

/// What is written to a part by the size classes.
pub const SIZED: [&str; 9] = ["screenshot", "tag", "script", "info", "image", "bitmap", "wave", "sound", "font"];
/// The parts the integrity hash covers.
pub const HASHED: [&str; 8] = ["screenshot", "tag", "script", "info", "collections", "collection-items", "tags", "materials"];
pub const COUNTED: [&str; 12] = ["items", "images", "bitmaps", "sounds", "fonts", "collections", "collection-items", "tags", "materials", "points", "probes", "same-names"];

pub fn sizes(th: bool) -> Vec<usize> {
    let mut v = vec![];
    for k in 12..if th { 24 } else { 22 } {
        let l = 1usize << k;
        if th || ![14, 18, 19, 21].contains(&k) {
            v.extend(if th || k < 14 || k == 16 || k == 20 { vec![l - 1, l, l + 1] } else { vec![l + 1] });
        }
    }
    v.push((4 << 20) + 17);
    v.extend([10_000, 100_000, 1_000_000].map(|x| x + 1));
    if th {
        v.extend([(16 << 20) + 5, 10_000_001, (33 << 20) + 3]);
    } else {
        v.push((8 << 20) + 19);
    }
    v.sort();
    v
}
pub fn counts(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (4..21).collect();
    for l in [32usize, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024] {
        v.extend([l - 1, l, l + 1]);
    }
    if th {
        v.extend((21..140).chain([2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 10_001]));
    }
    v.sort();
    v.dedup();
    v
}

pub fn all(th: bool) -> Vec<Large> {
    let mut v = vec![];
    for (parts, ns) in [(&SIZED[..], sizes(th)), (&COUNTED[..], counts(th))] {
        for n in ns {
            for p in parts {
                v.push(Large { label: format!("large/{p}={n}"), part: p, n });
            }
        }
    }
    v
}
/// One in `every`, and all of the largest ones.
pub fn some(th: bool, parts: &[&str], every: usize) -> Vec<Large> {
    let all: Vec<Large> = all(th).into_iter().filter(|l| parts.contains(&l.part)).collect();
    let max_size = all.iter().filter(|l| SIZED.contains(&l.part)).map(|l| l.n).max().unwrap_or(0);
    let max_count = all.iter().filter(|l| COUNTED.contains(&l.part)).map(|l| l.n).max().unwrap_or(0);
    let mut k = std::collections::BTreeMap::new();
    all.into_iter()
        .filter(|l| {
            let k = k.entry(l.part).or_insert(0usize);
            *k += 1;
            *k % every == 0 || l.n == if SIZED.contains(&l.part) { max_size } else { max_count }
        })
        .collect()
}

impl Large {
    /// `plain`: counted components have no mesh or other heavy content.
    pub fn table(&self, spec: &Spec) -> Table {
        let g = Gen { spec, floats: Floats::Finite, thorough: false };
        let n = self.n;
        let ver = 1081;
        let mut t = Table::new(spec, ver);
        t.info.push(("TableName".into(), utf16("large")));
        t.images.push(Img::jpeg("first", "first.png", &super::p03::png(3, 2)).enc());
        t.sounds.push(Snd::new("first", "first.ogg", &noise(99, 3)).enc(ver));
        t.fonts.push(font_stream(b"first", b"first.ttf", &noise(98, 4)));
        t.collections.push(collection_stream("first", &["a", "b"], [true, false, true]));
        let put = |t: &mut Table, k: &str, d: Vec<u8>| {
            t.info.retain(|x| x.0 != k);
            t.info.push((k.into(), d));
        };
        match self.part {
            "screenshot" => put(&mut t, "Screenshot", noise(n, 1)),
            "tag" => {
                t.custom_tags = Some(vec!["before".into(), "large".into(), "after".into()]);
                put(&mut t, "before", utf16("b"));
                put(&mut t, "large", utf16(&text(n / 2)));
                put(&mut t, "after", utf16("a"));
            }
            "script" => t.set("CODE", rec_len("CODE", &lstr(text(n).as_bytes()), 4)),
            "info" => put(&mut t, "TableRules", utf16(&text(n / 2))),
            "image" => t.images.push(Img::jpeg("large", "large.jpg", &noise(n, 2)).enc()),
            "bitmap" => {
                // n bytes of pixels
                let w = 64;
                let h = (n / 4).div_ceil(64) as u32;
                t.images.push(Img::bmp("large", "large.bmp", w, h, bits(w, h, 255)).enc());
            }
            "wave" => t.sounds.push(Snd::new("large", "large.wav", &noise(n & !1, 5)).enc(ver)),
            "sound" => t.sounds.push(Snd::new("large", "large.ogg", &noise(n, 6)).enc(ver)),
            "font" => t.fonts.push(font_stream(b"large", b"large.ttf", &noise(n, 7))),
            "items" => {
                let kinds = spec.items();
                for i in 0..n {
                    let l = kinds[i % kinds.len()];
                    let mut v = exp_base(&g, l);
                    let k = l.fields.iter().position(|f| f.tag == "NAME").unwrap();
                    v[k].enc = wrec("NAME", &format!("item{i}"));
                    t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
                }
            }
            "same-names" => {
                let l = spec.get("Wall");
                let mut v = exp_base(&g, l);
                let k = l.fields.iter().position(|f| f.tag == "NAME").unwrap();
                let s = l.fields.iter().position(|f| f.tag == "TMIN").unwrap();
                v[k].enc = wrec("NAME", "same");
                for i in 0..n {
                    v[s].enc = rec("TMIN", &(i as u32 + 1).to_le_bytes());
                    t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
                }
            }
            "images" => t.images.extend((0..n).map(|i| Img::jpeg(&format!("i{i}"), &format!("i{i}.jpg"), &noise(40 + i % 7, i as u32)).enc())),
            "bitmaps" => t.images.extend((0..n).map(|i| Img::bmp(&format!("i{i}"), &format!("i{i}.bmp"), 2 + i as u32 % 5, 2, bits(2 + i as u32 % 5, 2, 255)).enc())),
            "sounds" => t.sounds.extend((0..n).map(|i| Snd::new(&format!("s{i}"), &format!("s{i}.{}", ["wav", "ogg", "mp3"][i % 3]), &noise(40 + 2 * (i % 7), i as u32)).enc(ver))),
            "fonts" => t.fonts.extend((0..n).map(|i| font_stream(format!("f{i}").as_bytes(), format!("f{i}.ttf").as_bytes(), &noise(40 + i % 7, i as u32)))),
            "collections" => t.collections.extend((0..n).map(|i| collection_stream(&format!("c{i}"), &["a", "b", "c"][..i % 4], [i % 2 == 0, i % 3 == 0, i % 5 == 0]))),
            "collection-items" => {
                let names: Vec<String> = (0..n).map(|i| format!("item{i}")).collect();
                t.collections.push(collection_stream("large", &names.iter().map(|s| &s[..]).collect::<Vec<_>>(), [false, true, false]));
                t.collections.push(collection_stream("last", &["z"], [false; 3]));
            }
            "tags" => {
                let names: Vec<String> = (0..n).map(|i| format!("Tag{i}")).collect();
                for x in &names {
                    t.info.push((x.clone(), utf16(&format!("value of {x}"))));
                }
                t.custom_tags = Some(names);
            }
            "materials" => {
                let m: Vec<Mat> = (0..n)
                    .map(|i| Mat { wrap: (i % 200) as f32 / 200.0, colors: [[i as u8, (i >> 8) as u8, 3, 0], [4, 5, i as u8, 0], [7, 8, 9, 0]], ..Mat::new(&format!("m{i}")) })
                    .collect();
                set_materials(&mut t, &g, &m);
            }
            "points" => {
                for kind in ["Wall", "Ramp", "Rubber"] {
                    let l = spec.get(kind);
                    let mut v = exp_base(&g, l);
                    let k = l.fields.iter().position(|f| f.tag == "DPNT").unwrap();
                    v[k] = g.points_val("n", "DPNT", &(0..n).map(|i| g.point(i, i % 5)).collect::<Vec<_>>());
                    t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
                }
            }
            "probes" => {
                let l = spec.get("RenderProbe");
                let mut e = vec![];
                for k in 0..n {
                    let mut d = g.nested(l, k % 50 * 40, None);
                    d.extend(vec![0xA0; k % 3 * 3]);
                    e.extend(rec("RPRB", &d));
                }
                t.set("RPRB", e);
            }
            o => panic!("{o}"),
        }
        let _ = enc_img;
        t
    }
}
