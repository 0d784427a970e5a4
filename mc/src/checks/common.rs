use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use vpin::vpx;

pub fn err<E: std::fmt::Display>(what: &str) -> impl Fn(E) -> String + '_ {
    move |e| format!("{what}: {e}")
}

pub fn load(b: &[u8]) -> Result<vpx::VPX, String> {
    vpx::from_bytes(b).map_err(|e| format!("from_bytes failed: {e}"))
}
pub fn save(v: &vpx::VPX) -> Result<Vec<u8>, String> {
    vpx::to_bytes(v).map_err(|e| format!("to_bytes failed: {e}"))
}

/// First difference between two stream sets.
pub fn diff_streams(exp: &Streams, got: &Streams) -> Option<String> {
    diff_streams_except(exp, got, &[])
}
pub fn diff_streams_except(exp: &Streams, got: &Streams, ignore: &[&str]) -> Option<String> {
    for (k, v) in exp {
        if ignore.contains(&k.as_str()) {
            continue;
        }
        match got.get(k) {
            None => return Some(format!("stream {k} missing")),
            Some(g) if g != v => {
                return Some(format!("stream {k} differs: {}", diff_bytes(v, g)));
            }
            _ => {}
        }
    }
    for k in got.keys() {
        if !exp.contains_key(k) && !ignore.contains(&k.as_str()) {
            return Some(format!("unexpected stream {k}"));
        }
    }
    None
}

pub fn hash_streams(s: &Streams) -> u64 {
    hash_of(s)
}

#[derive(Clone)]
pub struct Variant {
    pub label: String,
    pub bytes: Vec<u8>,
}

/// Base item plus every single-record deviation.
pub fn singles(g: &Gen, l: &Layout) -> Vec<Variant> {
    let base = g.base_vals(l);
    let mut out = vec![Variant {
        label: format!("{}/base", l.name),
        bytes: g.item_bytes(l, &base.iter().collect::<Vec<_>>()),
    }];
    for (i, f) in l.fields.iter().enumerate() {
        for a in g.menu(f, i) {
            let v: Vec<&Val> = base
                .iter()
                .enumerate()
                .map(|(k, b)| if k == i { &a } else { b })
                .collect();
            out.push(Variant {
                label: format!("{}/{}={}", l.name, f.tag, a.label),
                bytes: g.item_bytes(l, &v),
            });
        }
    }
    out
}

/// Presence patterns of optional records: all absent, exactly one present, every pair absent.
pub fn optional_patterns(g: &Gen, l: &Layout) -> Vec<Variant> {
    let base = g.base_vals(l);
    let opts: Vec<usize> = l
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| f.req != Req::Req)
        .map(|(i, _)| i)
        .collect();
    let none = Val {
        label: String::new(),
        enc: vec![],
        j: J::None,
    };
    let mk = |label: String, absent: &dyn Fn(usize) -> bool| {
        let v: Vec<&Val> = base
            .iter()
            .enumerate()
            .map(|(k, b)| if opts.contains(&k) && absent(k) { &none } else { b })
            .collect();
        Variant {
            label,
            bytes: g.item_bytes(l, &v),
        }
    };
    let mut out = vec![];
    if opts.is_empty() {
        return out;
    }
    out.push(mk(format!("{}/opts=none", l.name), &|_| true));
    for o in &opts {
        out.push(mk(
            format!("{}/opts=only:{}", l.name, l.fields[*o].tag),
            &|k| k != *o,
        ));
    }
    for (n, a) in opts.iter().enumerate() {
        for b in &opts[n + 1..] {
            out.push(mk(
                format!("{}/opts=without:{},{}", l.name, l.fields[*a].tag, l.fields[*b].tag),
                &|k| k == *a || k == *b,
            ));
        }
    }
    if opts.len() <= 12 {
        for m in 0..(1u32 << opts.len()) {
            out.push(mk(format!("{}/opts=mask:{m:b}", l.name), &|k| {
                m >> opts.iter().position(|o| *o == k).unwrap() & 1 == 0
            }));
        }
    }
    out
}

/// Every pair of deviations in two different records, with a reduced menu per record.
pub fn pairs(g: &Gen, l: &Layout, per_field: usize) -> Vec<(usize, usize, Val, Val)> {
    let menus: Vec<Vec<Val>> = l
        .fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut m = g.menu(f, i);
            m.truncate(per_field);
            m
        })
        .collect();
    let mut out = vec![];
    for i in 0..menus.len() {
        for j in i + 1..menus.len() {
            for a in &menus[i] {
                for b in &menus[j] {
                    out.push((i, j, a.clone(), b.clone()));
                }
            }
        }
    }
    out
}

pub const VERSIONS: [u32; 12] = [
    900, 1000, 1010, 1030, 1031, 1040, 1060, 1070, 1072, 1079, 1080, 1081,
];

/// Sets one header record, keeping dependent records consistent.
pub fn header_with(g: &Gen, t: &mut Table, idx: usize, v: &Val) {
    let _ = g;
    t.gamedata[idx].1 = v.enc.clone();
}

/// 76-byte legacy material.
#[allow(clippy::too_many_arguments)]
pub fn save_material(
    name: &[u8],
    base: u32,
    glossy: u32,
    clearcoat: u32,
    wrap: f32,
    is_metal: u8,
    rough: f32,
    gil: u8,
    edge: f32,
    thick: u8,
    opacity: f32,
    oaea: u8,
) -> Vec<u8> {
    let mut d = vec![0u8; 32];
    d[..name.len()].copy_from_slice(name);
    for c in [base, glossy, clearcoat] {
        d.extend(c.to_le_bytes());
    }
    d.extend(wrap.to_bits().to_le_bytes());
    d.extend([is_metal, 0, 0, 0]);
    d.extend(rough.to_bits().to_le_bytes());
    d.extend([gil, 0, 0, 0]);
    d.extend(edge.to_bits().to_le_bytes());
    d.extend([thick, 0, 0, 0]);
    d.extend(opacity.to_bits().to_le_bytes());
    d.extend([oaea, 0, 0, 0]);
    d
}
pub fn save_physics(name: &[u8], v: [u32; 4]) -> Vec<u8> {
    let mut d = vec![0u8; 32];
    d[..name.len()].copy_from_slice(name);
    for c in v {
        d.extend(c.to_le_bytes());
    }
    d
}

/// Image streams covering each record's menu.
pub fn image_variants(g: &Gen, thorough: bool) -> Vec<(String, Img)> {
    let base = Img {
        inme: Some(b"inner".to_vec()),
        link: Some(0),
        md5: Some([7; 16]),
        opaq: Some(true),
        sign: Some(false),
        ..Img::jpeg("img", "C:\\x\\img.png", b"\x89PNGdata")
    };
    let mut o: Vec<(String, Img)> = vec![("base".into(), base.clone())];
    let mut add = |l: String, f: &dyn Fn(&mut Img)| {
        let mut i = base.clone();
        f(&mut i);
        o.push((l, i));
    };
    for (l, b) in latin1_menu(thorough) {
        add(format!("name={l}"), &|i| i.name = b.clone());
        add(format!("inme={l}"), &|i| i.inme = Some(b.clone()));
        add(format!("path={l}"), &|i| i.path = b.clone());
        add(format!("jname={l}"), &|i| i.jpeg.as_mut().unwrap().name = b.clone());
        add(format!("jinme={l}"), &|i| i.jpeg.as_mut().unwrap().inme = Some(b.clone()));
        add(format!("jpath={l}"), &|i| i.jpeg.as_mut().unwrap().path = b.clone());
    }
    for (l, b) in float_menu(g.floats, thorough) {
        add(format!("altv={l}"), &|i| i.altv = b);
    }
    for x in [0u32, 1, 65536, u32::MAX] {
        add(format!("w={x}"), &|i| i.w = x);
        add(format!("h={x}"), &|i| i.h = x);
    }
    for (l, x) in [("none", None), ("1", Some(1u32)), ("2", Some(2)), ("max", Some(u32::MAX))] {
        add(format!("link={l}"), &|i| i.link = x);
    }
    add("inme=none".into(), &|i| i.inme = None);
    for m in 0..64u32 {
        add(format!("opts={m:06b}"), &|i| {
            i.md5 = (m & 1 != 0).then_some([m as u8; 16]);
            i.opaq = (m & 2 != 0).then_some(m & 32 != 0);
            i.sign = (m & 4 != 0).then_some(m & 32 == 0);
            i.link = (m & 8 != 0).then_some(3);
            i.inme = (m & 16 != 0).then_some(b"q".to_vec());
        });
    }
    for (l, d) in [
        ("empty", vec![]),
        ("one", vec![0u8]),
        ("endb", endb()),
        ("altv", rec("ALTV", &[0; 4])),
        ("name", rec("NAME", &lstr(b"evil"))),
        ("big", vec![0x5a; 70000]),
    ] {
        add(format!("jdata={l}"), &|i| i.jpeg.as_mut().unwrap().data = d.clone());
        if l != "altv" {
            add(format!("bits={l}"), &|i| {
                i.jpeg = None;
                i.bits = Some(d.clone());
            });
        }
    }
    // the text ALTV inside compressed data at every distance from the end
    for k in 0..12usize {
        add(format!("bits=altv-{k}"), &|i| {
            let mut d = vec![9u8, 8, 7, 6, 5];
            d.extend(b"ALTV");
            d.extend(vec![1u8; k]);
            i.jpeg = None;
            i.bits = Some(d);
        });
    }
    add("both".into(), &|i| i.bits = Some(vec![1, 2, 3]));
    add("neither".into(), &|i| i.jpeg = None);
    o
}

pub fn sound_variants(thorough: bool) -> Vec<(String, Snd)> {
    let base = Snd::new("snd", "C:\\a\\snd.wav", &[1, 2, 3, 4]);
    let mut o: Vec<(String, Snd)> = vec![("base".into(), base.clone())];
    let mut add = |l: String, f: &dyn Fn(&mut Snd)| {
        let mut i = base.clone();
        f(&mut i);
        o.push((l, i));
    };
    for (l, b) in latin1_menu(thorough) {
        add(format!("name={l}"), &|i| i.name = b.clone());
        add(format!("path={l}"), &|i| i.path = b.clone());
        add(format!("internal={l}"), &|i| i.internal = b.clone());
    }
    for p in [
        "", "x", "x.wav", "x.WAV", "x.WaV", "x.ogg", "x.mp3", "x.wav.ogg", "x.ogg.wav", ".wav",
        "* Backglass Output *", "a.b/c", "x.", "x.w", "dir.wav/y", "C:\\s.t\\x", "x.wavx",
    ] {
        add(format!("path={p:?}"), &|i| i.path = p.as_bytes().to_vec());
    }
    for x in [0u16, 1, 2, 3, 85, 0xfffe, 0xffff] {
        add(format!("wf.tag={x}"), &|i| i.wave.tag = x);
        add(format!("wf.channels={x}"), &|i| i.wave.channels = x);
        add(format!("wf.align={x}"), &|i| i.wave.align = x);
        add(format!("wf.bits={x}"), &|i| i.wave.bits = x);
        add(format!("wf.cb={x}"), &|i| i.wave.cb = x);
    }
    for x in [0u32, 1, 8000, 0xffff_ffff] {
        add(format!("wf.rate={x}"), &|i| i.wave.rate = x);
        add(format!("wf.bps={x}"), &|i| i.wave.bps = x);
        add(format!("volume={x}"), &|i| i.volume = x);
        add(format!("balance={x}"), &|i| i.balance = x);
        add(format!("fade={x}"), &|i| i.fade = x);
    }
    for n in [0usize, 1, 2, 3, 255, 256, 65535, 65536] {
        add(format!("data={n}"), &|i| i.data = (0..n).map(|k| k as u8).collect());
    }
    add("out=1".into(), &|i| i.out = 1);
    o
}

/// Item (or header-like layout) bytes with some records replaced (Some) or left out (None).
pub fn item_patch(g: &Gen, l: &Layout, over: &[(&str, Option<Vec<u8>>)]) -> Vec<u8> {
    let mut vals = g.base_vals(l);
    for (tag, enc) in over {
        let i = l.fields.iter().position(|f| f.tag == *tag).unwrap_or_else(|| panic!("{} has no {tag}", l.name));
        vals[i] = Val { label: format!("{tag}"), enc: enc.clone().unwrap_or_default(), j: J::Opaque };
    }
    g.item_bytes(l, &vals.iter().collect::<Vec<_>>())
}
pub fn has_tag(l: &Layout, tag: &str) -> bool {
    l.fields.iter().any(|f| f.tag == tag)
}
pub fn req_of(l: &Layout, tag: &str) -> Option<Req> {
    l.fields.iter().find(|f| f.tag == tag).map(|f| f.req)
}
pub fn srec(tag: &str, s: &str) -> Vec<u8> {
    rec(tag, &lstr(&s.chars().map(|c| c as u32 as u8).collect::<Vec<_>>()))
}
pub fn wrec(tag: &str, s: &str) -> Vec<u8> {
    rec(tag, &wstr(s))
}
pub fn brec(tag: &str, b: bool) -> Vec<u8> {
    rec(tag, &(b as u32).to_le_bytes())
}
