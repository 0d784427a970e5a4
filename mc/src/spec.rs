//! Independent description of the record layouts (spec/items.spec) and value menus.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    F32,
    U32,
    I32,
    Bool,
    Str,
    WStr,
    Vec2,
    Vec3,
    Vec3p,
    Vec4,
    Color,
    Enum(u32, u32),
    IEnum(i32, i32),
    Q8,
    Bytes,
    Font,
    Points,
    Marker,
    Anim,
    Efss,
    Mate,
    Phma,
    Matr,
    Rprb,
    Ccus,
    Code,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Req,
    Opt,
    Many,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub tag: String,
    pub kind: Kind,
    pub req: Req,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub name: String,
    pub id: i32,
    pub fields: Vec<Field>,
}

/// Expected model value of a record, independent of the implementation.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    None,
    F32(u32),
    F32s(Vec<u32>),
    U(u64),
    I(i64),
    B(bool),
    S(String),
    Color([u8; 4]),
    Enum(i64),
    Q8(u8),
    Opaque,
}

#[derive(Clone, Debug)]
pub struct Val {
    pub label: String,
    /// the complete encoded record(s), empty = absent
    pub enc: Vec<u8>,
    pub j: J,
}

pub fn rec(tag: &str, data: &[u8]) -> Vec<u8> {
    rec_len(tag, data, 4 + data.len() as u32)
}
pub fn rec_len(tag: &str, data: &[u8], len: u32) -> Vec<u8> {
    let mut v = Vec::with_capacity(8 + data.len());
    v.extend_from_slice(&len.to_le_bytes());
    let mut t = [0u8; 4];
    t[..tag.len()].copy_from_slice(tag.as_bytes());
    v.extend_from_slice(&t);
    v.extend_from_slice(data);
    v
}
pub fn endb() -> Vec<u8> {
    rec("ENDB", &[])
}
pub fn lstr(s: &[u8]) -> Vec<u8> {
    let mut v = (s.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(s);
    v
}
pub fn wstr(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
    lstr(&d)
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
pub fn latin1(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

pub fn parse(txt: &str) -> Vec<Layout> {
    let mut out: Vec<Layout> = vec![];
    for l in txt.lines() {
        let l = l.split('#').next().unwrap().trim_end();
        if l.trim().is_empty() {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        if w[0] == "item" {
            out.push(Layout {
                name: w[1].into(),
                id: w[2].parse().unwrap(),
                fields: vec![],
            });
            continue;
        }
        let kind = match w[1] {
            "f32" => Kind::F32,
            "u32" => Kind::U32,
            "i32" => Kind::I32,
            "bool" => Kind::Bool,
            "str" => Kind::Str,
            "wstr" => Kind::WStr,
            "vec2" => Kind::Vec2,
            "vec3" => Kind::Vec3,
            "vec3p" => Kind::Vec3p,
            "vec4" => Kind::Vec4,
            "color" => Kind::Color,
            "q8" => Kind::Q8,
            "bytes" => Kind::Bytes,
            "font" => Kind::Font,
            "points" => Kind::Points,
            "marker" => Kind::Marker,
            "anim" => Kind::Anim,
            "efss" => Kind::Efss,
            "mate" => Kind::Mate,
            "phma" => Kind::Phma,
            "matr" => Kind::Matr,
            "rprb" => Kind::Rprb,
            "ccus" => Kind::Ccus,
            "code" => Kind::Code,
            o => {
                if let Some(r) = o.strip_prefix("enum:") {
                    let (a, b) = r.split_once('-').unwrap();
                    Kind::Enum(a.parse().unwrap(), b.parse().unwrap())
                } else if o.starts_with("ienum:") {
                    Kind::IEnum(-1, 1)
                } else {
                    panic!("unknown kind {o}")
                }
            }
        };
        let req = match w[2] {
            "req" => Req::Req,
            "opt" => Req::Opt,
            "many" => Req::Many,
            o => panic!("unknown req {o}"),
        };
        out.last_mut().unwrap().fields.push(Field {
            tag: w[0].into(),
            kind,
            req,
        });
    }
    out
}

pub struct Spec {
    pub layouts: BTreeMap<String, Layout>,
    pub order: Vec<String>,
}
impl Spec {
    pub fn load() -> Spec {
        let l = parse(include_str!("../spec/items.spec"));
        Spec {
            order: l.iter().map(|x| x.name.clone()).collect(),
            layouts: l.into_iter().map(|x| (x.name.clone(), x)).collect(),
        }
    }
    pub fn get(&self, n: &str) -> &Layout {
        &self.layouts[n]
    }
    pub fn items(&self) -> Vec<&Layout> {
        self.order
            .iter()
            .map(|n| &self.layouts[n])
            .filter(|l| l.id >= 0)
            .collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Floats {
    /// every class of bit pattern
    All,
    /// only finite values (values JSON can carry)
    Finite,
}

pub fn float_menu(fl: Floats, thorough: bool) -> Vec<(String, u32)> {
    let mut m: Vec<(&str, u32)> = vec![
        ("0", 0),
        ("1", 1f32.to_bits()),
        ("-0", 0x8000_0000),
        ("-1.5", (-1.5f32).to_bits()),
        ("0.1", 0.1f32.to_bits()),
        ("denmin", 1),
        ("max", f32::MAX.to_bits()),
        ("16777217", 16777217f32.to_bits()),
    ];
    if thorough {
        m.extend([
            ("min", f32::MIN.to_bits()),
            ("-denmin", 0x8000_0001),
            ("minpos", f32::MIN_POSITIVE.to_bits()),
            ("denmax", 0x007f_ffff),
            ("eps", f32::EPSILON.to_bits()),
            ("third", (1f32 / 3.0).to_bits()),
            ("1e10", 1e10f32.to_bits()),
            ("-1e-10", (-1e-10f32).to_bits()),
            ("1e21", 1e21f32.to_bits()),
            ("255", 255f32.to_bits()),
        ]);
    }
    if fl == Floats::All {
        m.extend([
            ("inf", 0x7f80_0000),
            ("-inf", 0xff80_0000),
            ("nan", 0x7fc0_0000),
            ("nanp", 0x7fc1_2345),
            ("-nan", 0xffff_ffff),
            ("snan", 0x7f80_0001),
        ]);
    }
    m.into_iter().map(|(l, b)| (l.to_string(), b)).collect()
}

fn fb(bits: u32) -> [u8; 4] {
    bits.to_le_bytes()
}

pub fn latin1_menu(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]),
        ("a".into(), b"a".to_vec()),
        ("hi".into(), (0xa0..=0xffu8).collect()),
        ("c1".into(), (0x80..=0x9fu8).collect()),
        ("ctl".into(), (1..=0x1fu8).chain([0x7f]).collect()),
        ("json".into(), b"\"\\/\n\r\t{}[]:,'\x08\x0c".to_vec()),
        ("sp".into(), b" lead trail ".to_vec()),
    ];
    if thorough {
        v.push(("len255".into(), vec![b'x'; 255]));
        v.push(("len256".into(), vec![b'y'; 256]));
        v.push(("len4097".into(), vec![b'z'; 4097]));
        v.push(("ENDB".into(), b"\x04\x00\x00\x00ENDB".iter().map(|c| if *c == 0 { 1 } else { *c }).collect()));
        for c in 1..=255u8 {
            v.push((format!("b{c:02x}"), vec![c]));
        }
    } else {
        v.push(("len300".into(), vec![b'x'; 300]));
    }
    v
}

pub fn wide_menu(thorough: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![
        ("empty".into(), "".into()),
        ("a".into(), "a".into()),
        ("latin".into(), "é ÿ\u{80}".into()),
        ("cjk".into(), "日本".into()),
        ("emoji".into(), "😀x".into()),
        ("bom".into(), "\u{feff}x".into()),
        ("ffff".into(), "x\u{ffff}".into()),
        ("ctl".into(), "\"\\\n\t\u{1}".into()),
    ];
    if thorough {
        v.push(("len300".into(), "w".repeat(300)));
        v.push(("bom2".into(), "\u{fffe}x".into()));
        v.push(("d7ff".into(), "\u{d7ff}\u{e000}".into()));
        v.push(("10ffff".into(), "\u{10ffff}\u{10000}".into()));
        v.push(("nul".into(), "a\u{0}b".into()));
        v.push(("case".into(), "Aa_ (1)".into()));
    }
    v
}

fn v(label: impl Into<String>, tag: &str, data: &[u8], j: J) -> Val {
    Val {
        label: label.into(),
        enc: rec(tag, data),
        j,
    }
}

/// The encoded standard font object.
pub fn font_bytes(charset: u16, style: u8, weight: u16, size: u32, name: &[u8]) -> Vec<u8> {
    let mut d = vec![1u8];
    d.extend_from_slice(&charset.to_le_bytes());
    d.push(style);
    d.extend_from_slice(&weight.to_le_bytes());
    d.extend_from_slice(&size.to_le_bytes());
    d.push(name.len() as u8);
    d.extend_from_slice(name);
    d
}

pub struct Gen<'a> {
    pub spec: &'a Spec,
    pub floats: Floats,
    pub thorough: bool,
}

impl Gen<'_> {
    /// A base value that is distinct for every record index.
    pub fn base(&self, f: &Field, idx: usize) -> Val {
        let i = idx as u32;
        let x = 100.25f32 + i as f32 * 1.5;
        let t = f.tag.as_str();
        match &f.kind {
            Kind::F32 => v("base", t, &fb(x.to_bits()), J::F32(x.to_bits())),
            Kind::U32 => v("base", t, &(1000 + i).to_le_bytes(), J::U(1000 + i as u64)),
            Kind::I32 => v(
                "base",
                t,
                &(2000 + i as i32).to_le_bytes(),
                J::I(2000 + i as i64),
            ),
            Kind::Bool => v("base", t, &(idx as u32 & 1).to_le_bytes(), J::B(idx & 1 == 1)),
            Kind::Str => {
                let s = format!("s{i}_{t}");
                v("base", t, &lstr(s.as_bytes()), J::S(s))
            }
            Kind::WStr => {
                let s = format!("w{i}_{t}");
                v("base", t, &wstr(&s), J::S(s))
            }
            Kind::Vec2 => self.vecn(t, "base", &[x, x + 0.5], 0),
            Kind::Vec3 => self.vecn(t, "base", &[x, x + 0.5, x + 1.0], 0),
            Kind::Vec3p => self.vecn(t, "base", &[x, x + 0.5, x + 1.0], 4),
            Kind::Vec4 => self.vecn(t, "base", &[x, x + 0.5, x + 1.0, x + 1.25], 0),
            Kind::Color => {
                let c = [(i * 3) as u8, (i * 3 + 1) as u8, (i * 3 + 2) as u8, 0];
                v("base", t, &c, J::Color(c))
            }
            Kind::Enum(a, _) => v("base", t, &a.to_le_bytes(), J::Enum(*a as i64)),
            Kind::IEnum(a, _) => v("base", t, &a.to_le_bytes(), J::Enum(*a as i64)),
            Kind::Q8 => {
                let b = (i * 7 % 250) as u8;
                v("base", t, &(b as u32).to_le_bytes(), J::Q8(b))
            }
            Kind::Bytes => v(
                "base",
                t,
                &[1, 2, 3, i as u8],
                J::Opaque,
            ),
            Kind::Font => Val {
                label: "base".into(),
                enc: rec_len(t, &font_bytes(0, 0, 400, 120000 + i, b"Arial"), 4),
                j: J::Opaque,
            },
            Kind::Points => self.points_val("base", t, &[self.point(idx, 0), self.point(idx, 1), self.point(idx, 2)]),
            Kind::Marker => v("base", t, &[], J::None),
            Kind::Anim => Val { label: "base".into(), enc: vec![], j: J::Opaque },
            Kind::Efss => Val { label: "base".into(), enc: vec![], j: J::None },
            Kind::Mate => v("base", t, &[], J::Opaque),
            Kind::Phma => v("base", t, &[], J::Opaque),
            Kind::Matr => Val { label: "base".into(), enc: vec![], j: J::Opaque },
            Kind::Rprb => Val { label: "base".into(), enc: vec![], j: J::Opaque },
            Kind::Ccus => {
                let d: Vec<u8> = (0..64).map(|k| if k % 4 == 3 { 0 } else { k as u8 }).collect();
                v("base", t, &d, J::Opaque)
            }
            Kind::Code => self.code("base", b"'script"),
        }
    }

    fn code(&self, label: &str, s: &[u8]) -> Val {
        Val {
            label: label.into(),
            enc: rec_len("CODE", &lstr(s), 4),
            j: J::Opaque,
        }
    }

    fn vecn(&self, t: &str, label: &str, c: &[f32], pad: usize) -> Val {
        let bits: Vec<u32> = c.iter().map(|f| f.to_bits()).collect();
        self.vecb(t, label, &bits, pad)
    }
    fn vecb(&self, t: &str, label: &str, bits: &[u32], pad: usize) -> Val {
        let mut d = vec![];
        for b in bits {
            d.extend_from_slice(&b.to_le_bytes());
        }
        d.extend(std::iter::repeat_n(0u8, pad));
        v(label, t, &d, J::F32s(bits.to_vec()))
    }

    /// One drag point (nested record list incl. terminator).
    pub fn point(&self, idx: usize, k: usize) -> Vec<u8> {
        let l = self.spec.get("DragPoint");
        let mut d = vec![];
        for (n, f) in l.fields.iter().enumerate() {
            d.extend(self.base(f, idx * 7 + k * 13 + n).enc);
        }
        d.extend(endb());
        d
    }
    pub fn points_val(&self, label: &str, t: &str, pts: &[Vec<u8>]) -> Val {
        let mut e = vec![];
        for p in pts {
            e.extend(rec_len(t, p, 4));
        }
        Val {
            label: label.into(),
            enc: e,
            j: J::Opaque,
        }
    }

    /// All alternative values of a record, simplest first; excludes the base value.
    pub fn menu(&self, f: &Field, idx: usize) -> Vec<Val> {
        let t = f.tag.as_str();
        let th = self.thorough;
        let mut out: Vec<Val> = vec![];
        if f.req == Req::Opt {
            out.push(Val {
                label: "absent".into(),
                enc: vec![],
                j: J::None,
            });
        }
        match &f.kind {
            Kind::F32 => {
                for (l, b) in float_menu(self.floats, th) {
                    out.push(v(l, t, &fb(b), J::F32(b)));
                }
            }
            Kind::U32 => {
                for x in [0u32, 1, 2, 3, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
                    out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::U(x as u64)));
                }
            }
            Kind::I32 => {
                for x in [0i32, 1, -1, 2, 256, i32::MAX, i32::MIN] {
                    out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::I(x as i64)));
                }
            }
            Kind::Bool => {
                let x = (idx as u32 & 1) ^ 1;
                out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::B(x == 1)));
            }
            Kind::Str => {
                for (l, b) in latin1_menu(th) {
                    out.push(v(l, t, &lstr(&b), J::S(latin1(&b))));
                }
            }
            Kind::WStr => {
                for (l, s) in wide_menu(th) {
                    out.push(v(l, t, &wstr(&s), J::S(s)));
                }
            }
            Kind::Vec2 | Kind::Vec3 | Kind::Vec3p | Kind::Vec4 => {
                let (n, pad) = match f.kind {
                    Kind::Vec2 => (2, 0),
                    Kind::Vec3 => (3, 0),
                    Kind::Vec3p => (3, 4),
                    _ => (4, 0),
                };
                let b = match self.base(f, idx).j {
                    J::F32s(b) => b,
                    _ => unreachable!(),
                };
                for k in 0..n {
                    for (l, x) in float_menu(self.floats, th) {
                        let mut c = b.clone();
                        c[k] = x;
                        out.push(self.vecb(t, &format!("c{k}={l}"), &c, pad));
                    }
                }
            }
            Kind::Color => {
                for c in [
                    [0, 0, 0, 0u8],
                    [255, 0, 0, 0],
                    [0, 255, 0, 0],
                    [0, 0, 255, 0],
                    [0, 0, 0, 255],
                    [1, 2, 3, 4],
                    [255, 255, 255, 255],
                    [16, 171, 205, 9],
                ] {
                    out.push(v(
                        format!("{:02x}{:02x}{:02x}{:02x}", c[0], c[1], c[2], c[3]),
                        t,
                        &c,
                        J::Color(c),
                    ));
                }
            }
            Kind::Enum(a, b) => {
                for x in (*a + 1)..=*b {
                    out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::Enum(x as i64)));
                }
            }
            Kind::IEnum(a, b) => {
                for x in (*a + 1)..=*b {
                    out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::Enum(x as i64)));
                }
            }
            Kind::Q8 => {
                for x in 0..=255u32 {
                    out.push(v(format!("{x}"), t, &x.to_le_bytes(), J::Q8(x as u8)));
                }
            }
            Kind::Bytes => {
                for (l, d) in [
                    ("empty", vec![]),
                    ("zero", vec![0u8]),
                    ("all", (0..=255u8).collect()),
                    ("endb", [endb(), rec("NAME", b"xx")].concat()),
                    ("big", vec![0xabu8; 5000]),
                ] {
                    out.push(v(l, t, &d, J::Opaque));
                }
            }
            Kind::Font => {
                let mut fm: Vec<(String, Vec<u8>)> = vec![];
                for st in 0..32u8 {
                    fm.push((format!("st{st}"), font_bytes(0, st, 400, 90000, b"Arial")));
                }
                for cs in [1u16, 2, 128, 255, 256, 65535] {
                    fm.push((format!("cs{cs}"), font_bytes(cs, 2, 700, 90000, b"Arial")));
                }
                for w in [0u16, 1, 65535] {
                    fm.push((format!("w{w}"), font_bytes(0, 0, w, 90000, b"Arial")));
                }
                for s in [0u32, 1, u32::MAX] {
                    fm.push((format!("s{s}"), font_bytes(0, 0, 400, s, b"Arial")));
                }
                for (l, n) in latin1_menu(th) {
                    if n.len() <= 255 {
                        fm.push((format!("n{l}"), font_bytes(0, 0, 400, 5, &n)));
                    }
                }
                fm.push(("nlen255".into(), font_bytes(0, 0, 400, 5, &[b'q'; 255])));
                for (l, d) in fm {
                    out.push(Val {
                        label: l,
                        enc: rec_len(t, &d, 4),
                        j: J::Opaque,
                    });
                }
            }
            Kind::Points => {
                for n in [0usize, 1, 2, 4, 9] {
                    let p: Vec<Vec<u8>> = (0..n).map(|k| self.point(idx + 1, k)).collect();
                    out.push(self.points_val(&format!("n{n}"), t, &p));
                }
                // every deviation of one sub record of the middle point
                let l = self.spec.get("DragPoint");
                for (n, sf) in l.fields.iter().enumerate() {
                    let base: Vec<Val> = l
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(m, g)| self.base(g, idx * 7 + 13 + m))
                        .collect();
                    for alt in self.menu(sf, idx * 7 + 13 + n) {
                        let mut d = vec![];
                        for (m, b) in base.iter().enumerate() {
                            d.extend(if m == n { &alt.enc } else { &b.enc });
                        }
                        d.extend(endb());
                        out.push(self.points_val(
                            &format!("p1.{}={}", sf.tag, alt.label),
                            t,
                            &[self.point(idx, 0), d, self.point(idx, 2)],
                        ));
                    }
                }
                // all optional-presence subsets of one point
                let opts: Vec<usize> = l
                    .fields
                    .iter()
                    .enumerate()
                    .filter(|(_, g)| g.req == Req::Opt)
                    .map(|(i, _)| i)
                    .collect();
                for mask in 0..(1u32 << opts.len()) {
                    let mut d = vec![];
                    for (m, g) in l.fields.iter().enumerate() {
                        let present = match opts.iter().position(|o| *o == m) {
                            Some(k) => mask >> k & 1 == 1,
                            None => true,
                        };
                        if present {
                            d.extend(self.base(g, idx * 7 + m).enc);
                        }
                    }
                    d.extend(endb());
                    out.push(self.points_val(&format!("opts{mask:04b}"), t, &[d]));
                }
            }
            Kind::Marker => {}
            Kind::Anim => {
                for n in [1usize, 2, 3] {
                    let mut e = vec![];
                    for k in 0..n {
                        e.extend(rec("M3AY", &(77 + k as u32).to_le_bytes()));
                        e.extend(rec("M3AX", &vec![k as u8; 5 + k]));
                    }
                    out.push(Val {
                        label: format!("frames{n}"),
                        enc: e,
                        j: J::Opaque,
                    });
                }
            }
            Kind::Efss | Kind::Mate | Kind::Phma => {}
            Kind::Matr => {
                let l = self.spec.get("Material");
                for n in [1usize, 2, 3] {
                    let mut e = vec![];
                    for k in 0..n {
                        e.extend(rec(t, &self.nested(l, k * 40, None)));
                    }
                    out.push(Val { label: format!("n{n}"), enc: e, j: J::Opaque });
                }
                for (n, sf) in l.fields.iter().enumerate() {
                    for alt in self.menu(sf, n) {
                        let e = rec(t, &self.nested(l, 0, Some((n, &alt))));
                        out.push(Val { label: format!("{}={}", sf.tag, alt.label), enc: e, j: J::Opaque });
                    }
                }
            }
            Kind::Rprb => {
                let l = self.spec.get("RenderProbe");
                for n in [1usize, 2, 3] {
                    let mut e = vec![];
                    for k in 0..n {
                        let mut d = self.nested(l, k * 40, None);
                        d.extend(vec![0xA0 + k as u8; k * 3]);
                        e.extend(rec(t, &d));
                    }
                    out.push(Val { label: format!("n{n}"), enc: e, j: J::Opaque });
                }
                for (n, sf) in l.fields.iter().enumerate() {
                    for alt in self.menu(sf, n) {
                        let e = rec(t, &self.nested(l, 0, Some((n, &alt))));
                        out.push(Val { label: format!("{}={}", sf.tag, alt.label), enc: e, j: J::Opaque });
                    }
                }
                for g in [vec![0u8], vec![0, 0, 0], endb(), vec![7; 100]] {
                    let mut d = self.nested(l, 0, None);
                    d.extend(&g);
                    out.push(Val { label: format!("garbage{}", g.len()), enc: rec(t, &d), j: J::Opaque });
                }
            }
            Kind::Ccus => {
                for k in 0..16usize {
                    for ch in 0..4usize {
                        let mut d: Vec<u8> = (0..64).map(|k| if k % 4 == 3 { 0 } else { k as u8 }).collect();
                        d[k * 4 + ch] = 0xEE;
                        out.push(v(format!("c{k}.{ch}"), t, &d, J::Opaque));
                    }
                }
            }
            Kind::Code => {
                for (l, s) in script_menu(th) {
                    out.push(self.code(&l, &s));
                }
            }
        }
        let b = self.base(f, idx).enc;
        out.retain(|x| x.enc != b);
        out
    }

    pub fn nested(&self, l: &Layout, idx0: usize, alt: Option<(usize, &Val)>) -> Vec<u8> {
        let mut d = vec![];
        for (m, g) in l.fields.iter().enumerate() {
            match alt {
                Some((n, a)) if n == m => d.extend(&a.enc),
                _ => d.extend(self.base(g, idx0 + m).enc),
            }
        }
        d.extend(endb());
        d
    }

    /// Encodes an item stream (type id + records + terminator) from one value per field.
    pub fn item_bytes(&self, l: &Layout, vals: &[&Val]) -> Vec<u8> {
        let mut d = if l.id >= 0 {
            (l.id as u32).to_le_bytes().to_vec()
        } else {
            vec![]
        };
        for x in vals {
            d.extend(&x.enc);
        }
        d.extend(endb());
        d
    }
    pub fn base_vals(&self, l: &Layout) -> Vec<Val> {
        l.fields
            .iter()
            .enumerate()
            .map(|(i, f)| self.base(f, i))
            .collect()
    }
}

pub fn script_menu(thorough: bool) -> Vec<(String, Vec<u8>)> {
    let mut m: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), b"".to_vec()),
        ("crlf".into(), b"Option Explicit\r\nSub T\r\n\tx=\"a\"\"b\"\r\nEnd Sub".to_vec()),
        ("lf".into(), b"a\nb\n".to_vec()),
        ("cr".into(), b"a\rb".to_vec()),
        ("latin1".into(), b"' caf\xe9".to_vec()),
        ("latin1all".into(), (0x80..=0xffu8).collect()),
        ("utf8".into(), "' café 日本 😀".as_bytes().to_vec()),
        ("bom".into(), "\u{feff}x".as_bytes().to_vec()),
        ("ctl".into(), (1..0x20u8).collect()),
        ("endb".into(), b"ENDB TLCK CODE".to_vec()),
    ];
    if thorough {
        m.push(("len70000".into(), vec![b'q'; 70000]));
        m.push(("mixed".into(), [b"\xc3\xa9".to_vec(), b"\xe9".to_vec()].concat()));
        m.push(("overlong".into(), b"\xc0\x80\xed\xa0\x80".to_vec()));
        for c in 1..=255u8 {
            m.push((format!("b{c:02x}"), vec![b'a', c, b'z']));
        }
    }
    m
}
