//! Each stored value surfaces under its own meaning and nowhere else.
//!
//! Both representations of a table a user sees are observed as flat maps from a path to a value:
//! the in-memory model (its pretty debug rendering) and the extracted files (JSON leaves, other
//! files by content). spec/fields.spec assigns to every record the paths it may change.
use super::common::*;
use super::exp;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use vpin::vpx::VPX;
use vpin::vpx::expanded::PrimitiveMeshFormat;

type Mem = BTreeMap<String, String>;
type Json = BTreeMap<String, Value>;

/// Splits a pretty debug rendering into leaf values by path.
pub fn flatten_debug(text: &str) -> Mem {
    enum Frame {
        Named,
        List(usize),
        Wrap,
    }
    let mut out = Mem::new();
    let mut path: Vec<String> = vec![];
    // per open bracket: kind and whether it pushed a path segment
    let mut frames: Vec<(Frame, bool)> = vec![];
    for line in text.lines() {
        let l = line.trim_start();
        let bare = l.strip_suffix(',').unwrap_or(l);
        if matches!(bare, "}" | ")" | "]") {
            if let Some((_, pushed)) = frames.pop() {
                if pushed {
                    path.pop();
                }
            }
            continue;
        }
        let (key, rest) = match frames.last_mut() {
            Some((Frame::Named, _)) => match l.split_once(": ") {
                Some((k, r)) => (Some(k.trim_matches('"').to_string()), r),
                None => {
                    // an element of a set
                    let e: &mut String = out.entry(path.join(".")).or_default();
                    let mut all: Vec<&str> = e.split('|').filter(|x| !x.is_empty()).chain([bare]).collect();
                    all.sort_unstable();
                    *e = all.join("|");
                    continue;
                }
            },
            Some((Frame::List(n), _)) => {
                *n += 1;
                (Some(format!("{}", *n - 1)), l)
            }
            _ => (None, l),
        };
        // an empty list or structure is a leaf
        let open = match rest.chars().last() {
            Some('{') => Some(Frame::Named),
            Some('[') => Some(Frame::List(0)),
            Some('(') => Some(Frame::Wrap),
            _ => None,
        };
        let pushed = key.is_some();
        if let Some(k) = key {
            path.push(k);
        }
        match open {
            Some(f) => frames.push((f, pushed)),
            None => {
                let v = rest.strip_suffix(',').unwrap_or(rest);
                out.insert(path.join("."), v.to_string());
                if pushed {
                    path.pop();
                }
            }
        }
    }
    out
}

fn flatten_json(path: &str, v: &Value, out: &mut Json) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
                flatten_json(&p, x, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                flatten_json(&format!("{path}.{i}"), x, out);
            }
        }
        Value::Null => {}
        _ => {
            out.insert(path.to_string(), v.clone());
        }
    }
}

/// The directory part and the extension of a file named after a component.
fn alias(p: &str) -> String {
    let p = p.trim_start_matches("out/dir/").trim_start_matches('/');
    match p.split_once('/') {
        Some((d, f)) => format!("{d}/*.{}", f.rsplit_once('.').map(|(_, e)| e).unwrap_or("")),
        None => p.to_string(),
    }
}

pub struct View {
    pub mem: Mem,
    pub json: Json,
    pub files: exp::Files,
}

pub fn view(bytes: &[u8]) -> Result<(VPX, View), String> {
    let v = load(bytes)?;
    let mut mem = flatten_debug(&format!("{v:#?}"));
    // contents the debug rendering leaves out
    for (i, m) in v.images.iter().enumerate() {
        if let Some(j) = &m.jpeg {
            mem.insert(format!("images.{i}.jpeg.data"), blob(&j.data).to_string());
            mem.insert(format!("images.{i}.jpeg.internal_name"), format!("{:?}", j.internal_name));
        }
        if let Some(b) = &m.bits {
            mem.insert(format!("images.{i}.bits.data"), blob(&b.lzw_compressed_data).to_string());
        }
    }
    for (i, s) in v.sounds.iter().enumerate() {
        mem.insert(format!("sounds.{i}.data"), blob(&s.data).to_string());
    }
    for (i, f) in v.fonts.iter().enumerate() {
        mem.insert(format!("fonts.{i}.data"), blob(&f.data).to_string());
    }
    let fs = exp::extract(&v, PrimitiveMeshFormat::Obj, false)?;
    let files = exp::files(&fs);
    let mut json = Json::new();
    for (p, d) in &files {
        let a = alias(p);
        if p.ends_with(".json") {
            let j: Value = serde_json::from_slice(d).map_err(|e| format!("{p}: {e}"))?;
            flatten_json(&format!("{a}:"), &j, &mut json);
        } else {
            json.insert(a, Value::String(hex(d) + &format!("/{}/{:x}", d.len(), hash_of(d))));
        }
    }
    Ok((v, View { mem, json, files }))
}

fn changed<V: PartialEq>(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> BTreeSet<String> {
    a.keys()
        .chain(b.keys())
        .filter(|k| a.get(*k) != b.get(*k))
        .cloned()
        .collect()
}

/// The text a value has in the debug rendering, the JSON value; `None` if the representation is not a plain one.
fn plain(j: &J) -> Option<(String, Value)> {
    let f = |b: u32| {
        let x = f32::from_bits(b);
        let v = if x.is_nan() {
            Value::String(format!("NaN|{}", b.to_le_bytes().map(|c| format!("{c:02x}")).concat()))
        } else if x.is_infinite() {
            Value::String(if x > 0.0 { "Inf" } else { "-Inf" }.into())
        } else {
            Value::from(x as f64)
        };
        (format!("{x:?}"), v)
    };
    Some(match j {
        J::F32(b) => f(*b),
        J::Q8(b) => f((*b as f32 / 255.0).to_bits()),
        J::U(x) => (x.to_string(), Value::from(*x)),
        J::I(x) => (x.to_string(), Value::from(*x)),
        J::B(x) => (x.to_string(), Value::from(*x)),
        J::S(x) => (format!("{x:?}"), Value::from(x.as_str())),
        _ => return None,
    })
}

/// Equal JSON leaves; numbers as 32-bit floats when either is not an integer.
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(x), Some(y)) = (x.as_i64(), y.as_i64()) {
                return x == y;
            }
            match (x.as_f64(), y.as_f64()) {
                (Some(x), Some(y)) => (x as f32).to_bits() == (y as f32).to_bits(),
                _ => false,
            }
        }
        _ => a == b,
    }
}


/// What the format says about one stored value.
#[derive(Clone)]
enum Mem1 {
    /// nothing where the field is optional, otherwise a default (the property of missing records)
    Absent,
    /// exactly these leaves below the stem
    Is(Vec<(String, String)>),
    Any,
}
#[derive(Clone)]
enum Json1 {
    /// exactly this value at the stem, nothing if `None`
    Is(Option<Value>),
    /// the content of a file
    File(Vec<u8>),
    Any,
}

struct Dev {
    label: String,
    table: Table,
    mem: Vec<(String, Mem1)>,
    json: Vec<(String, Json1)>,
    /// further JSON paths that may follow the value (names of files derived from it)
    follow: Vec<String>,
    /// whether replacing the JSON values must give exactly the deviating file
    edit: bool,
}

fn under(path: &str, stem: &str) -> bool {
    path == stem || path.strip_prefix(stem).is_some_and(|r| r.starts_with('.'))
}

fn leaves<V: Clone>(m: &BTreeMap<String, V>, stem: &str) -> BTreeMap<String, V> {
    m.range(stem.to_string()..)
        .take_while(|(k, _)| k.starts_with(stem))
        .filter(|(k, _)| under(k, stem))
        .map(|(k, v)| (k[stem.len()..].to_string(), v.clone()))
        .collect()
}

fn blob(d: &[u8]) -> Value {
    Value::String(hex(d) + &format!("/{}/{:x}", d.len(), hash_of(d)))
}

fn check(base: &View, d: &Dev) -> Result<u64, String> {
    let (model, v) = view(&d.table.bytes())?;
    for k in changed(&base.mem, &v.mem) {
        if !d.mem.iter().any(|(s, _)| under(&k, s)) {
            return Err(format!(
                "the model field {k} changed from {:?} to {:?}, though only {:?} is stored otherwise",
                base.mem.get(&k),
                v.mem.get(&k),
                d.mem.iter().map(|x| &x.0).collect::<Vec<_>>()
            ));
        }
    }
    for (s, w) in &d.mem {
        if let Mem1::Is(w) = w {
            let w: Mem = w.iter().cloned().collect();
            let got = leaves(&v.mem, s);
            if w != got {
                return Err(format!("the model field {s} is {got:?}, the file says {w:?}"));
            }
        }
    }
    // a missing record of a field that always has a value: a default, which is not checked here
    let default = d.mem.iter().any(|(s, w)| matches!(w, Mem1::Absent) && v.mem.get(s).is_none_or(|x| x != "None"));
    for k in changed(&base.json, &v.json) {
        if !d.json.iter().any(|(s, _)| under(&k, s)) && !d.follow.contains(&k) {
            return Err(format!(
                "the extracted {k} changed from {:?} to {:?}, though only {:?} is stored otherwise",
                base.json.get(&k),
                v.json.get(&k),
                d.json.iter().map(|x| &x.0).collect::<Vec<_>>()
            ));
        }
    }
    for (s, w) in &d.json {
        let got = leaves(&v.json, s);
        match w {
            _ if default => {}
            Json1::Any => {}
            Json1::File(f) => {
                if got.get("") != Some(&blob(f)) {
                    return Err(format!("the extracted file {s} is {:?}, not {:?}", got.get(""), blob(f)));
                }
            }
            Json1::Is(w) => {
                let mut exp = Json::new();
                if let Some(w) = w {
                    flatten_json("", w, &mut exp);
                }
                let exp: Json = exp
                    .into_iter()
                    .map(|(k, v)| if k.is_empty() || k.starts_with('.') { (k, v) } else { (format!(".{k}"), v) })
                    .collect();
                if exp.len() != got.len() || exp.iter().any(|(k, v)| !got.get(k).is_some_and(|g| same_json(v, g))) {
                    return Err(format!("the extracted {s} is {got:?}, the file says {exp:?}"));
                }
            }
        }
    }
    // the model, different in this field only, is written to the file that differs in this record only
    let want = d.table.streams();
    let got = dump(&save(&model)?)?;
    if let Some(e) = diff_streams(&want, &got) {
        return Err(format!("written from the model: {e}"));
    }
    // materials are also written in the old layout, derived from the values (checked by P03)
    let derived = d.label.starts_with("Material/");
    let plain = |mut s: Streams| -> Result<Streams, String> {
        if derived {
            s.remove("/GameStg/MAC");
            let h = s.get_mut("/GameStg/GameData").ok_or("no header")?;
            *h = split_records(h)
                .ok_or("bad header records")?
                .iter()
                .filter(|(t, _)| !["MASI", "MATE", "PHMA"].contains(&t.as_str()))
                .flat_map(|(t, d)| rec(t, d))
                .collect();
        }
        Ok(s)
    };
    if d.edit && !default {
        let mut files = base.files.clone();
        for (s, w) in &d.json {
            edit(&mut files, s, w)?;
        }
        let fs = exp::memory(&files);
        let got = dump(&save(&exp::assemble(&fs)?)?)?;
        if let Some(e) = diff_streams(&plain(exp::norm(&want)?)?, &plain(exp::norm(&got)?)?) {
            return Err(format!("written after editing the extracted base: {e}"));
        }
    }
    Ok(hash_of(&(&d.label, want.len())))
}

/// Replaces one value of the extracted files.
fn edit(files: &mut exp::Files, stem: &str, w: &Json1) -> Result<(), String> {
    let (file, ptr) = match stem.split_once(":.") {
        Some((f, p)) => (f, Some(p)),
        None => (stem, None),
    };
    let (path, data) = files
        .iter_mut()
        .find(|(k, _)| alias(k) == file)
        .ok_or_else(|| format!("no extracted file {file}"))?;
    match (ptr, w) {
        (None, Json1::File(d)) => *data = d.clone(),
        (Some(p), Json1::Is(v)) => {
            let mut root: Value = serde_json::from_slice(data).map_err(|e| format!("{path}: {e}"))?;
            let mut at = &mut root;
            let segs: Vec<&str> = p.split('.').collect();
            for s in &segs[..segs.len() - 1] {
                at = match at {
                    Value::Array(a) => a.get_mut(s.parse::<usize>().unwrap()),
                    Value::Object(m) => m.get_mut(*s),
                    _ => None,
                }
                .ok_or_else(|| format!("no {p} in {path}"))?;
            }
            let last = *segs.last().unwrap();
            match (at, v) {
                (Value::Object(m), Some(v)) => {
                    m.insert(last.into(), v.clone());
                }
                (Value::Object(m), None) => {
                    m.remove(last);
                }
                (Value::Array(a), Some(v)) => a[last.parse::<usize>().unwrap()] = v.clone(),
                _ => return Err(format!("cannot set {p} in {path}")),
            }
            *data = serde_json::to_vec_pretty(&root).unwrap();
        }
        _ => return Err(format!("cannot edit {stem}")),
    }
    Ok(())
}

fn color(c: [u8; 4]) -> Value {
    Value::from(if c[3] == 0 {
        format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2])
    } else {
        format!("{:02x}#{:02x}{:02x}{:02x}", c[3], c[0], c[1], c[2])
    })
}
fn color_mem(c: [u8; 4], pre: &str) -> Vec<(String, String)> {
    [("r", 0), ("g", 1), ("b", 2), ("unused", 3)].iter().map(|(n, i)| (format!("{pre}.{n}"), c[*i].to_string())).collect()
}
fn nums(d: &[u8]) -> (Mem1, Json1) {
    (
        if d.is_empty() {
            Mem1::Is(vec![(String::new(), "[]".into())])
        } else {
            Mem1::Is(d.iter().enumerate().map(|(i, x)| (format!(".{i}"), x.to_string())).collect())
        },
        Json1::Is(Some(Value::from(d.to_vec()))),
    )
}

/// The content of a record with a 4 byte length prefix in front of it.
fn body(enc: &[u8]) -> &[u8] {
    &enc[8..]
}

/// What a record's value means; the flag tells whether JSON can hold it.
fn meaning(f: &Field, names: &[(String, String)], a: &Val) -> (Mem1, Json1, bool) {
    let one = |t: String, v: Value| (Mem1::Is(vec![(String::new(), t)]), Json1::Is(Some(v)), true);
    if f.req == Req::Opt && a.enc.is_empty() {
        return (Mem1::Absent, Json1::Is(None), true);
    }
    let some = |b: u32| f32::from_bits(b).is_finite();
    match (&f.kind, &a.j) {
        (_, J::F32(b)) if !some(*b) => {
            let (t, v) = plain(&a.j).unwrap();
            let j = if f.req == Req::Opt { Json1::Is(Some(v)) } else { Json1::Any };
            (Mem1::Is(vec![(String::new(), t)]), j, f.req == Req::Opt)
        }
        (_, J::F32s(b)) => {
            let ax = ["x", "y", "z", "w"];
            let m = b.iter().zip(ax).map(|(b, n)| (format!(".{n}"), plain(&J::F32(*b)).unwrap().0)).collect();
            let j: serde_json::Map<String, Value> = b.iter().zip(ax).map(|(b, n)| (n.to_string(), plain(&J::F32(*b)).unwrap().1)).collect();
            let fin = b.iter().all(|b| some(*b));
            (Mem1::Is(m), if fin { Json1::Is(Some(Value::Object(j))) } else { Json1::Any }, fin)
        }
        (_, J::Color(c)) => (Mem1::Is(color_mem(*c, "")), Json1::Is(Some(color(*c))), true),
        (Kind::Enum(lo, _), J::Enum(x)) => {
            let (m, j) = &names[(*x - *lo as i64) as usize];
            one(m.clone(), j.parse::<u32>().map(Value::from).unwrap_or_else(|_| Value::from(j.as_str())))
        }
        (Kind::IEnum(lo, _), J::Enum(x)) => {
            let (m, j) = &names[(*x - *lo as i64) as usize];
            one(m.clone(), j.parse::<u32>().map(Value::from).unwrap_or_else(|_| Value::from(j.as_str())))
        }
        (Kind::Bytes, _) => {
            let (m, j) = nums(body(&a.enc));
            (m, j, true)
        }
        (Kind::Ccus, _) => {
            let d = body(&a.enc);
            let c = |i: usize| [d[i * 4], d[i * 4 + 1], d[i * 4 + 2], d[i * 4 + 3]];
            (
                Mem1::Is((0..16).flat_map(|i| color_mem(c(i), &format!(".{i}"))).collect()),
                Json1::Is(Some(Value::Array((0..16).map(|i| color(c(i))).collect()))),
                true,
            )
        }
        (Kind::Code, _) => {
            let d = a.enc[12..].to_vec();
            let s = std::str::from_utf8(&d).map(|s| s.to_string()).unwrap_or_else(|_| latin1(&d));
            (Mem1::Is(vec![(String::new(), format!("{s:?}"))]), Json1::File(d), true)
        }
        (Kind::Font, _) => {
            // version, charset, style, weight, size, length, name
            let d = body(&a.enc);
            let u16le = |i: usize| u16::from_le_bytes([d[i], d[i + 1]]);
            let (cs, st, w) = (u16le(1), d[3], u16le(4));
            let size = u32::from_le_bytes(d[6..10].try_into().unwrap());
            let name = latin1(&d[11..]);
            let styles: Vec<&str> = [(16u8, "Normal"), (1, "Bold"), (2, "Italic"), (4, "Underline"), (8, "Strikethrough")]
                .iter()
                .filter(|(b, _)| st & b != 0)
                .map(|(_, n)| *n)
                .collect();
            let mut j = serde_json::json!({"style": styles, "weight": w, "size": size, "name": name});
            if cs != 0 {
                j["charset"] = Value::from(cs);
            }
            (
                Mem1::Is(vec![
                    (".charset".into(), cs.to_string()),
                    (".name".into(), format!("{name:?}")),
                    (".size".into(), size.to_string()),
                    (".style".into(), {
                        let mut s = styles.clone();
                        s.sort_unstable();
                        if s.is_empty() { "{}".into() } else { s.join("|") }
                    }),
                    (".weight".into(), w.to_string()),
                ]),
                Json1::Is(Some(j)),
                true,
            )
        }
        (Kind::Points, _) => (Mem1::Any, Json1::Any, false),
        _ => match plain(&a.j) {
            Some((t, v)) => one(t, v),
            None => (Mem1::Any, Json1::Any, false),
        },
    }
}

#[derive(Clone)]
pub struct Row {
    tag: String,
    mem: String,
    json: String,
    names: Vec<(String, String)>,
}
#[derive(Clone)]
pub struct Group {
    mem: String,
    json: String,
    rows: Vec<Row>,
}
pub fn groups() -> BTreeMap<String, Group> {
    let mut out: BTreeMap<String, Group> = BTreeMap::new();
    let mut cur = String::new();
    for l in include_str!("../../spec/fields.spec").lines() {
        let l = l.split(" # ").next().unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        if w[0] == "group" {
            cur = w[1].into();
            out.insert(cur.clone(), Group { mem: w[2].into(), json: w[3].into(), rows: vec![] });
            continue;
        }
        let g = out.get_mut(&cur).unwrap();
        g.rows.push(Row {
            tag: w[0].into(),
            mem: w[1].into(),
            json: w[2].into(),
            names: w
                .get(3)
                .map(|n| n.split(',').map(|p| p.split_once('/').unwrap()).map(|(a, b)| (a.to_string(), b.to_string())).collect())
                .unwrap_or_default(),
        });
    }
    out
}

fn stems(g: &Group, r: &Row) -> (String, String) {
    if r.mem == "*" {
        return (g.mem.clone(), g.json.clone());
    }
    let m = if r.mem.starts_with('=') { r.mem[1..].to_string() } else { format!("{}.{}", g.mem, r.mem) };
    let j = if r.json.starts_with('=') { r.json[1..].to_string() } else { format!("{}.{}", g.json, r.json) };
    (m, j)
}

type Make<'a> = dyn Fn(&[(usize, &Val)]) -> Table + Sync + 'a;

/// One deviation of one record: the paths it stands for and what has to be found there.
struct Point {
    label: String,
    idx: usize,
    val: Val,
    mem: Vec<(String, Mem1)>,
    json: Vec<(String, Json1)>,
    follow: Vec<String>,
    edit: bool,
}

fn point(l: &Layout, i: usize, a: &Val, grp: &Group, row: &Row, label: String) -> Point {
    let f = &l.fields[i];
    let (ms, js) = stems(grp, row);
    let (m, j, edit) = meaning(f, &row.names, a);
    let mut p = Point { label, idx: i, val: a.clone(), mem: vec![], json: vec![], follow: vec![], edit };
    if f.tag == "NAME" && l.id >= 0 {
        p.follow = vec!["gameitems.json:.0.file_name".into(), "gameitems/*.obj".into()];
    }
    if l.name == "PartGroup" {
        // the group's own file repeats the editor values of the list of items
        for k in ["is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility"] {
            if js.ends_with(&format!(".{k}")) {
                p.follow.push(format!("{}.{k}", grp.json));
            }
        }
    }
    if f.kind == Kind::Code {
        p.mem = vec![(format!("{ms}.string"), m), (format!("{ms}.encoding"), Mem1::Any)];
        p.json = vec![("script.vbs".into(), j)];
    } else if row.mem == "*" {
        // the components lie directly in the structure
        let J::F32s(b) = &a.j else { panic!("{} is no vector", f.tag) };
        for (b, n) in b.iter().zip(["x", "y"]) {
            let (t, v) = plain(&J::F32(*b)).unwrap();
            p.mem.push((format!("{ms}.{n}"), Mem1::Is(vec![(String::new(), t)])));
            p.json.push((format!("{js}.{n}"), if edit { Json1::Is(Some(v)) } else { Json1::Any }));
        }
    } else {
        p.mem = vec![(ms, m)];
        p.json = vec![(js, j)];
    }
    p
}

/// All deviations of the records of one layout, and all pairs of deviations of different records.
fn layout(ctx: &Ctx, name: &str, g: &Gen, l: &Layout, base: &View, base_vals: &[Val], grp: &Group, mk: &Make) {
    let mut used: BTreeMap<&str, usize> = BTreeMap::new();
    let mut points: Vec<Vec<Point>> = vec![];
    for (i, f) in l.fields.iter().enumerate() {
        if exp::is_mesh_tag(&f.tag) || matches!(f.kind, Kind::Efss | Kind::Mate | Kind::Phma | Kind::Marker | Kind::Matr | Kind::Rprb | Kind::Points | Kind::Anim) {
            continue;
        }
        if ["MASI", "SEDT", "SSND", "SIMG", "SFNT", "SCOL"].contains(&f.tag.as_str()) {
            continue;
        }
        let n = used.entry(&f.tag).or_default();
        let row = grp.rows.iter().filter(|r| r.tag == f.tag).nth(*n).unwrap_or_else(|| panic!("fields.spec: no {name} {}", f.tag));
        *n += 1;
        let mut v = vec![point(l, i, &base_vals[i], grp, row, format!("{name}/{}=base", f.tag))];
        for a in g.menu(f, i) {
            v.push(point(l, i, &a, grp, row, format!("{name}/{}={}", f.tag, a.label)));
        }
        points.push(v);
    }
    points.par_iter().flatten().for_each(|p| {
        if ctx.too_many() || !ctx.wants(&p.label) {
            return;
        }
        let d = Dev {
            label: p.label.clone(),
            table: mk(&[(p.idx, &p.val)]),
            mem: p.mem.clone(),
            json: p.json.clone(),
            follow: p.follow.clone(),
            edit: p.edit,
        };
        ctx.case(&p.label, || check(base, &d));
    });
    // pairs: the first present deviation of each record, together
    let per = if ctx.quick() { 1 } else { 2 };
    let pick: Vec<Vec<&Point>> = points
        .iter()
        .map(|v| v[1..].iter().filter(|p| !p.val.enc.is_empty() && p.edit).skip(1).take(per).collect::<Vec<_>>())
        .zip(points.iter())
        .map(|(v, all)| if v.is_empty() { all[1..].iter().take(1).collect() } else { v })
        .collect();
    let pairs: Vec<(&Point, &Point)> = (0..pick.len())
        .flat_map(|a| (a + 1..pick.len()).map(move |b| (a, b)))
        .flat_map(|(a, b)| pick[a].iter().flat_map(|x| pick[b].iter().map(|y| (*x, *y))).collect::<Vec<_>>())
        .collect();
    pairs.par_iter().for_each(|(x, y)| {
        let label = format!("{}+{}", x.label, y.label.strip_prefix(name).unwrap());
        if ctx.too_many() || !ctx.wants(&label) {
            return;
        }
        let cat = |a: &Vec<String>, b: &Vec<String>| [a.as_slice(), b.as_slice()].concat();
        let d = Dev {
            label: label.clone(),
            table: mk(&[(x.idx, &x.val), (y.idx, &y.val)]),
            mem: [x.mem.as_slice(), y.mem.as_slice()].concat(),
            json: [x.json.as_slice(), y.json.as_slice()].concat(),
            follow: cat(&x.follow, &y.follow),
            edit: x.edit && y.edit,
        };
        ctx.case(&label, || check(base, &d));
    });
}


/// Deviations of one component stream, given as changed tables with their expected places.
struct Comp<'a> {
    name: &'a str,
    base: View,
}
impl Comp<'_> {
    #[allow(clippy::too_many_arguments)]
    fn dev(&self, ctx: &Ctx, label: String, table: Table, mem: Vec<(String, Mem1)>, json: Vec<(String, Json1)>, follow: &[&str], edit: bool) {
        let label = format!("{}/{label}", self.name);
        if ctx.too_many() || !ctx.wants(&label) {
            return;
        }
        let d = Dev { label: label.clone(), table, mem, json, follow: follow.iter().map(|s| s.to_string()).collect(), edit };
        ctx.case(&label, || check(&self.base, &d));
    }
}
fn is<T: std::fmt::Debug>(x: T) -> Mem1 {
    Mem1::Is(vec![(String::new(), format!("{x:?}"))])
}
fn leaf(v: impl Into<Value>) -> Json1 {
    Json1::Is(Some(v.into()))
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::All, thorough: !ctx.quick() };
    let grp = groups();
    ctx.rule("every record of every item type, drag point, header, material, probe, legacy material, image, sound, font, collection and table information: every menu value stored alone over a base of distinct values, and pairs of stored values in different records of one layout; each time all leaves of the model and of the extracted files are compared with the base");
    ctx.assume("the assignment of records to fields is pinned in spec/fields.spec, reviewed against the load functions of Visual Pinball");
    ctx.assume("a value that is not finite has no JSON form where the field always has a value; what a missing record reads as is the subject of P23");
    items(ctx, &spec, &g, &grp);
    nested(ctx, &spec, &g, &grp);
    legacy(ctx, &spec);
    images(ctx, &spec, &g);
    sounds(ctx, &spec);
    fonts_collections(ctx, &spec);
    info(ctx, &spec);
}

fn items(ctx: &Ctx, spec: &Spec, g: &Gen, grp: &BTreeMap<String, Group>) {
    for l in spec.items() {
        let base = exp::exp_base(g, l);
        let mk = |over: &[(usize, &Val)]| {
            let v: Vec<&Val> = base.iter().enumerate().map(|(k, x)| over.iter().find(|o| o.0 == k).map(|o| o.1).unwrap_or(x)).collect();
            let mut t = Table::new(spec, 1080);
            t.items.push(g.item_bytes(l, &v));
            t
        };
        match guard(|| view(&mk(&[]).bytes())) {
            Ok((_, b)) => layout(ctx, &l.name, g, l, &b, &base, &grp[&l.name], &mk),
            Err(e) => {
                ctx.violation(&format!("{}/base", l.name), &e, Value::Null);
            }
        }
    }
}

fn nested(ctx: &Ctx, spec: &Spec, g: &Gen, grp: &BTreeMap<String, Group>) {
    // drag points: the middle one of three
    let dl = spec.get("DragPoint");
    for l in spec.items() {
        let Some(at) = l.fields.iter().position(|f| f.kind == Kind::Points) else { continue };
        let base_item = exp::exp_base(g, l);
        let base: Vec<Val> = dl.fields.iter().enumerate().map(|(i, f)| g.base(f, 13 + i)).collect();
        let mk = |over: &[(usize, &Val)]| {
            let mut d: Vec<u8> = vec![];
            for (k, b) in base.iter().enumerate() {
                d.extend(&over.iter().find(|o| o.0 == k).map(|o| o.1).unwrap_or(b).enc);
            }
            d.extend(endb());
            let pts = g.points_val("", &l.fields[at].tag, &[g.point(7, 0), d, g.point(9, 2)]);
            let v: Vec<&Val> = base_item.iter().enumerate().map(|(k, x)| if k == at { &pts } else { x }).collect();
            let mut t = Table::new(spec, 1080);
            t.items.push(g.item_bytes(l, &v));
            t
        };
        let mut gr = grp["DragPoint"].clone();
        gr.json = gr.json.replace("{}", &l.name);
        let name = format!("{}.point", l.name);
        match guard(|| view(&mk(&[]).bytes())) {
            Ok((_, b)) => layout(ctx, &name, g, dl, &b, &base, &gr, &mk),
            Err(e) => {
                ctx.violation(&format!("{name}/base"), &e, Value::Null);
            }
        }
    }
    // the header
    let gl = spec.get("GameData");
    let base: Vec<Val> = gl.fields.iter().enumerate().map(|(i, f)| g.base(f, i)).collect();
    let start = Table::new(spec, 1080);
    let base: Vec<Val> = base.into_iter().enumerate().map(|(i, b)| if gl.fields[i].kind == Kind::Efss || start.gamedata[i].1 == b.enc { b } else { Val { enc: start.gamedata[i].1.clone(), ..b } }).collect();
    let mk = |over: &[(usize, &Val)]| {
        let mut t = start.clone();
        for (i, a) in over {
            t.gamedata[*i].1 = a.enc.clone();
        }
        t
    };
    match guard(|| view(&mk(&[]).bytes())) {
        Ok((_, b)) => layout(ctx, "GameData", g, gl, &b, &base, &grp["GameData"], &mk),
        Err(e) => {
            ctx.violation("GameData/base", &e, Value::Null);
        }
    }
    // materials and probes: the middle one of three
    for (n, tag) in [("Material", "MATR"), ("RenderProbe", "RPRB")] {
        let l = spec.get(n);
        let base: Vec<Val> = l.fields.iter().enumerate().map(|(i, f)| g.base(f, i)).collect();
        let mk = |over: &[(usize, &Val)]| {
            let mut d: Vec<u8> = vec![];
            for (k, b) in base.iter().enumerate() {
                d.extend(&over.iter().find(|o| o.0 == k).map(|o| o.1).unwrap_or(b).enc);
            }
            d.extend(endb());
            let e = [rec(tag, &g.nested(l, 100, None)), rec(tag, &d), rec(tag, &g.nested(l, 50, None))].concat();
            let mut t = Table::new(spec, 1080);
            t.set(tag, e);
            t
        };
        match guard(|| view(&mk(&[]).bytes())) {
            Ok((_, b)) => layout(ctx, n, g, l, &b, &base, &grp[n], &mk),
            Err(e) => {
                ctx.violation(&format!("{n}/base"), &e, Value::Null);
            }
        }
    }
}

fn legacy(ctx: &Ctx, spec: &Spec) {
    #[derive(Clone)]
    struct M {
        name: Vec<u8>,
        colors: [[u8; 4]; 3],
        f: [f32; 4],
        b: [u8; 4],
    }
    #[derive(Clone)]
    struct P {
        name: Vec<u8>,
        v: [u32; 4],
    }
    let m = |k: u8| M {
        name: format!("mat{k}").into_bytes(),
        colors: [[k, 1, 2, 0], [k, 3, 4, 0], [k, 5, 6, 0]],
        f: [0.125 + k as f32, 0.25 + k as f32, 0.375 + k as f32, 0.5 + k as f32],
        b: [k & 1, 100 + k, 110 + k, 120 + k],
    };
    let p = |k: u8| P { name: format!("mat{k}").into_bytes(), v: [1.25f32, 2.25, 3.25, 4.25].map(|x| (x + k as f32).to_bits()) };
    let mk = |ms: &[M], ps: &[P]| {
        let mut t = Table::new(spec, 1080);
        t.set("MASI", rec("MASI", &(ms.len() as u32).to_le_bytes()));
        t.set(
            "MATE",
            rec(
                "MATE",
                &ms.iter()
                    .flat_map(|m| {
                        let [a, b, c] = m.colors.map(u32::from_le_bytes);
                        save_material(&m.name, a, b, c, m.f[0], m.b[0], m.f[1], m.b[1], m.f[2], m.b[2], m.f[3], m.b[3])
                    })
                    .collect::<Vec<_>>(),
            ),
        );
        t.set("PHMA", rec("PHMA", &ps.iter().flat_map(|p| save_physics(&p.name, p.v)).collect::<Vec<_>>()));
        t
    };
    let (ms, ps) = ([m(2), m(4), m(6)], [p(2), p(4), p(6)]);
    let Some(c) = comp(ctx, "legacy-material", &mk(&ms, &ps)) else { return };
    let go = |field: &str, label: String, change: &dyn Fn(&mut M), mem: Mem1, json: Json1| {
        let mut v = ms.clone();
        change(&mut v[1]);
        c.dev(
            ctx,
            format!("{field}={label}"),
            mk(&v, &ps),
            vec![(format!("gamedata.materials_old.1.{field}"), mem)],
            vec![(format!("materials-old.json:.1.{field}"), json)],
            &[],
            true,
        );
    };
    for n in 0..=31usize {
        let b: Vec<u8> = (0..n).map(|k| [b'x', 0xe9, b' ', b'\\', 0xff][k % 5]).collect();
        let s = latin1(&b);
        go("name", format!("len{n}"), &|m| m.name = b.clone(), is(&s), leaf(s.as_str()));
        let mut v = ps.clone();
        v[1].name = b.clone();
        c.dev(
            ctx,
            format!("physics.name=len{n}"),
            mk(&ms, &v),
            vec![("gamedata.materials_physics_old.1.name".into(), is(&s))],
            vec![("materials-physics-old.json:.1.name".into(), leaf(s.as_str()))],
            &[],
            true,
        );
    }
    for (k, n) in ["base_color", "glossy_color", "clearcoat_color"].iter().enumerate() {
        for x in [[0u8; 4], [255, 0, 0, 0], [0, 255, 0, 0], [0, 0, 255, 0], [0, 0, 0, 255], [9, 8, 7, 6]] {
            go(n, format!("{x:?}"), &|m| m.colors[k] = x, Mem1::Is(color_mem(x, "")), leaf(color(x)));
        }
    }
    for (k, n) in ["wrap_lighting", "roughness", "edge", "opacity"].iter().enumerate() {
        for (l, b) in float_menu(Floats::Finite, true) {
            let (t, v) = plain(&J::F32(b)).unwrap();
            go(n, l, &|m| m.f[k] = f32::from_bits(b), Mem1::Is(vec![(String::new(), t)]), Json1::Is(Some(v)));
        }
    }
    go("is_metal", "1".into(), &|m| m.b[0] = 1, is(true), leaf(true));
    for (k, n) in ["glossy_image_lerp", "thickness", "opacity_active_edge_alpha"].iter().enumerate() {
        for x in 0..=255u8 {
            go(n, x.to_string(), &|m| m.b[k + 1] = x, is(x), leaf(x));
        }
    }
    for (k, n) in ["elasticity", "elasticity_falloff", "friction", "scatter_angle"].iter().enumerate() {
        for (l, b) in float_menu(Floats::All, true) {
            let (t, v) = plain(&J::F32(b)).unwrap();
            let mut w = ps.clone();
            w[1].v[k] = b;
            c.dev(
                ctx,
                format!("physics.{n}={l}"),
                mk(&ms, &w),
                vec![(format!("gamedata.materials_physics_old.1.{n}"), Mem1::Is(vec![(String::new(), t)]))],
                vec![(format!("materials-physics-old.json:.1.{n}"), Json1::Is(Some(v)))],
                &[],
                true,
            );
        }
    }
}

fn comp<'a>(ctx: &Ctx, name: &'a str, t: &Table) -> Option<Comp<'a>> {
    match guard(|| view(&t.bytes())) {
        Ok((_, base)) => Some(Comp { name, base }),
        Err(e) => {
            ctx.violation(&format!("{name}/base"), &e, Value::Null);
            None
        }
    }
}

fn images(ctx: &Ctx, spec: &Spec, g: &Gen) {
    use super::p03::{bits, enc_img, png};
    let th = !ctx.quick();
    let named = |n: &str, ext: &str, data: Vec<u8>| {
        let mut i = Img::jpeg(n, &format!("C:\\{n}\\of.{ext}"), &data);
        i.inme = Some(format!("inner-{n}").into_bytes());
        i.link = Some(0);
        i.md5 = Some(std::array::from_fn(|k| k as u8 * 3 + n.len() as u8));
        i.opaq = Some(false);
        i.sign = Some(false);
        let j = i.jpeg.as_mut().unwrap();
        j.name = format!("jpeg-{n}").into_bytes();
        j.path = format!("D:\\jpeg-{n}.{ext}").into_bytes();
        j.inme = Some(format!("jpeg-inner-{n}").into_bytes());
        i
    };
    let a = named("first", "jpg", enc_img(3, 2, image::ImageFormat::Jpeg));
    let b = named("img", "png", png(3, 2));
    let z = named("last pic", "gif", enc_img(3, 2, image::ImageFormat::Gif));
    let mk = |i: Img| {
        let mut t = Table::new(spec, 1080);
        t.images = vec![a.enc(), i.enc(), z.enc()];
        t
    };
    let Some(c) = comp(ctx, "image", &mk(b.clone())) else { return };
    let go = |field: &str, json: &str, label: String, change: &dyn Fn(&mut Img), m: Mem1, j: Json1, follow: &[&str], edit: bool| {
        let mut i = b.clone();
        change(&mut i);
        let jp = if json.contains('/') { json.to_string() } else { format!("images.json:.1.{json}") };
        c.dev(ctx, format!("{field}={label}"), mk(i), vec![(format!("images.1.{field}"), m)], vec![(jp, j)], follow, edit);
    };
    for (l, s) in latin1_menu(th) {
        let t = latin1(&s);
        // the name of the extracted file follows the name
        go("name", "name", l.clone(), &|i| i.name = s.clone(), is(&t), leaf(t.as_str()), &["images.json:.1.name_dedup"], false);
        go("internal_name", "internal_name", l.clone(), &|i| i.inme = Some(s.clone()), is(&t), leaf(t.as_str()), &[], true);
        go("jpeg.name", "jpeg_name", l.clone(), &|i| i.jpeg.as_mut().unwrap().name = s.clone(), is(&t), leaf(t.as_str()), &[], true);
        go("jpeg.internal_name", "jpeg_internal_name", l.clone(), &|i| i.jpeg.as_mut().unwrap().inme = Some(s.clone()), Mem1::Is(vec![(String::new(), format!("{:?}", Some(&t)))]), leaf(t.as_str()), &[], true);
        go("jpeg.path", "jpeg_path", l.clone(), &|i| i.jpeg.as_mut().unwrap().path = s.clone(), is(&t), leaf(t.as_str()), &[], true);
        let s: Vec<u8> = [&s, b".png".as_slice()].concat();
        let t = latin1(&s);
        go("path", "path", l.clone(), &|i| i.path = s.clone(), is(&t), leaf(t.as_str()), &[], true);
    }
    go("internal_name", "internal_name", "none".into(), &|i| i.inme = None, Mem1::Is(vec![(String::new(), "None".into())]), Json1::Is(None), &[], true);
    go("jpeg.internal_name", "jpeg_internal_name", "none".into(), &|i| i.jpeg.as_mut().unwrap().inme = None, Mem1::Is(vec![(String::new(), "None".into())]), Json1::Is(None), &[], true);
    go("jpeg.name", "jpeg_name", "same".into(), &|i| i.jpeg.as_mut().unwrap().name = b"img".to_vec(), is("img"), Json1::Is(None), &[], true);
    go("jpeg.path", "jpeg_path", "same".into(), &|i| i.jpeg.as_mut().unwrap().path = i.path.clone(), is("C:\\img\\of.png"), Json1::Is(None), &[], true);
    for x in [0u32, 1, 2, 4, 5, 255, 256, 65536, u32::MAX] {
        if x != 3 {
            go("width", "width", x.to_string(), &|i| i.w = x, is(x), leaf(x), &[], true);
        }
        if x != 2 {
            go("height", "height", x.to_string(), &|i| i.h = x, is(x), leaf(x), &[], true);
        }
        if x != 0 && x != 1 {
            go("link", "link", x.to_string(), &|i| i.link = Some(x), is(x), leaf(x), &[], true);
        }
    }
    for (n, f) in [("link", 0), ("md5_hash", 1), ("is_opaque", 2), ("is_signed", 3)] {
        let off = |i: &mut Img| match f {
            0 => i.link = None,
            1 => i.md5 = None,
            2 => i.opaq = None,
            _ => i.sign = None,
        };
        go(n, n, "none".into(), &off, Mem1::Is(vec![(String::new(), "None".into())]), Json1::Is(None), if f == 0 { &["images.json:.1.width", "images.json:.1.height"] } else { &[] }, true);
    }
    go("is_opaque", "is_opaque", "1".into(), &|i| i.opaq = Some(true), is(true), leaf(true), &[], true);
    go("is_signed", "is_signed", "1".into(), &|i| i.sign = Some(true), is(true), leaf(true), &[], true);
    for k in 0..16usize {
        for x in [0u8, 9, 0x10, 0xff] {
            let mut h = b.md5.unwrap();
            h[k] = x;
            let text = h.iter().map(|c| format!("{c:02x}")).collect::<String>();
            let m = Mem1::Is(h.iter().enumerate().map(|(n, c)| (format!(".{n}"), c.to_string())).collect());
            go("md5_hash", "md5_hash", format!("{k}:{x}"), &|i| i.md5 = Some(h), m, leaf(text), &[], true);
        }
    }
    for (l, x) in float_menu(g.floats, th) {
        let (t, v) = plain(&J::F32(x)).unwrap();
        // the value of new images is not written out
        let j = if f32::from_bits(x) == -1.0 { Json1::Is(None) } else { Json1::Is(Some(v)) };
        go("alpha_test_value", "alpha_test_value", l, &|i| i.altv = x, Mem1::Is(vec![(String::new(), t)]), j, &[], true);
    }
    for (k, d) in [enc_img(3, 2, image::ImageFormat::Bmp), enc_img(3, 2, image::ImageFormat::Jpeg), [png(3, 2), vec![0, 1]].concat()].into_iter().enumerate() {
        let m = Mem1::Is(vec![(String::new(), blob(&d).to_string())]);
        go("jpeg.data", "images/*.png", k.to_string(), &|i| i.jpeg.as_mut().unwrap().data = d.clone(), m, Json1::File(d.clone()), &["images.json:.1.stored_as_bits"], true);
    }
    // bitmaps
    let bmp = |d: Vec<u8>| {
        let mut i = Img::bmp("img", "C:\\img\\of.bmp", 3, 2, d);
        i.link = Some(0);
        i
    };
    let d0 = bits(3, 2, 255);
    let Some(c) = comp(ctx, "bitmap", &mk(bmp(d0.clone()))) else { return };
    for k in 0..24usize {
        let mut raw = crate::lzw::decode(&d0).unwrap().data;
        raw[k] ^= 0x5a;
        let d = crate::lzw::encode(&raw, crate::lzw::Style { max_match: usize::MAX, clear_every: 0, keep_full: false, block: 254, terminator: false });
        let i = bmp(d.clone());
        c.dev(
            ctx,
            format!("bits=byte{k}"),
            mk(i),
            vec![("images.1.bits.data".into(), Mem1::Is(vec![(String::new(), blob(&d).to_string())])), ("images.1.bits".into(), Mem1::Any)],
            vec![("images/*.bmp".into(), Json1::Any)],
            &[],
            false,
        );
    }
}

fn sounds(ctx: &Ctx, spec: &Spec) {
    let th = !ctx.quick();
    let named = |n: &str, ext: &str, k: u32| {
        let mut s = Snd::new(n, &format!("C:\\{n}\\s.{ext}"), &[k as u8, 2, 3, 4]);
        s.internal = format!("inner-{n}").into_bytes();
        s.wave = Wave { tag: 1, channels: 3, rate: 44100 + k, bps: 5 + k, align: 6, bits: 7, cb: 0 };
        s.volume = 10 + k;
        s.balance = 20 + k;
        s.fade = 30 + k;
        s
    };
    let (a, b, z) = (named("first", "ogg", 1), named("snd", "wav", 2), named("last", "mp3", 3));
    let mk = |s: Snd| {
        let mut t = Table::new(spec, 1080);
        t.sounds = vec![a.enc(1080), s.enc(1080), z.enc(1080)];
        t
    };
    let Some(c) = comp(ctx, "sound", &mk(b.clone())) else { return };
    let go = |field: &str, label: String, change: &dyn Fn(&mut Snd), m: Mem1, j: (String, Json1), follow: &[&str], edit: bool| {
        let mut s = b.clone();
        change(&mut s);
        c.dev(ctx, format!("{field}={label}"), mk(s), vec![(format!("sounds.1.{field}"), m)], vec![j], follow, edit);
    };
    let json = |f: &str, v: Json1| (format!("sounds.json:.1.{f}"), v);
    for (l, s) in latin1_menu(th) {
        let t = latin1(&s);
        go("name", l.clone(), &|x| x.name = s.clone(), is(&t), json("name", leaf(t.as_str())), &["sounds.json:.1.name_dedup"], false);
        if !s.is_empty() {
            go("internal_name", l.clone(), &|x| x.internal = s.clone(), is(&t), json("internal_name", leaf(t.as_str())), &[], true);
        }
        if !s.contains(&0) {
            let s: Vec<u8> = [&s, b".wav".as_slice()].concat();
            let t = latin1(&s);
            go("path", l, &|x| x.path = s.clone(), is(&t), json("path", leaf(t.as_str())), &[], true);
        }
    }
    for x in [0u32, 1, 8000, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
        go("volume", x.to_string(), &|s| s.volume = x, is(x), json("volume", leaf(x)), &[], true);
        go("balance", x.to_string(), &|s| s.balance = x, is(x), json("balance", leaf(x)), &[], true);
        go("fade", x.to_string(), &|s| s.fade = x, is(x), json("fade", leaf(x)), &[], true);
        go("wave_form.samples_per_sec", x.to_string(), &|s| s.wave.rate = x, is(x), ("sounds/*.wav".into(), wav(&b, |w| w.rate = x)), &[], true);
        go("wave_form.avg_bytes_per_sec", x.to_string(), &|s| s.wave.bps = x, is(x), ("sounds/*.wav".into(), wav(&b, |w| w.bps = x)), &[], true);
    }
    for x in [0u16, 1, 2, 255, 256, 0x7fff, 0xffff] {
        go("wave_form.channels", x.to_string(), &|s| s.wave.channels = x, is(x), ("sounds/*.wav".into(), wav(&b, |w| w.channels = x)), &[], true);
        go("wave_form.block_align", x.to_string(), &|s| s.wave.align = x, is(x), ("sounds/*.wav".into(), wav(&b, |w| w.align = x)), &[], true);
        go("wave_form.bits_per_sample", x.to_string(), &|s| s.wave.bits = x, is(x), ("sounds/*.wav".into(), wav(&b, |w| w.bits = x)), &[], true);
        if x != 1 {
            go("wave_form.format_tag", x.to_string(), &|s| s.wave.tag = x, is(x), ("sounds/*.wav".into(), Json1::Any), &[], false);
        }
        if x != 0 {
            go("wave_form.cb_size", x.to_string(), &|s| s.wave.cb = x, is(x), ("sounds/*.wav".into(), Json1::Any), &[], false);
        }
    }
    go("output_target", "backglass".into(), &|s| s.out = 1, is(Plain("Backglass")), json("output_target", leaf("backglass")), &[], true);
    for d in [vec![9u8, 2, 3, 4], vec![], vec![1, 2, 3, 4, 5, 6], (0..=255).collect()] {
        let mut s = b.clone();
        s.data = d.clone();
        let m = Mem1::Is(vec![(String::new(), blob(&d).to_string())]);
        go("data", d.len().to_string(), &|s| s.data = d.clone(), m, ("sounds/*.wav".into(), wav(&s, |_| {})), &[], true);
    }
    // other sounds: the stored data is the file
    for (k, ext) in [(0usize, "ogg"), (2, "mp3")] {
        let mut t = mk(b.clone());
        let mut s = [&a, &b, &z][k].clone();
        s.data = vec![7; 9];
        t.sounds[k] = s.enc(1080);
        c.dev(
            ctx,
            format!("data.{ext}"),
            t,
            vec![(format!("sounds.{k}.data"), Mem1::Is(vec![(String::new(), blob(&[7; 9]).to_string())]))],
            vec![(format!("sounds/*.{ext}"), Json1::File(vec![7; 9]))],
            &[],
            true,
        );
    }
}

struct Plain(&'static str);
impl std::fmt::Debug for Plain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

/// The wave file of a sound in the plain format.
fn wav(s: &Snd, f: impl Fn(&mut Wave)) -> Json1 {
    let mut w = s.wave.clone();
    f(&mut w);
    let mut d = b"RIFF".to_vec();
    d.extend((36 + s.data.len() as u32).to_le_bytes());
    d.extend(b"WAVEfmt ");
    d.extend(16u32.to_le_bytes());
    d.extend(&w.enc()[..16]);
    d.extend(b"data");
    d.extend((s.data.len() as u32).to_le_bytes());
    d.extend(&s.data);
    Json1::File(d)
}

fn fonts_collections(ctx: &Ctx, spec: &Spec) {
    let th = !ctx.quick();
    let mk = |n: &[u8], p: &[u8], d: &[u8]| {
        let mut t = Table::new(spec, 1080);
        t.fonts = vec![font_stream(b"first", b"C:\\f.otf", b"one"), font_stream(n, p, d), font_stream(b"last", b"C:\\l.fon", b"three")];
        t
    };
    let (bn, bp, bd): (&[u8], &[u8], &[u8]) = (b"font", b"C:\\x\\y.ttf", b"data!");
    if let Some(c) = comp(ctx, "font", &mk(bn, bp, bd)) {
        for (l, s) in latin1_menu(th) {
            let t = latin1(&s);
            c.dev(ctx, format!("name={l}"), mk(&s, bp, bd), vec![("fonts.1.name".into(), is(&t))], vec![("fonts.json:.1.name".into(), leaf(t.as_str()))], &["fonts.json:.1.name_dedup"], false);
            let s = [&s, b".ttf".as_slice()].concat();
            let t = latin1(&s);
            c.dev(ctx, format!("path={l}"), mk(bn, &s, bd), vec![("fonts.1.path".into(), is(&t))], vec![("fonts.json:.1.path".into(), leaf(t.as_str()))], &[], true);
        }
        for d in [vec![], vec![0u8], b"datb!".to_vec(), endb(), (0..=255).collect::<Vec<u8>>()] {
            let m = Mem1::Is(vec![(String::new(), blob(&d).to_string())]);
            c.dev(ctx, format!("data={}", hex(&d)), mk(bn, bp, &d), vec![("fonts.1.data".into(), m)], vec![("fonts/*.ttf".into(), Json1::File(d))], &[], true);
        }
    }
    // collections
    let mk = |n: &str, items: &[&str], f: [bool; 3]| {
        let mut t = Table::new(spec, 1080);
        t.collections = vec![collection_stream("first", &["q"], [false; 3]), collection_stream(n, items, f), collection_stream("last", &["w", "e"], [true; 3])];
        t
    };
    let (it, fl) = (["a", "b", "a"], [true, false, true]);
    let Some(c) = comp(ctx, "collection", &mk("coll", &it, fl)) else { return };
    for (l, s) in wide_menu(th) {
        c.dev(ctx, format!("name={l}"), mk(&s, &it, fl), vec![("collections.1.name".into(), is(&s))], vec![("collections.json:.1.name".into(), leaf(s.as_str()))], &[], true);
        for k in 0..3 {
            let mut v = it;
            v[k] = &s;
            c.dev(ctx, format!("item{k}={l}"), mk("coll", &v, fl), vec![(format!("collections.1.items.{k}"), is(&s))], vec![(format!("collections.json:.1.items.{k}"), leaf(s.as_str()))], &[], true);
        }
    }
    for (k, n) in ["fire_events", "stop_single_events", "group_elements"].iter().enumerate() {
        let mut f = fl;
        f[k] = !f[k];
        c.dev(ctx, format!("{n}={}", f[k]), mk("coll", &it, f), vec![(format!("collections.1.{n}"), is(f[k]))], vec![(format!("collections.json:.1.{n}"), leaf(f[k]))], &[], true);
    }
    for n in 0..6usize {
        if n == 3 {
            continue;
        }
        let v: Vec<&str> = (0..n).map(|k| ["a", "b", "a", "x", "y", "z"][k]).collect();
        let m = if n == 0 { Mem1::Is(vec![(String::new(), "[]".into())]) } else { Mem1::Is(v.iter().enumerate().map(|(k, s)| (format!(".{k}"), format!("{s:?}"))).collect()) };
        c.dev(ctx, format!("items={n}"), mk("coll", &v, fl), vec![("collections.1.items".into(), m)], vec![("collections.json:.1.items".into(), leaf(v))], &[], true);
    }
}

fn info(ctx: &Ctx, spec: &Spec) {
    let th = !ctx.quick();
    let fields = ["table_name", "author_name", "screenshot", "table_blurb", "table_rules", "author_email", "release_date", "table_save_rev", "table_version", "author_website", "table_save_date", "table_description"];
    let enc = |n: &str, s: &str| if n == "Screenshot" { s.as_bytes().to_vec() } else { utf16(s) };
    let mut base = Table::new(spec, 1080);
    for n in INFO_NAMES {
        base.info.push((n.to_string(), enc(n, &format!("the {n}"))));
    }
    base.custom_tags = Some(vec!["Alpha".into(), "Beta".into(), "Gamma".into()]);
    for n in ["Alpha", "Beta", "Gamma"] {
        base.info.push((n.to_string(), utf16(&format!("value of {n}"))));
    }
    let Some(c) = comp(ctx, "info", &base) else { return };
    for (k, (n, f)) in INFO_NAMES.iter().zip(fields).enumerate() {
        let (ms, js) = (format!("info.{f}"), if *n == "Screenshot" { "screenshot.png".to_string() } else { format!("info.json:.{f}") });
        for (l, s) in wide_menu(th) {
            let mut t = base.clone();
            t.info[k].1 = enc(n, &s);
            let (m, j) = if *n == "Screenshot" {
                let d = s.as_bytes();
                (nums(d).0, Json1::File(d.to_vec()))
            } else {
                (is(&s), leaf(s.as_str()))
            };
            c.dev(ctx, format!("{f}={l}"), t, vec![(ms.clone(), m)], vec![(js.clone(), j)], &[], true);
        }
        let mut t = base.clone();
        t.info.remove(k);
        let edit = *n != "Screenshot";
        c.dev(ctx, format!("{f}=absent"), t, vec![(ms, Mem1::Is(vec![(String::new(), "None".into())]))], vec![(js, Json1::Is(None))], &[], edit);
    }
    for (k, n) in ["Alpha", "Beta", "Gamma"].iter().enumerate() {
        for (l, s) in wide_menu(th) {
            let mut t = base.clone();
            t.info[12 + k].1 = utf16(&s);
            c.dev(ctx, format!("property.{n}={l}"), t, vec![(format!("info.properties.{n}"), is(&s))], vec![(format!("info.json:.properties.{n}"), leaf(s.as_str()))], &[], true);
        }
    }
    // the order of the custom values
    for (k, p) in [[0usize, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().enumerate() {
        let names = ["Alpha", "Beta", "Gamma"];
        let v: Vec<&str> = p.iter().map(|i| names[*i]).collect();
        let mut t = base.clone();
        t.custom_tags = Some(v.iter().map(|s| s.to_string()).collect());
        let m = Mem1::Is(v.iter().enumerate().map(|(k, s)| (format!(".{k}"), format!("{s:?}"))).collect());
        c.dev(ctx, format!("order={k}"), t, vec![("custominfotags".into(), m)], vec![("info.json:.properties_order".into(), leaf(v))], &[], true);
    }
    for v in [1081u32, 1082, 1090, 9999] {
        let mut t = base.clone();
        t.version = v;
        c.dev(ctx, format!("version={v}"), t, vec![("version".into(), is(v))], vec![("version.txt".into(), Json1::File(v.to_string().into_bytes()))], &[], true);
    }
}
