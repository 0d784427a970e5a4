//! Queries about an item answer from that item's own stored fields.
use super::common::*;
use crate::fw::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::gameitem::{self, GameItemEnum};

pub struct Q {
    pub name: &'static str,
    pub images: &'static [&'static str],
    pub materials: &'static [&'static str],
    pub physics: Option<&'static str>,
    pub visible: &'static [&'static str],
}
/// The file format's assignment of reference records to queries.
pub const QUERIES: &[Q] = &[
    q("Wall", &["IMAG", "SIMG"], &["TOMA", "SIMA", "SLMA"], Some("MAPH"), &["VSBL", "SVBL"]),
    q("Flipper", &["IMAG"], &["MATR", "RUMA"], None, &["VSBL"]),
    q("Timer", &[], &[], None, &[]),
    q("Plunger", &["IMAG"], &["MATR"], None, &["VSBL"]),
    q("TextBox", &[], &[], None, &[]),
    q("Bumper", &[], &["MATR", "BAMA", "SKMA", "RIMA"], None, &[]),
    q("Trigger", &[], &["MATR"], None, &["VSBL"]),
    q("Light", &["IMG1"], &[], None, &["VSBL"]),
    q("Kicker", &[], &["MATR"], None, &[]),
    q("Decal", &["IMAG"], &["MATR"], None, &[]),
    q("Gate", &[], &["MATR"], None, &["GVSB"]),
    q("Spinner", &["IMGF"], &["MATR"], None, &["SVIS"]),
    q("Ramp", &["IMAG"], &["MATR"], Some("MAPH"), &["RVIS"]),
    q("Reel", &["IMAG"], &[], None, &["VISI"]),
    q("LightSequencer", &[], &[], None, &[]),
    q("Primitive", &["IMAG", "NRMA", "LMAP"], &["MATR"], Some("MAPH"), &["TVIS"]),
    q("Flasher", &["IMAG", "IMAB", "LINK", "LMAP"], &[], None, &["FVIS"]),
    q("Rubber", &["IMAG"], &["MATR"], Some("MAPH"), &["RVIS"]),
    q("HitTarget", &["IMAG"], &["MATR"], Some("MAPH"), &["TVIS"]),
    q("Ball", &["IMAG", "DIMG"], &[], None, &[]),
    q("PartGroup", &[], &[], None, &[]),
];
const fn q(
    name: &'static str,
    images: &'static [&'static str],
    materials: &'static [&'static str],
    physics: Option<&'static str>,
    visible: &'static [&'static str],
) -> Q {
    Q { name, images, materials, physics, visible }
}

#[derive(Clone, Debug, Default)]
struct Expect {
    name: String,
    kind: String,
    id: i32,
    locked: Option<bool>,
    layer: Option<u32>,
    layer_name: Option<String>,
    layer_vis: Option<bool>,
    group: Option<String>,
    visible: Option<bool>,
    images: Vec<String>,
    materials: Vec<String>,
    physics: Option<String>,
}

fn sorted(v: Vec<&str>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().map(|s| s.to_string()).collect();
    v.sort();
    v
}

fn check(bytes: &[u8], e: &Expect) -> Result<u64, String> {
    let it = gameitem::read(bytes);
    compare(&it, e)
}
fn compare(it: &GameItemEnum, e: &Expect) -> Result<u64, String> {
    macro_rules! eq {
        ($what:expr, $got:expr, $exp:expr) => {{
            let g = $got;
            let x = &$exp;
            if g != *x {
                return Err(format!("{}: expected {:?}, got {:?}", $what, x, g));
            }
        }};
    }
    eq!("name", it.name().to_string(), e.name);
    eq!("kind", it.type_name(), e.kind);
    eq!("kind id", GameItemEnum::type_id(&it.type_name()), e.id as u32);
    eq!("locked", it.is_locked(), e.locked);
    eq!("editor layer", it.editor_layer(), e.layer);
    eq!("editor layer name", it.editor_layer_name().clone(), e.layer_name);
    eq!("editor layer visibility", it.editor_layer_visibility(), e.layer_vis);
    eq!("part group", it.part_group_name().map(|s| s.to_string()), e.group);
    eq!("visible", it.is_visible(), e.visible);
    let mut im = e.images.clone();
    im.sort();
    eq!("images", sorted(it.images()), im);
    let mut ma = e.materials.clone();
    ma.sort();
    eq!("materials", sorted(it.materials()), ma);
    eq!("physics material", it.physics_material().map(|s| s.to_string()), e.physics);
    Ok(hash_of(&format!("{e:?}")))
}

/// One assignment of the reference, visibility and editor records of an item.
type Over<'a> = Vec<(&'a str, Option<Vec<u8>>)>;

fn expect_base(l: &Layout) -> (Over<'static>, Expect) {
    let mut o: Over = vec![];
    let mut e = Expect { kind: l.name.clone(), id: l.id, name: "thing".into(), ..Default::default() };
    o.push(("NAME", Some(wrec("NAME", "thing"))));
    o.push(("LOCK", Some(brec("LOCK", false))));
    e.locked = Some(false);
    for t in ["LAYR", "LANR", "LVIS", "GRUP"] {
        if has_tag(l, t) {
            o.push((t, None));
        }
    }
    if l.name == "PartGroup" {
        // its layer records are always written
        o.retain(|x| x.0 != "LANR" && x.0 != "LVIS");
        o.push(("LANR", None));
        o.push(("LVIS", None));
    }
    (o, e)
}

fn set<'a>(o: &mut Over<'a>, tag: &'a str, enc: Option<Vec<u8>>) {
    o.retain(|x| x.0 != tag);
    o.push((tag, enc));
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: ctx.thorough() };
    let th = ctx.thorough();
    ctx.rule("for each of the 21 item kinds: every combination, over the kind's own reference records together with its visibility, lock, layer and group records, of {absent where optional, empty, equal names, distinct names, odd names}; every other record of the item set to a distinct non-default marker; the answers of every query compared with the values put in the file");
    let svals: Vec<Option<&str>> = if th { vec![None, Some(""), Some("A"), Some("B"), Some(" "), Some("caf\u{e9}"), Some("a")] } else { vec![None, Some(""), Some("A"), Some("B"), Some(" ")] };
    QUERIES.par_iter().for_each(|qq| {
        let l = spec.get(qq.name);
        let (bo, mut be) = expect_base(l);
        // baseline: all reference records present but empty
        let mut o0 = bo.clone();
        for t in qq.images.iter().chain(qq.materials).chain(qq.physics.iter()) {
            set(&mut o0, t, Some(srec(t, "")));
        }
        for t in qq.visible {
            set(&mut o0, t, Some(brec(t, false)));
        }
        be.visible = if qq.visible.is_empty() { None } else { Some(false) };
        let one = |label: String, o: &Over, e: &Expect| {
            ctx.case(&label, || check(&item_patch(&g, l, o), e));
        };
        one(format!("{}/base", l.name), &o0, &be);
        // full product over each query's reference records
        let refs: Vec<&str> = qq.images.iter().chain(qq.materials).chain(qq.physics.iter()).copied().collect();
        let groups: Vec<Vec<&str>> = if refs.len() <= 5 { vec![refs.clone()] } else { vec![qq.images.to_vec(), [qq.materials, &[qq.physics.unwrap()]].concat(), vec![qq.images[0], qq.materials[0], qq.physics.unwrap()]] };
        for grp in groups {
            let n = grp.len() as u32;
            for c in 0..svals.len().pow(n) {
                let mut o = o0.clone();
                let mut e = be.clone();
                let mut k = c;
                let mut lab = String::new();
                let mut skip = false;
                for t in &grp {
                    let v = svals[k % svals.len()];
                    k /= svals.len();
                    if v.is_none() && req_of(l, t) != Some(Req::Opt) {
                        skip = true;
                        break;
                    }
                    lab += &format!("{t}={v:?},");
                    set(&mut o, t, v.map(|s| srec(t, s)));
                    if let Some(s) = v.filter(|s| !s.is_empty()) {
                        if qq.images.contains(t) {
                            e.images.push(s.into())
                        }
                        if qq.materials.contains(t) {
                            e.materials.push(s.into())
                        }
                        if qq.physics == Some(*t) {
                            e.physics = Some(s.into())
                        }
                    }
                }
                if !skip {
                    one(format!("{}/refs/{lab}", l.name), &o, &e);
                }
            }
        }
        // distinct markers in every record of the item at once, with the reference records absent or present
        {
            let mut o: Over = vec![("NAME", Some(wrec("NAME", "thing")))];
            let mut e = be.clone();
            set(&mut o, "LOCK", Some(brec("LOCK", true)));
            e.locked = Some(true);
            for f in &l.fields {
                if f.kind == Kind::Str && f.tag != "NAME" {
                    let m = format!("mark_{}", f.tag);
                    let t: &'static str = Box::leak(f.tag.clone().into_boxed_str());
                    o.push((t, Some(srec(t, &m))));
                    if qq.images.contains(&t) {
                        e.images.push(m.clone())
                    }
                    if qq.materials.contains(&t) {
                        e.materials.push(m.clone())
                    }
                    if qq.physics == Some(t) {
                        e.physics = Some(m.clone())
                    }
                    if t == "LANR" {
                        e.layer_name = Some(m.clone())
                    }
                    if t == "GRUP" {
                        e.group = Some(m.clone())
                    }
                }
                if f.kind == Kind::Bool && !qq.visible.contains(&f.tag.as_str()) && f.tag != "LOCK" {
                    let t: &'static str = Box::leak(f.tag.clone().into_boxed_str());
                    o.push((t, Some(brec(t, true))));
                    if t == "LVIS" {
                        e.layer_vis = Some(true)
                    }
                }
            }
            if has_tag(l, "LAYR") {
                o.push(("LAYR", Some(rec("LAYR", &7u32.to_le_bytes()))));
                e.layer = Some(7);
            }
            for t in qq.visible {
                set(&mut o, t, Some(brec(t, false)));
            }
            one(format!("{}/marks", l.name), &o, &e);
        }
        // visibility x lock x layer x group
        let vis: Vec<Vec<Option<bool>>> = match qq.visible.len() {
            0 => vec![vec![]],
            1 => {
                let mut v = vec![vec![Some(false)], vec![Some(true)]];
                if req_of(l, qq.visible[0]) == Some(Req::Opt) {
                    v.push(vec![None]);
                }
                v
            }
            _ => (0..4).map(|m| vec![Some(m & 1 == 1), Some(m & 2 == 2)]).collect(),
        };
        for v in &vis {
            for lock in [false, true] {
                for lay in [None, Some(0u32), Some(1), Some(10), Some(u32::MAX)] {
                    for lan in [None, Some(""), Some("L1"), Some("caf\u{e9}")] {
                        for lv in [None, Some(false), Some(true)] {
                            for gr in [None, Some("G1"), Some("thing"), Some(" ")] {
                                if !has_tag(l, "LAYR") && lay.is_some() || !has_tag(l, "GRUP") && gr.is_some() {
                                    continue;
                                }
                                let mut o = o0.clone();
                                let mut e = be.clone();
                                for (t, b) in qq.visible.iter().zip(v) {
                                    set(&mut o, t, b.map(|b| brec(t, b)));
                                }
                                if !v.is_empty() {
                                    e.visible = if v.iter().all(|b| b.is_none()) { None } else { Some(v.contains(&Some(true))) };
                                }
                                set(&mut o, "LOCK", Some(brec("LOCK", lock)));
                                e.locked = Some(lock);
                                if has_tag(l, "LAYR") {
                                    set(&mut o, "LAYR", lay.map(|x| rec("LAYR", &x.to_le_bytes())));
                                    e.layer = lay;
                                }
                                set(&mut o, "LANR", lan.map(|s| srec("LANR", s)));
                                e.layer_name = lan.map(|s| s.into());
                                set(&mut o, "LVIS", lv.map(|b| brec("LVIS", b)));
                                e.layer_vis = lv;
                                if has_tag(l, "GRUP") {
                                    set(&mut o, "GRUP", gr.map(|s| srec("GRUP", s)));
                                    e.group = gr.map(|s| s.into());
                                }
                                one(format!("{}/ed/vis={v:?},lock={lock},layr={lay:?},lanr={lan:?},lvis={lv:?},grup={gr:?}", l.name), &o, &e);
                            }
                        }
                    }
                }
            }
        }
        for (lab, s) in wide_menu(true) {
            let mut o = o0.clone();
            let mut e = be.clone();
            set(&mut o, "NAME", Some(wrec("NAME", &s)));
            e.name = s.clone();
            one(format!("{}/name={lab}", l.name), &o, &e);
        }
    });
    ctx.note("item_kinds", QUERIES.len());
}
