//! Group order validation reports exactly the broken group references.
use super::common::*;
use crate::fw::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::gameitem::{self, validate_part_group_order};

#[derive(Clone, Debug)]
struct It {
    kind: String,
    name: String,
    group: Option<String>,
    bytes: Vec<u8>,
}

fn mk(g: &Gen, kind: &str, name: &str, group: Option<&str>) -> It {
    let l = g.spec.get(kind);
    let mut o = vec![("NAME", Some(wrec("NAME", name)))];
    if kind != "PartGroup" {
        o.push(("GRUP", group.map(|s| srec("GRUP", s))));
        // the older layer name must never be taken for a group
        o.push(("LANR", Some(srec("LANR", "A"))));
    }
    It { kind: kind.into(), name: name.into(), group: group.map(|s| s.into()), bytes: item_patch(g, l, &o) }
}

fn check(list: &[It]) -> Result<u64, String> {
    let items: Vec<_> = list.iter().map(|i| gameitem::read(&i.bytes)).collect();
    let got = validate_part_group_order(&items);
    let mut exp = vec![];
    for (i, it) in list.iter().enumerate() {
        if let Some(gname) = &it.group {
            let defined = list[..i].iter().any(|p| p.kind == "PartGroup" && &p.name == gname);
            if !defined {
                exp.push((i, it, gname));
            }
        }
    }
    if got.len() != exp.len() {
        return Err(format!("expected {} reports ({:?}), got {:?}", exp.len(), exp.iter().map(|e| (e.0, &e.1.name, e.2)).collect::<Vec<_>>(), got));
    }
    for (m, (i, it, gname)) in got.iter().zip(&exp) {
        for need in [format!("[{i}]"), format!("'{}'", it.name), format!("'{gname}'"), it.kind.clone()] {
            if !m.contains(&need) {
                return Err(format!("report for item {i} {:?} group {gname:?} lacks {need:?}: {m}", it.name));
            }
        }
    }
    Ok(hash_of(&got))
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
    let depth = if ctx.thorough() { 7 } else { 5 };
    ctx.rule(&format!("every list of up to {depth} items over an alphabet of groups (A, B, a group differing only in case) and items referencing no group, A, B, a missing group, or carrying a group's name themselves; plus every item kind in every position relative to its group; expected reports computed from the definition"));
    ctx.assume("an item with a stored but empty group reference is outside the statement (the game never stores one)");
    let alpha = vec![
        mk(&g, "PartGroup", "A", None),
        mk(&g, "PartGroup", "B", None),
        mk(&g, "PartGroup", "a", None),
        mk(&g, "Timer", "t0", None),
        mk(&g, "Timer", "tA", Some("A")),
        mk(&g, "Light", "lB", Some("B")),
        mk(&g, "Wall", "A", Some("zz")),
        mk(&g, "Ball", "ba", Some("a")),
    ];
    let n = alpha.len();
    for d in 0..=depth {
        let total = n.pow(d as u32);
        (0..total).collect::<Vec<_>>().par_chunks(4096).for_each(|ch| {
            let mut hs = std::collections::HashSet::new();
            let mut cnt = 0;
            for &c in ch {
                let mut k = c;
                let mut lab = String::new();
                let list: Vec<It> = (0..d).map(|_| {
                    let x = k % n;
                    k /= n;
                    lab.push((b'0' + x as u8) as char);
                    alpha[x].clone()
                }).collect();
                let label = format!("seq/{lab}");
                if !ctx.wants(&label) {
                    continue;
                }
                match guard(|| check(&list)) {
                    Ok(h) => {
                        hs.insert(h);
                        cnt += 1;
                    }
                    Err(_) => {
                        ctx.case(&label, || check(&list));
                    }
                }
            }
            ctx.bulk(cnt, hs);
        });
        if ctx.too_many() {
            return;
        }
    }
    let kinds: Vec<String> = spec.items().iter().map(|l| l.name.clone()).filter(|k| k != "PartGroup").collect();
    let names = ["A", "\u{e9}\u{fc}", " sp ", "a'b", "x\ny"];
    for k in &kinds {
        for gn in names {
            for pos in 0..5 {
                ctx.case(&format!("kind/{k}/{gn:?}/{pos}"), || {
                    let pg = mk(&g, "PartGroup", gn, None);
                    let it = mk(&g, k, "it", Some(gn));
                    let it2 = mk(&g, k, "it", Some("gone"));
                    let no = mk(&g, k, gn, None);
                    let l = match pos {
                        0 => vec![pg, it],
                        1 => vec![it, pg],
                        2 => vec![no, it, it2, pg],
                        3 => vec![it.clone(), pg, it, it2],
                        _ => vec![pg.clone(), pg, it.clone(), it],
                    };
                    check(&l)
                });
            }
        }
    }
    for k1 in &kinds {
        for k2 in &kinds {
            ctx.case(&format!("pair/{k1},{k2}"), || {
                let pg = mk(&g, "PartGroup", "A", None);
                check(&[mk(&g, k1, "i1", Some("A")), mk(&g, k2, "i2", Some("B")), pg, mk(&g, k2, "i3", Some("A")), mk(&g, k1, "i4", Some("B"))])
            });
        }
    }
    // many groups and items
    for m in [0usize, 1, 9, 10, 11, 99, 100, 300] {
        ctx.case(&format!("many/{m}"), || {
            let mut l = vec![];
            for i in 0..m {
                l.push(mk(&g, "PartGroup", &format!("G{i}"), None));
            }
            for i in 0..m + 3 {
                l.push(mk(&g, "Timer", &format!("T{i}"), Some(&format!("G{i}"))));
            }
            check(&l)
        });
    }
}
