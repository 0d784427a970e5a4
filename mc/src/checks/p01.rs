//! Reading and writing a table file loses nothing.
use super::common::*;
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;

/// Reads, writes, reads again, writes again; all streams must be the originals.
pub fn roundtrip(t: &Table) -> Result<u64, String> {
    let exp = t.streams();
    let v = load(&build(&exp))?;
    let out = save(&v)?;
    let got = dump(&out)?;
    if let Some(d) = diff_streams(&exp, &got) {
        return Err(d);
    }
    let v2 = load(&out)?;
    #[allow(clippy::eq_op)]
    if v == v && v != v2 {
        return Err("the table read back is not equal to the table read first".into());
    }
    let out2 = save(&v2)?;
    if let Some(d) = diff_streams(&exp, &dump(&out2)?) {
        return Err(format!("second write: {d}"));
    }
    Ok(hash_of(&exp))
}

/// Runs many independent items in shared tables, falling back to one table per item on failure.
pub fn batched<T: Sync>(
    ctx: &Ctx,
    items: &[T],
    size: usize,
    label: impl Fn(&T) -> String + Sync,
    check: impl Fn(&[&T]) -> Result<u64, String> + Sync,
    hash: impl Fn(&T) -> u64 + Sync,
) {
    if ctx.replaying() {
        for i in items {
            ctx.case(&label(i), || check(&[i]));
        }
        return;
    }
    items.par_chunks(size).for_each(|ch| {
        if ctx.too_many() {
            return;
        }
        let refs: Vec<&T> = ch.iter().collect();
        if guard(|| check(&refs)).is_ok() {
            for i in ch {
                ctx.ok(&label(i), hash(i));
            }
            return;
        }
        let before = ctx.violations_so_far();
        for i in ch {
            ctx.case(&label(i), || check(&[i]));
        }
        if ctx.violations_so_far() == before && !ctx.had_known(ch.iter().map(&label)) {
            // only the combination fails
            ctx.case(&format!("batch:{}..{}", label(&ch[0]), label(&ch[ch.len() - 1])), || {
                check(&refs)
            });
        }
    });
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    let g = Gen {
        spec: &spec,
        floats: Floats::All,
        thorough: th,
    };
    ctx.rule("every record of every layout x its value menu (all bit-pattern classes of floats, all enum values, all 256 quantised bytes, all Latin-1 classes, UTF-16 incl. surrogates/BOM), optional-record presence patterns, header x versions, component counts and orders; every case: read -> write -> read -> write, all streams compared byte for byte with the independently built file");
    ctx.assume("layouts come from spec/items.spec; strings contain no NUL (the format terminates on NUL), booleans are 0/1, unused bytes of 4-byte cells are 0 unless the model stores them");
    // items
    for l in spec.items() {
        let mut vs = singles(&g, l);
        vs.extend(optional_patterns(&g, l));
        if th {
            let base = g.base_vals(l);
            for (i, j, a, b) in pairs(&g, l, 4) {
                let v: Vec<&Val> = base
                    .iter()
                    .enumerate()
                    .map(|(k, x)| if k == i { &a } else if k == j { &b } else { x })
                    .collect();
                vs.push(Variant {
                    label: format!(
                        "{}/{}={}+{}={}",
                        l.name, l.fields[i].tag, a.label, l.fields[j].tag, b.label
                    ),
                    bytes: g.item_bytes(l, &v),
                });
            }
        }
        ctx.note(&format!("variants_{}", l.name), vs.len() as u64);
        batched(
            ctx,
            &vs,
            100,
            |v| v.label.clone(),
            |vs| {
                let mut t = Table::new(&spec, 1080);
                t.items = vs.iter().map(|v| v.bytes.clone()).collect();
                roundtrip(&t)
            },
            |v| hash_of(&v.bytes),
        );
    }
    // header
    let gl = spec.get("GameData");
    let mut hv: Vec<(String, u32, usize, Val)> = vec![];
    let versions: &[u32] = if th { &VERSIONS } else { &[1030, 1072, 1080, 1081] };
    for &ver in versions {
        for (i, f) in gl.fields.iter().enumerate() {
            if ["MASI", "MATE", "PHMA", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "EFSS"].contains(&f.tag.as_str()) {
                continue;
            }
            for a in g.menu(f, i) {
                hv.push((format!("GameData@{ver}/{}={}", f.tag, a.label), ver, i, a));
            }
        }
    }
    ctx.note("header_variants", hv.len() as u64);
    hv.par_iter().for_each(|(label, ver, i, a)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(label, || {
            let mut t = Table::new(&spec, *ver);
            t.gamedata[*i].1 = a.enc.clone();
            roundtrip(&t)
        });
    });
    // header: enable-FSS placement x camera layout mode x version
    for ver in VERSIONS {
        for clmo in [None, Some(0u32), Some(1)] {
            for pos in ["absent", "new", "old"] {
                if (ver < 1080 && pos == "new") || (ver > 1080 && pos == "old") {
                    continue;
                }
                for on in [0u32, 1] {
                    for vsm in [true, false] {
                        ctx.case(&format!("EFSS@{ver}/clmo={clmo:?}/{pos}/{on}/vsm={vsm}"), || {
                            let mut t = Table::new(&spec, ver);
                            t.set("CLMO", clmo.map(|c| rec("CLMO", &c.to_le_bytes())).unwrap_or_default());
                            t.set("EFSS@new", vec![]);
                            t.set("EFSS@old", vec![]);
                            if pos != "absent" {
                                t.set(&format!("EFSS@{pos}"), rec("EFSS", &on.to_le_bytes()));
                            }
                            if !vsm {
                                t.set("VSM0", vec![]);
                            }
                            roundtrip(&t)
                        });
                    }
                }
            }
        }
    }
    // header: presence patterns of optional records
    {
        let vs = header_optional_patterns(&spec, &g, th);
        vs.par_iter().for_each(|(label, ver, absent)| {
            if ctx.too_many() {
                return;
            }
            ctx.case(label, || {
                let mut t = Table::new(&spec, *ver);
                for i in absent {
                    t.gamedata[*i].1 = vec![];
                }
                roundtrip(&t)
            });
        });
    }
    // legacy materials
    materials(ctx, &spec, &g);
    // images
    let iv = image_variants(&g, th);
    batched(
        ctx,
        &iv,
        20,
        |v| format!("Image/{}", v.0),
        |vs| {
            let mut t = Table::new(&spec, 1080);
            t.images = vs.iter().map(|v| v.1.enc()).collect();
            roundtrip(&t)
        },
        |v| hash_of(&v.1.enc()),
    );
    // sounds x versions around the format change
    for ver in [1000u32, 1030, 1031, 1080] {
        let sv = sound_variants(th);
        batched(
            ctx,
            &sv,
            20,
            |v| format!("Sound@{ver}/{}", v.0),
            |vs| {
                let mut t = Table::new(&spec, ver);
                t.sounds = vs.iter().map(|v| v.1.enc(ver)).collect();
                roundtrip(&t)
            },
            |v| hash_of(&(ver, v.1.enc(ver))),
        );
    }
    // large parts and many parts
    super::large::all(th).par_iter().for_each(|l| {
        if !ctx.too_many() {
            ctx.case(&l.label, || roundtrip(&l.table(&spec)));
        }
    });
    // fonts, collections
    let mut fv: Vec<(String, Vec<u8>)> = vec![];
    for (l, b) in latin1_menu(th) {
        fv.push((format!("Font/name={l}"), font_stream(&b, b"f.ttf", b"data")));
        fv.push((format!("Font/path={l}"), font_stream(b"f", &b, b"data")));
    }
    for n in [0usize, 1, 255, 256, 70000] {
        fv.push((format!("Font/data={n}"), font_stream(b"f", b"f.ttf", &vec![n as u8; n])));
    }
    fv.push(("Font/data=endb".into(), font_stream(b"f", b"f.ttf", &endb())));
    batched(ctx, &fv, 20, |v| v.0.clone(), |vs| {
        let mut t = Table::new(&spec, 1080);
        t.fonts = vs.iter().map(|v| v.1.clone()).collect();
        roundtrip(&t)
    }, |v| hash_of(&v.1));
    let mut cv: Vec<(String, Vec<u8>)> = vec![];
    for (l, b) in wide_menu(true) {
        cv.push((format!("Collection/name={l}"), collection_stream(&b, &["a", "b"], [true, false, true])));
        cv.push((format!("Collection/item={l}"), collection_stream("c", &["a", &b, "b"], [true, false, true])));
    }
    for m in 0..8 {
        cv.push((format!("Collection/flags={m}"), collection_stream("c", &["x"], [m & 1 != 0, m & 2 != 0, m & 4 != 0])));
    }
    for n in [0usize, 1, 2, 3, 300] {
        let names: Vec<String> = (0..n).map(|i| format!("item{}", i % 7)).collect();
        let r: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        cv.push((format!("Collection/count={n}"), collection_stream("c", &r, [false; 3])));
    }
    batched(ctx, &cv, 10, |v| v.0.clone(), |vs| {
        let mut t = Table::new(&spec, 1080);
        t.collections = vs.iter().map(|v| v.1.clone()).collect();
        roundtrip(&t)
    }, |v| hash_of(&v.1));
    // table info and custom tags
    let mut menu = wide_menu(true);
    menu.push(("big".into(), "z".repeat(5000)));
    for n in INFO_NAMES {
        for (l, s) in &menu {
            ctx.case(&format!("Info/{n}={l}"), || {
                let mut t = Table::new(&spec, 1072);
                let d = if n == "Screenshot" { s.as_bytes().to_vec() } else { utf16(s) };
                t.info.push((n.into(), d));
                roundtrip(&t)
            });
        }
    }
    for m in 0..(1u32 << 12) {
        if !th && m.count_ones() > 2 && m.count_ones() < 11 {
            continue;
        }
        ctx.case(&format!("Info/mask={m:012b}"), || {
            let mut t = Table::new(&spec, 1072);
            for (i, n) in INFO_NAMES.iter().enumerate() {
                if m >> i & 1 == 1 {
                    t.info.push((n.to_string(), if *n == "Screenshot" { vec![1, 2, 3] } else { utf16(&format!("v{i}")) }));
                }
            }
            roundtrip(&t)
        });
    }
    for tags in [
        vec!["A"],
        vec!["B", "A"],
        vec!["A", "A"],
        vec!["x y", "Z\u{e9}", "q"],
        vec![],
    ] {
        for m in 0..(1u32 << tags.len().min(3)) {
            for extra in [false, true] {
                ctx.case(&format!("Custom/{tags:?}/values={m:03b}/extra={extra}"), || {
                    let mut t = Table::new(&spec, 1072);
                    t.custom_tags = Some(tags.iter().map(|s| s.to_string()).collect());
                    let mut seen = vec![];
                    for (i, n) in tags.iter().enumerate() {
                        if m >> i & 1 == 1 && !seen.contains(n) {
                            seen.push(*n);
                            t.info.push((n.to_string(), utf16(&format!("val{i} é"))));
                        }
                    }
                    if extra {
                        t.info.push(("Unlisted".into(), utf16("free")));
                    }
                    roundtrip(&t)
                });
            }
        }
    }
    // component counts and orders
    let counts: &[usize] = if th { &[0, 1, 2, 3, 10, 11, 30] } else { &[0, 1, 2, 11] };
    for &a in counts {
        for &b in counts {
            for k in 0..5 {
                ctx.case(&format!("Counts/{k}/{a}x{b}"), || {
                    let mut t = Table::new(&spec, 1080);
                    fill(&mut t, &g, &spec, k, a);
                    fill(&mut t, &g, &spec, (k + 1) % 5, b);
                    roundtrip(&t)
                });
            }
        }
    }
    // every ordered pair (and in thorough, triple) of item types
    let items = spec.items();
    for a in &items {
        for b in &items {
            ctx.case(&format!("Order/{},{}", a.name, b.name), || {
                let mut t = Table::new(&spec, 1080);
                for l in [a, b] {
                    let v = g.base_vals(l);
                    t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
                }
                roundtrip(&t)
            });
        }
    }
    for ver in VERSIONS {
        ctx.case(&format!("Full@{ver}"), || roundtrip(&full_table(&spec, &g, ver)));
    }
}

/// A table with every kind of component.
pub fn full_table(spec: &Spec, g: &Gen, ver: u32) -> Table {
    let mut t = Table::new(spec, ver);
    for l in spec.items() {
        let v = g.base_vals(l);
        t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
    }
    for k in 1..5 {
        fill_v(&mut t, g, spec, k, 2, ver);
    }
    t.custom_tags = Some(vec!["Tag1".into(), "Tag2".into()]);
    for n in INFO_NAMES {
        t.info.push((n.into(), if n == "Screenshot" { b"shot".to_vec() } else { utf16(n) }));
    }
    t.info.push(("Tag1".into(), utf16("v1")));
    t
}

fn fill(t: &mut Table, g: &Gen, spec: &Spec, kind: usize, n: usize) {
    let v = t.version;
    fill_v(t, g, spec, kind, n, v)
}
fn fill_v(t: &mut Table, g: &Gen, spec: &Spec, kind: usize, n: usize, ver: u32) {
    let items = spec.items();
    for i in 0..n {
        match kind {
            0 => {
                let l = items[i % items.len()];
                let v = g.base_vals(l);
                t.items.push(g.item_bytes(l, &v.iter().collect::<Vec<_>>()));
            }
            1 => t.images.push(Img::jpeg(&format!("i{i}"), &format!("i{i}.png"), &[i as u8; 9]).enc()),
            2 => t.sounds.push(Snd::new(&format!("s{i}"), "s.wav", &[i as u8; 4]).enc(ver)),
            3 => t.fonts.push(font_stream(format!("f{i}").as_bytes(), b"f.ttf", &[i as u8; 5])),
            _ => t.collections.push(collection_stream(&format!("c{i}"), &["a"], [false, true, false])),
        }
    }
}

pub fn header_optional_patterns(spec: &Spec, g: &Gen, th: bool) -> Vec<(String, u32, Vec<usize>)> {
    let gl = spec.get("GameData");
    let base = header_base(g, 1080);
    let opts: Vec<usize> = gl
        .fields
        .iter()
        .enumerate()
        .filter(|(i, f)| f.req == Req::Opt && !base[*i].1.is_empty() && f.tag != "PHMA")
        .map(|(i, _)| i)
        .collect();
    let mut out = vec![];
    let vers: &[u32] = if th { &[1060, 1072, 1080, 1081] } else { &[1072, 1081] };
    for &v in vers {
        out.push((format!("GameData@{v}/opts=none"), v, opts.clone()));
        for o in &opts {
            out.push((
                format!("GameData@{v}/opts=only:{}", gl.fields[*o].tag),
                v,
                opts.iter().filter(|x| *x != o).cloned().collect(),
            ));
        }
        for (n, a) in opts.iter().enumerate() {
            for b in &opts[n + 1..] {
                if !th && (v != 1081 || (a + b) % 3 != 0) && b - a > 2 {
                    continue;
                }
                out.push((
                    format!("GameData@{v}/opts=without:{},{}", gl.fields[*a].tag, gl.fields[*b].tag),
                    v,
                    vec![*a, *b],
                ));
            }
        }
    }
    out
}

fn materials(ctx: &Ctx, spec: &Spec, g: &Gen) {
    let mut ms: Vec<(String, Vec<u8>)> = vec![];
    let b = |n: &[u8]| save_material(n, 0x112233, 0x445566, 0x778899, 0.5, 0, 0.25, 128, 0.75, 13, 0.9, 1);
    ms.push(("base".into(), b(b"mat")));
    for (l, n) in latin1_menu(g.thorough) {
        if n.len() <= 31 {
            ms.push((format!("name={l}"), b(&n)));
        }
    }
    ms.push(("name=len31".into(), b(&[b'n'; 31])));
    for x in 0..=255u8 {
        ms.push((format!("gil={x}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, x, 0.75, 13, 0.9, 1)));
        ms.push((format!("thick={x}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, 0.75, x, 0.9, 1)));
        ms.push((format!("oaea={x}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, 0.75, 4, 0.9, x)));
    }
    ms.push(("metal".into(), save_material(b"m", 1, 2, 3, 0.5, 1, 0.25, 9, 0.75, 4, 0.9, 1)));
    for (l, f) in float_menu(g.floats, g.thorough) {
        let f = f32::from_bits(f);
        ms.push((format!("wrap={l}"), save_material(b"m", 1, 2, 3, f, 0, 0.25, 9, 0.75, 4, 0.9, 1)));
        ms.push((format!("rough={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, f, 9, 0.75, 4, 0.9, 1)));
        ms.push((format!("edge={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, f, 4, 0.9, 1)));
        ms.push((format!("opacity={l}"), save_material(b"m", 1, 2, 3, 0.5, 0, 0.25, 9, 0.75, 4, f, 1)));
    }
    for k in 0..3u32 {
        for c in [0u32, 0xff, 0xff00, 0xff0000, 0x00ff_ffff] {
            let mut a = [1u32, 2, 3];
            a[k as usize] = c;
            ms.push((format!("color{k}={c:x}"), save_material(b"m", a[0], a[1], a[2], 0.5, 0, 0.25, 9, 0.75, 4, 0.9, 1)));
        }
    }
    batched(ctx, &ms, 60, |m| format!("SaveMaterial/{}", m.0), |vs| {
        let mut t = Table::new(spec, 1072);
        t.set("MASI", rec("MASI", &(vs.len() as u32).to_le_bytes()));
        t.set("MATE", rec("MATE", &vs.iter().flat_map(|v| v.1.clone()).collect::<Vec<_>>()));
        let ph: Vec<u8> = vs.iter().enumerate().flat_map(|(i, _)| save_physics(format!("p{i}").as_bytes(), [i as u32, 1, 2, 3])).collect();
        t.set("PHMA", rec("PHMA", &ph));
        roundtrip(&t)
    }, |m| hash_of(&m.1));
    let mut ps: Vec<(String, Vec<u8>)> = vec![];
    for (l, n) in latin1_menu(g.thorough) {
        if n.len() <= 31 {
            ps.push((format!("name={l}"), save_physics(&n, [1, 2, 3, 4])));
        }
    }
    for (l, f) in float_menu(g.floats, g.thorough) {
        for k in 0..4 {
            let mut a = [0x3f80_0000u32; 4];
            a[k] = f;
            ps.push((format!("v{k}={l}"), save_physics(b"m", a)));
        }
    }
    batched(ctx, &ps, 60, |m| format!("SavePhysics/{}", m.0), |vs| {
        let mut t = Table::new(spec, 1072);
        t.set("MASI", rec("MASI", &(vs.len() as u32).to_le_bytes()));
        t.set("MATE", rec("MATE", &vs.iter().flat_map(|_| b(b"mm")).collect::<Vec<_>>()));
        t.set("PHMA", rec("PHMA", &vs.iter().flat_map(|v| v.1.clone()).collect::<Vec<_>>()));
        roundtrip(&t)
    }, |m| hash_of(&m.1));
    ctx.case("SaveMaterial/no-physics", || {
        let mut t = Table::new(spec, 1060);
        t.set("MASI", rec("MASI", &1u32.to_le_bytes()));
        t.set("MATE", rec("MATE", &b(b"mm")));
        t.set("PHMA", vec![]);
        roundtrip(&t)
    });
}
