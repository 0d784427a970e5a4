//! Every file the library writes carries the integrity hash its contents require.
use super::common::*;
use super::ops::*;
use super::p01::full_table;
use crate::cont::*;
use crate::fw::*;
use crate::spec::*;
use vpin::vpx;

/// The independent hash agrees with files written by the original program.
pub fn oracle(ctx: &Ctx) {
    let mut n = 0;
    if let Ok(rd) = std::fs::read_dir("/repo/testdata") {
        for p in rd.flatten().map(|e| e.path()) {
            if p.extension().is_some_and(|x| x == "vpx") {
                let Ok(s) = dump(&std::fs::read(&p).unwrap()) else { continue };
                if let Some(m) = s.get("/GameStg/MAC") {
                    assert_eq!(m.as_slice(), &mac(&s)[..], "the independent hash of {}", p.display());
                    n += 1;
                }
            }
        }
    }
    ctx.note("oracle_validated_on_original_files", n);
    ctx.add_traces(n);
}

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("all sequences of operations up to the depth, from several start tables, on the real file, with one handle kept open and reopened; after every step the stored hash equals the one an independent implementation computes, and verification succeeds; plus every stored table of the single-record deviations, written once");
    oracle(ctx);
    let donor = Donor::new(&ctx.scratch);
    let st = starts(&donor, th);
    let look = Look { mac: true, ..Look::default() };
    let mut alphabet = vec![
        Op::Lock, Op::Unlock, Op::SaveName(0), Op::SaveCode(2), Op::Webp, Op::Import(0), Op::Import(1), Op::Import(2), Op::ExtractImport, Op::Compact, Op::Rewrite, Op::Reassemble, Op::AddImage(0), Op::AddItem(0), Op::SetScript(3), Op::AddCollection, Op::SetInfo(0), Op::SetInfo(1), Op::Create,
    ];
    if th {
        Explore { ctx, donor: &donor, alphabet: alphabet.clone(), depth: 3, look, keep: false }.run(&st);
        alphabet.retain(|o| matches!(o, Op::Lock | Op::Unlock | Op::SaveCode(2) | Op::Webp | Op::Import(0) | Op::Import(2) | Op::Compact | Op::Rewrite));
        Explore { ctx, donor: &donor, alphabet: alphabet.clone(), depth: 4, look, keep: false }.run(&st);
    } else {
        Explore { ctx, donor: &donor, alphabet: alphabet.clone(), depth: 2, look, keep: false }.run(&st);
        alphabet.retain(|o| !matches!(o, Op::SaveName(_) | Op::Import(1) | Op::ExtractImport | Op::AddImage(_) | Op::AddItem(_) | Op::SetInfo(0)));
        Explore { ctx, donor: &donor, alphabet: alphabet.clone(), depth: 3, look, keep: false }.run(&st);
    }
    alphabet = vec![Op::Lock, Op::Unlock, Op::SaveName(0), Op::SaveName(1), Op::SaveCode(0), Op::SaveCode(2), Op::Webp];
    Explore { ctx, donor: &donor, alphabet, depth: if th { 5 } else { 4 }, look, keep: true }.run(&st);
    // large parts and many parts
    use super::large::{some, COUNTED, HASHED, SIZED};
    on_large(ctx, &donor, look, &some(th, &HASHED, 1), &[Op::Lock, Op::SaveName(0), Op::Import(2)]);
    on_large(ctx, &donor, look, &some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 4 }), &[Op::Rewrite, Op::Unlock, Op::Lock]);
    // every header record, collection record, custom tag and info field, written by the library
    let spec = &donor.spec;
    let g = Gen { spec, floats: Floats::All, thorough: th };
    let one = |t: &Table| -> Result<u64, String> {
        let b = save(&load(&t.bytes())?)?;
        let s = dump(&b)?;
        let want = mac(&s);
        if s["/GameStg/MAC"] != want {
            return Err(format!("stored hash {}, the contents require {}", hex(&s["/GameStg/MAC"]), hex(&want)));
        }
        Ok(hash_of(&want))
    };
    for ver in VERSIONS {
        let base = header_base(&g, ver);
        for (i, (tag, enc)) in base.iter().enumerate() {
            if enc.is_empty() {
                continue;
            }
            let l = spec.get("GameData");
            let f = &l.fields[i];
            for v in g.menu(f, i) {
                if (v.enc.is_empty() && f.req == Req::Req) || tag.starts_with("EFSS") || ["MASI", "MATE", "PHMA", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "MATR", "RPRB"].contains(&tag.as_str()) {
                    continue;
                }
                if !th && ver != 1072 && ver != 1081 {
                    continue;
                }
                ctx.case(&format!("header/{ver}/{tag}={}", v.label), || {
                    let mut t = Table::new(spec, ver);
                    t.gamedata[i].1 = v.enc.clone();
                    one(&t)
                });
            }
        }
        ctx.case(&format!("full/{ver}"), || one(&full_table(spec, &g, ver)));
    }
    for (name, _) in crate::parts::INFO_NAMES.iter().map(|n| (*n, 0)).chain([("custom", 1)]) {
        for (l, v) in [("absent", None), ("empty", Some(vec![])), ("short", Some(utf16("v"))), ("wide", Some(utf16("\u{4e2d}\u{1f600}\u{e9}"))), ("long", Some(utf16(&"long value ".repeat(500))))] {
            for listed in [0usize, 1, 2] {
                ctx.case(&format!("info/{name}={l}/tags={listed}"), || {
                    let mut t = Table::new(spec, 1072);
                    if let Some(v) = &v {
                        t.info.push((name.to_string(), v.clone()));
                    }
                    t.info.push(("other".into(), utf16("o")));
                    t.custom_tags = [None, Some(vec![]), Some(vec!["other".to_string(), "absent".into(), name.to_string(), "other".into()])][listed].clone();
                    one(&t)
                });
            }
        }
    }
    // names a custom tag can have
    let names: Vec<(&str, &str)> = vec![("empty", ""), ("dot", "."), ("dotdot", ".."), ("space", " "), ("case", "OTHER"), ("latin1", "T\u{e9}g"), ("slash", "a/b"), ("colon", "a:b"), ("long", "a name of more than thirty-one characters"), ("storage", "../GameStg"), ("field", "TableName"), ("unhashed", "TableSaveDate")];
    for (l, n) in &names {
        for (l2, m) in &names {
            ctx.case(&format!("tags/{l}+{l2}"), || {
                let mut t = Table::new(spec, 1072);
                t.info.push(("other".into(), utf16("o")));
                t.info.push(("TableName".into(), utf16("n")));
                t.info.push(("TableSaveDate".into(), utf16("d")));
                t.info.push(("T\u{e9}g".into(), utf16("e")));
                t.custom_tags = Some(vec![n.to_string(), m.to_string()]);
                let r = one(&t)?;
                let p = ctx.scratch.join(format!("tags-{l}-{l2}.vpx"));
                std::fs::write(&p, t.bytes()).unwrap();
                let v = vpx::verify(&p);
                let _ = std::fs::remove_file(&p);
                if !matches!(v, vpx::VerifyResult::Ok(_)) {
                    return Err(format!("verification: {v:?}"));
                }
                Ok(r)
            });
        }
    }
}
