//! Scripts are extracted and imported without altering anything else.
use super::common::*;
use super::ops::*;
use crate::cont::*;
use crate::fw::*;
use crate::spec::*;
use vpin::vpx::{self, ExtractResult};

pub fn run(ctx: &Ctx) {
    let th = ctx.thorough();
    ctx.rule("all sequences of extract, import, edit and other operations up to the depth from several start tables; every pair of script lengths on either side of each container size boundary (grow and shrink); every stored script content class; every file name shape and destination state of an extraction");
    ctx.assume("scripts contain no NUL (the format ends the script there); a script file to import is UTF-8 text; extraction writes the script as UTF-8 text");
    let donor = Donor::new(&ctx.scratch);
    let spec = &donor.spec;
    let g = Gen { spec, floats: Floats::Finite, thorough: th };
    let look = Look { script: true, mac: true, ..Look::default() };
    let rich = starts(&donor, th);
    let alphabet = vec![Op::Import(0), Op::Import(1), Op::Import(2), Op::Import(3), Op::ExtractImport, Op::ExtractKeep, Op::SaveCode(0), Op::SaveCode(2), Op::SetScript(3), Op::SaveName(0), Op::Lock, Op::Compact, Op::Rewrite, Op::Webp];
    Explore { ctx, donor: &donor, alphabet: alphabet.clone(), depth: if th { 4 } else { 3 }, look, keep: false }.run(&rich);
    // large parts and many parts
    use super::large::{some, COUNTED, SIZED};
    on_large(ctx, &donor, look, &some(th, &["script"], 1), &[Op::ExtractImport, Op::Import(2), Op::ExtractImport]);
    on_large(ctx, &donor, look, &some(th, &[&SIZED[..], &COUNTED[..]].concat(), if th { 1 } else { 4 }), &[Op::ExtractImport, Op::Import(1), Op::ExtractImport]);
    // lengths
    let base = {
        let mut t = Table::new(spec, 1072);
        t.set("CODE", rec_len("CODE", &lstr(b""), 4));
        t.header().len()
    };
    let mut sizes: Vec<usize> = vec![0, 1, 63, 64, 65];
    for lim in [64usize * 40, 4096, 8192, 12288, 65536] {
        for d in [-65i64, -64, -2, -1, 0, 1, 2, 63, 64] {
            let n = lim as i64 + d - base as i64;
            if n >= 0 {
                sizes.push(n as usize);
            }
        }
    }
    if th {
        sizes.push(5_000_000);
        sizes.extend(((4096 - base.min(4000))..(4096usize.saturating_sub(base) + 300)).step_by(3));
    }
    sizes.sort();
    sizes.dedup();
    ctx.note("script_lengths", sizes.len());
    let pairs: Vec<(usize, usize)> = sizes.iter().flat_map(|a| sizes.iter().map(move |b| (*a, *b))).filter(|(a, b)| *a.max(b) < 1_000_000 || a != b && *a.min(b) < 3).collect();
    let t0 = Table::new(spec, 1072);
    let start = t0.bytes();
    on_threads(&pairs, |(a, b)| {
        if ctx.too_many() {
            return;
        }
        let label = format!("lengths/{a}-{b}");
        ctx.case(&label, || {
            let mut w = World::new(&donor, ctx.scratch.join(format!("l{a}-{b}")), &start, look);
            let imp = |w: &mut World, n: usize| {
                // script(k) for k >= 4 is that many characters; shorter ones through a separate file
                let p = w.dir.join("n.vbs");
                std::fs::write(&p, "x".repeat(n)).unwrap();
                vpx::importvbs(&w.path, Some(p)).map_err(|e| format!("import of {n}: {e}"))?;
                header_set(spec, &mut w.model, "CODE", "x".repeat(n).as_bytes());
                refresh(&mut w.model);
                let got = dump(&w.raw())?;
                match diff_streams(&w.model, &got) {
                    Some(d) => Err(format!("after importing {n} characters: {d}")),
                    None => Ok(()),
                }
            };
            imp(&mut w, *a)?;
            imp(&mut w, *b)?;
            imp(&mut w, *a)?;
            let h = w.step(Op::ExtractImport)?;
            w.step(Op::Compact)?;
            Ok(h)
        });
    });
    // contents
    for (l, s) in script_menu(th) {
        for ver in VERSIONS {
            ctx.case(&format!("content/{l}/{ver}"), || {
                let mut t = Table::new(spec, ver);
                t.set("CODE", rec_len("CODE", &lstr(&s), 4));
                let mut w = World::new(&donor, ctx.scratch.join(format!("c{:x}{ver}", hash_of(&l))), &t.bytes(), look);
                // the script alone, as UTF-8
                let text = String::from_utf8(s.clone()).unwrap_or_else(|_| latin1(&s));
                let out = w.dir.join("o.vbs");
                let v = load(&w.raw())?;
                vpx::extract_script(&v.gamedata, &out).map_err(|e| e.to_string())?;
                if std::fs::read(&out).unwrap() != text.as_bytes() {
                    return Err("extract_script wrote something else".into());
                }
                let mut h = w.step(Op::ExtractImport)?;
                if text.as_bytes() != header_get(&w.model, "CODE").unwrap() {
                    return Err("extracting and importing changed the text".into());
                }
                h ^= w.step(Op::Import(0))?;
                h ^= w.step(Op::ExtractImport)?;
                Ok(h)
            });
        }
    }
    let _ = &g;
    // destinations
    for name in ["t.vpx", "t", "a.b.vpx", "t.VPX", "T\u{e9}st table.vpx", "x.vbs.vpx", ".vpx", "dotted.", "sub/deep.vpx"] {
        for exists in [0, 1, 2] {
            for overwrite in [false, true] {
                for explicit in [false, true] {
                    ctx.case(&format!("destination/{name}/exists={exists}/overwrite={overwrite}/explicit={explicit}"), || {
                        let d = ctx.scratch.join(format!("d{:x}", hash_of(&(name, exists, overwrite, explicit))));
                        let p = d.join(name);
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        let mut t = Table::new(spec, 1072);
                        t.set("CODE", rec_len("CODE", &lstr(b"stored script"), 4));
                        std::fs::write(&p, t.bytes()).unwrap();
                        let side = p.with_extension("vbs");
                        if vpx::vbs_path_for(&p) != side {
                            return Err(format!("documented location {}", vpx::vbs_path_for(&p).display()));
                        }
                        if vpx::ini_path_for(&p) != p.with_extension("ini") {
                            return Err("location of the settings".into());
                        }
                        let dest = if explicit { d.join("else where.txt") } else { side.clone() };
                        let prior: &[u8] = if exists == 2 { b"" } else { b"a longer script that was already there" };
                        if exists > 0 {
                            std::fs::write(&dest, prior).unwrap();
                        }
                        let before = std::fs::read(&p).unwrap();
                        let r = vpx::extractvbs(&p, explicit.then(|| dest.clone()), overwrite).map_err(|e| e.to_string())?;
                        let got = std::fs::read(&dest).unwrap();
                        let keep = exists > 0 && !overwrite;
                        match r {
                            ExtractResult::Existed(q) if keep && q == dest => {
                                if got != prior {
                                    return Err("an existing script was overwritten".into());
                                }
                            }
                            ExtractResult::Extracted(q) if !keep && q == dest => {
                                if got != b"stored script" {
                                    return Err(format!("wrote {:?}", String::from_utf8_lossy(&got)));
                                }
                            }
                            r => return Err(format!("returned {r:?}")),
                        }
                        if std::fs::read(&p).unwrap() != before {
                            return Err("the table file changed".into());
                        }
                        let files: Vec<_> = walk(&d);
                        if files.len() != 2 {
                            return Err(format!("files after extraction: {files:?}"));
                        }
                        // importing from the same place, and from a place that does not exist
                        std::fs::write(&dest, "' edited\n").unwrap();
                        let r = vpx::importvbs(&p, explicit.then(|| dest.clone())).map_err(|e| e.to_string())?;
                        if r != dest {
                            return Err(format!("imported from {}", r.display()));
                        }
                        let s = dump(&std::fs::read(&p).unwrap())?;
                        let mut want = t.streams();
                        header_set(spec, &mut want, "CODE", b"' edited\n");
                        refresh(&mut want);
                        if let Some(x) = diff_streams(&want, &s) {
                            return Err(x);
                        }
                        let before = std::fs::read(&p).unwrap();
                        std::fs::remove_file(&dest).unwrap();
                        match vpx::importvbs(&p, explicit.then(|| dest.clone())) {
                            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
                            r => return Err(format!("importing a missing script: {r:?}")),
                        }
                        std::fs::write(&dest, [b'a', 0xff, 0xfe]).unwrap();
                        if vpx::importvbs(&p, explicit.then(|| dest.clone())).is_ok() {
                            let s = dump(&std::fs::read(&p).unwrap())?;
                            if header_get(&s, "CODE").unwrap() != [b'a', 0xff, 0xfe] {
                                return Err("a script that is not UTF-8 was altered".into());
                            }
                        } else if std::fs::read(&p).unwrap() != before {
                            return Err("a refused import changed the table".into());
                        }
                        let _ = std::fs::remove_dir_all(&d);
                        Ok(hash_of(&(keep, explicit)))
                    });
                }
            }
        }
    }
}

fn walk(d: &std::path::Path) -> Vec<std::path::PathBuf> {
    let mut o = vec![];
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            o.extend(walk(&e.path()));
        } else {
            o.push(e.path());
        }
    }
    o
}
