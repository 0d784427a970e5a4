//! The announced file list against what extraction creates.
use super::common::*;
use super::exp::*;
use super::p03::{Mat, full_exp_table, image_set, set_materials, sound_set};
use crate::cont::*;
use crate::fw::*;
use crate::parts::*;
use crate::spec::*;
use rayon::prelude::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use vpin::vpx::expanded::{self, PrimitiveMeshFormat as Pmf};

/// Files below a directory, relative to it.
fn tree(root: &Path) -> Result<BTreeSet<String>, String> {
    let mut out = BTreeSet::new();
    let mut dirs = vec![root.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).map_err(err("listing"))? {
            let p = e.map_err(err("listing"))?.path();
            if p.is_dir() {
                dirs.push(p);
            } else {
                out.insert(p.strip_prefix(root).unwrap().to_string_lossy().to_string());
            }
        }
    }
    Ok(out)
}

/// Lists the table stored at `dir/file` and extracts it for real; both must agree.
fn agree(dir: &Path, file: &str, bytes: &[u8]) -> Result<u64, String> {
    std::fs::create_dir_all(dir).map_err(err("scratch"))?;
    let path = dir.join(file);
    std::fs::write(&path, bytes).map_err(err("scratch"))?;
    let before = tree(dir)?;
    let list = guard(|| Ok(expanded::extract_directory_list(&path)))?;
    if tree(dir)? != before {
        return Err("listing changes the disk".into());
    }
    if std::fs::read(&path).map_err(err("table"))? != bytes {
        return Err("listing changes the table".into());
    }
    let again = guard(|| Ok(expanded::extract_directory_list(&path)))?;
    if again != list {
        return Err("listing again gives another list".into());
    }
    let v = load(bytes)?;
    let stem = Path::new(file).file_stem().unwrap();
    let target: PathBuf = dir.join("x").join(stem);
    std::fs::create_dir_all(dir.join("x")).map_err(err("scratch"))?;
    std::fs::create_dir_all(&target).map_err(err("scratch"))?;
    expanded::write(&v, &target, &options(Pmf::Obj, false)).map_err(err("extraction"))?;
    let want: BTreeSet<String> = tree(&target)?.into_iter().map(|f| Path::new(stem).join(f).to_string_lossy().to_string()).collect();
    let got: BTreeSet<String> = list.iter().cloned().collect();
    let r = (|| {
        if got.len() != list.len() {
            return Err("a file is listed twice".to_string());
        }
        if let Some(m) = want.difference(&got).next() {
            return Err(format!("{m} is created by extraction but not listed"));
        }
        if let Some(m) = got.difference(&want).next() {
            return Err(format!("{m} is listed but not created by extraction"));
        }
        if list.windows(2).any(|w| w[0] > w[1]) {
            return Err("the list is not in order".into());
        }
        Ok(hash_of(&list))
    })();
    let _ = std::fs::remove_dir_all(dir);
    r
}

pub fn run(ctx: &Ctx) {
    let spec = std::sync::Arc::new(Spec::load());
    let th = ctx.thorough();
    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: th };
    ctx.rule("the announced list is sorted, free of repetitions, the same on every call, touches nothing on disk, and names exactly the files that extracting the same table to disk (Wavefront meshes, no generated ones) creates, below a directory called like the table file without its extension");
    ctx.assume("the announced entries are files; directories appear as parts of their paths");
    let mut cases: Vec<(String, String, Box<dyn Fn() -> Table + Sync + Send>)> = vec![];
    // every combination of components
    const PARTS: [&str; 10] = ["items", "mesh", "frames", "images", "bits", "sounds", "fonts", "collections", "probes", "info"];
    for ver in if th { VERSIONS.to_vec() } else { vec![1030, 1072, 1080] } {
        for mask in 0..1u32 << PARTS.len() {
            if !th && ver != 1080 && mask.count_ones() > 2 && mask != (1 << PARTS.len()) - 1 {
                continue;
            }
            for mats in ["none", "old", "new"] {
                if !th && mats != "none" && mask.count_ones() > 1 && mask.count_ones() < 9 {
                    continue;
                }
                let spec = std::sync::Arc::clone(&spec);
                let label = format!("parts@{ver}/{}/materials={mats}", PARTS.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join("+"));
                cases.push((
                    label,
                    "table.vpx".into(),
                    Box::new(move || {
                        let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
                        let mut t = Table::new(&spec, ver);
                        let has = |n: &str| mask >> PARTS.iter().position(|p| *p == n).unwrap() & 1 == 1;
                        if has("items") {
                            for l in spec.items() {
                                t.items.push(g.item_bytes(l, &exp_base(&g, l).iter().collect::<Vec<_>>()));
                            }
                        }
                        if has("mesh") {
                            t.items.push(prim_item(&g, Some(&Mesh::new(4, 2))));
                        }
                        if has("frames") {
                            t.items.push(prim_item(&g, Some(&Mesh::new(4, 2).with_frames(11))));
                        }
                        if has("images") {
                            t.images.push(Img::jpeg("pic", "c:\\pic.png", &super::p03::png(2, 2)).enc());
                            t.images.push(Img::jpeg("PIC", "/x/pic.JPG", b"whatever").enc());
                        }
                        if has("bits") {
                            t.images.push(Img::bmp("bits", "bits.bmp", 2, 2, super::p03::bits(2, 2, 255)).enc());
                        }
                        if has("sounds") {
                            t.sounds.push(Snd::new("s", "s.wav", &[1; 40]).enc(ver));
                            t.sounds.push(Snd::new("s", "s.ogg", &[1; 40]).enc(ver));
                        }
                        if has("fonts") {
                            t.fonts.push(font_stream(b"f", b"f.ttf", b"data"));
                        }
                        if has("collections") {
                            t.collections.push(collection_stream("c", &["a"], [true, false, true]));
                        }
                        if !has("probes") {
                            for tag in ["RPRB"] {
                                if t.gamedata.iter().any(|x| x.0 == tag) {
                                    t.set(tag, vec![]);
                                }
                            }
                        }
                        if has("info") {
                            for n in INFO_NAMES {
                                t.info.push((n.to_string(), utf16("x")));
                            }
                            t.info.push(("Screenshot".into(), super::p03::png(1, 1)));
                            t.info.push(("mine".into(), utf16("v")));
                            t.custom_tags = Some(vec!["mine".into()]);
                        }
                        match mats {
                            "none" => {}
                            "new" => set_materials(&mut t, &g, &[Mat::new("m"), Mat::new("n")]),
                            _ => {
                                set_materials(&mut t, &g, &[Mat::new("m"), Mat::new("n")]);
                                t.set("MATR", vec![]);
                            }
                        }
                        t
                    }),
                ));
            }
        }
    }
    // every name of a table file
    let stems = ["table.vpx", "table", "a.b.vpx", ".vpx", "..vpx", "a b.vpx", "ä漢😀.vpx", "table.VPX", "x.tar.gz", "%20#.vpx", "-n.vpx", "a..vpx", "con.vpx", "table..", "'\".vpx", "gameitems.vpx", "version.txt"];
    for s in stems {
        for full in [false, true] {
            let spec = std::sync::Arc::clone(&spec);
            cases.push((
                format!("file {s:?}/full={full}"),
                s.into(),
                Box::new(move || {
                    let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
                    if full { full_exp_table(&spec, &g, 1080) } else { Table::new(&spec, 1080) }
                }),
            ));
        }
    }
    for v in VERSIONS {
        let spec = std::sync::Arc::clone(&spec);
        cases.push((
            format!("full@{v}"),
            "t.vpx".into(),
            Box::new(move || {
                let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
                full_exp_table(&spec, &g, v)
            }),
        ));
    }
    // every item kind and record pattern that extraction may react to
    for l in spec.items() {
        for v in exp_variants(&g, l) {
            if !th && !["Primitive"].contains(&l.name.as_str()) && !v.label.contains("NAME") {
                continue;
            }
            let spec = std::sync::Arc::clone(&spec);
            cases.push((
                format!("item/{}", v.label),
                "t.vpx".into(),
                Box::new(move || {
                    let mut t = Table::new(&spec, 1080);
                    t.items.push(v.bytes.clone());
                    t
                }),
            ));
        }
    }
    for (l, img) in image_set(th) {
        let spec = std::sync::Arc::clone(&spec);
        cases.push((
            format!("image/{l}"),
            "t.vpx".into(),
            Box::new(move || {
                let mut t = Table::new(&spec, 1080);
                t.images.push(img.enc());
                t
            }),
        ));
    }
    for (l, snd) in sound_set(th) {
        let spec = std::sync::Arc::clone(&spec);
        cases.push((
            format!("sound/{l}"),
            "t.vpx".into(),
            Box::new(move || {
                let mut t = Table::new(&spec, 1080);
                t.sounds.push(snd.enc(1080));
                t
            }),
        ));
    }
    // pairs of components of equal and nearly equal names
    let names = ["a", "A", "a__1", "a.b", "", "ä", "Ä", "ß", "a/b", "a_b", "a:b"];
    for x in names {
        for y in names {
            for kind in ["item", "image", "sound", "font"] {
                let spec = std::sync::Arc::clone(&spec);
                cases.push((
                    format!("names/{kind}/{x:?}+{y:?}"),
                    "t.vpx".into(),
                    Box::new(move || {
                        let g = Gen { spec: &spec, floats: Floats::Finite, thorough: false };
                        let mut t = Table::new(&spec, 1080);
                        for n in [x, y] {
                            match kind {
                                "item" => t.items.push(item_patch(&g, spec.get("Timer"), &[("NAME", Some(rec("NAME", &wstr(n))))])),
                                "image" => t.images.push(Img::jpeg(n, "p.png", b"x").enc()),
                                "sound" => t.sounds.push(Snd::new(n, "s.ogg", b"x").enc(1080)),
                                _ => {
                                    let b: Vec<u8> = n.chars().map(|c| c as u32 as u8).collect();
                                    t.fonts.push(font_stream(&b, b"f.ttf", b"x"))
                                }
                            }
                        }
                        t
                    }),
                ));
            }
        }
    }
    ctx.note("tables", cases.len() as u64);
    cases.par_iter().enumerate().for_each(|(i, (label, file, t))| {
        if ctx.too_many() {
            return;
        }
        ctx.case(label, || {
            let dir = ctx.scratch.join(format!("l{i}"));
            let bytes = build(&t().streams());
            agree(&dir, file, &bytes)
        });
    });
}
