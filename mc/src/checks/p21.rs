//! P21: scene exports are valid files holding the table's geometry.
//!
//! Every table of the case groups below is exported in every format, unit and option; each
//! file is read back by the independent readers of `scene.rs` (which validate all references,
//! ranges, alignments and declared bounds) and the scenes are compared with the objects the
//! table has to give and with each other.
use super::items::*;
use super::p03::{bits, enc_img, png};
use super::scene::{self, Obj, Scene};
use crate::fw::{Ctx, first_line, hash_of};
use serde_json::Value;
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::export::gltf_export::{GltfExportOptions, GltfFormat, export_gltf};
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::vertex3d::Vertex3D;
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::material::{Material, MaterialType, SaveMaterial};
use vpin::vpx::units::ExportUnits;
use vpin::vpx::version::Version;

type R<T> = Result<T, String>;
pub const UNITS: [(ExportUnits, f64, &str); 4] = [
    (ExportUnits::Vpu, 1.0, "vpu"),
    (ExportUnits::Mm, 25.4 * 1.0625 / 50.0, "mm"),
    (ExportUnits::Cm, 25.4 * 1.0625 / 500.0, "cm"),
    (ExportUnits::M, 25.4 * 1.0625 / 50000.0, "m"),
];

pub fn color(r: u8, g: u8, b: u8) -> vpin::vpx::color::Color {
    let mut c = vpin::vpx::color::Color::BLACK;
    c.r = r;
    c.g = g;
    c.b = b;
    c
}

pub fn material(name: &str) -> Material {
    let mut m = Material::default();
    m.name = name.into();
    m.type_ = MaterialType::Basic;
    m.base_color = color(10, 120, 230);
    m
}
pub fn legacy(name: &str) -> SaveMaterial {
    SaveMaterial::from(&material(name))
}

pub fn image(name: &str, path: &str, data: Vec<u8>) -> ImageData {
    let mut i = ImageData::default();
    i.name = name.into();
    i.path = path.into();
    i.width = 2;
    i.height = 2;
    i.jpeg = Some(ImageDataJpeg { path: path.into(), name: name.into(), internal_name: None, data });
    i
}
fn bits_image(name: &str, path: &str, w: u32, h: u32) -> ImageData {
    let mut i = ImageData::default();
    i.name = name.into();
    i.path = path.into();
    i.width = w;
    i.height = h;
    i.jpeg = None;
    i.bits = Some(ImageDataBits { lzw_compressed_data: bits(w, h, 255) });
    i
}

pub fn table() -> VPX {
    let mut v = VPX::default();
    v.version = Version::new(1081);
    let g = &mut v.gamedata;
    g.name = "Table1".into();
    (g.left, g.top, g.right, g.bottom) = (0.0, 0.0, 952.0, 2162.0);
    g.glass_top_height = 400.0;
    g.image = String::new();
    g.playfield_material = String::new();
    g.materials = Some(vec![material("Plastic")]);
    g.materials_old = vec![legacy("Plastic")];
    g.light_height = 1000.0;
    g.light_range = 3000.0;
    v.images = vec![image("pic", "c:\\pics\\pic.png", png(2, 2))];
    v
}

pub struct GltfOut {
    pub scene: Scene,
    pub json: Value,
    pub bin: Vec<u8>,
}

/// Exports to memory, validates and reads back.
pub fn gltf_out(v: &VPX, glb: bool, inv: bool, units: ExportUnits, path: &str) -> R<GltfOut> {
    let o = GltfExportOptions { format: if glb { GltfFormat::Glb } else { GltfFormat::Gltf }, export_invisible_items: inv, units };
    let fs = MemoryFileSystem::new();
    export_gltf(v, Path::new(path), &fs, &o).map_err(|e| format!("export to {path:?} failed: {e}"))?;
    let main = fs.read_file(Path::new(path)).map_err(|e| format!("nothing at {path:?}: {e}"))?;
    let (json, bin) = if glb {
        scene::glb(&main)?
    } else {
        let j: Value = serde_json::from_slice(&main).map_err(|e| format!("glTF JSON: {e}"))?;
        let uri = j["buffers"][0]["uri"].as_str().ok_or("no buffer uri")?.to_string();
        let name = scene::unuri(&uri)?;
        let p = Path::new(path).parent().unwrap_or(Path::new("")).join(&name);
        let bin = fs.read_file(&p).map_err(|_| format!("the buffer uri {uri:?} names no file that was written"))?;
        (j, bin)
    };
    let scene = scene::gltf(&json, &bin, glb)?;
    Ok(GltfOut { scene, json, bin })
}

pub fn obj_out(v: &VPX, o: &ObjExportOptions, path: &str) -> R<Scene> {
    let fs = MemoryFileSystem::new();
    let p = Path::new(path);
    export_obj(v, p, &fs, o).map_err(|e| format!("export to {path:?} failed: {e}"))?;
    let text = fs.read_file(p).map_err(|e| format!("nothing at {path:?}: {e}"))?;
    // VPinball's own layout repeats material names as they are
    let strict = !o.dedup_mtl_blocks && !o.extract_textures;
    scene::obj(&text, strict, &|n| fs.read_file(&p.parent().unwrap().join(n)).ok())
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol + 1e-5 * a.abs().max(b.abs())
}
fn near3(a: &[f64; 3], b: &[f64; 3], tol: f64) -> bool {
    (0..3).all(|i| near(a[i], b[i], tol))
}

fn counts(mut v: Vec<(String, bool)>) -> Vec<(String, bool)> {
    v.sort();
    v
}

/// The objects of the glTF scene of a table.
pub fn expected_gltf(v: &VPX, inv: bool) -> Vec<(String, bool)> {
    let mut out = vec![];
    // a primitive of that name takes the place of the implicit playfield
    let explicit = v.gameitems.iter().any(|i| matches!(i, GameItemEnum::Primitive(p) if p.name.eq_ignore_ascii_case("playfield_mesh")) && !gltf_objects(v, i, inv).is_empty());
    if !explicit {
        out.push(("playfield_mesh".to_string(), true));
    }
    for i in &v.gameitems {
        out.extend(gltf_objects(v, i, inv));
    }
    counts(out)
}

fn differ(what: &str, got: &[(String, bool)], want: &[(String, bool)]) -> R<()> {
    if got == want {
        return Ok(());
    }
    let missing: Vec<_> = want.iter().filter(|x| got.iter().filter(|y| y == x).count() < want.iter().filter(|y| y == x).count()).collect();
    let extra: Vec<_> = got.iter().filter(|x| want.iter().filter(|y| y == x).count() < got.iter().filter(|y| y == x).count()).collect();
    Err(format!("{what}: objects (name, visible) missing {missing:?}, extra {extra:?}"))
}

/// Layer path and stored data of each object.
fn placement(v: &VPX, s: &Scene, inv: bool) -> R<()> {
    let root = if v.gamedata.name.is_empty() { "Table".to_string() } else { v.gamedata.name.clone() };
    let layer = |i: &GameItemEnum| -> Option<String> {
        let (n, l) = match i {
            GameItemEnum::Primitive(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Wall(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Bumper(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Light(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Decal(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Ball(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Kicker(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Ramp(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Gate(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Flipper(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Rubber(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Flasher(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Spinner(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::HitTarget(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Trigger(x) => (x.editor_layer_name.clone(), x.editor_layer),
            GameItemEnum::Plunger(x) => (x.editor_layer_name.clone(), x.editor_layer),
            _ => return None,
        };
        match n.filter(|n| !n.is_empty()) {
            Some(n) => Some(format!("Layer_{n}")),
            None => l.map(|l| format!("Layer_{}", l + 1)),
        }
    };
    let implicit = !v.gameitems.iter().any(|i| matches!(i, GameItemEnum::Primitive(p) if p.name.eq_ignore_ascii_case("playfield_mesh")) && !gltf_objects(v, i, inv).is_empty());
    let check = |name: &str, above: &[String], extras: Option<&[Value]>, items: Vec<&GameItemEnum>| -> R<()> {
        if above.first() != Some(&root) {
            return Err(format!("{name:?} lies under {above:?}, the table is {root:?}"));
        }
        let rest = &above[1..];
        if name == "playfield_mesh" && rest.is_empty() && implicit {
            return Ok(());
        }
        let ok = items.iter().any(|i| {
            let l = layer(i);
            let n = i.name();
            let mut want = vec![];
            want.extend(l);
            let grouped: Vec<String> = want.iter().cloned().chain([n.to_string()]).collect();
            let placed = rest == want || rest == grouped;
            let data = extras.is_none_or(|e| e.iter().any(|e| e["name"] == n));
            placed && data
        });
        if !items.is_empty() && !ok {
            let want: Vec<_> = items.iter().map(|i| (i.name().to_string(), layer(i))).collect();
            return Err(format!(
                "{name:?} lies under {above:?} with the data of {:?}; its item and layer: {want:?}",
                extras.map(|e| e.iter().map(|e| e["name"].clone()).collect::<Vec<_>>())
            ));
        }
        Ok(())
    };
    for o in &s.objs {
        let items = v.gameitems.iter().filter(|i| gltf_objects(v, i, true).iter().any(|(n, _)| *n == o.name)).collect();
        check(&o.name, &o.above, Some(&o.extras), items)?;
    }
    for l in &s.lights {
        if l.name.starts_with("TableLight") {
            continue;
        }
        let items = v.gameitems.iter().filter(|i| gltf_light(i, true).as_deref() == Some(l.name.as_str())).collect();
        check(&l.name, &l.above, None, items)?;
    }
    Ok(())
}

/// Everything about one exported glTF scene that the table decides.
fn gltf_content(v: &VPX, s: &Scene, inv: bool) -> R<()> {
    differ("glTF", &s.names(), &expected_gltf(v, inv))?;
    let mut lights: Vec<String> = s.lights.iter().map(|l| l.name.clone()).collect();
    lights.sort();
    let mut want: Vec<String> = v.gameitems.iter().filter_map(|i| gltf_light(i, inv)).collect();
    want.extend(["TableLight0".to_string(), "TableLight1".to_string()]);
    want.sort();
    if lights != want {
        return Err(format!("point lights {lights:?}, expected {want:?}"));
    }
    let mut cams: Vec<_> = s.cams.iter().map(|c| c.name.as_str()).collect();
    cams.sort();
    if cams != ["DesktopCamera", "FssCamera", "FullscreenCamera"] {
        return Err(format!("cameras {cams:?}"));
    }
    placement(v, s, inv)
}

/// `b` is `a` with all lengths times `k`.
fn scaled(a: &Scene, b: &Scene, k: f64) -> R<()> {
    let t = 1e-3 * k;
    if a.objs.len() != b.objs.len() || a.lights.len() != b.lights.len() || a.cams.len() != b.cams.len() {
        return Err("the number of objects, lights or cameras depends on the unit".into());
    }
    for (x, y) in a.objs.iter().zip(&b.objs) {
        let same = x.name == y.name && x.visible == y.visible && x.idx == y.idx && x.pos.len() == y.pos.len() && x.above == y.above;
        let mat = x.mat.as_ref().map(|m| (&m.name, m.texture, m.blend)) == y.mat.as_ref().map(|m| (&m.name, m.texture, m.blend));
        if !same || !mat {
            return Err(format!("object {:?} depends on the unit", x.name));
        }
        for i in 0..x.pos.len() {
            let p = x.pos[i].map(|c| c * k);
            if !near3(&p, &y.pos[i], t) {
                return Err(format!("object {:?}: vertex {i} is {:?}, in the other unit {p:?}", x.name, y.pos[i]));
            }
            if !near3(&x.nrm[i], &y.nrm[i], 1e-5) || x.uv[i] != y.uv[i] {
                return Err(format!("object {:?}: normal or texture coordinate {i} depends on the unit", x.name));
            }
        }
    }
    for (x, y) in a.lights.iter().zip(&b.lights) {
        let r = match (x.range, y.range) {
            (Some(p), Some(q)) => near(p * k, q, t),
            (None, None) => true,
            _ => false,
        };
        if x.name != y.name || !near3(&x.pos.map(|c| c * k), &y.pos, t) || !r || x.color != y.color {
            return Err(format!("light {:?} at {:?} range {:?}; in the other unit {:?} range {:?} (factor {k})", x.name, x.pos, x.range, y.pos, y.range));
        }
    }
    for (x, y) in a.cams.iter().zip(&b.cams) {
        if x.name != y.name || !near3(&x.pos.map(|c| c * k), &y.pos, t) || x.yfov != y.yfov || x.rot != y.rot || !near(x.near * k, y.near, 1e-6 * k) || !near(x.far * k, y.far, t) {
            return Err(format!("camera {:?} at {:?} ({}..{}); in the other unit {:?} ({}..{}), factor {k}", x.name, x.pos, x.near, x.far, y.pos, y.near, y.far));
        }
    }
    Ok(())
}

/// Triangle by triangle comparison of an OBJ object with glTF objects, in VPX units.
fn same_geometry(name: &str, o: &Obj, g: &[&Obj], k: f64, nan_uv: bool) -> R<()> {
    let tris: usize = g.iter().map(|g| g.idx.len()).sum();
    if o.idx.len() != tris {
        return Err(format!("{name:?}: {} triangles in OBJ, {tris} in glTF", o.idx.len()));
    }
    let mut n = 0;
    for gl in g {
        for t in &gl.idx {
            let [c, b, a] = o.idx[n];
            // glTF keeps the first corner and swaps the others
            let (x, y) = ([a, c, b], *t);
            for j in 0..3 {
                let (p, q) = (x[j] as usize, y[j] as usize);
                let tol = 2e-3;
                let po = o.pos[p].map(|c| c / k);
                if !near3(&po, &gl.raw[q], tol) {
                    return Err(format!("{name:?}: corner {j} of triangle {n} at {po:?} in OBJ, {:?} in glTF", gl.raw[q]));
                }
                if !near3(&o.nrm[p], &gl.nrm[q], 1e-4) {
                    return Err(format!("{name:?}: normal {j} of triangle {n} is {:?} in OBJ, {:?} in glTF", o.nrm[p], gl.nrm[q]));
                }
                if nan_uv {
                    continue;
                }
                if !near(o.uv[p][0], gl.uv[q][0], 1e-5) || !near(o.uv[p][1], gl.uv[q][1], 1e-5) {
                    return Err(format!("{name:?}: texture coordinate {j} of triangle {n} is {:?} in OBJ, {:?} in glTF", o.uv[p], gl.uv[q]));
                }
            }
            n += 1;
        }
    }
    Ok(())
}

/// `all` holds every object of the table in VPX units, hidden ones included.
fn obj_content(v: &VPX, s: &Scene, all: &Scene, textures: bool, plunger: bool, k: f64) -> R<()> {
    // line text cannot carry control characters: compare names without them
    let flat = |n: &str| -> String { n.chars().map(|c| if c.is_control() { '_' } else { c }).collect::<String>().trim().to_string() };
    let mut want: Vec<(String, Vec<String>, usize)> = vec![(v.gamedata.name.clone(), vec!["playfield_mesh".into()], usize::MAX)];
    for (n, i) in v.gameitems.iter().enumerate() {
        want.extend(obj_objects(v, i, textures, plunger).into_iter().map(|(a, b)| (a, b, n)));
    }
    if s.objs.len() != want.len() {
        return Err(format!("OBJ: objects {:?}, expected {:?}", s.objs.iter().map(|o| &o.name).collect::<Vec<_>>(), want.iter().map(|w| &w.0).collect::<Vec<_>>()));
    }
    let mut used = vec![false; s.objs.len()];
    let mut taken = vec![false; all.objs.len()];
    let explicit = v.gameitems.iter().any(|i| i.name().eq_ignore_ascii_case("playfield_mesh"));
    for (name, parts, item) in &want {
        // NaN texture coordinates are replaced before or after flipping
        let nan = *item != usize::MAX && nan_texcoords(&v.gameitems[*item]);
        // every choice of glTF objects by name: items may share one
        let mut choices: Vec<Vec<usize>> = vec![vec![]];
        for p in parts {
            let have: Vec<usize> = (0..all.objs.len()).filter(|x| !taken[*x] && all.objs[*x].name == *p).collect();
            if have.is_empty() && *item != usize::MAX {
                return Err(format!("object {p:?} is in OBJ and not in glTF"));
            }
            choices = choices.into_iter().flat_map(|c| have.iter().map(move |h| [c.clone(), vec![*h]].concat())).collect();
        }
        let mut why = format!("OBJ: no object {name:?} among {:?}", s.objs.iter().map(|o| &o.name).collect::<Vec<_>>());
        let mut hit = None;
        'search: for x in 0..s.objs.len() {
            if used[x] || flat(&s.objs[x].name) != flat(name) {
                continue;
            }
            if *item == usize::MAX && explicit {
                hit = Some((x, vec![]));
                break;
            }
            for c in &choices {
                let g: Vec<&Obj> = c.iter().map(|i| &all.objs[*i]).collect();
                match same_geometry(name, &s.objs[x], &g, k, nan) {
                    Ok(()) => {
                        hit = Some((x, c.clone()));
                        break 'search;
                    }
                    Err(e) => why = e,
                }
            }
        }
        let Some((x, c)) = hit else { return Err(why) };
        used[x] = true;
        c.iter().for_each(|i| taken[*i] = true);
    }
    Ok(())
}

fn nan_texcoords(i: &GameItemEnum) -> bool {
    matches!(i, GameItemEnum::Primitive(p) if p.name.contains("nan-uv"))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    /// items that may or may not have geometry: the files are valid
    Valid,
    /// one binary glTF, one OBJ
    Light,
    /// every format, metres and VPX units
    Normal,
    /// every unit as well
    Full,
}

/// All exports of a table.
pub fn check(v: &VPX, d: Depth) -> R<u64> {
    let mut h = vec![];
    if d == Depth::Valid {
        for inv in [true, false] {
            let s = gltf_out(v, true, inv, ExportUnits::M, "out/table.glb")?.scene;
            placement(v, &s, inv)?;
            let (got, may) = (s.names(), expected_gltf(v, inv));
            if let Some(x) = got.iter().find(|x| got.iter().filter(|y| y == x).count() > may.iter().filter(|y| y == x).count()) {
                return Err(format!("object {x:?} stands for no item"));
            }
            if s.get("besideTop").is_none() {
                return Err("the item beside is missing".into());
            }
            h.push(s.objs.len() as u64);
        }
        for o in [ObjExportOptions::default(), ObjExportOptions::vpinball_strict()] {
            h.push(obj_out(v, &o, "out/table.obj")?.objs.len() as u64);
        }
        return Ok(hash_of(&h));
    }
    let mut all = None;
    for inv in [true, false] {
        let at = |e: String| format!("glb, invisible {inv}: {e}");
        let base = gltf_out(v, true, inv, ExportUnits::Vpu, "out/table.glb").map_err(at)?;
        gltf_content(v, &base.scene, inv).map_err(at)?;
        h.push(hash_of(&base.json.to_string()));
        if d != Depth::Light || inv {
            let again = gltf_out(v, true, inv, ExportUnits::Vpu, "out/table.glb").map_err(at)?;
            if again.json != base.json || again.bin != base.bin {
                return Err(at("a second export differs".into()));
            }
        }
        let units: &[_] = if d == Depth::Full { &UNITS[..] } else { &UNITS[3..] };
        for (u, k, un) in units {
            let at = |e: String| format!("{un}, invisible {inv}: {e}");
            let a = gltf_out(v, true, inv, *u, "out/table.glb").map_err(at)?;
            scaled(&base.scene, &a.scene, *k).map_err(at)?;
            if d == Depth::Light {
                continue;
            }
            let b = gltf_out(v, false, inv, *u, "out/table.gltf").map_err(at)?;
            let mut j = b.json.clone();
            j["buffers"][0].as_object_mut().unwrap().remove("uri");
            if j != a.json {
                return Err(at("the glTF file says something else than the binary one".into()));
            }
            let n = b.bin.len();
            if a.bin.len() < n || a.bin[..n] != b.bin || a.bin[n..].iter().any(|x| *x != 0) {
                return Err(at("the buffers of the glTF file and the binary one differ".into()));
            }
        }
        if inv {
            all = Some(base.scene);
        }
    }
    let all = all.unwrap();
    let mut opts: Vec<(ObjExportOptions, f64, &str)> = vec![
        (ObjExportOptions::default(), UNITS[3].1, "default"),
        (ObjExportOptions::vpinball_strict(), 1.0, "strict"),
    ];
    if d != Depth::Light {
        for (dedup, tex, plunger) in [(true, false, true), (false, true, false), (false, true, true), (true, false, false)] {
            opts.push((
                ObjExportOptions { dedup_mtl_blocks: dedup, extract_textures: tex, units: ExportUnits::Vpu, include_plunger: plunger },
                1.0,
                "mixed",
            ));
        }
    }
    if d == Depth::Full {
        for (u, k, _) in UNITS {
            opts.push((ObjExportOptions { units: u, ..Default::default() }, k, "unit"));
        }
    }
    for (o, k, what) in &opts {
        let at = |e: String| format!("OBJ {what} {:?}: {e}", (o.dedup_mtl_blocks, o.extract_textures, o.include_plunger, o.units));
        let s = obj_out(v, o, "out/table.obj").map_err(at)?;
        obj_content(v, &s, &all, o.extract_textures, o.include_plunger, *k).map_err(at)?;
        h.push(s.objs.iter().map(|o| o.idx.len() as u64).sum());
    }
    Ok(hash_of(&h))
}

type Build = Box<dyn Fn() -> VPX + Sync>;

/// Every discrete setting of a kind that decides what is shown.
pub fn settings(kind: &str, make: Make) -> Vec<(String, Box<dyn Fn(&str, f32, f32) -> GameItemEnum + Sync + Send>)> {
    let mut out: Vec<(String, Box<dyn Fn(&str, f32, f32) -> GameItemEnum + Sync + Send>)> = vec![];
    let mut add = |l: String, f: Box<dyn Fn(&mut GameItemEnum) + Sync + Send>| {
        out.push((
            l,
            Box::new(move |n, x, y| {
                let mut i = make(n, x, y);
                f(&mut i);
                i
            }),
        ))
    };
    macro_rules! on {
        ($l:expr, $k:ident, $f:expr) => {
            add($l, Box::new(move |i| {
                if let GameItemEnum::$k(x) = i {
                    ($f)(x)
                }
            }))
        };
    }
    for vis in [true, false] {
        let mut probe = make("x", 0.0, 0.0);
        if !vis && !set_visible(&mut probe, false) {
            continue;
        }
        add(format!("visible={vis}"), Box::new(move |i| { set_visible(i, vis); }));
    }
    match kind {
        "primitive" => {
            on!("vertices-only".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| {
                x.use_3d_mesh = true;
                x.num_vertices = None;
                x.num_indices = None;
                x.compressed_vertices_data = None;
                x.compressed_indices_data = None;
                x.compressed_vertices_len = None;
                x.compressed_indices_len = None;
            });
            on!("empty-mesh".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| set_mesh(x, &[], &[]));
            on!("no-triangles".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| set_mesh(x, &mesh_data(3, 0).0, &[]));
            on!("nan-normals".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| {
                let (mut v, t) = mesh_data(6, 4);
                v[1][3] = f32::NAN;
                v[2][4] = f32::NAN;
                v[3][5] = f32::NAN;
                set_mesh(x, &v, &t)
            });
            on!("nan-texcoords".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| {
                let (mut v, t) = mesh_data(6, 4);
                x.name = "nan-uv".into();
                v[1][6] = f32::NAN;
                v[2][7] = f32::NAN;
                set_mesh(x, &v, &t)
            });
            on!("zero-normals".into(), Primitive, |x: &mut vpin::vpx::gameitem::primitive::Primitive| {
                let (mut v, t) = mesh_data(6, 4);
                v[1][3..6].fill(0.0);
                set_mesh(x, &v, &t)
            });
        }
        "builtin" => {
            for s in [3u32, 4, 17] {
                for inside in [false, true] {
                    on!(format!("sides={s},inside={inside}"), Primitive, move |x: &mut vpin::vpx::gameitem::primitive::Primitive| {
                        x.sides = s;
                        x.draw_textures_inside = inside;
                    });
                }
            }
        }
        "wall" => {
            for t in [false, true] {
                for s in [false, true] {
                    on!(format!("top={t},side={s}"), Wall, move |x: &mut vpin::vpx::gameitem::wall::Wall| {
                        x.is_top_bottom_visible = t;
                        x.is_side_visible = s;
                    });
                }
            }
            for n in [0usize, 1, 2, 3, 4, 5] {
                on!(format!("points={n}"), Wall, move |x: &mut vpin::vpx::gameitem::wall::Wall| {
                    let mut p = square(300.0, 300.0, 40.0, false);
                    p.insert(2, dp(380.0, 300.0, 0.0, true));
                    x.drag_points = p[..n].to_vec();
                });
            }
        }
        "ramp" => {
            for t in 0..6u32 {
                on!(format!("type={t}"), Ramp, move |x: &mut vpin::vpx::gameitem::ramp::Ramp| x.ramp_type = t.into());
            }
            for (l, r) in [(0.0f32, 0.0f32), (30.0, 0.0), (0.0, 30.0), (30.0, 40.0)] {
                on!(format!("walls={l},{r}"), Ramp, move |x: &mut vpin::vpx::gameitem::ramp::Ramp| {
                    x.left_wall_height_visible = l;
                    x.right_wall_height_visible = r;
                });
            }
            for n in [0usize, 1, 2, 3] {
                on!(format!("points={n}"), Ramp, move |x: &mut vpin::vpx::gameitem::ramp::Ramp| x.drag_points.truncate(n));
            }
        }
        "rubber" => {
            for t in [0, 1, 8, 50] {
                on!(format!("thickness={t}"), Rubber, move |x: &mut vpin::vpx::gameitem::rubber::Rubber| x.thickness = t);
            }
            for n in [0usize, 1, 2, 3, 4] {
                on!(format!("points={n}"), Rubber, move |x: &mut vpin::vpx::gameitem::rubber::Rubber| x.drag_points.truncate(n));
            }
        }
        "flasher" => {
            for n in [0usize, 1, 2, 3, 4] {
                on!(format!("points={n}"), Flasher, move |x: &mut vpin::vpx::gameitem::flasher::Flasher| x.drag_points.truncate(n));
            }
            for a in [0, 50, 100, -10, 500] {
                on!(format!("alpha={a}"), Flasher, move |x: &mut vpin::vpx::gameitem::flasher::Flasher| x.alpha = a);
            }
        }
        "flipper" => {
            for t in [Some(0.0f32), Some(7.0), None] {
                for v in [true, false] {
                    on!(format!("rubber={t:?},visible={v}"), Flipper, move |x: &mut vpin::vpx::gameitem::flipper::Flipper| {
                        x.rubber_thickness = t;
                        if t.is_none() {
                            x.rubber_thickness_int = 5;
                        }
                        x.is_visible = v;
                    });
                }
            }
        }
        "bumper" => {
            for m in 0..16u32 {
                on!(format!("parts={m:04b}"), Bumper, move |x: &mut vpin::vpx::gameitem::bumper::Bumper| {
                    x.is_base_visible = m & 1 != 0;
                    x.is_cap_visible = m & 2 != 0;
                    x.is_ring_visible = Some(m & 4 != 0);
                    x.is_socket_visible = Some(m & 8 != 0);
                });
            }
            on!("parts=old".into(), Bumper, |x: &mut vpin::vpx::gameitem::bumper::Bumper| {
                x.is_ring_visible = None;
                x.is_socket_visible = None;
            });
        }
        "spinner" => {
            for b in [false, true] {
                for v in [false, true] {
                    on!(format!("bracket={b},visible={v}"), Spinner, move |x: &mut vpin::vpx::gameitem::spinner::Spinner| {
                        x.show_bracket = b;
                        x.is_visible = v;
                    });
                }
            }
        }
        "gate" => {
            for t in 1..5u32 {
                for b in [false, true] {
                    for v in [false, true] {
                        on!(format!("type={t},bracket={b},visible={v}"), Gate, move |x: &mut vpin::vpx::gameitem::gate::Gate| {
                            x.gate_type = Some(t.into());
                            x.show_bracket = b;
                            x.is_visible = v;
                        });
                    }
                }
            }
            on!("type=none".into(), Gate, |x: &mut vpin::vpx::gameitem::gate::Gate| x.gate_type = None);
        }
        "hittarget" => {
            for t in 1..10u32 {
                for v in [false, true] {
                    on!(format!("type={t},visible={v}"), HitTarget, move |x: &mut vpin::vpx::gameitem::hittarget::HitTarget| {
                        x.target_type = t.into();
                        x.is_visible = v;
                    });
                }
            }
        }
        "trigger" => {
            for t in 0..8u32 {
                for v in [false, true] {
                    on!(format!("shape={t},visible={v}"), Trigger, move |x: &mut vpin::vpx::gameitem::trigger::Trigger| {
                        x.shape = t.into();
                        x.is_visible = v;
                    });
                }
            }
        }
        "kicker" => {
            for t in 0..7u32 {
                on!(format!("type={t}"), Kicker, move |x: &mut vpin::vpx::gameitem::kicker::Kicker| x.kicker_type = t.into());
            }
        }
        "plunger" => {
            for t in 0..4u32 {
                for v in [false, true] {
                    on!(format!("type={t},visible={v}"), Plunger, move |x: &mut vpin::vpx::gameitem::plunger::Plunger| {
                        x.plunger_type = t.into();
                        x.is_visible = v;
                    });
                }
            }
        }
        "light" => {
            for gi in [false, true] {
                for bulb in [false, true] {
                    for mesh in [false, true] {
                        for vis in [None, Some(false), Some(true)] {
                            for back in [false, true] {
                                for pts in [0usize, 2, 4] {
                                    on!(
                                        format!("gi={gi},bulb={bulb},mesh={mesh},visible={vis:?},backglass={back},points={pts}"),
                                        Light,
                                        move |x: &mut vpin::vpx::gameitem::light::Light| {
                                            if gi {
                                                x.name = format!("GI_{}", x.name);
                                            }
                                            x.is_bulb_light = bulb;
                                            x.show_bulb_mesh = mesh;
                                            x.visible = vis;
                                            x.is_backglass = back;
                                            x.drag_points.truncate(pts);
                                        }
                                    );
                                }
                            }
                        }
                    }
                }
            }
            on!("gi,falloff=0".into(), Light, |x: &mut vpin::vpx::gameitem::light::Light| {
                x.name = "gi0".into();
                x.falloff_radius = 0.0;
                x.drag_points.clear();
            });
        }
        "decal" => {
            for (t, img, back) in [(0u32, "pic", false), (1, "pic", false), (1, "", false), (1, "pic", true), (0, "", false), (1, "missing", false)] {
                on!(format!("type={t},image={img},backglass={back}"), Decal, move |x: &mut vpin::vpx::gameitem::decal::Decal| {
                    x.decal_type = t.into();
                    x.image = img.into();
                    x.backglass = back;
                });
            }
        }
        "ball" => {
            for d in [false, true] {
                for (i, di) in [("", ""), ("pic", ""), ("", "pic"), ("missing", "missing")] {
                    on!(format!("decal={d},image={i},overlay={di}"), Ball, move |x: &mut vpin::vpx::gameitem::ball::Ball| {
                        x.decal_mode = d;
                        x.image = i.into();
                        x.image_decal = di.into();
                    });
                }
            }
        }
        _ => {}
    }
    out
}

/// What an object must look like: `Some(bytes)` the picture, colour when the item has a material.
fn looks(v: &VPX, s: &Scene, name: &str, image: Option<&str>, mat: Option<&str>, pbr: bool) -> R<()> {
    let o = s.get(name).ok_or(format!("no object {name:?}"))?;
    let img = image.and_then(|n| v.images.iter().find(|i| i.name.eq_ignore_ascii_case(n))).filter(|i| match (&i.jpeg, &i.bits) {
        (Some(j), _) => !j.data.is_empty(),
        (None, b) => b.is_some(),
    });
    let m = o.mat.as_ref();
    if let Some(i) = img {
        let t = m.and_then(|m| m.texture).ok_or(format!("{name:?} has no texture; its item shows the image {:?}", i.name))?;
        let data = &s.images[t].2;
        if let Some(j) = &i.jpeg {
            if *data != j.data {
                return Err(format!("{name:?} shows other data than the image {:?}", i.name));
            }
        } else {
            let p = image::load_from_memory(data).map_err(|e| format!("{name:?}: texture: {e}"))?;
            if (p.width(), p.height()) != (i.width, i.height) {
                return Err(format!("{name:?}: texture of {}x{}", p.width(), p.height()));
            }
            let raw = crate::lzw::decode(&i.bits.as_ref().unwrap().lzw_compressed_data).map_err(|e| format!("{e:?}"))?.data;
            let rgb = p.to_rgb8();
            for (x, px) in rgb.pixels().enumerate() {
                let b = &raw[x * 4..x * 4 + 3];
                if px.0 != [b[2], b[1], b[0]] {
                    return Err(format!("{name:?}: pixel {x} of the texture is {:?}, stored {b:?}", px.0));
                }
            }
        }
    } else if let Some(m) = m
        && m.texture.is_some()
    {
        return Err(format!("{name:?} has a texture; its item shows none"));
    }
    let Some(mn) = mat else { return Ok(()) };
    let new = v.gamedata.materials.iter().flatten().find(|m| m.name.eq_ignore_ascii_case(mn)).map(|m| (m.base_color, if m.opacity_active { m.opacity } else { 1.0 }, m.type_ == MaterialType::Metal, m.roughness));
    let old = v.gamedata.materials_old.iter().find(|m| m.name.eq_ignore_ascii_case(mn)).map(|m| (m.base_color, if m.opacity_active_edge_alpha & 1 != 0 { m.opacity } else { 1.0 }, m.is_metal, m.roughness));
    if let Some((c, a, metal, rough)) = new.or(old) {
        let m = m.ok_or(format!("{name:?} has no material; its item names {mn:?}"))?;
        let want = [c.r as f64 / 255.0, c.g as f64 / 255.0, c.b as f64 / 255.0, a as f64];
        if (0..4).any(|i| (m.color[i] - want[i]).abs() > 1e-5) {
            return Err(format!("{name:?} is coloured {:?}, the material {mn:?} {want:?}", m.color));
        }
        if pbr && ((m.metallic != 0.0) != metal || (m.roughness - (1.0 - rough as f64)).abs() > 1e-5) {
            return Err(format!("{name:?}: metallic {}, roughness {}; the material {mn:?} {metal}, {rough}", m.metallic, m.roughness));
        }
    }
    Ok(())
}

/// Transform of a primitive in double precision.
pub fn prim_place(p: &vpin::vpx::gameitem::primitive::Primitive, v: [f32; 3]) -> [f64; 3] {
    let r = p.rot_and_tra.map(|x| x as f64);
    let rot = |a: [f64; 3], axis: usize, deg: f64| -> [f64; 3] {
        let (s, c) = deg.to_radians().sin_cos();
        let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
        let mut o = a;
        o[i] = c * a[i] - s * a[j];
        o[j] = s * a[i] + c * a[j];
        o
    };
    // scale, translate, rotate z y x, object rotate z y x, position
    let mut a = [v[0] as f64 * p.size.x as f64 + r[3], v[1] as f64 * p.size.y as f64 + r[4], v[2] as f64 * p.size.z as f64 + r[5]];
    for (axis, k) in [(2, 2), (1, 1), (0, 0), (2, 8), (1, 7), (0, 6)] {
        a = rot(a, axis, r[k]);
    }
    [a[0] + p.position.x as f64, a[1] + p.position.y as f64, a[2] + p.position.z as f64]
}

pub fn run(ctx: &Ctx) {
    ctx.rule("every exported file is accepted by independent glTF/GLB/OBJ/MTL readers that check every reference, index, range, alignment and declared bound");
    ctx.rule("objects = the renderable items (visible, or all when asked), under their layer with their data; lights and cameras likewise");
    ctx.rule("positions, normals, texture coordinates and triangles agree between glTF, GLB and OBJ and scale exactly with the unit; exports repeat byte for byte");
    ctx.assume("OBJ follows VPinball's own exporter: no flashers, lights, decals, balls; flippers, gates, spinners and targets whether visible or not; hidden bumper parts and invisible kickers have no mesh at all");
    let mut cases: Vec<(String, Depth, Build)> = vec![];
    let ks = kinds();
    // no items at all, and each kind without geometry
    cases.push(("empty".into(), Depth::Full, Box::new(table)));
    for (k, m) in flat_kinds() {
        cases.push((format!("flat/{k}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            v.gameitems.push(m("item", 100.0, 100.0));
            v
        })));
    }
    // A: every setting of every kind, alone and with every file generation
    for (k, m) in &ks {
        for (l, f) in settings(k, *m) {
            let f = std::sync::Arc::new(f);
            for ver in [1081u32, 1080, 1072] {
                if ver == 1080 && !(ctx.thorough() || *k == "light" || *k == "primitive") {
                    continue;
                }
                let f = f.clone();
                let d = if *k == "light" && ver != 1081 { Depth::Light } else if ver == 1081 { Depth::Full } else { Depth::Normal };
                cases.push((format!("kind/{k}/{l}/{ver}"), d, Box::new(move || {
                    let mut v = table();
                    v.version = Version::new(ver);
                    v.gameitems.push(f("item", 300.0, 500.0));
                    v
                })));
            }
        }
    }
    // B: ordered pairs (and in the thorough tier triples) of kinds
    for (a, ma) in &ks {
        for (b, mb) in &ks {
            let (ma, mb) = (*ma, *mb);
            cases.push((format!("pair/{a}/{b}"), Depth::Normal, Box::new(move || {
                let mut v = table();
                v.gameitems.push(ma("first", 200.0, 500.0));
                v.gameitems.push(mb("second", 600.0, 900.0));
                v
            })));
            cases.push((format!("same-name/{a}/{b}"), Depth::Light, Box::new(move || {
                let mut v = table();
                let (mut x, mut y) = (ma("twin", 200.0, 500.0), mb("twin", 600.0, 900.0));
                set_layer(&mut x, Some("One".into()), Some(0));
                set_layer(&mut y, None, Some(3));
                v.gameitems = vec![x, y];
                v
            })));
            if ctx.thorough() {
                for (c, mc) in &ks {
                    let mc = *mc;
                    cases.push((format!("triple/{a}/{b}/{c}"), Depth::Light, Box::new(move || {
                        let mut v = table();
                        let mut mid = mb("second", 600.0, 900.0);
                        set_visible(&mut mid, false);
                        v.gameitems = vec![ma("first", 200.0, 500.0), mid, mc("third", 400.0, 1300.0)];
                        v
                    })));
                }
            }
        }
    }
    // C: buffer layouts: sequences of meshes by vertex and triangle count
    let tri = if ctx.thorough() { vec![1usize, 2, 3, 4] } else { vec![1, 2, 3] };
    for a in &tri {
        for b in &tri {
            for c in &tri {
                let f = [*a, *b, *c];
                cases.push((format!("layout/{a}-{b}-{c}"), Depth::Normal, Box::new(move || {
                    let mut v = table();
                    for (i, f) in f.iter().enumerate() {
                        let mut p = prim(&format!("p{i}"), 100.0 * i as f32, 50.0);
                        let (vv, t) = mesh_data(3 + i, *f);
                        set_mesh(&mut p, &vv, &t);
                        v.gameitems.push(GameItemEnum::Primitive(p));
                    }
                    v
                })));
            }
        }
    }
    for n in [255usize, 256, 65534, 65535, 65536, 65537, 70000] {
        for f in [1usize, 2] {
            cases.push((format!("large/{n}/{f}"), Depth::Light, Box::new(move || {
                let mut v = table();
                let mut p = prim("big", 400.0, 400.0);
                let (vv, mut t) = mesh_data(n, f);
                t[0] = [0, n as u32 / 2, n as u32 - 1];
                set_mesh(&mut p, &vv, &t);
                v.gameitems.push(GameItemEnum::Primitive(p));
                v.gameitems.push(GameItemEnum::Primitive(prim("next", 100.0, 100.0)));
                v
            })));
        }
    }
    // F: layers
    for (k, m) in &ks {
        for (l, name, num) in [
            ("none", None, None),
            ("name", Some("Plastics"), None),
            ("number", None, Some(0u32)),
            ("both", Some("Plastics"), Some(4)),
            ("empty-name", Some(""), Some(2)),
            ("only-empty", Some(""), None),
            ("max", None, Some(u32::MAX - 1)),
        ] {
            let m = *m;
            cases.push((format!("layer/{k}/{l}"), Depth::Light, Box::new(move || {
                let mut v = table();
                let mut i = m("item", 300.0, 500.0);
                set_layer(&mut i, name.map(String::from), num);
                let mut o = m("other", 600.0, 500.0);
                set_layer(&mut o, Some("Plastics".into()), Some(1));
                let mut g = m("GI_3", 600.0, 900.0);
                set_layer(&mut g, name.map(String::from), num);
                v.gameitems = vec![i, o, g];
                v
            })));
        }
    }
    // E: names
    let names = ["", " ", "a b", "a\"b", "a\\b", "a/b", "ü", "日本", "a\nb", "a\tb", "#x", "playfield_mesh", "Playfield_Mesh", "Table1", "gi", "Gi1_light", "TableLight0", "x\u{1}y", "none", "\r", "o x\nv 1 2 3"];
    for n in names {
        for (k, m) in &ks {
            let m = *m;
            cases.push((format!("name/{k}/{n:?}"), Depth::Light, Box::new(move || {
                let mut v = table();
                let mut i = m("item", 300.0, 500.0);
                rename(&mut i, n);
                v.gameitems = vec![i, m("other", 500.0, 700.0)];
                v
            })));
        }
        cases.push((format!("name/table/{n:?}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            v.gamedata.name = n.into();
            v.gameitems.push(ks_wall("item"));
            v
        })));
        cases.push((format!("name/material/{n:?}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            v.gamedata.materials = Some(vec![material(n), material("Plastic")]);
            v.gamedata.materials_old = vec![legacy(n), legacy("Plastic")];
            for (x, (_, m)) in kinds().into_iter().enumerate() {
                let mut i = m(&format!("i{x}"), 300.0, 500.0);
                set_material(&mut i, n);
                v.gameitems.push(i);
            }
            v
        })));
        cases.push((format!("name/image/{n:?}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            v.images = vec![image(n, "x.png", png(2, 2)), image("pic", "y.png", png(1, 2))];
            for (x, (_, m)) in kinds().into_iter().enumerate() {
                let mut i = m(&format!("i{x}"), 300.0, 500.0);
                set_image(&mut i, n);
                set_material(&mut i, "Plastic");
                v.gameitems.push(i);
            }
            v
        })));
        cases.push((format!("name/layer/{n:?}"), Depth::Light, Box::new(move || {
            let mut v = table();
            let mut i = ks_wall("item");
            set_layer(&mut i, Some(n.into()), None);
            v.gameitems.push(i);
            v
        })));
    }
    // names that fall together when cleaned
    for (a, b) in [("a b", "ab"), ("a/b", "a\\b"), ("A", "a "), ("x__y", "x"), ("a:b", "a_b"), ("ü", "Ü")] {
        cases.push((format!("clash/materials/{a:?}/{b:?}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            let mut mb = material(b);
            mb.base_color = color(200, 1, 2);
            v.gamedata.materials_old = vec![legacy(a), SaveMaterial::from(&mb)];
            v.gamedata.materials = Some(vec![material(a), mb]);
            for (x, n) in [a, b, a, b].iter().enumerate() {
                let mut p = prim(&format!("p{x}"), 100.0, 100.0);
                p.material = n.to_string();
                if x > 1 {
                    p.image = "pic".into();
                }
                v.gameitems.push(GameItemEnum::Primitive(p));
            }
            v
        })));
        cases.push((format!("clash/images/{a:?}/{b:?}"), Depth::Normal, Box::new(move || {
            let mut v = table();
            v.images = vec![image(a, "1.png", png(2, 2)), image(b, "2.png", png(3, 1))];
            for (x, n) in [a, b, a].iter().enumerate() {
                let mut p = prim(&format!("p{x}"), 100.0, 100.0);
                p.material = "Plastic".into();
                p.image = n.to_string();
                v.gameitems.push(GameItemEnum::Primitive(p));
            }
            v
        })));
    }
    // G: surfaces
    for (k, m) in &ks {
        for (s, target) in [("none", ""), ("wall", "support"), ("case", "SUPPORT"), ("ramp", "lane"), ("missing", "nothing")] {
            let m = *m;
            let mut probe = m("x", 0.0, 0.0);
            if !set_surface(&mut probe, "x") {
                continue;
            }
            cases.push((format!("surface/{k}/{s}"), Depth::Normal, Box::new(move || {
                let mut v = table();
                let mut i = m("item", 310.0, 450.0);
                set_surface(&mut i, target);
                let mut w = wall("support", 300.0, 500.0);
                w.height_top = 61.0;
                let r = ramp("lane", 300.0, 500.0, 0u32.into());
                v.gameitems = vec![GameItemEnum::Wall(w), GameItemEnum::Ramp(r), i];
                v
            })));
        }
    }
    // all kinds in one table, in every unit
    for vis in [true, false] {
        cases.push((format!("everything/visible={vis}"), Depth::Full, Box::new(move || {
            let mut v = table();
            v.gamedata.image = "pic".into();
            v.gamedata.playfield_material = "Plastic".into();
            for (x, (k, m)) in kinds().into_iter().chain(flat_kinds()).enumerate() {
                let mut i = m(&format!("{k}{x}"), 100.0 + 40.0 * x as f32, 200.0 + 90.0 * x as f32);
                set_visible(&mut i, vis || x % 2 == 0);
                set_layer(&mut i, (x % 3 == 0).then(|| format!("L{}", x % 4)), Some(x as u32 % 5));
                v.gameitems.push(i);
            }
            v
        })));
    }
    // outlines that cross or touch themselves, or enclose nothing
    let outlines: [(&str, &[(f32, f32)]); 8] = [
        ("line", &[(0.0, 0.0), (50.0, 0.0), (100.0, 0.0)]),
        ("back", &[(0.0, 0.0), (100.0, 0.0), (50.0, 0.0), (20.0, 0.0)]),
        ("bow", &[(0.0, 0.0), (100.0, 100.0), (100.0, 0.0), (0.0, 100.0)]),
        ("repeat", &[(0.0, 0.0), (100.0, 0.0), (100.0, 0.0), (100.0, 100.0)]),
        ("point", &[(10.0, 10.0), (10.0, 10.0), (10.0, 10.0), (10.0, 10.0)]),
        ("closed", &[(0.0, 0.0), (100.0, 0.0), (100.0, 100.0), (0.0, 0.0)]),
        ("spike", &[(0.0, 0.0), (100.0, 0.0), (50.0, 0.0), (50.0, 80.0)]),
        ("star", &[(50.0, 0.0), (80.0, 90.0), (0.0, 35.0), (100.0, 35.0), (20.0, 90.0)]),
    ];
    for (l, pts) in outlines {
        for rev in [false, true] {
            for smooth in [false, true] {
                for (k, _) in &ks {
                    let k = *k;
                    if !matches!(k, "wall" | "rubber" | "flasher" | "light" | "ramp") {
                        continue;
                    }
                    // crossing outlines and single points need not give a mesh
                    let d = if matches!(l, "bow" | "star" | "point") { Depth::Valid } else { Depth::Normal };
                    cases.push((format!("outline/{k}/{l}/{rev}/{smooth}"), d, Box::new(move || {
                        let mut v = table();
                        let mut i = kinds().into_iter().find(|x| x.0 == k).unwrap().1("item", 300.0, 300.0);
                        let mut p: Vec<_> = pts.iter().map(|(x, y)| dp(200.0 + x, 300.0 + y, 0.0, smooth)).collect();
                        if rev {
                            p.reverse();
                        }
                        match &mut i {
                            GameItemEnum::Wall(x) => x.drag_points = p,
                            GameItemEnum::Rubber(x) => x.drag_points = p,
                            GameItemEnum::Flasher(x) => x.drag_points = p,
                            GameItemEnum::Light(x) => x.drag_points = p,
                            GameItemEnum::Ramp(x) => x.drag_points = p,
                            _ => {}
                        }
                        v.gameitems.push(i);
                        v.gameitems.push(ks_wall("beside"));
                        v
                    })));
                }
            }
        }
    }
    // materials with values beyond their range, shared with the playfield
    for (i, x) in [-1.0f32, 0.0, 0.5, 1.0, 2.0].into_iter().enumerate() {
        for f in 0..6 {
            for shared in [false, true] {
                cases.push((format!("material/{i}/{f}/{shared}"), Depth::Normal, Box::new(move || {
                    let mut v = table();
                    let mut m = material("Odd");
                    m.opacity_active = true;
                    match f {
                        0 => m.roughness = x,
                        1 => m.opacity = x,
                        2 => m.wrap_lighting = x,
                        3 => m.edge = x,
                        4 => m.thickness = x,
                        _ => m.glossy_image_lerp = x,
                    }
                    v.gamedata.materials_old = vec![SaveMaterial::from(&m)];
                    v.gamedata.materials = Some(vec![m]);
                    v.gamedata.image = "pic".into();
                    if shared {
                        v.gamedata.playfield_material = "Odd".into();
                    }
                    for (x, (_, m)) in kinds().into_iter().enumerate() {
                        let mut i = m(&format!("i{x}"), 300.0, 500.0);
                        set_material(&mut i, "Odd");
                        set_image(&mut i, if x % 2 == 0 { "pic" } else { "" });
                        v.gameitems.push(i);
                    }
                    v
                })));
            }
        }
    }
    // I: table settings
    for (i, (view, range, height, name)) in [
        (0u32, 0.0f32, 0.0f32, ""),
        (1, 1.0, 500.0, "T"),
        (2, 4_000_000.0, -5.0, "My Table"),
        (0, 200_000.0, 5000.0, "x"),
        (1, -3.0, 1000.0, "y"),
    ]
    .into_iter()
    .enumerate()
    {
        cases.push((format!("table/{i}"), Depth::Full, Box::new(move || {
            let mut v = table();
            let g = &mut v.gamedata;
            use vpin::vpx::gamedata::ViewLayoutMode as M;
            let m = || match view { 0 => M::Legacy, 1 => M::Camera, _ => M::Window };
            g.bg_view_mode_desktop = Some(m());
            g.bg_view_mode_fullscreen = Some(m());
            g.bg_view_mode_full_single_screen = Some(m());
            g.light_range = range;
            g.light_height = height;
            g.name = name.into();
            v.gameitems.push(ks_wall("item"));
            v
        })));
    }
    for r in 0..ks.len() {
        let m = ks[r].1;
        for img in ["none", "linked", "empty-data"] {
            cases.push((format!("dead-image/{}/{img}", ks[r].0), Depth::Light, Box::new(move || {
                let mut v = table();
                let mut i = image("dead", "dead.png", vec![]);
                if img != "empty-data" {
                    i.jpeg = None;
                }
                if img == "linked" {
                    i.link = Some(1);
                }
                v.images.push(i);
                v.gamedata.image = "dead".into();
                let mut x = m("item", 300.0, 300.0);
                set_image(&mut x, "dead");
                set_material(&mut x, "Plastic");
                v.gameitems.push(x);
                v
            })));
        }
    }
    ctx.note("tables", cases.len().to_string());
    crate::fw::on_threads(&cases, |(l, d, f)| {
        ctx.case(l, || check(&f(), *d));
    });

    // D: what objects look like
    let images: [(&str, fn() -> Option<ImageData>); 11] = [
        ("png", || Some(image("Deco", "c:\\a\\deco.png", png(3, 2)))),
        ("jpeg", || Some(image("Deco", "deco.jpg", enc_img(3, 2, image::ImageFormat::Jpeg)))),
        ("webp", || Some(image("Deco", "deco.webp", enc_img(3, 2, image::ImageFormat::WebP)))),
        ("png-as-tga", || Some(image("Deco", "deco.tga", png(3, 2)))),
        ("png-as-jpg", || Some(image("Deco", "deco.jpg", png(3, 2)))),
        ("jpeg-as-png", || Some(image("Deco", "deco.png", enc_img(3, 2, image::ImageFormat::Jpeg)))),
        ("png-no-ext", || Some(image("Deco", "deco", png(3, 2)))),
        ("bits", || Some(bits_image("Deco", "deco.bmp", 3, 2))),
        ("bits-1x1", || Some(bits_image("Deco", "deco.bmp", 1, 1))),
        ("odd-size", || Some(image("Deco", "deco.png", png(5, 1)))),
        ("missing", || None),
    ];
    let mats: [(&str, fn(&mut VPX)); 9] = [
        ("new", |v| {
            v.gamedata.materials = Some(vec![material("Deco Mat")]);
            v.gamedata.materials_old = vec![legacy("Deco Mat")];
        }),
        ("legacy", |v| {
            v.gamedata.materials = None;
            v.gamedata.materials_old = vec![legacy("Deco Mat")];
        }),
        ("legacy-beside-empty", |v| {
            v.gamedata.materials = Some(vec![]);
            v.gamedata.materials_old = vec![legacy("Deco Mat")];
        }),
        ("other-case", |v| {
            v.gamedata.materials = Some(vec![material("DECO mat")]);
            v.gamedata.materials_old = vec![];
        }),
        ("missing", |v| {
            v.gamedata.materials = Some(vec![]);
            v.gamedata.materials_old = vec![];
        }),
        ("opaque-metal", |v| {
            let mut m = material("Deco Mat");
            m.type_ = MaterialType::Metal;
            v.gamedata.materials = Some(vec![m]);
        }),
        ("transparent", |v| {
            let mut m = material("Deco Mat");
            m.opacity_active = true;
            m.opacity = 0.5;
            v.gamedata.materials = Some(vec![m]);
        }),
        ("white", |v| {
            let mut m = material("Deco Mat");
            m.base_color = color(255, 255, 255);
            v.gamedata.materials = Some(vec![m]);
        }),
        ("white-metal", |v| {
            let mut m = material("Deco Mat");
            m.base_color = color(255, 255, 255);
            m.type_ = MaterialType::Metal;
            v.gamedata.materials = Some(vec![m]);
        }),
    ];
    let mut look: Vec<(String, Make, Option<&'static str>, &'static str, fn() -> Option<ImageData>, Option<&'static str>, fn(&mut VPX), Option<f32>)> = vec![];
    for (k, m) in &ks {
        let mut p = m("x", 0.0, 0.0);
        let can_img = set_image(&mut p, "x");
        let can_mat = set_material(&mut p, "x");
        let mut irefs = vec![(None, "none", images[10].1)];
        if can_img {
            for (n, f) in images {
                irefs.push((Some("Deco"), n, f));
            }
            irefs.push((Some("dECO"), "png", images[0].1));
        }
        let mut mrefs: Vec<(Option<&str>, &str, fn(&mut VPX))> = vec![(None, "none", mats[4].1)];
        if can_mat {
            for (n, f) in mats {
                mrefs.push((Some("Deco Mat"), n, f));
            }
        }
        for (i, il, fi) in &irefs {
            for (m2, ml, fm) in &mrefs {
                let lights: &[Option<f32>] = if matches!(*k, "primitive" | "wall" | "hittarget") {
                    &[None, Some(0.0), Some(0.5), Some(1.0), Some(2.0), Some(-1.0)]
                } else {
                    &[None]
                };
                for d in lights {
                    look.push((format!("look/{k}/{il}{}/{ml}/{d:?}", if *i == Some("dECO") { "-case" } else { "" }), *m, *i, il, *fi, *m2, *fm, *d));
                }
            }
        }
    }
    ctx.note("looks", look.len().to_string());
    crate::fw::on_threads(&look, |(l, m, i, _, fi, mn, fm, below)| {
        ctx.case(l, || {
            let mut v = table();
            v.images = fi().into_iter().chain([image("pic", "pic.png", png(2, 1))]).collect();
            fm(&mut v);
            let mut x = m("item", 300.0, 300.0);
            if let Some(i) = i {
                set_image(&mut x, i);
            } else {
                set_image(&mut x, "");
            }
            set_material(&mut x, mn.unwrap_or(""));
            match &mut x {
                GameItemEnum::Primitive(p) => p.disable_lighting_below = *below,
                GameItemEnum::Wall(p) => p.disable_lighting_below = *below,
                GameItemEnum::HitTarget(p) => p.disable_lighting_below = *below,
                _ => {}
            }
            let kind = l.split('/').nth(1).unwrap();
            v.gameitems.push(x);
            let h = check(&v, Depth::Light)?;
            let out = gltf_out(&v, true, true, ExportUnits::M, "t.glb")?;
            for (n, _) in gltf_objects(&v, &v.gameitems[0], true) {
                // parts with a colour or picture of their own
                let pic = match kind {
                    "light" if n.ends_with("_bulb") || n.ends_with("_socket") => continue,
                    "gate" | "bumper" | "kicker" | "trigger" | "rubber" => None,
                    "flipper" if n.ends_with("Rubber") => None,
                    "spinner" if n.ends_with("Bracket") => None,
                    "plunger" if n.ends_with("Flat") => None,
                    _ => *i,
                };
                let col = match kind {
                    "flasher" | "light" | "ball" | "kicker" => None,
                    "bumper" if n.ends_with("Ring") => None,
                    "spinner" if n.ends_with("Bracket") => None,
                    _ => *mn,
                };
                looks(&v, &out.scene, &n, pic, col, true).map_err(|e| format!("glTF: {e}"))?;
            }
            // the same in OBJ
            let s = obj_out(&v, &ObjExportOptions::default(), "t.obj")?;
            for o in &s.objs[1..] {
                if matches!(kind, "primitive" | "builtin" | "hittarget" | "ramp" | "wall") {
                    looks(&v, &s, &o.name, *i, *mn, false).map_err(|e| format!("OBJ: {e}"))?;
                }
            }
            Ok(h)
        });
    });

    // two items side by side, each with a look of its own: they share images, materials, both or neither
    fn side_by_side() -> Vec<Material> {
        let mut ms = vec![];
        for (n, c, metal, rough, opacity) in [
            ("red", [200u8, 10, 10], false, 0.2f32, None),
            ("white", [255, 255, 255], false, 0.9, None),
            ("glass", [255, 255, 255], false, 0.4, Some(0.5f32)),
            ("chrome", [255, 255, 255], true, 0.7, None),
            ("tinted", [255, 255, 255], true, 0.7, Some(0.25)),
            ("pale", [254, 253, 255], false, 0.9, Some(0.75)),
        ] {
            let mut m = material(n);
            m.base_color = color(c[0], c[1], c[2]);
            m.type_ = if metal { MaterialType::Metal } else { MaterialType::Basic };
            m.roughness = rough;
            (m.opacity_active, m.opacity) = (opacity.is_some(), opacity.unwrap_or(0.3));
            ms.push(m);
        }
        ms
    }
    type Look = (Option<&'static str>, Option<&'static str>, Option<f32>);
    let mut single: Vec<Look> = vec![];
    for i in [None, Some("Deco"), Some("pic")] {
        for m in [None, Some("red"), Some("white"), Some("glass"), Some("chrome"), Some("tinted"), Some("pale")] {
            for d in [None, Some(0.5f32)] {
                single.push((i, m, d));
            }
        }
    }
    let mut pairs: Vec<(&'static str, &'static str, Look, Look, bool)> = vec![];
    for (ka, kb) in [("primitive", "primitive"), ("primitive", "wall"), ("wall", "primitive"), ("ramp", "hittarget"), ("wall", "ramp")] {
        for a in &single {
            for b in &single {
                let same = a.0.is_some() && a.0 == b.0 || a.1.is_some() && a.1 == b.1;
                if ctx.thorough() || ka == kb || same && a.2 == b.2 {
                    pairs.push((ka, kb, *a, *b, false));
                    if ctx.thorough() || ka == kb && same && a.2 == b.2 {
                        pairs.push((ka, kb, *a, *b, true));
                    }
                }
            }
        }
    }
    ctx.note("looks_side_by_side", pairs.len().to_string());
    crate::fw::on_threads(&pairs, |(ka, kb, a, b, legacy)| {
        ctx.case(&format!("beside/{ka}={a:?}/{kb}={b:?}/legacy={legacy}").replace(' ', ""), || {
            let mut v = table();
            v.images = vec![image("Deco", "deco.png", png(3, 2)), image("pic", "pic.png", png(2, 1))];
            let ms = side_by_side();
            v.gamedata.materials_old = ms.iter().map(SaveMaterial::from).collect();
            v.gamedata.materials = if *legacy { None } else { Some(ms) };
            for (k, l, n) in [(ka, a, "first"), (kb, b, "second")] {
                let m = ks.iter().find(|x| x.0 == *k).unwrap().1;
                let mut x = m(n, 300.0, 300.0);
                set_image(&mut x, l.0.unwrap_or(""));
                set_material(&mut x, l.1.unwrap_or(""));
                match &mut x {
                    GameItemEnum::Primitive(p) => p.disable_lighting_below = l.2,
                    GameItemEnum::Wall(p) => p.disable_lighting_below = l.2,
                    GameItemEnum::HitTarget(p) => p.disable_lighting_below = l.2,
                    _ => {}
                }
                v.gameitems.push(x);
            }
            let h = check(&v, Depth::Light)?;
            let out = gltf_out(&v, true, true, ExportUnits::M, "t.glb")?;
            let obj = obj_out(&v, &ObjExportOptions::default(), "t.obj")?;
            for (g, l) in v.gameitems.iter().zip([a, b]) {
                for (n, _) in gltf_objects(&v, g, true) {
                    looks(&v, &out.scene, &n, l.0, l.1, true).map_err(|e| format!("glTF: {e}"))?;
                }
                let mut seen = 0;
                for o in obj.objs.iter().filter(|o| o.name.starts_with(g.name())) {
                    looks(&v, &obj, &o.name, l.0, l.1, false).map_err(|e| format!("OBJ: {e}"))?;
                    seen += 1;
                }
                if seen == 0 {
                    return Err(format!("no object of {:?} in OBJ", g.name()));
                }
            }
            Ok(h)
        });
    });

    // E: output paths
    let mut paths = vec![];
    for stem in ["t", "a b", "50%", "a#b", "a?b", "ü", "日本", "a+b", "%41", "a.b", "[x]", "a\"b", "x;y", ".hidden"] {
        for dir in ["", "out/", "my dir/", "100%/", "/abs/x/"] {
            paths.push((stem, dir));
        }
    }
    crate::fw::on_threads(&paths, |(stem, dir)| {
        ctx.case(&format!("path/{dir}{stem}"), || {
            let mut v = table();
            v.gameitems.push(ks_wall("item"));
            if let GameItemEnum::Wall(w) = &mut v.gameitems[0] {
                w.image = "pic".into();
            }
            let a = gltf_out(&v, true, false, ExportUnits::M, &format!("{dir}{stem}.glb"))?;
            let b = gltf_out(&v, false, false, ExportUnits::M, &format!("{dir}{stem}.gltf"))?;
            if !a.bin.starts_with(&b.bin) {
                return Err("the buffers differ".into());
            }
            let s = obj_out(&v, &ObjExportOptions::default(), &format!("{dir}{stem}.obj"))?;
            Ok(s.objs.len() as u64)
        });
    });

    // H: primitive transforms against an own matrix
    let mut tr = vec![];
    let angles = [0.0f32, 30.0, 90.0, -45.0, 200.0];
    for i in 0..9usize {
        for a in angles {
            for j in 0..9usize {
                for s in [1.0f32, -1.0] {
                    if j < i {
                        continue;
                    }
                    tr.push((i, a, j, s));
                }
            }
        }
    }
    crate::fw::on_threads(&tr, |(i, a, j, s)| {
        ctx.case(&format!("transform/{i}={a},{j}=17,{s}"), || {
            let mut v = table();
            let mut p = prim("p", 400.0, 700.0);
            p.rot_and_tra[*j] = 17.0;
            p.rot_and_tra[*i] = *a;
            p.size = Vertex3D::new(20.0, 30.0 * s, 10.0);
            let (vv, t) = mesh_data(7, 4);
            set_mesh(&mut p, &vv, &t);
            let want: Vec<[f64; 3]> = vv.iter().map(|x| prim_place(&p, [x[0], x[1], x[2]])).collect();
            v.gameitems.push(GameItemEnum::Primitive(p));
            let h = check(&v, Depth::Light)?;
            let g = gltf_out(&v, true, false, ExportUnits::Vpu, "t.glb")?;
            let o = g.scene.get("p").ok_or("no object")?;
            let ob = obj_out(&v, &ObjExportOptions::vpinball_strict(), "t.obj")?;
            let q = ob.get("p").ok_or("no OBJ object")?;
            for k in 0..7 {
                if !near3(&want[k], &o.pos[k], 5e-3) || !near3(&want[k], &q.pos[k], 5e-3) {
                    return Err(format!("vertex {k} at {:?} (glTF) and {:?} (OBJ), the transform gives {:?}", o.pos[k], q.pos[k], want[k]));
                }
            }
            Ok(h)
        });
    });
    let _ = first_line;
}

fn ks_wall(n: &str) -> GameItemEnum {
    GameItemEnum::Wall(wall(n, 300.0, 400.0))
}
