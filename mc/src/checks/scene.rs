//! Independent readers and validators for the exported scenes (glTF, GLB, OBJ + MTL).
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug, Default)]
pub struct Mat {
    pub name: String,
    pub color: [f64; 4],
    /// index into `Scene::images`
    pub texture: Option<usize>,
    pub blend: bool,
    pub metallic: f64,
    pub roughness: f64,
    pub transmission: Option<f64>,
}

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub name: String,
    pub visible: bool,
    /// World positions in VPX axes (x right, y to the player, z up), in the unit of the file.
    pub pos: Vec<[f64; 3]>,
    /// World positions as they would be without a node scale.
    pub raw: Vec<[f64; 3]>,
    pub nrm: Vec<[f64; 3]>,
    pub uv: Vec<[f64; 2]>,
    pub idx: Vec<[u32; 3]>,
    pub mat: Option<Mat>,
    /// Names of the nodes above, outermost first.
    pub above: Vec<String>,
    /// Names in the extras of the node itself or the group above it.
    pub extras: Vec<Value>,
    pub smooth: bool,
}

#[derive(Clone, Debug, Default)]
pub struct LightNode {
    pub name: String,
    pub pos: [f64; 3],
    pub range: Option<f64>,
    pub intensity: f64,
    pub color: [f64; 3],
    pub above: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct CamNode {
    pub name: String,
    pub pos: [f64; 3],
    pub rot: [f64; 4],
    pub near: f64,
    pub far: f64,
    pub yfov: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub objs: Vec<Obj>,
    pub lights: Vec<LightNode>,
    pub cams: Vec<CamNode>,
    pub images: Vec<(String, String, Vec<u8>)>,
    pub root: Value,
    pub extensions: BTreeSet<String>,
}

impl Scene {
    pub fn names(&self) -> Vec<(String, bool)> {
        let mut v: Vec<_> = self.objs.iter().map(|o| (o.name.clone(), o.visible)).collect();
        v.sort();
        v
    }
    pub fn get(&self, name: &str) -> Option<&Obj> {
        self.objs.iter().find(|o| o.name == name)
    }
}

/// Splits a GLB file into its JSON and its binary data.
pub fn glb(b: &[u8]) -> R<(Value, Vec<u8>)> {
    let u = |p: usize| -> R<usize> {
        b.get(p..p + 4).map(|s| u32::from_le_bytes(s.try_into().unwrap()) as usize).ok_or(format!("the file ends at {p}"))
    };
    if b.get(..4) != Some(b"glTF") || u(4)? != 2 {
        return Err("no GLB header of version 2".into());
    }
    if u(8)? != b.len() {
        return Err(format!("the header says {} bytes, the file has {}", u(8)?, b.len()));
    }
    let mut p = 12;
    let mut chunks = vec![];
    while p < b.len() {
        let n = u(p)?;
        if n % 4 != 0 {
            return Err(format!("chunk of {n} bytes"));
        }
        let kind = b.get(p + 4..p + 8).ok_or("chunk header cut")?;
        let body = b.get(p + 8..p + 8 + n).ok_or(format!("chunk of {n} bytes at {p} ends after the file"))?;
        chunks.push((kind.to_vec(), body.to_vec()));
        p += 8 + n;
    }
    if chunks.len() != 2 || chunks[0].0 != b"JSON" || chunks[1].0 != b"BIN\0" {
        return Err(format!("chunks {:?}", chunks.iter().map(|c| String::from_utf8_lossy(&c.0).into_owned()).collect::<Vec<_>>()));
    }
    let text = std::str::from_utf8(&chunks[0].1).map_err(|e| format!("JSON chunk: {e}"))?;
    let j = serde_json::from_str(text).map_err(|e| format!("JSON chunk: {e}"))?;
    Ok((j, chunks[1].1.clone()))
}

/// The file a relative URI names.
pub fn unuri(s: &str) -> R<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or(format!("bad escape in the URI {s:?}"))?;
                out.push(h);
                i += 3;
                continue;
            }
            c if c.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/".contains(&c) || c >= 0x80 => out.push(c),
            c => return Err(format!("character {:?} in the URI {s:?}", c as char)),
        }
        i += 1;
    }
    String::from_utf8(out).map_err(|_| format!("the URI {s:?} is not UTF-8"))
}

fn arr<'a>(j: &'a Value, k: &str) -> &'a [Value] {
    j.get(k).and_then(|v| v.as_array()).map(|v| v.as_slice()).unwrap_or(&[])
}
fn ix(v: &Value, n: usize, what: &str) -> R<usize> {
    let i = v.as_u64().ok_or(format!("{what}: {v} is no index"))? as usize;
    if i >= n {
        return Err(format!("{what}: index {i} of {n}"));
    }
    Ok(i)
}
fn num(v: &Value, what: &str) -> R<f64> {
    v.as_f64().filter(|f| f.is_finite()).ok_or(format!("{what}: {v} is no number"))
}
fn nums<const N: usize>(v: &Value, what: &str) -> R<[f64; N]> {
    let a = v.as_array().filter(|a| a.len() == N).ok_or(format!("{what}: {v} is no list of {N}"))?;
    let mut o = [0.0; N];
    for i in 0..N {
        o[i] = num(&a[i], what)?;
    }
    Ok(o)
}
fn range01(f: f64, what: &str) -> R<f64> {
    if (0.0..=1.0).contains(&f) { Ok(f) } else { Err(format!("{what} is {f}")) }
}

/// Signature of the picture formats.
pub fn mime(b: &[u8]) -> Option<&'static str> {
    if b.starts_with(b"\x89PNG\r\n\x1a\n") {
        Some("image/png")
    } else if b.starts_with(&[0xff, 0xd8, 0xff]) {
        Some("image/jpeg")
    } else if b.len() > 12 && &b[..4] == b"RIFF" && &b[8..12] == b"WEBP" {
        Some("image/webp")
    } else {
        None
    }
}

struct Acc {
    comp: u64,
    kind: String,
    count: usize,
    data: Vec<u8>,
    j: Value,
    target: Option<u64>,
}

/// Validates a glTF document against its binary data and flattens the scene.
pub fn gltf(j: &Value, bin: &[u8], is_glb: bool) -> R<Scene> {
    let mut sc = Scene::default();
    if j["asset"]["version"] != "2.0" {
        return Err(format!("asset {}", j["asset"]));
    }
    for k in ["accessors", "bufferViews", "buffers", "nodes", "meshes", "cameras", "materials", "textures", "images", "samplers", "scenes"] {
        if let Some(v) = j.get(k) {
            match v.as_array() {
                Some(a) if !a.is_empty() => {}
                _ => return Err(format!("{k} is empty")),
            }
        }
    }
    // buffers
    let bufs = arr(j, "buffers");
    if bufs.len() != 1 {
        return Err(format!("{} buffers", bufs.len()));
    }
    let blen = bufs[0]["byteLength"].as_u64().unwrap_or(0) as usize;
    if blen == 0 || blen > bin.len() || (is_glb && bin.len() - blen > 3) || (!is_glb && bin.len() != blen) {
        return Err(format!("the buffer has {} bytes, declared {blen}", bin.len()));
    }
    if is_glb != bufs[0].get("uri").is_none() {
        return Err(format!("buffer {}", bufs[0]));
    }
    let views = arr(j, "bufferViews");
    let mut vr = vec![];
    for (i, v) in views.iter().enumerate() {
        ix(&v["buffer"], 1, "bufferView.buffer")?;
        let o = v.get("byteOffset").map(|x| x.as_u64().ok_or(format!("byteOffset {x}"))).transpose()?.unwrap_or(0) as usize;
        let n = v["byteLength"].as_u64().unwrap_or(0) as usize;
        if n == 0 {
            return Err(format!("bufferView {i} is empty"));
        }
        if o + n > blen {
            return Err(format!("bufferView {i}: {o}+{n} of {blen}"));
        }
        let t = v.get("target").map(|x| x.as_u64().unwrap_or(0));
        if !matches!(t, None | Some(34962) | Some(34963)) {
            return Err(format!("bufferView {i}: target {t:?}"));
        }
        vr.push((o, n, t, v.get("byteStride").is_some()));
    }
    // overlapping views (nothing here shares data)
    let mut s: Vec<_> = vr.iter().map(|v| (v.0, v.1)).collect();
    s.sort();
    for w in s.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("bufferViews overlap: {:?} {:?}", w[0], w[1]));
        }
    }
    let mut accs = vec![];
    let mut view_used = vec![0; views.len()];
    for (i, a) in arr(j, "accessors").iter().enumerate() {
        let v = ix(&a["bufferView"], views.len(), "accessor.bufferView")?;
        view_used[v] += 1;
        let comp = a["componentType"].as_u64().unwrap_or(0);
        let size = match comp {
            5121 => 1,
            5123 => 2,
            5125 | 5126 => 4,
            _ => return Err(format!("accessor {i}: componentType {comp}")),
        };
        let kind = a["type"].as_str().unwrap_or("").to_string();
        let n = match kind.as_str() {
            "SCALAR" => 1,
            "VEC2" => 2,
            "VEC3" => 3,
            "VEC4" => 4,
            _ => return Err(format!("accessor {i}: type {kind:?}")),
        };
        let count = a["count"].as_u64().unwrap_or(0) as usize;
        if count == 0 {
            return Err(format!("accessor {i} has no elements"));
        }
        let off = a.get("byteOffset").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        let (o, len, target, stride) = vr[v];
        if stride {
            return Err("byteStride not expected".into());
        }
        if off % size != 0 || (o + off) % size != 0 {
            return Err(format!("accessor {i}: data at {} is not aligned to {size}", o + off));
        }
        if target == Some(34962) && (o + off) % 4 != 0 {
            return Err(format!("accessor {i}: vertex data at {} is not aligned to 4", o + off));
        }
        if off + count * n * size > len {
            return Err(format!("accessor {i}: {count} elements of {} bytes at {off} in a view of {len}", n * size));
        }
        if off != 0 || count * n * size != len {
            return Err(format!("accessor {i}: {count} elements of {} bytes in a view of {len}", n * size));
        }
        let data = bin[o + off..o + off + count * n * size].to_vec();
        let acc = Acc { comp, kind, count, data, j: a.clone(), target };
        // declared bounds must be the bounds of the data
        if a.get("min").is_some() || a.get("max").is_some() {
            let fl = floats(&acc)?;
            for (key, pick) in [("min", f64::min as fn(f64, f64) -> f64), ("max", f64::max)] {
                let decl = a[key].as_array().filter(|x| x.len() == n).ok_or(format!("accessor {i}: {key} {}", a[key]))?;
                for c in 0..n {
                    let real = fl.iter().skip(c).step_by(n).map(|f| *f as f64).reduce(pick).unwrap();
                    let d = num(&decl[c], &format!("accessor {i} {key}"))?;
                    if d as f32 != real as f32 {
                        return Err(format!("accessor {i}: {key}[{c}] is {d}, the data has {real}"));
                    }
                }
            }
        }
        accs.push(acc);
    }
    // images, textures, samplers
    for (i, im) in arr(j, "images").iter().enumerate() {
        if im.get("uri").is_some() {
            return Err("image uri not expected".into());
        }
        let v = ix(&im["bufferView"], views.len(), "image.bufferView")?;
        view_used[v] += 1;
        let m = im["mimeType"].as_str().ok_or(format!("image {i} has no mimeType"))?;
        let (o, n, t, _) = vr[v];
        if t.is_some() {
            return Err(format!("image {i} in a vertex buffer view"));
        }
        let data = &bin[o..o + n];
        if let Some(real) = mime(data)
            && real != m
        {
            return Err(format!("image {i} is declared {m} but is {real}"));
        }
        sc.images.push((im["name"].as_str().unwrap_or("").to_string(), m.to_string(), data.to_vec()));
    }
    if let Some(i) = view_used.iter().position(|n| *n != 1) {
        return Err(format!("bufferView {i} is used {} times", view_used[i]));
    }
    for s in arr(j, "samplers") {
        for (k, ok) in [
            ("magFilter", &[9728u64, 9729][..]),
            ("minFilter", &[9728, 9729, 9984, 9985, 9986, 9987][..]),
            ("wrapS", &[33071, 33648, 10497][..]),
            ("wrapT", &[33071, 33648, 10497][..]),
        ] {
            if let Some(v) = s.get(k)
                && !ok.contains(&v.as_u64().unwrap_or(0))
            {
                return Err(format!("sampler {k} {v}"));
            }
        }
    }
    let mut tex = vec![];
    for t in arr(j, "textures") {
        if let Some(s) = t.get("sampler") {
            ix(s, arr(j, "samplers").len(), "texture.sampler")?;
        }
        tex.push(ix(&t["source"], sc.images.len(), "texture.source")?);
    }
    // extensions
    let used: BTreeSet<String> = arr(j, "extensionsUsed").iter().filter_map(|v| v.as_str().map(String::from)).collect();
    if used.len() != arr(j, "extensionsUsed").len() {
        return Err("extensionsUsed repeats".into());
    }
    let mut seen = BTreeSet::new();
    exts(j, &mut seen);
    if seen != used {
        return Err(format!("extensionsUsed {used:?}, used {seen:?}"));
    }
    sc.extensions = used;
    // materials
    let mut mats = vec![];
    for (i, m) in arr(j, "materials").iter().enumerate() {
        let pbr = &m["pbrMetallicRoughness"];
        let mut o = Mat { name: m["name"].as_str().unwrap_or("").to_string(), color: [1.0; 4], metallic: 1.0, roughness: 1.0, ..Default::default() };
        if let Some(c) = pbr.get("baseColorFactor") {
            o.color = nums(c, &format!("material {i} baseColorFactor"))?;
            for c in o.color {
                range01(c, &format!("material {i} baseColorFactor"))?;
            }
        }
        if let Some(v) = pbr.get("metallicFactor") {
            o.metallic = range01(num(v, "metallicFactor")?, &format!("material {i} metallicFactor"))?;
        }
        if let Some(v) = pbr.get("roughnessFactor") {
            o.roughness = range01(num(v, "roughnessFactor")?, &format!("material {i} roughnessFactor"))?;
        }
        for (k, t) in [("baseColorTexture", pbr), ("metallicRoughnessTexture", pbr), ("normalTexture", m), ("occlusionTexture", m), ("emissiveTexture", m)] {
            if let Some(t) = t.get(k) {
                let x = ix(&t["index"], tex.len(), k)?;
                if t.get("texCoord").is_some_and(|c| c.as_u64() != Some(0)) {
                    return Err(format!("material {i}: {k} {t}"));
                }
                if k == "baseColorTexture" {
                    o.texture = Some(tex[x]);
                }
            }
        }
        match m.get("alphaMode").map(|v| v.as_str().unwrap_or("?")) {
            None | Some("OPAQUE") => {}
            Some("BLEND") => o.blend = true,
            Some("MASK") => {}
            Some(x) => return Err(format!("material {i}: alphaMode {x:?}")),
        }
        if let Some(t) = m["extensions"].get("KHR_materials_transmission") {
            o.transmission = Some(range01(num(&t["transmissionFactor"], "transmissionFactor")?, "transmissionFactor")?);
        }
        mats.push(o);
    }
    // meshes
    let mut meshes = vec![];
    let mut acc_used = vec![0; accs.len()];
    for (i, m) in arr(j, "meshes").iter().enumerate() {
        let name = m["name"].as_str().unwrap_or("").to_string();
        let p = arr(m, "primitives");
        if p.len() != 1 {
            return Err(format!("mesh {i} has {} primitives", p.len()));
        }
        let p = &p[0];
        if p.get("mode").is_some_and(|m| m.as_u64() != Some(4)) {
            return Err(format!("mesh {i}: mode {}", p["mode"]));
        }
        let mut o = Obj { name, visible: true, ..Default::default() };
        let get = |k: &str, kind: &str| -> R<(usize, &Acc)> {
            let a = ix(&p["attributes"][k], accs.len(), &format!("mesh {i} {k}"))?;
            let x = &accs[a];
            if x.comp != 5126 || x.kind != kind || x.target == Some(34963) {
                return Err(format!("mesh {i}: {k} has accessor {}", x.j));
            }
            Ok((a, x))
        };
        let (a, pos) = get("POSITION", "VEC3")?;
        acc_used[a] += 1;
        if pos.j.get("min").is_none() || pos.j.get("max").is_none() {
            return Err(format!("mesh {i}: POSITION without bounds"));
        }
        let nv = pos.count;
        o.pos = floats(pos)?.chunks(3).map(|c| [c[0] as f64, c[2] as f64, c[1] as f64]).collect();
        let (a, nrm) = get("NORMAL", "VEC3")?;
        acc_used[a] += 1;
        o.nrm = floats(nrm)?.chunks(3).map(|c| [c[0] as f64, c[2] as f64, c[1] as f64]).collect();
        let (a, uv) = get("TEXCOORD_0", "VEC2")?;
        acc_used[a] += 1;
        o.uv = floats(uv)?.chunks(2).map(|c| [c[0] as f64, c[1] as f64]).collect();
        if nrm.count != nv || uv.count != nv {
            return Err(format!("mesh {i}: {nv} positions, {} normals, {} texture coordinates", nrm.count, uv.count));
        }
        let a = ix(&p["indices"], accs.len(), &format!("mesh {i} indices"))?;
        acc_used[a] += 1;
        let x = &accs[a];
        if x.kind != "SCALAR" || x.comp == 5126 || x.target == Some(34962) || x.count % 3 != 0 {
            return Err(format!("mesh {i}: indices {}", x.j));
        }
        let (vals, restart): (Vec<u32>, u32) = match x.comp {
            5121 => (x.data.iter().map(|b| *b as u32).collect(), 255),
            5123 => (x.data.chunks(2).map(|c| u16::from_le_bytes(c.try_into().unwrap()) as u32).collect(), 65535),
            _ => (x.data.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect(), u32::MAX),
        };
        if let Some(b) = vals.iter().find(|v| **v as usize >= nv || **v == restart) {
            return Err(format!("mesh {i} ({:?}): index {b} of {nv} vertices", o.name));
        }
        o.idx = vals.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
        if let Some(m) = p.get("material") {
            o.mat = Some(mats[ix(m, mats.len(), &format!("mesh {i} material"))?].clone());
        }
        meshes.push(o);
    }
    if let Some(i) = acc_used.iter().position(|n| *n != 1) {
        return Err(format!("accessor {i} is used {} times", acc_used[i]));
    }
    // lights and cameras
    let lights = arr(&j["extensions"]["KHR_lights_punctual"], "lights");
    let mut ls = vec![];
    for (i, l) in lights.iter().enumerate() {
        let mut o = LightNode::default();
        if l["type"] != "point" {
            return Err(format!("light {i}: {l}"));
        }
        o.color = nums(&l["color"], "light color")?;
        for c in o.color {
            range01(c, "light colour")?;
        }
        o.intensity = num(&l["intensity"], "light intensity")?;
        if o.intensity < 0.0 {
            return Err(format!("light {i}: intensity {}", o.intensity));
        }
        if let Some(r) = l.get("range") {
            let r = num(r, &format!("light {i} range"))?;
            if r <= 0.0 {
                return Err(format!("light {i} ({}): range {r}", l["name"]));
            }
            o.range = Some(r);
        }
        ls.push(o);
    }
    let mut cs = vec![];
    for (i, c) in arr(j, "cameras").iter().enumerate() {
        let p = &c["perspective"];
        if c["type"] != "perspective" {
            return Err(format!("camera {i}: {c}"));
        }
        let o = CamNode {
            near: num(&p["znear"], "znear")?,
            far: num(&p["zfar"], "zfar")?,
            yfov: num(&p["yfov"], "yfov")?,
            ..Default::default()
        };
        if o.near <= 0.0 || o.far <= o.near || o.yfov <= 0.0 || o.yfov >= std::f64::consts::PI {
            return Err(format!("camera {i}: {c}"));
        }
        if let Some(a) = p.get("aspectRatio")
            && num(a, "aspectRatio")? <= 0.0
        {
            return Err(format!("camera {i}: {c}"));
        }
        cs.push(o);
    }
    // nodes
    let nodes = arr(j, "nodes");
    let mut parents = vec![0usize; nodes.len()];
    for (i, n) in nodes.iter().enumerate() {
        let ch = arr(n, "children");
        if n.get("children").is_some() && ch.is_empty() {
            return Err(format!("node {i}: no children"));
        }
        for c in ch {
            parents[ix(c, nodes.len(), &format!("node {i} child"))?] += 1;
        }
    }
    let scenes = arr(j, "scenes");
    let si = ix(&j["scene"], scenes.len(), "scene")?;
    let roots = arr(&scenes[si], "nodes");
    if scenes.len() != 1 || roots.is_empty() {
        return Err(format!("{} scenes, {} root nodes", scenes.len(), roots.len()));
    }
    for r in roots {
        parents[ix(r, nodes.len(), "scene node")?] += 1;
    }
    if let Some(i) = parents.iter().position(|n| *n != 1) {
        return Err(format!("node {i} ({}) has {} parents", nodes[i]["name"], parents[i]));
    }
    let mut seen = vec![false; nodes.len()];
    let mut mesh_used = vec![0; meshes.len()];
    let mut light_used = vec![0; ls.len()];
    let mut cam_used = vec![0; cs.len()];
    // node, ancestors' names, translation, scale, visible, extras of the parent
    type Item = (usize, Vec<String>, [f64; 3], [f64; 3], bool, Vec<Value>);
    let mut todo: Vec<Item> = roots.iter().rev().map(|r| (r.as_u64().unwrap() as usize, vec![], [0.0; 3], [1.0; 3], true, vec![])).collect();
    while let Some((i, above, t, s, vis, ex)) = todo.pop() {
        if std::mem::replace(&mut seen[i], true) {
            return Err(format!("node {i} is its own ancestor"));
        }
        let n = &nodes[i];
        let name = n["name"].as_str().unwrap_or("").to_string();
        let what = format!("node {i} ({name:?})");
        let lt: [f64; 3] = match n.get("translation") {
            Some(v) => nums(v, &format!("{what} translation"))?,
            None => [0.0; 3],
        };
        let lsc: [f64; 3] = match n.get("scale") {
            Some(v) => nums(v, &format!("{what} scale"))?,
            None => [1.0; 3],
        };
        if n.get("matrix").is_some() {
            return Err(format!("{what}: matrix not expected"));
        }
        let rot: [f64; 4] = match n.get("rotation") {
            Some(v) => nums(v, &format!("{what} rotation"))?,
            None => [0.0, 0.0, 0.0, 1.0],
        };
        let len: f64 = rot.iter().map(|x| x * x).sum::<f64>();
        if (len - 1.0).abs() > 1e-3 {
            return Err(format!("{what}: rotation {rot:?} is no unit quaternion"));
        }
        if rot != [0.0, 0.0, 0.0, 1.0] && n.get("camera").is_none() {
            return Err(format!("{what}: rotation not expected"));
        }
        let wt = [t[0] + s[0] * lt[0], t[1] + s[1] * lt[1], t[2] + s[2] * lt[2]];
        let ws = [s[0] * lsc[0], s[1] * lsc[1], s[2] * lsc[2]];
        let v = match n["extensions"].get("KHR_node_visibility") {
            Some(e) => e["visible"].as_bool().ok_or(format!("{what}: {e}"))?,
            None => true,
        } && vis;
        let mut ex2 = ex.clone();
        if let Some(e) = n.get("extras") {
            ex2.push(e.clone());
        }
        if above.is_empty() {
            sc.root = n.clone();
        }
        if let Some(m) = n.get("mesh") {
            let m = ix(m, meshes.len(), &what)?;
            mesh_used[m] += 1;
            let mut o = meshes[m].clone();
            if o.name != name {
                return Err(format!("{what} shows the mesh {:?}", o.name));
            }
            o.visible = v;
            let f = |p: &[f64; 3], k: &[f64; 3]| [wt[0] + k[0] * p[0], wt[2] + k[2] * p[1], wt[1] + k[1] * p[2]];
            o.raw = o.pos.iter().map(|p| f(p, &s)).collect();
            o.pos = o.pos.iter().map(|p| f(p, &ws)).collect();
            o.above = above.clone();
            o.extras = ex2.clone();
            sc.objs.push(o);
        }
        if let Some(l) = n["extensions"].get("KHR_lights_punctual") {
            let l = ix(&l["light"], ls.len(), &what)?;
            light_used[l] += 1;
            let mut o = ls[l].clone();
            o.name = name.clone();
            o.pos = [wt[0], wt[2], wt[1]];
            o.above = above.clone();
            sc.lights.push(o);
        }
        if let Some(c) = n.get("camera") {
            let c = ix(c, cs.len(), &what)?;
            cam_used[c] += 1;
            let mut o = cs[c].clone();
            o.name = name.clone();
            o.pos = [wt[0], wt[2], wt[1]];
            o.rot = rot;
            sc.cams.push(o);
        }
        let mut a2 = above;
        a2.push(name);
        for c in arr(n, "children").iter().rev() {
            todo.push((c.as_u64().unwrap() as usize, a2.clone(), wt, ws, v, ex2.clone()));
        }
    }
    for (what, u) in [("mesh", &mesh_used), ("light", &light_used), ("camera", &cam_used)] {
        if let Some(i) = u.iter().position(|n| *n != 1) {
            return Err(format!("{what} {i} is in the scene {} times", u[i]));
        }
    }
    if let Some(i) = seen.iter().position(|s| !s) {
        return Err(format!("node {i} ({}) is not in the scene", nodes[i]["name"]));
    }
    Ok(sc)
}

fn exts(j: &Value, out: &mut BTreeSet<String>) {
    match j {
        Value::Object(m) => {
            for (k, v) in m {
                if k == "extensions"
                    && let Some(e) = v.as_object()
                {
                    out.extend(e.keys().cloned());
                }
                if k != "extras" {
                    exts(v, out);
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|v| exts(v, out)),
        _ => {}
    }
}

fn floats(a: &Acc) -> R<Vec<f32>> {
    let v: Vec<f32> = a.data.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
    match v.iter().position(|f| !f.is_finite()) {
        Some(i) => Err(format!("value {i} of accessor {} is {}", a.j, v[i])),
        None => Ok(v),
    }
}

/// Reads and validates an OBJ file with its material library and pictures.
/// `repeats`: material names may stand for several materials.
pub fn obj(text: &[u8], repeats: bool, dir: &dyn Fn(&str) -> Option<Vec<u8>>) -> R<Scene> {
    let text = std::str::from_utf8(text).map_err(|e| format!("OBJ: {e}"))?;
    let mut sc = Scene::default();
    let (mut v, mut vt, mut vn): (Vec<[f64; 3]>, Vec<[f64; 2]>, Vec<[f64; 3]>) = (vec![], vec![], vec![]);
    let mut mats: BTreeMap<String, Mat> = BTreeMap::new();
    let mut cur: Option<String> = None;
    let mut base = (0, 0, 0);
    for (n, l) in text.split('\n').enumerate() {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let at = |e: String| format!("OBJ line {}: {e}: {l:?}", n + 1);
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l.contains(|c: char| c.is_control()) {
            return Err(at("control character".into()));
        }
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        let fl = |min: usize, max: usize| -> R<Vec<f64>> {
            let f: Vec<f64> = rest.split_whitespace().map(|w| w.parse::<f64>().map_err(|e| at(e.to_string()))).collect::<R<_>>()?;
            if f.len() < min || f.len() > max || f.iter().any(|x| !x.is_finite()) {
                return Err(at("bad numbers".into()));
            }
            Ok(f)
        };
        match k {
            "mtllib" => {
                let b = dir(rest).ok_or(at("no such material library".into()))?;
                mtl(&b, repeats, dir, &mut mats, &mut sc.images)?;
            }
            "o" => {
                if rest.is_empty() && false {
                    return Err(at("no name".into()));
                }
                sc.objs.push(Obj { name: rest.to_string(), visible: true, ..Default::default() });
                base = (v.len(), vt.len(), vn.len());
            }
            "v" => {
                let f = fl(3, 4)?;
                v.push([f[0], f[1], -f[2]]);
            }
            "vt" => {
                let f = fl(2, 3)?;
                vt.push([f[0], 1.0 - f[1]]);
            }
            "vn" => {
                let f = fl(3, 3)?;
                vn.push([f[0], f[1], -f[2]]);
            }
            "usemtl" => {
                if !mats.contains_key(rest) {
                    return Err(at("no such material in the library".into()));
                }
                cur = Some(rest.to_string());
            }
            "s" => {
                if !(rest == "off" || rest.parse::<u32>().is_ok()) {
                    return Err(at("bad smoothing group".into()));
                }
                if let Some(o) = sc.objs.last_mut() {
                    o.smooth = rest != "off" && rest != "0";
                }
            }
            "f" => {
                let o = sc.objs.last_mut().ok_or(at("face outside of an object".into()))?;
                if o.idx.is_empty() {
                    o.pos = v[base.0..].to_vec();
                    o.uv = vt[base.1..].to_vec();
                    o.nrm = vn[base.2..].to_vec();
                    o.mat = cur.as_ref().map(|c| mats[c].clone());
                    if o.pos.len() != o.uv.len() || o.pos.len() != o.nrm.len() {
                        return Err(at(format!("{} vertices, {} texture coordinates, {} normals", o.pos.len(), o.uv.len(), o.nrm.len())));
                    }
                }
                let mut t = vec![];
                for w in rest.split_whitespace() {
                    let p: Vec<usize> = w.split('/').map(|x| x.parse().map_err(|_| at("bad face".into()))).collect::<R<_>>()?;
                    if p.len() != 3 {
                        return Err(at("bad face".into()));
                    }
                    for (p, (b, len)) in p.iter().zip([(base.0, v.len()), (base.1, vt.len()), (base.2, vn.len())]) {
                        if *p <= b || *p > len {
                            return Err(at(format!("index {p}, the object has {}..={len}", b + 1)));
                        }
                    }
                    if p[0] - base.0 != p[1] - base.1 || p[0] - base.0 != p[2] - base.2 {
                        return Err(at("indices differ".into()));
                    }
                    t.push((p[0] - base.0 - 1) as u32);
                }
                if t.len() != 3 {
                    return Err(at("no triangle".into()));
                }
                o.idx.push([t[0], t[1], t[2]]);
            }
            _ => return Err(at("unknown statement".into())),
        }
    }
    if let Some(o) = sc.objs.iter().find(|o| o.idx.is_empty()) {
        return Err(format!("OBJ: object {:?} has no faces", o.name));
    }
    for o in &mut sc.objs {
        o.raw = o.pos.clone();
    }
    Ok(sc)
}

fn mtl(b: &[u8], repeats: bool, dir: &dyn Fn(&str) -> Option<Vec<u8>>, out: &mut BTreeMap<String, Mat>, images: &mut Vec<(String, String, Vec<u8>)>) -> R<()> {
    let text = std::str::from_utf8(b).map_err(|e| format!("MTL: {e}"))?;
    let mut cur: Option<Mat> = None;
    let mut put = |m: Option<Mat>| -> R<()> {
        if let Some(m) = m {
            if let Some(old) = out.get(&m.name).filter(|_| !repeats)
                && (old.color != m.color || old.texture != m.texture)
            {
                return Err(format!("MTL: two different materials {:?}", m.name));
            }
            out.insert(m.name.clone(), m);
        }
        Ok(())
    };
    for (n, l) in text.split('\n').enumerate() {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let at = |e: &str| format!("MTL line {}: {e}: {l:?}", n + 1);
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l.contains(|c: char| c.is_control()) {
            return Err(at("control character"));
        }
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        if k == "newmtl" {
            put(cur.take())?;
            cur = Some(Mat { name: rest.to_string(), color: [1.0; 4], ..Default::default() });
            continue;
        }
        let m = cur.as_mut().ok_or(at("outside of a material"))?;
        let fl = |c: usize| -> R<Vec<f64>> {
            let f: Vec<f64> = rest.split_whitespace().map(|w| w.parse::<f64>().map_err(|_| at("bad number"))).collect::<R<_>>()?;
            if f.len() != c || f.iter().any(|x| !x.is_finite()) {
                return Err(at("bad numbers"));
            }
            Ok(f)
        };
        match k {
            "Kd" => {
                let f = fl(3)?;
                m.color = [f[0], f[1], f[2], m.color[3]];
            }
            "Ka" | "Ks" | "Ke" | "Tf" => {
                fl(3)?;
            }
            "d" => m.color[3] = fl(1)?[0],
            "Ns" | "Ni" | "Tr" => {
                fl(1)?;
            }
            "illum" => {
                rest.parse::<u32>().map_err(|_| at("bad illum"))?;
            }
            "map_Kd" | "map_Ka" => {
                let b = dir(rest).ok_or(at("no such file"))?;
                let i = match images.iter().position(|i| i.0 == rest) {
                    Some(i) => i,
                    None => {
                        images.push((rest.to_string(), String::new(), b));
                        images.len() - 1
                    }
                };
                m.texture = Some(i);
            }
            _ => return Err(at("unknown statement")),
        }
    }
    put(cur)
}

/// Triangles as sorted lists of rotated vertex triples; quantised, so that files of different units compare.
pub fn bbox(p: &[[f64; 3]]) -> ([f64; 3], [f64; 3]) {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for v in p {
        for c in 0..3 {
            lo[c] = lo[c].min(v[c]);
            hi[c] = hi[c].max(v[c]);
        }
    }
    (lo, hi)
}
