//! Primitive meshes survive every mesh file format bit-exactly.
use super::common::*;
use super::exp::*;
use crate::cont::*;
use crate::fw::*;
use crate::spec::*;
use rayon::prelude::*;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;

fn f(b: u32) -> f32 {
    f32::from_bits(b)
}
fn is_nan(b: u32) -> bool {
    f(b).is_nan()
}

/// Extraction in the format, contents of the files, the way back.
fn check(spec: &Spec, m: &Mesh, fmt: Pmf) -> Result<u64, String> {
    let g = Gen { spec, floats: Floats::Finite, thorough: false };
    let mut t = Table::new(spec, 1080);
    t.items = vec![prim_item(&g, Some(m))];
    let orig = t.streams();
    let v = load(&build(&orig))?;
    let fs = extract(&v, fmt, false)?;
    let fl = files(&fs);
    let ext = match fmt {
        Pmf::Obj => ".obj",
        Pmf::Glb => ".glb",
        Pmf::Gltf => ".gltf",
    };
    let meshes: Vec<(&String, &Vec<u8>)> = fl.iter().filter(|(p, _)| p.ends_with(ext)).collect();
    if meshes.len() != 1 + m.frames.len() {
        return Err(format!("{} mesh files for a mesh with {} frames", meshes.len(), m.frames.len()));
    }
    for (p, d) in &meshes {
        let mut want = m.clone();
        want.frames.clear();
        if let Some(k) = p.rsplit("_anim_").next().and_then(|r| r.strip_suffix(ext)).and_then(|k| k.parse::<usize>().ok()) {
            let fr = m.frames.get(k).ok_or_else(|| format!("{p}: no such frame"))?;
            for (v, a) in want.verts.iter_mut().zip(fr) {
                v[..6].copy_from_slice(a);
            }
        }
        let r = if fmt == Pmf::Obj {
            check_obj(&want, d)
        } else {
            check_gltf(&want, d, fmt == Pmf::Glb, &|u| {
                let dir = p.rsplit_once('/').unwrap().0;
                fl.get(&format!("{dir}/{u}")).cloned()
            })
        };
        r.map_err(|e| format!("{p}: {e}"))?;
    }
    let v2 = assemble(&fs)?;
    let got = dump(&save(&v2)?)?;
    let k = "/GameStg/GameItem0";
    compare(m, &got[k])?;
    if let Some(d) = diff_streams(&norm(&orig)?, &norm(&got)?) {
        return Err(d);
    }
    Ok(hash_of(&(m.verts.len(), m.idx.len(), m.frames.len(), hash_of(&m.vbytes()))))
}

/// The stored mesh of the assembled primitive.
fn compare(m: &Mesh, item: &[u8]) -> Result<(), String> {
    let recs = split_records(&item[4..]).ok_or("the assembled item does not parse")?;
    let num = |t: &str| recs.iter().find(|(n, _)| n == t).map(|(_, d)| u32::from_le_bytes(d[..4].try_into().unwrap()));
    let raw = |t: &str| recs.iter().find(|(n, _)| n == t).and_then(|(_, d)| unzlib(d));
    if num("M3VN") != Some(m.verts.len() as u32) || num("M3FN") != Some(m.idx.len() as u32) {
        return Err(format!("{:?} vertices and {:?} indices came back", num("M3VN"), num("M3FN")));
    }
    let vb = raw("M3CX").ok_or("no vertices came back")?;
    let evb = m.vbytes();
    if vb != evb {
        let i = (0..m.verts.len()).find(|i| vb.get(i * 32..i * 32 + 32) != Some(&evb[i * 32..i * 32 + 32])).unwrap_or(0);
        let w: Vec<u32> = vb.get(i * 32..i * 32 + 32).unwrap_or(&[]).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        return Err(format!("vertex {i} of {} came back as {w:08x?} instead of {:08x?}", m.verts.len(), m.verts[i]));
    }
    let ib = raw("M3CI").ok_or("no indices came back")?;
    if ib != m.ibytes() {
        return Err(format!("the indices differ: {}", diff_bytes(&m.ibytes(), &ib)));
    }
    let fr: Vec<Vec<u8>> = recs.iter().filter(|(n, _)| n == "M3AX").map(|(_, d)| unzlib(d).unwrap_or_default()).collect();
    if fr.len() != m.frames.len() {
        return Err(format!("{} frames came back of {}", fr.len(), m.frames.len()));
    }
    for (k, (a, b)) in fr.iter().zip(&m.frames).enumerate() {
        let e: Vec<u8> = b.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
        if *a != e {
            return Err(format!("frame {k} differs: {}", diff_bytes(&e, a)));
        }
    }
    Ok(())
}

/// What another program finds in the OBJ file: z mirrored, v flipped, faces turned around.
fn check_obj(m: &Mesh, d: &[u8]) -> Result<(), String> {
    let s = std::str::from_utf8(d).map_err(|_| "not text")?;
    let (mut nv, mut nt, mut nn, mut nf) = (0usize, 0usize, 0usize, 0usize);
    for line in s.lines() {
        let mut w = line.split_ascii_whitespace();
        let num = |x: Option<&str>| -> Result<f32, String> { x.and_then(|x| x.parse().ok()).ok_or_else(|| format!("bad line {line:?}")) };
        let same = |what: &str, i: usize, got: f32, exp: f32| -> Result<(), String> {
            // what a reader makes of NaN is its own affair
            if got.to_bits() == exp.to_bits() || exp.is_nan() {
                return Ok(());
            }
            Err(format!("{what} {i} is {got:e} in the file and {exp:e} in the mesh ({line:?})"))
        };
        match w.next() {
            None | Some("#") | Some("o") => {}
            Some(c) if c.starts_with('#') => {}
            Some("v") => {
                let e = m.verts.get(nv).ok_or("too many positions")?;
                same("x of vertex", nv, num(w.next())?, f(e[0]))?;
                same("y of vertex", nv, num(w.next())?, f(e[1]))?;
                same("z of vertex", nv, num(w.next())?, -f(e[2]))?;
                nv += 1;
            }
            Some("vt") => {
                let e = m.verts.get(nt).ok_or("too many texture coordinates")?;
                same("u of vertex", nt, num(w.next())?, f(e[6]))?;
                let v: f64 = w.next().and_then(|x| x.parse().ok()).ok_or_else(|| format!("bad line {line:?}"))?;
                let exp = 1.0 - f(e[7]) as f64;
                if exp.is_finite() && (v - exp).abs() > 6e-8 * exp.abs().max(1e-30) && (v - exp).abs() > f32::EPSILON as f64 * 0.6 * (f(e[7]).abs() as f64).max(1e-30) || exp.is_infinite() && v != exp {
                    return Err(format!("v of vertex {nt} is {v:e} in the file and 1-{:e} in the mesh", f(e[7])));
                }
                nt += 1;
            }
            Some("vn") => {
                let e = m.verts.get(nn).ok_or("too many normals")?;
                same("nx of vertex", nn, num(w.next())?, f(e[3]))?;
                same("ny of vertex", nn, num(w.next())?, f(e[4]))?;
                same("nz of vertex", nn, num(w.next())?, -f(e[5]))?;
                nn += 1;
            }
            Some("f") => {
                let e = m.idx.get(nf * 3..nf * 3 + 3).ok_or("too many faces")?;
                for k in 0..3 {
                    let n = e[2 - k] as usize + 1;
                    if w.next() != Some(&format!("{n}/{n}/{n}")) {
                        return Err(format!("face {nf} is {line:?}, in the mesh {e:?}"));
                    }
                }
                nf += 1;
            }
            Some(x) => return Err(format!("unexpected statement {x:?}")),
        }
    }
    if (nv, nt, nn, nf * 3) != (m.verts.len(), m.verts.len(), m.verts.len(), m.idx.len()) {
        return Err(format!("{nv} positions, {nt} texture coordinates, {nn} normals, {nf} faces in the file"));
    }
    Ok(())
}

/// What another program finds in the glTF file: the mesh as it is.
fn check_gltf(m: &Mesh, d: &[u8], glb: bool, file: &dyn Fn(&str) -> Option<Vec<u8>>) -> Result<(), String> {
    let u = |p: usize| u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
    let (js, bin) = if glb {
        if d.len() < 28 || &d[..4] != b"glTF" || u(4) != 2 || u(8) != d.len() {
            return Err("bad GLB header".into());
        }
        let n = u(12);
        if n % 4 != 0 || &d[16..20] != b"JSON" || 28 + n > d.len() {
            return Err("bad JSON chunk".into());
        }
        let k = u(20 + n);
        if k % 4 != 0 || &d[24 + n..28 + n] != b"BIN\0" || 28 + n + k != d.len() {
            return Err("bad BIN chunk".into());
        }
        (d[20..20 + n].to_vec(), Some(d[28 + n..].to_vec()))
    } else {
        (d.to_vec(), None)
    };
    let j: serde_json::Value = serde_json::from_slice(&js).map_err(|e| format!("JSON: {e}"))?;
    if j["asset"]["version"] != "2.0" {
        return Err("asset version".into());
    }
    let bufs = j["buffers"].as_array().ok_or("no buffers")?;
    if bufs.len() != 1 {
        return Err("more than one buffer".into());
    }
    let bin = match bin {
        Some(b) => b,
        None => {
            let uri = bufs[0]["uri"].as_str().ok_or("no uri")?;
            file(uri).ok_or_else(|| format!("buffer file {uri:?} does not exist"))?
        }
    };
    let bl = bufs[0]["byteLength"].as_u64().ok_or("no byteLength")? as usize;
    if bl > bin.len() || bin.len() > bl + 3 {
        return Err(format!("the buffer has {} bytes, {bl} are declared", bin.len()));
    }
    let nodes = j["nodes"].as_array().ok_or("no nodes")?;
    let sc = j["scene"].as_u64().unwrap_or(0) as usize;
    let root = j["scenes"][sc]["nodes"].as_array().ok_or("no scene")?;
    if root.len() != 1 || nodes.len() != 1 || root[0] != 0 || nodes[0]["mesh"] != 0 {
        return Err("the scene does not consist of the mesh".into());
    }
    for k in ["matrix", "rotation", "scale", "translation"] {
        if !nodes[0][k].is_null() {
            return Err(format!("the node has a {k}"));
        }
    }
    let prims = j["meshes"][0]["primitives"].as_array().ok_or("no mesh")?;
    if prims.len() != 1 || prims[0]["mode"].as_u64().unwrap_or(4) != 4 {
        return Err("the mesh is not one list of triangles".into());
    }
    let acc = |i: &serde_json::Value, ty: &str, target: u64| -> Result<(Vec<u32>, u64, usize), String> {
        let i = i.as_u64().ok_or("no accessor")? as usize;
        let a = &j["accessors"][i];
        let ct = a["componentType"].as_u64().ok_or("no componentType")?;
        let count = a["count"].as_u64().ok_or("no count")? as usize;
        if a["type"] != ty {
            return Err(format!("accessor {i} is {}", a["type"]));
        }
        let n = match ty {
            "VEC3" => 3,
            "VEC2" => 2,
            _ => 1,
        };
        let cs = if ct == 5123 { 2 } else { 4 };
        let v = &j["bufferViews"][a["bufferView"].as_u64().ok_or("no bufferView")? as usize];
        let vo = v["byteOffset"].as_u64().unwrap_or(0) as usize;
        let vl = v["byteLength"].as_u64().ok_or("no byteLength")? as usize;
        let ao = a["byteOffset"].as_u64().unwrap_or(0) as usize;
        if v["buffer"] != 0 || !v["byteStride"].is_null() {
            return Err("buffer or stride".into());
        }
        if !v["target"].is_null() && v["target"] != target {
            return Err(format!("bufferView target {}", v["target"]));
        }
        if vo + vl > bl || ao + count * n * cs > vl || (vo + ao) % cs != 0 {
            return Err(format!("accessor {i}: {count} elements at {ao} of a view {vo}+{vl} in {bl} bytes"));
        }
        let b = &bin[vo + ao..vo + ao + count * n * cs];
        let vals: Vec<u32> = if cs == 2 { b.chunks(2).map(|c| u16::from_le_bytes(c.try_into().unwrap()) as u32).collect() } else { b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect() };
        Ok((vals, ct, i))
    };
    let at = &prims[0]["attributes"];
    let (pos, t1, pi) = acc(&at["POSITION"], "VEC3", 34962)?;
    let (nor, t2, _) = acc(&at["NORMAL"], "VEC3", 34962)?;
    let (tex, t3, _) = acc(&at["TEXCOORD_0"], "VEC2", 34962)?;
    if (t1, t2, t3) != (5126, 5126, 5126) {
        return Err("attributes are not floats".into());
    }
    let (idx, it, _) = acc(&prims[0]["indices"], "SCALAR", 34963)?;
    if it != 5123 && it != 5125 {
        return Err(format!("indices of type {it}"));
    }
    if idx != m.idx {
        let p = idx.iter().zip(&m.idx).position(|(a, b)| a != b);
        return Err(format!("{} indices in the file, {} in the mesh, first difference {p:?}", idx.len(), m.idx.len()));
    }
    // the largest value of the type restarts a primitive
    if it == 5123 && idx.contains(&65535) || idx.contains(&u32::MAX) {
        return Err("an index is the restart value".into());
    }
    if (pos.len(), nor.len(), tex.len()) != (m.verts.len() * 3, m.verts.len() * 3, m.verts.len() * 2) {
        return Err(format!("{} positions for {} vertices", pos.len() / 3, m.verts.len()));
    }
    for (i, v) in m.verts.iter().enumerate() {
        if pos[i * 3..i * 3 + 3] != v[..3] {
            return Err(format!("position {i} is {:08x?} in the file, {:08x?} in the mesh", &pos[i * 3..i * 3 + 3], &v[..3]));
        }
        for k in 0..3 {
            let (a, b) = (nor[i * 3 + k], v[3 + k]);
            if a != b && !is_nan(b) {
                return Err(format!("normal {i} is {:08x?} in the file, {:08x?} in the mesh", &nor[i * 3..i * 3 + 3], &v[3..6]));
            }
        }
        if tex[i * 2..i * 2 + 2] != v[6..8] {
            return Err(format!("texture coordinate {i} is {:08x?} in the file, {:08x?} in the mesh", &tex[i * 2..i * 2 + 2], &v[6..8]));
        }
    }
    if m.verts.iter().all(|v| v[..3].iter().all(|b| f(*b).is_finite())) && !m.verts.is_empty() {
        for (key, up) in [("min", false), ("max", true)] {
            let a = j["accessors"][pi][key].as_array().ok_or("POSITION without bounds")?;
            for k in 0..3 {
                let it = m.verts.iter().map(|v| f(v[k]));
                let e = if up { it.fold(f32::MIN, f32::max) } else { it.fold(f32::MAX, f32::min) };
                if a.get(k).and_then(|x| x.as_f64()).map(|x| x as f32) != Some(e) {
                    return Err(format!("{key} of the positions is {}, {e:e} in coordinate {k}", j["accessors"][pi][key]));
                }
            }
        }
    }
    Ok(())
}

fn fmts() -> [(&'static str, Pmf); 3] {
    [("obj", Pmf::Obj), ("glb", Pmf::Glb), ("gltf", Pmf::Gltf)]
}

/// Every sign and exponent, with mantissas of every shape up to `bits` leading bits and `low` endings.
fn patterns(bits: u32) -> Vec<u32> {
    let mut o = vec![];
    for se in 0..512u32 {
        for hi in 0..1u32 << bits {
            let base = se << 23 | hi << (23 - bits);
            let rest = (1u32 << (23 - bits)) - 1;
            for lo in [0, 1, rest, rest >> 1, rest / 3, rest - 1] {
                o.push(base | lo);
            }
        }
    }
    o.sort();
    o.dedup();
    o
}

pub fn run(ctx: &Ctx) {
    let spec = Spec::load();
    let th = ctx.thorough();
    ctx.rule("the vertices, indices and frames stored in the assembled primitive equal the original ones bit for bit (payloads decompressed by zlib); every other record as well");
    ctx.rule("an independent OBJ reader finds in the extracted file: positions and normals with z negated, 1-v, faces in reverse order, the counts; an independent glTF reader finds the mesh unchanged, with correct buffer ranges, alignment, types and bounds");
    ctx.assume("a NaN in a file of another tool's format may appear as any value there; it has to come back exactly all the same");
    ctx.assume("a frame has as many vertices as the mesh, and indices refer to vertices of the mesh");
    // shapes
    let mut shapes: Vec<(String, Mesh)> = vec![];
    let sizes: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 63, 255, 256, 257];
    for &n in sizes {
        for fc in [0usize, 1, 2, 3, 5, 85, 86] {
            for k in [0usize, 1, 2, 3] {
                if fc > 5 && (k > 1 || n < 255) {
                    continue;
                }
                shapes.push((format!("v{n}/f{fc}/frames{k}"), Mesh::new(n, fc).with_frames(k)));
            }
        }
    }
    for k in [9usize, 10, 11, 12, 100, 101] {
        shapes.push((format!("v3/f1/frames{k}"), Mesh::new(3, 1).with_frames(k)));
    }
    shapes.push(("v0/f0/frames0".into(), Mesh::new(0, 0)));
    let big: &[usize] = if th { &[32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 200000] } else { &[65534, 65535, 65536, 65537] };
    for &n in big {
        for fc in if th { vec![1usize, 2, 3, 21844, 21845, 21846, 65535, 65536, 65537, 131072] } else { vec![1usize, 2, 21846, 65536] } {
            let mut m = Mesh::new(n, fc);
            // the last vertices and those around the limits are used, in each place of a face
            let l = m.idx.len();
            for (k, v) in [n - 1, 0, n - 2, 65535.min(n - 1), 65534.min(n - 1), 32768.min(n - 1), n - 1, n - 1, 1].into_iter().enumerate() {
                if k < l {
                    m.idx[l - 1 - k] = v as u32;
                }
            }
            shapes.push((format!("v{n}/f{fc}/frames0"), m.clone()));
            if fc == 2 {
                shapes.push((format!("v{n}/f{fc}/frames1"), m.with_frames(1)));
            }
        }
    }
    // every assignment of vertices to one and two faces
    for n in 1..=3usize {
        for c in 0..(n as u32).pow(6) {
            let d = |i: u32| c / (n as u32).pow(i) % n as u32;
            let mut m = Mesh::new(n, 2);
            m.idx = (0..6).map(d).collect();
            shapes.push((format!("faces/v{n}/{c}"), m));
        }
    }
    ctx.note("shapes", shapes.len());
    let work: Vec<(String, &Mesh, Pmf)> = shapes.iter().flat_map(|(l, m)| fmts().map(|(fl, p)| (format!("{fl}/{l}"), m, p))).collect();
    work.par_iter().for_each(|(l, m, p)| {
        ctx.case(l, || check(&spec, m, *p));
    });
    // special values in every single place, in the mesh and in a frame
    let mut vals: Vec<u32> = vec![
        0, 0x8000_0000, 1, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x807f_ffff, 0x7f7f_ffff, 0xff7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0xff80_0001, 0x7fff_ffff, 0xffff_ffff, 0x7fc0_1234, 0xffd1_5d71, 0x3f80_0000, 0xbf80_0000, 0x3f80_0001, 0x3f7f_ffff,
        0x3f00_0000, 0x3eff_ffff, 0x3dcc_cccd, 0x3eaa_aaab, 0x4000_0000, 0x4000_0001, 0x4b80_0000, 0x4b80_0001, 0x5f80_0000, 0x3080_0000, 0x307f_ffff, 0x3000_0000, 0xb080_0000,
        // decimal digits that need care
        0x3727_c5ac, 0x15ae_43fd, 0x7e96_7699, 0x0000_116c, 0x501502f9, 0x4b18967f,
    ];
    if th {
        vals.extend((0..32).map(|k| 1u32 << k));
        vals.extend((0..32).map(|k| !(1u32 << k)));
        vals.extend((0..32).map(|k| 0x7f80_0000 | (0x2a5a5 << (k % 5)) | (k << 31)));
    }
    let mut places: Vec<(String, Mesh)> = vec![];
    for &b in &vals {
        for k in 0..8 {
            for vi in [0usize, 2] {
                let mut m = Mesh::new(3, 1);
                m.verts[vi][k] = b;
                places.push((format!("value/{b:08x}/v{vi}[{k}]"), m));
                if k < 6 {
                    for fr in [0usize, 1] {
                        let mut m = Mesh::new(3, 1).with_frames(2);
                        m.frames[fr][vi][k] = b;
                        places.push((format!("value/{b:08x}/frame{fr}/v{vi}[{k}]"), m));
                    }
                } else {
                    let mut m = Mesh::new(3, 1).with_frames(1);
                    m.verts[vi][k] = b;
                    places.push((format!("value/{b:08x}/with-frame/v{vi}[{k}]"), m));
                }
            }
        }
    }
    // two special values in one vertex
    let few = [0x7fc0_1234u32, 0xffd1_5d71, 0x8000_0000, 0x7f80_0000, 0x0000_0001, 0x2e00_0001];
    for a in few {
        for b in few {
            for i in 0..8 {
                for j in 0..i {
                    let mut m = Mesh::new(2, 1);
                    m.verts[1][i] = a;
                    m.verts[1][j] = b;
                    places.push((format!("pair/{a:08x}[{i}]/{b:08x}[{j}]"), m.clone()));
                    if i < 6 {
                        let mut m2 = Mesh::new(2, 1).with_frames(1);
                        m2.frames[0][1][i] = a;
                        m2.frames[0][1][j] = b;
                        places.push((format!("pair/frame/{a:08x}[{i}]/{b:08x}[{j}]"), m2));
                    }
                }
            }
        }
    }
    ctx.note("meshes with special values", places.len());
    let work: Vec<(String, &Mesh, Pmf)> = places.iter().flat_map(|(l, m)| fmts().map(|(fl, p)| (format!("{fl}/{l}"), m, p))).collect();
    work.par_iter().for_each(|(l, m, p)| {
        ctx.case(l, || check(&spec, m, *p));
    });
    // a systematic part of all 2^32 values, in large meshes: as every coordinate but v; as v
    let pats = patterns(if th { 13 } else { 7 });
    let pats: Vec<u32> = pats.into_iter().filter(|b| !is_nan(*b)).collect();
    ctx.note("values of every sign and exponent", pats.len());
    let per = 16000;
    let jobs: Vec<(usize, &[u32], u8)> = pats.chunks(per).enumerate().flat_map(|(i, c)| [0u8, 1, 2].map(|k| (i, c, k))).collect();
    jobs.par_iter().for_each(|(i, c, kind)| {
        let mut m = Mesh::new(c.len(), 1);
        for (v, b) in m.verts.iter_mut().zip(*c) {
            match kind {
                // everything but v; neighbours, so that no two places can be exchanged unseen
                0 => *v = [*b, b ^ 1, b ^ 2, b ^ 3, b ^ 4, b ^ 5, b ^ 6, 0x3f00_0000].map(|x| if is_nan(x) { *b } else { x }),
                1 => v[7] = *b,
                _ => {}
            }
        }
        if *kind == 2 {
            m = m.with_frames(1);
            for (v, b) in m.frames[0].iter_mut().zip(*c) {
                *v = [*b, b ^ 1, b ^ 2, b ^ 3, b ^ 4, b ^ 5].map(|x| if is_nan(x) { *b } else { x });
            }
        }
        for (fl, p) in fmts() {
            if fl == "gltf" && i % 16 != 0 {
                continue;
            }
            let l = format!("{fl}/sweep{kind}/{:08x}..{:08x}", c[0], c[c.len() - 1]);
            if ctx.case(&l, || check(&spec, &m, p)) {
                ctx.bulk(c.len() as u64, []);
            }
        }
    });
}
