//! Extraction / assembly helpers.
use super::common::*;
use crate::cont::*;
use crate::fw::*;
use crate::lzw;
use crate::spec::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::VPX;
use vpin::vpx::expanded::{self, ExpandOptions, PrimitiveMeshFormat as Pmf};

pub const FORMATS: [Pmf; 3] = [Pmf::Obj, Pmf::Glb, Pmf::Gltf];
pub const ROOT: &str = "out/dir";

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn options(f: Pmf, derived: bool) -> ExpandOptions {
    ExpandOptions::new().mesh_format(f).generate_derived_meshes(derived)
}
pub fn extract(v: &VPX, f: Pmf, derived: bool) -> Result<MemoryFileSystem, String> {
    let fs = MemoryFileSystem::new();
    expanded::write_fs(v, &Path::new(ROOT), &options(f, derived), &fs)
        .map_err(|e| format!("extraction failed: {e}"))?;
    Ok(fs)
}
pub fn assemble(fs: &MemoryFileSystem) -> Result<VPX, String> {
    expanded::read_fs(&Path::new(ROOT), fs).map_err(|e| format!("assembly failed: {e}"))
}
pub fn memory(f: &Files) -> MemoryFileSystem {
    use vpin::filesystem::FileSystem;
    let fs = MemoryFileSystem::new();
    for (p, d) in f {
        fs.write_file(Path::new(p), d).unwrap();
    }
    fs
}
pub fn files(fs: &MemoryFileSystem) -> Files {
    fs.list_files()
        .into_iter()
        .map(|p| {
            let d = fs.get_file(&p).unwrap();
            (p, d)
        })
        .collect()
}
pub fn diff_files(a: &Files, b: &Files) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("file {k} missing")),
            Some(w) if w != v => return Some(format!("file {k} differs: {}", diff_bytes(v, w))),
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("unexpected file {k}"))
}

pub fn zlib(d: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn unzlib(d: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    flate2::read::ZlibDecoder::new(d).read_to_end(&mut o).ok()?;
    Some(o)
}

/// Rewrites compressed payloads (meshes, bitmaps) into their uncompressed content, so that
/// streams are compared independent of compressor choices. Lengths are checked on the way.
pub fn norm(s: &Streams) -> Result<Streams, String> {
    let mut o = Streams::new();
    for (k, v) in s {
        let d = if k.starts_with("/GameStg/GameItem") && v.starts_with(&19u32.to_le_bytes()) {
            norm_primitive(v).map_err(|e| format!("{k}: {e}"))?
        } else if k.starts_with("/GameStg/Image") {
            norm_image(v).map_err(|e| format!("{k}: {e}"))?
        } else {
            v.clone()
        };
        o.insert(k.clone(), d);
    }
    Ok(o)
}

fn norm_primitive(v: &[u8]) -> Result<Vec<u8>, String> {
    let recs = split_records(&v[4..]).ok_or("bad records")?;
    let mut o = v[..4].to_vec();
    let mut len: Option<u32> = None;
    for (t, d) in recs {
        match t.as_str() {
            "M3CY" | "M3CJ" | "M3AY" => {
                len = Some(u32::from_le_bytes(d[..].try_into().map_err(|_| "bad length")?));
            }
            "M3CX" | "M3CI" | "M3AX" => {
                if len.take() != Some(d.len() as u32) {
                    return Err(format!("{t}: stated length differs from the data length {}", d.len()));
                }
                let raw = unzlib(&d).ok_or_else(|| format!("{t}: not a zlib stream"))?;
                o.extend(rec(&t, &raw));
            }
            _ => o.extend(rec(&t, &d)),
        }
    }
    Ok(o)
}

fn norm_image(v: &[u8]) -> Result<Vec<u8>, String> {
    // bitmap record: size 4, then blocks until ALTV
    let mut p = 0;
    let mut o = vec![];
    while p + 8 <= v.len() {
        let n = u32::from_le_bytes(v[p..p + 4].try_into().unwrap()) as usize;
        let tag = &v[p + 4..p + 8];
        if tag == b"BITS" {
            let start = p + 8;
            let m = v[start..]
                .windows(8)
                .position(|w| w == b"\x08\x00\x00\x00ALTV")
                .ok_or("no end of bitmap")?;
            let d = lzw::decode(&v[start..start + m]).map_err(|e| format!("bitmap: {e}"))?;
            o.extend_from_slice(&v[p..p + 8]);
            o.extend(d.data);
            p = start + m;
        } else if tag == b"JPEG" {
            // nested list ends with ENDB
            let mut q = p + 8;
            loop {
                let n = u32::from_le_bytes(v[q..q + 4].try_into().unwrap()) as usize;
                let e = &v[q + 4..q + 8] == b"ENDB";
                q += 4 + n;
                if e {
                    break;
                }
            }
            o.extend_from_slice(&v[p..q]);
            p = q;
        } else {
            o.extend_from_slice(v.get(p..p + 4 + n).ok_or("bad record")?);
            p += 4 + n;
        }
    }
    Ok(o)
}

/// Extract, assemble, write: every stream must come back; extracting again gives the same files.
pub fn exp_roundtrip(t: &Table, f: Pmf, derived: bool) -> Result<u64, String> {
    let orig = t.streams();
    let v = load(&build(&orig))?;
    let exp = norm(&orig)?;
    let fs = extract(&v, f, derived)?;
    let v2 = assemble(&fs)?;
    let got = dump(&save(&v2)?)?;
    if let Some(d) = diff_streams(&exp, &norm(&got)?) {
        return Err(d);
    }
    let fs2 = extract(&v2, f, derived).map_err(|e| format!("second time: {e}"))?;
    if let Some(d) = diff_files(&files(&fs), &files(&fs2)) {
        return Err(format!("extracting again: {d}"));
    }
    Ok(hash_of(&files(&fs)))
}

/// A mesh as stored: 32 byte vertices and indices.
#[derive(Clone, Debug)]
pub struct Mesh {
    pub verts: Vec<[u32; 8]>,
    pub idx: Vec<u32>,
    pub frames: Vec<Vec<[u32; 6]>>,
}
impl Mesh {
    /// `n` distinct vertices, `f` faces.
    pub fn new(n: usize, f: usize) -> Mesh {
        let fl = |x: f32| x.to_bits();
        Mesh {
            verts: (0..n)
                .map(|i| {
                    let i = i as f32;
                    [fl(i), fl(i * 0.5 + 0.1), fl(-i), fl(0.6), fl(-0.8 + i * 1e-3), fl(0.1), fl(i * 0.01), fl(1.0 - i * 0.01)]
                })
                .collect(),
            idx: (0..f * 3).map(|k| ((k * 7 + k / 3) % n.max(1)) as u32).collect(),
            frames: vec![],
        }
    }
    pub fn vbytes(&self) -> Vec<u8> {
        self.verts.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn ibytes(&self) -> Vec<u8> {
        if self.verts.len() > 65535 {
            self.idx.iter().flat_map(|x| x.to_le_bytes()).collect()
        } else {
            self.idx.iter().flat_map(|x| (*x as u16).to_le_bytes()).collect()
        }
    }
    pub fn with_frames(mut self, n: usize) -> Mesh {
        self.frames = (0..n)
            .map(|k| {
                self.verts
                    .iter()
                    .enumerate()
                    .map(|(i, v)| [(k as f32 * 10.0 + i as f32 + 0.3).to_bits(), v[1], v[2], v[3], (0.1 * k as f32).to_bits(), v[5]])
                    .collect()
            })
            .collect();
        self
    }
}

/// Primitive field values with the mesh records of `m` (or none).
pub fn prim_vals(g: &Gen, m: Option<&Mesh>) -> Vec<Val> {
    let l = g.spec.get("Primitive");
    let mut v = g.base_vals(l);
    for (f, val) in l.fields.iter().zip(v.iter_mut()) {
        let t = f.tag.as_str();
        let Some(m) = m else {
            if t.starts_with("M3") && t != "M3DN" {
                val.enc = vec![];
            }
            continue;
        };
        let (vb, ib) = (zlib(&m.vbytes()), zlib(&m.ibytes()));
        val.enc = match t {
            "M3VN" => rec(t, &(m.verts.len() as u32).to_le_bytes()),
            "M3CY" => rec(t, &(vb.len() as u32).to_le_bytes()),
            "M3CX" => rec(t, &vb),
            "M3FN" => rec(t, &(m.idx.len() as u32).to_le_bytes()),
            "M3CJ" => rec(t, &(ib.len() as u32).to_le_bytes()),
            "M3CI" => rec(t, &ib),
            "M3AY" => m
                .frames
                .iter()
                .flat_map(|fr| {
                    let raw: Vec<u8> = fr.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
                    let z = zlib(&raw);
                    let mut e = rec("M3AY", &(z.len() as u32).to_le_bytes());
                    e.extend(rec("M3AX", &z));
                    e
                })
                .collect(),
            _ => continue,
        };
    }
    v
}
pub fn prim_item(g: &Gen, m: Option<&Mesh>) -> Vec<u8> {
    let v = prim_vals(g, m);
    g.item_bytes(g.spec.get("Primitive"), &v.iter().collect::<Vec<_>>())
}

/// Base values of an item whose content can be extracted (valid meshes).
pub fn exp_base(g: &Gen, l: &Layout) -> Vec<Val> {
    if l.name == "Primitive" {
        prim_vals(g, Some(&Mesh::new(5, 3)))
    } else {
        g.base_vals(l)
    }
}
pub fn is_mesh_tag(t: &str) -> bool {
    ["M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI", "M3AY"].contains(&t)
}
/// Base, singles and optional patterns built on extractable base values.
pub fn exp_variants(g: &Gen, l: &Layout) -> Vec<Variant> {
    let base = exp_base(g, l);
    let prim = l.name == "Primitive";
    let mk = |label: String, f: &dyn Fn(usize) -> Option<Vec<u8>>| {
        let vals: Vec<Val> = base
            .iter()
            .enumerate()
            .map(|(k, b)| match f(k) {
                Some(e) => Val { label: String::new(), enc: e, j: J::Opaque },
                None => b.clone(),
            })
            .collect();
        Variant { label, bytes: g.item_bytes(l, &vals.iter().collect::<Vec<_>>()) }
    };
    let mut out = vec![mk(format!("{}/base", l.name), &|_| None)];
    for (i, f) in l.fields.iter().enumerate() {
        if prim && is_mesh_tag(&f.tag) {
            continue;
        }
        for a in g.menu(f, i) {
            out.push(mk(format!("{}/{}={}", l.name, f.tag, a.label), &|k| (k == i).then(|| a.enc.clone())));
        }
    }
    let opts: Vec<usize> = l
        .fields
        .iter()
        .enumerate()
        .filter(|(_, f)| f.req != Req::Req && !(prim && is_mesh_tag(&f.tag)))
        .map(|(i, _)| i)
        .collect();
    if !opts.is_empty() {
        out.push(mk(format!("{}/opts=none", l.name), &|k| opts.contains(&k).then(Vec::new)));
        for o in &opts {
            out.push(mk(format!("{}/opts=only:{}", l.name, l.fields[*o].tag), &|k| {
                (opts.contains(&k) && k != *o).then(Vec::new)
            }));
        }
        for (n, a) in opts.iter().enumerate() {
            for b in &opts[n + 1..] {
                out.push(mk(
                    format!("{}/opts=without:{},{}", l.name, l.fields[*a].tag, l.fields[*b].tag),
                    &|k| (k == *a || k == *b).then(Vec::new),
                ));
            }
        }
    }
    if prim {
        out.push(Variant { label: "Primitive/nomesh".into(), bytes: prim_item(g, None) });
        for n in [1usize, 2, 3, 100] {
            for f in [0usize, 1, 2, 50] {
                for fr in [0usize, 1, 3, 11] {
                    out.push(Variant {
                        label: format!("Primitive/mesh={n},{f},{fr}"),
                        bytes: prim_item(g, Some(&Mesh::new(n, f).with_frames(fr))),
                    });
                }
            }
        }
    }
    out
}
