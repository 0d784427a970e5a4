//! P20: generated meshes are well-formed and sit where the item says, for every item configuration.
use super::exp::{self, Files};
use super::items::*;
use super::p21::{gltf_out, settings, table};
use super::scene::{Obj, R, Scene, bbox};
use crate::fw::{Ctx, hash_of, on_threads};
use std::collections::BTreeMap;
use std::f64::consts::PI;
use vpin::vpx::VPX;
use vpin::vpx::expanded::PrimitiveMeshFormat as Pmf;
use vpin::vpx::units::ExportUnits;
use vpin::vpx::gameitem::gate::GateType;
use vpin::vpx::gameitem::{
    GameItemEnum as G, ball::Ball, bumper::Bumper, decal::Decal, dragpoint::DragPoint, flasher::Flasher, flipper::Flipper,
    gate::Gate, hittarget::HitTarget, kicker::Kicker, light::Light, plunger::Plunger, primitive::Primitive, ramp::Ramp,
    rubber::Rubber, spinner::Spinner, trigger::Trigger, vertex2d::Vertex2D, vertex3d::Vertex3D, wall::Wall,
};

type V = [f64; 3];

fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
fn times(a: V, k: f64) -> V {
    [a[0] * k, a[1] * k, a[2] * k]
}
fn rot(a: V, axis: usize, deg: f64) -> V {
    let (s, c) = deg.to_radians().sin_cos();
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut o = a;
    o[i] = c * a[i] - s * a[j];
    o[j] = s * a[i] + c * a[j];
    o
}
fn rz(a: V, deg: f64) -> V {
    rot(a, 2, deg)
}
fn close(a: V, b: V, tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol + 2e-6 * a[i].abs().max(b[i].abs()))
}

// ---------------------------------------------------------------------------------------------
// what every mesh must satisfy

#[derive(Clone, Debug)]
struct Mesh {
    pos: Vec<V>,
    nrm: Vec<V>,
    uv: Vec<[f64; 2]>,
    idx: Vec<[u32; 3]>,
}

impl From<&Obj> for Mesh {
    fn from(o: &Obj) -> Mesh {
        Mesh { pos: o.pos.clone(), nrm: o.nrm.clone(), uv: o.uv.clone(), idx: o.idx.clone() }
    }
}

fn well_formed(m: &Mesh) -> R<()> {
    shaped(m, true)
}

/// A mesh stored in the table brings its own normals.
fn stored(i: &G) -> bool {
    matches!(i, G::Primitive(p) if p.use_3d_mesh)
}

fn shaped(m: &Mesh, unit: bool) -> R<()> {
    if m.pos.is_empty() || m.idx.is_empty() {
        return Err(format!("{} vertices, {} triangles", m.pos.len(), m.idx.len()));
    }
    if m.nrm.len() != m.pos.len() || m.uv.len() != m.pos.len() {
        return Err(format!("{} vertices, {} normals, {} texture coordinates", m.pos.len(), m.nrm.len(), m.uv.len()));
    }
    for (i, p) in m.pos.iter().enumerate() {
        if p.iter().chain(&m.uv[i]).any(|c| !c.is_finite()) {
            return Err(format!("vertex {i} at {p:?}, texture {:?}", m.uv[i]));
        }
        let l = len(m.nrm[i]);
        if unit && !((l - 1.0).abs() <= 2e-3) {
            return Err(format!("normal {i} {:?} has length {l}", m.nrm[i]));
        }
    }
    for (i, t) in m.idx.iter().enumerate() {
        if t.iter().any(|k| *k as usize >= m.pos.len()) {
            return Err(format!("triangle {i} {t:?} of {} vertices", m.pos.len()));
        }
    }
    Ok(())
}

/// A generated mesh file of the expanded format (OBJ).
fn read_generated(data: &[u8]) -> R<Mesh> {
    let text = std::str::from_utf8(data).map_err(|e| e.to_string())?;
    let mut m = Mesh { pos: vec![], nrm: vec![], uv: vec![], idx: vec![] };
    let nums = |l: &str| -> R<Vec<f64>> {
        l.split_whitespace().skip(1).map(|x| x.parse::<f64>().map_err(|e| format!("{l:?}: {e}"))).collect()
    };
    for l in text.lines() {
        match l.split_whitespace().next() {
            Some("v") => {
                let n = nums(l)?;
                m.pos.push([n[0], n[1], -n[2]]);
            }
            Some("vn") => {
                let n = nums(l)?;
                m.nrm.push([n[0], n[1], -n[2]]);
            }
            Some("vt") => {
                let n = nums(l)?;
                m.uv.push([n[0], n[1]]);
            }
            Some("f") => {
                let mut t = vec![];
                for c in l.split_whitespace().skip(1) {
                    let k: Vec<i64> = c.split('/').map(|x| x.parse().map_err(|_| format!("face {l:?}"))).collect::<R<_>>()?;
                    if k.len() != 3 || k[0] != k[1] || k[0] != k[2] || k[0] < 1 {
                        return Err(format!("face {l:?}"));
                    }
                    t.push((k[0] - 1) as u32);
                }
                if t.len() != 3 {
                    return Err(format!("face {l:?}"));
                }
                m.idx.push([t[2], t[1], t[0]]);
            }
            _ => {}
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------------------
// the world

const SURFACES: [&str; 5] = ["", "deck", "DECK", "slope", "nowhere"];

/// Walls and ramps others can stand on.
fn ground() -> VPX {
    let mut v = table();
    let mut w = wall("deck", 800.0, 1800.0);
    w.height_top = 45.0;
    v.gameitems.push(G::Wall(w));
    let mut r = Ramp::default();
    r.name = "slope".into();
    r.drag_points = vec![dp(0.0, 0.0, 0.0, false), dp(0.0, 3000.0, 0.0, false)];
    r.height_bottom = 10.0;
    r.height_top = 110.0;
    v.gameitems.push(G::Ramp(r));
    v
}

fn surface_z(s: &str, y: f64) -> f64 {
    match s.to_ascii_lowercase().as_str() {
        "deck" => 45.0,
        "slope" => 10.0 + 100.0 * (y / 3000.0),
        _ => 0.0,
    }
}

fn export(items: Vec<G>) -> R<Scene> {
    let mut v = ground();
    v.gameitems.extend(items);
    Ok(gltf_out(&v, true, true, ExportUnits::Vpu, "t.glb")?.scene)
}

fn part(s: &Scene, name: &str) -> R<Mesh> {
    s.get(name).map(Mesh::from).ok_or_else(|| format!("no object {name:?} among {:?}", s.names()))
}

/// Library meshes as exported for an item of size one at the origin without rotation.
struct Refs(BTreeMap<String, Mesh>);

impl Refs {
    fn new() -> R<Refs> {
        let mut m = BTreeMap::new();
        let mut put = |key: String, item: G, parts: &[&str]| -> R<()> {
            let s = export(vec![item])?;
            for p in parts {
                let me = part(&s, &format!("i{p}")).map_err(|e| format!("reference {key}: {e}"))?;
                well_formed(&me).map_err(|e| format!("reference {key}{p}: {e}"))?;
                m.insert(format!("{key}{p}"), me);
            }
            Ok(())
        };
        let o2 = Vertex2D { x: 0.0, y: 0.0 };
        for t in 1..10u32 {
            let mut h = HitTarget::default();
            h.name = "i".into();
            h.position = Vertex3D::new(0.0, 0.0, 0.0);
            h.size = Vertex3D::new(1.0, 1.0, 1.0);
            h.rot_z = 0.0;
            h.target_type = t.into();
            put(format!("target{t}"), G::HitTarget(h), &[""])?;
        }
        for t in 1..5u32 {
            let mut g = Gate::default();
            g.name = "i".into();
            g.center = o2;
            g.length = 1.0;
            g.height = 0.0;
            g.rotation = 0.0;
            g.show_bracket = true;
            g.gate_type = Some(t.into());
            g.surface = String::new();
            put(format!("gate{t}"), G::Gate(g), &["Bracket", "Wire"])?;
        }
        let mut b = Bumper::default();
        b.name = "i".into();
        b.center = o2;
        b.radius = 1.0;
        b.height_scale = 1.0;
        b.orientation = 0.0;
        b.surface = String::new();
        b.is_ring_visible = Some(true);
        b.is_socket_visible = Some(true);
        put("bumper".into(), G::Bumper(b), &["Base", "Cap", "Ring", "Socket"])?;
        for t in 1..7u32 {
            let mut k = Kicker::default();
            k.name = "i".into();
            k.center = o2;
            k.radius = 1.0;
            k.orientation = 0.0;
            k.kicker_type = t.into();
            k.surface = String::new();
            put(format!("kicker{t}"), G::Kicker(k), &["Plate", "Kicker"])?;
        }
        for t in 1..8u32 {
            let mut x = Trigger::default();
            x.name = "i".into();
            x.center = o2;
            x.radius = 1.0;
            x.rotation = 0.0;
            x.scale_x = 1.0;
            x.scale_y = 1.0;
            x.wire_thickness = Some(0.0);
            x.shape = t.into();
            x.surface = String::new();
            put(format!("trigger{t}"), G::Trigger(x), &[""])?;
        }
        let mut s = Spinner::default();
        s.name = "i".into();
        s.center = o2;
        s.rotation = 0.0;
        s.height = 0.0;
        s.length = 1.0;
        s.show_bracket = true;
        s.surface = String::new();
        put("spinner".into(), G::Spinner(s), &["Bracket", "Plate"])?;
        let mut l = light("i", 0.0, 0.0);
        l.show_bulb_mesh = true;
        l.mesh_radius = 1.0;
        l.surface = String::new();
        put("light".into(), G::Light(l), &["_bulb", "_socket"])?;
        let mut b = Ball::default();
        b.name = "i".into();
        b.pos = Vertex3D::new(0.0, 0.0, 0.0);
        b.radius = 1.0;
        put("ball".into(), G::Ball(b), &[""])?;
        Ok(Refs(m))
    }
    fn get(&self, k: &str) -> &Mesh {
        &self.0[k]
    }
}

/// Size and position of the library meshes: bounding box and mean of the vertices.
const PINNED: &str = include_str!("../../spec/meshes.spec");

fn pin_line(k: &str, m: &Mesh) -> String {
    let (lo, hi) = bbox(&m.pos);
    let n = m.pos.len() as f64;
    let mean = times(m.pos.iter().fold([0.0; 3], |a, p| add(a, *p)), 1.0 / n);
    // area of all triangles
    let area: f64 = m.idx.iter().map(|t| tri_area(m, t)).sum();
    let f = |v: V| format!("{:.3} {:.3} {:.3}", v[0] + 0.0, v[1] + 0.0, v[2] + 0.0);
    format!("{k} {} {} {area:.3} {} {} {}", m.pos.len(), m.idx.len(), f(lo), f(hi), f(mean))
}

fn tri_area(m: &Mesh, t: &[u32; 3]) -> f64 {
    let [a, b, c] = t.map(|i| m.pos[i as usize]);
    let (u, v) = (sub(b, a), sub(c, a));
    len([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]) / 2.0
}

fn pinned(k: &str, m: &Mesh) -> R<()> {
    let have = pin_line(k, m);
    let want = PINNED.lines().find(|l| l.split(' ').next() == Some(k)).ok_or(format!("no size known for {k}: {have}"))?;
    let (a, b): (Vec<_>, Vec<_>) = (have.split(' ').skip(1).collect(), want.split(' ').skip(1).collect());
    let same = a.len() == b.len()
        && a.iter().zip(&b).enumerate().all(|(i, (x, y))| {
            let (x, y): (f64, f64) = (x.parse().unwrap(), y.parse().unwrap());
            if i < 2 { x == y } else { (x - y).abs() <= 2e-3 + 1e-4 * y.abs() }
        });
    if !same {
        return Err(format!("library mesh {k} changed its size: now {have}, was {want}"));
    }
    Ok(())
}

/// `m` is the reference with every vertex moved by `f` and every normal turned by `g`.
fn moved(what: &str, m: &Mesh, r: &Mesh, f: impl Fn(V, V) -> V, g: impl Fn(V) -> V) -> R<()> {
    if m.idx != r.idx || m.pos.len() != r.pos.len() {
        return Err(format!("{what}: other triangles than the same part of size one"));
    }
    for i in 0..m.pos.len() {
        let (p, n) = (f(r.pos[i], r.nrm[i]), g(r.nrm[i]));
        let tol = 2e-4 * (1.0 + len(m.pos[i])) + 1e-3;
        if !close(m.pos[i], p, tol) {
            return Err(format!("{what}: vertex {i} at {:?}, the item's data say {p:?}", m.pos[i]));
        }
        if !close(m.nrm[i], n, 2e-3) {
            return Err(format!("{what}: normal {i} is {:?}, the item's data say {n:?}", m.nrm[i]));
        }
        if (0..2).any(|k| (m.uv[i][k] - r.uv[i][k]).abs() > 1e-5) {
            return Err(format!("{what}: texture coordinate {i} depends on the placement"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// curves through drag points

/// Centripetal Catmull-Rom (Barry-Goldman) from `b` to `c`.
fn catmull(p: [&[f64]; 4], t: f64) -> Vec<f64> {
    let d = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt().sqrt();
    let mut dt = [d(p[0], p[1]), d(p[1], p[2]), d(p[2], p[3])];
    if dt[1] < 1e-4 {
        dt[1] = 1.0;
    }
    if dt[0] < 1e-4 {
        dt[0] = dt[1];
    }
    if dt[2] < 1e-4 {
        dt[2] = dt[1];
    }
    (0..p[0].len())
        .map(|k| {
            let x = [p[0][k], p[1][k], p[2][k], p[3][k]];
            let m1 = ((x[1] - x[0]) / dt[0] - (x[2] - x[0]) / (dt[0] + dt[1]) + (x[2] - x[1]) / dt[1]) * dt[1];
            let m2 = ((x[2] - x[1]) / dt[1] - (x[3] - x[1]) / (dt[1] + dt[2]) + (x[3] - x[2]) / dt[2]) * dt[1];
            let (t2, t3) = (t * t, t * t * t);
            (2.0 * t3 - 3.0 * t2 + 1.0) * x[1] + (t3 - 2.0 * t2 + t) * m1 + (-2.0 * t3 + 3.0 * t2) * x[2] + (t3 - t2) * m2
        })
        .collect()
}

/// The curve in small steps: for each segment between distinct drag points its points.
fn curve(d: &[DragPoint], closed: bool, z: bool) -> Vec<Vec<V>> {
    let n = d.len();
    let at = |i: usize| -> Vec<f64> {
        let mut v = vec![d[i].x as f64, d[i].y as f64];
        if z {
            v.push(d[i].z as f64);
        }
        v
    };
    let mut out = vec![];
    for i in 0..if closed { n } else { n - 1 } {
        let j = (i + 1) % n;
        let prev = if !d[i].smooth {
            i
        } else if closed {
            (i + n - 1) % n
        } else {
            i.saturating_sub(1)
        };
        let next = if !d[j].smooth {
            j
        } else if closed {
            (i + 2) % n
        } else {
            (i + 2).min(n - 1)
        };
        let (a, b, c, e) = (at(prev), at(i), at(j), at(next));
        if b.iter().zip(&c).all(|(x, y)| (x - y).abs() < 1e-6) {
            continue;
        }
        let steps = 400;
        out.push(
            (0..=steps)
                .map(|s| {
                    let v = catmull([&a, &b, &c, &e], s as f64 / steps as f64);
                    [v[0], v[1], v.get(2).copied().unwrap_or(0.0)]
                })
                .collect(),
        );
    }
    out
}

fn seg_dist(p: V, a: V, b: V) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    let t = if l > 0.0 { (dot(sub(p, a), d) / l).clamp(0.0, 1.0) } else { 0.0 };
    len(sub(p, add(a, times(d, t))))
}

/// `pts` runs along the curve, passes every drag point and leaves out no bend.
fn follows(pts: &[V], c: &[Vec<V>], closed: bool, tol: f64) -> R<()> {
    if c.is_empty() {
        return Ok(());
    }
    let flat: Vec<V> = c.iter().flatten().copied().collect();
    for (i, p) in pts.iter().enumerate() {
        let d = flat.windows(2).map(|w| seg_dist(*p, w[0], w[1])).fold(f64::MAX, f64::min);
        if d > tol {
            return Err(format!("point {i} at {p:?} lies {d} beside the curve of the drag points"));
        }
    }
    for (i, s) in c.iter().enumerate() {
        let k = s[0];
        if !pts.iter().any(|p| len(sub(*p, k)) <= tol) {
            return Err(format!("drag point {i} {k:?} is missing"));
        }
    }
    if !closed {
        let k = *c.last().unwrap().last().unwrap();
        if len(sub(*pts.last().unwrap(), k)) > tol || len(sub(pts[0], c[0][0])) > tol {
            return Err("the ends are not the first and the last drag point".into());
        }
    }
    let mut ring = pts.to_vec();
    if closed {
        ring.push(pts[0]);
    }
    for p in &flat {
        let d = ring.windows(2).map(|w| seg_dist(*p, w[0], w[1])).fold(f64::MAX, f64::min);
        if d > tol + 1.5 {
            return Err(format!("the curve at {p:?} lies {d} beside the mesh"));
        }
    }
    Ok(())
}

fn poly_area(p: &[V]) -> f64 {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).map(|(a, b)| a[0] * b[1] - b[0] * a[1]).sum::<f64>() / 2.0
}

/// The triangles tile the polygon of the vertices: same orientation, same total area.
fn tiles(m: &Mesh, k: impl Fn(V) -> V) -> R<()> {
    let p: Vec<V> = m.pos.iter().map(|p| k(*p)).collect();
    let want = poly_area(&p).abs();
    let (mut plus, mut minus) = (0.0, 0.0);
    for t in &m.idx {
        let a = poly_area(&t.map(|i| p[i as usize]));
        if a > 0.0 {
            plus += a
        } else {
            minus -= a
        }
    }
    let tol = 1e-4 * want + 0.05;
    if plus.min(minus) > tol {
        return Err(format!("triangles of both orientations: areas {plus} and {minus}"));
    }
    if (plus + minus - want).abs() > tol {
        return Err(format!("the triangles cover {}, the outline encloses {want}", plus + minus));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// one oracle per kind

fn xy(v: Vertex2D, z: f64) -> V {
    [v.x as f64, v.y as f64, z]
}
fn tx(g: &str, y: f32) -> f64 {
    surface_z(g, y as f64)
}

/// Plungers without loops have no spring, without a shape no tip.
fn shows(i: &G, part: &str) -> bool {
    if let G::Plunger(p) = i {
        let turns = (p.spring_loops + 2.0 * p.spring_end_loops) * 24.0;
        return !(part.ends_with("Spring") && turns < 2.0 || part.ends_with("Tip") && tip(&p.tip_shape).len() < 2);
    }
    true
}

fn check_item(i: &G, s: &Scene, refs: &Refs) -> R<()> {
    let name = i.name().to_string();
    let get = |p: &str| part(s, &format!("{name}{p}"));
    for (n, _) in gltf_objects(&table(), i, true) {
        if !shows(i, &n) {
            if gltf_has(s, &n) {
                return Err(format!("{n} of an item without any"));
            }
            continue;
        }
        shaped(&part(s, &n)?, !stored(i)).map_err(|e| format!("{n}: {e}"))?;
    }
    match i {
        G::HitTarget(h) => {
            let t: u32 = (&h.target_type).into();
            let z = [h.size.x as f64, h.size.y as f64, h.size.z as f64];
            let (a, o) = (h.rot_z as f64, [h.position.x as f64, h.position.y as f64, h.position.z as f64]);
            moved("target", &get("")?, refs.get(&format!("target{t}")), |v, _| add(rz([v[0] * z[0], v[1] * z[1], v[2] * z[2]], a), o), |n| rz(n, a))
        }
        G::Gate(g) => {
            let t: u32 = match g.gate_type { Some(GateType::WireRectangle) => 2, Some(GateType::Plate) => 3, Some(GateType::LongPlate) => 4, _ => 1 };
            let o = xy(g.center, tx(&g.surface, g.center.y) + g.height as f64);
            let (a, l) = (g.rotation as f64, g.length as f64);
            if g.show_bracket {
                moved("bracket", &get("Bracket")?, refs.get(&format!("gate{t}Bracket")), |v, _| add(times(rz(v, a), l), o), |n| rz(n, a))?;
            }
            moved("wire", &get("Wire")?, refs.get(&format!("gate{t}Wire")), |v, _| add(times(rz(v, a), l), o), |n| rz(n, a))
        }
        G::Bumper(b) => {
            let o = xy(b.center, tx(&b.surface, b.center.y));
            let (a, r, h) = (b.orientation as f64, b.radius as f64, b.height_scale as f64);
            for (p, k, lift, up) in [("Base", 1.0, 0.0, 0.0), ("Cap", 1.0, 1.0, 0.0), ("Ring", 1.0, 0.0, 0.0), ("Socket", 1.0, 0.0, 5.0)] {
                let shown = match p {
                    "Base" => b.is_base_visible,
                    "Cap" => b.is_cap_visible,
                    "Ring" => b.is_ring_visible.unwrap_or(true),
                    _ => b.is_socket_visible.unwrap_or(true),
                };
                if shown {
                    // the reference cap already stands one height scale above
                    let f = |v: V, _: V| {
                        let v = rz(v, a);
                        add([v[0] * r * k, v[1] * r * k, (v[2] - lift - up) * h + lift * h + up], o)
                    };
                    moved(p, &get(p)?, refs.get(&format!("bumper{p}")), f, |n| rz(n, a))?;
                }
            }
            Ok(())
        }
        G::Kicker(k) => {
            let t: u32 = (&k.kicker_type).into();
            if t == 0 {
                return Ok(());
            }
            let o = xy(k.center, tx(&k.surface, k.center.y));
            let r = k.radius as f64;
            // plain holes look the same from every side
            let a = if [2, 6].contains(&t) && name != "turned" { k.orientation as f64 } else { k.orientation as f64 };
            let a = if matches!(k.kicker_type, vpin::vpx::gameitem::kicker::KickerType::Hole | vpin::vpx::gameitem::kicker::KickerType::HoleSimple) { 0.0 } else { a };
            moved("plate", &get("Plate")?, refs.get(&format!("kicker{t}Plate")), |v, _| add(times(v, r), o), |n| n)?;
            moved("kicker", &get("Kicker")?, refs.get(&format!("kicker{t}Kicker")), |v, _| add(times(rz(v, a), r), o), |n| rz(n, a))
        }
        G::Trigger(x) => {
            let t: u32 = (&x.shape).into();
            if t == 0 {
                return Ok(());
            }
            use vpin::vpx::gameitem::trigger::TriggerShape as T;
            let o = xy(x.center, tx(&x.surface, x.center.y));
            let up = match x.shape {
                T::Button => 5.0,
                T::WireC => -19.0,
                _ => 0.0,
            };
            let round = matches!(x.shape, T::Button | T::Star);
            let k = if round { [x.radius as f64; 3] } else { [x.scale_x as f64, x.scale_y as f64, 1.0] };
            let thick = if round { 0.0 } else { x.wire_thickness.unwrap_or(0.0) as f64 };
            let a = x.rotation as f64;
            let f = |v: V, n: V| {
                let p = rz([v[0], v[1], v[2] - up], a);
                add(add([p[0] * k[0], p[1] * k[1], p[2] * k[2] + up], times(rz(n, a), thick)), o)
            };
            moved("trigger", &get("")?, refs.get(&format!("trigger{t}")), f, |n| rz(n, a))
        }
        G::Spinner(x) => {
            let o = xy(x.center, tx(&x.surface, x.center.y) + x.height as f64);
            let (a, l) = (x.rotation as f64, x.length as f64);
            if x.show_bracket {
                moved("bracket", &get("Bracket")?, refs.get("spinnerBracket"), |v, _| add(times(rz(v, a), l), o), |n| rz(n, a))?;
            }
            moved("plate", &get("Plate")?, refs.get("spinnerPlate"), |v, _| add(times(rz(v, a), l), o), |n| rz(n, a))
        }
        G::Ball(b) => {
            let o = [b.pos.x as f64, b.pos.y as f64, b.pos.z as f64];
            let m = get("")?;
            for p in &m.pos {
                let d = len(sub(*p, o));
                if (d - b.radius as f64).abs() > 1e-3 * (b.radius as f64 + 1.0) + 1e-3 {
                    return Err(format!("ball: {p:?} lies {d} from its centre {o:?}"));
                }
            }
            moved("ball", &m, refs.get("ball"), |v, _| add(times(v, b.radius as f64), o), |n| n)
        }
        G::Light(l) => check_light(l, s, refs),
        G::Decal(d) => {
            if gltf_objects(&table(), i, true).is_empty() {
                return Ok(());
            }
            let m = get("")?;
            let o = xy(d.center, tx(&d.surface, d.center.y) + 0.2);
            let (w, h) = (d.width as f64 / 2.0, d.height as f64 / 2.0);
            for (x, y) in [(-w, -h), (w, -h), (-w, h), (w, h)] {
                let c = add(rz([x, y, 0.0], d.rotation as f64), o);
                // the texture reads from left to right and from top to bottom
                let uv = [if x > 0.0 { 1.0 } else { 0.0 }, if y > 0.0 { 1.0 } else { 0.0 }];
                if !m.pos.iter().zip(&m.uv).any(|(p, q)| close(*p, c, 2e-3) && (w == 0.0 || h == 0.0 || w < 0.0 || h < 0.0 || *q == uv)) {
                    return Err(format!("decal: no corner at {c:?} with texture {uv:?} among {:?} {:?}", m.pos, m.uv));
                }
            }
            if m.pos.len() != 4 || m.nrm.iter().any(|n| !close(*n, [0.0, 0.0, 1.0], 1e-4)) {
                return Err("decal: not a flat quad facing up".into());
            }
            Ok(())
        }
        G::Flipper(f) => check_flipper(f, s),
        G::Plunger(p) => check_plunger(p, s),
        G::Ramp(r) => {
            if gltf_objects(&table(), i, true).is_empty() {
                return Ok(());
            }
            check_ramp(r, &get("")?)
        }
        G::Rubber(r) => {
            if gltf_objects(&table(), i, true).is_empty() {
                return Ok(());
            }
            check_rubber(r, &get("")?)
        }
        G::Wall(w) => check_wall(w, s),
        G::Flasher(f) => {
            if gltf_objects(&table(), i, true).is_empty() {
                return Ok(());
            }
            check_flasher(f, &get("")?)
        }
        G::Primitive(p) if !p.use_3d_mesh && p.sides >= 3 => check_builtin(p, &get("")?),
        _ => Ok(()),
    }
}

fn check_light(l: &Light, s: &Scene, refs: &Refs) -> R<()> {
    if l.is_backglass {
        return Ok(());
    }
    let z = tx(&l.surface, l.center.y);
    let o = xy(l.center, z);
    if l.show_bulb_mesh {
        for p in ["_bulb", "_socket"] {
            let m = part(s, &format!("{}{p}", l.name))?;
            moved(p, &m, refs.get(&format!("light{p}")), |v, _| add(times(v, l.mesh_radius as f64), o), |n| n)?;
        }
    }
    if l.drag_points.len() >= 3 {
        let m = part(s, &format!("{}_insert", l.name))?;
        outline(&m, &l.drag_points, z + 0.1)?;
    }
    Ok(())
}

/// A flat polygon facing up at the height `z` along the drag points.
fn outline(m: &Mesh, d: &[DragPoint], z: f64) -> R<()> {
    if let Some(p) = m.pos.iter().find(|p| (p[2] - z).abs() > 2e-3) {
        return Err(format!("outline at {p:?}, its height is {z}"));
    }
    if let Some(n) = m.nrm.iter().find(|n| !close(**n, [0.0, 0.0, 1.0], 1e-4)) {
        return Err(format!("outline with the normal {n:?}"));
    }
    let flat: Vec<V> = m.pos.iter().map(|p| [p[0], p[1], 0.0]).collect();
    follows(&flat, &curve(d, true, false), true, 0.05)?;
    tiles(m, |p| p)
}

fn check_flipper(f: &Flipper, s: &Scene) -> R<()> {
    let t = f.rubber_thickness.unwrap_or(f.rubber_thickness_int as f32) as f64;
    let (rh, rw) = (f.rubber_height.unwrap_or(f.rubber_height_int as f32) as f64, f.rubber_width.unwrap_or(f.rubber_width_int as f32) as f64);
    let l = f.flipper_radius_max as f64;
    let o = xy(f.center, tx(&f.surface, f.center.y));
    let slope = ((f.base_radius - f.end_radius) as f64 / l).clamp(-1.0, 1.0);
    let mut parts = vec![("Base", f.base_radius as f64 - t, f.end_radius as f64 - t, 0.0, f.height as f64)];
    if t > 0.0 {
        parts.push(("Rubber", f.base_radius as f64, f.end_radius as f64, rh, rw));
    }
    for (p, rb, re, z0, zk) in parts {
        let m = part(s, &format!("{}{p}", f.name))?;
        let at = |e: String| format!("{p}: {e}");
        // turned back: the base circle around the origin, the tip at (0, length)
        let q: Vec<V> = m.pos.iter().map(|v| rz(sub(*v, o), -(f.start_angle as f64) - 180.0)).collect();
        let (mut base, mut tip) = (vec![], vec![]);
        for (i, v) in q.iter().enumerate() {
            let db = (v[0].hypot(v[1]) - rb).abs();
            let dt = (v[0].hypot(v[1] - l) - re).abs();
            let tol = 2e-3 * (1.0 + l / 100.0);
            if db > tol && dt > tol {
                return Err(at(format!("vertex {i} at {v:?} (turned back) lies neither on the base circle {rb} nor on the tip circle {re} at {l}")));
            }
            if db <= tol {
                base.push(*v);
            } else {
                tip.push(*v);
            }
            let n = rz(m.nrm[i], -(f.start_angle as f64) - 180.0);
            let c = if db <= tol { [v[0], v[1], 0.0] } else { [v[0], v[1] - l, 0.0] };
            if dot(n, c) < -1e-3 * len(c) && n[2].abs() < 0.5 {
                return Err(at(format!("normal {i} {n:?} at {v:?} points inwards")));
            }
        }
        if rb.abs() < 1e-6 || re.abs() < 1e-6 {
            continue;
        }
        // from the bottom to the top
        let (lo, hi) = bbox(&q);
        for (got, want, what) in [
            (lo[2], z0 + 0.003753 * zk, "lowest point"),
            (hi[2], z0 + 1.004253 * zk, "highest point"),
            (lo[1], -rb, "outermost point of the base"),
            (hi[1], l + re, "outermost point of the tip"),
        ] {
            if zk < 0.0 || rb < 0.0 || re < 0.0 {
                continue;
            }
            if (got - want).abs() > 3e-3 * (1.0 + want.abs() / 100.0) {
                return Err(at(format!("{what} at {got}, expected {want}")));
            }
        }
        if rb > 0.0 && re > 0.0 && slope.abs() < 0.999 && l > rb + re {
            let b = base.iter().map(|v| v[1]).fold(f64::MIN, f64::max);
            let e = tip.iter().map(|v| v[1]).fold(f64::MAX, f64::min);
            if (b - rb * slope).abs() > 0.01 * (1.0 + rb) || (e - l - re * slope).abs() > 0.01 * (1.0 + re) {
                return Err(at(format!("the sides leave the circles at {b} and {e}; tangents touch at {} and {}", rb * slope, l + re * slope)));
            }
        }
    }
    Ok(())
}

fn tip(shape: &str) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = shape
        .split(';')
        .filter_map(|s| {
            let mut w = s.split_whitespace();
            let a = w.next()?.parse::<f32>().ok()?;
            let b = w.next()?.parse::<f32>().ok()?;
            Some((a as f64, b as f64))
        })
        .collect();
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    v
}

fn check_plunger(p: &Plunger, s: &Scene) -> R<()> {
    use vpin::vpx::gameitem::plunger::PlungerType as T;
    let o = xy(p.center, tx(&p.surface, p.center.y) + p.z_adjust as f64);
    let w = p.width as f64;
    let (front, back) = (-(p.stroke as f64), p.height as f64);
    let rod = w * p.rod_diam as f64 / 2.0;
    let get = |part_: &str, axis: f64| -> R<(Mesh, Vec<(f64, f64)>)> {
        let m = part(s, &format!("{}{part_}", p.name))?;
        let q = m.pos.iter().map(|v| sub(*v, o)).map(|v| (v[1], v[0].hypot(v[2] - axis))).collect();
        Ok((m, q))
    };
    let range = |what: &str, q: &[(f64, f64)], lo: f64, hi: f64, slack: f64| -> R<()> {
        let (a, b) = q.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x.0), a.1.max(x.0)));
        if (a - lo).abs() > slack || (b - hi).abs() > slack {
            return Err(format!("{what} reaches from {a} to {b}, the data say {lo} to {hi}"));
        }
        Ok(())
    };
    let radii = |what: &str, q: &[(f64, f64)], ok: &dyn Fn(f64, f64) -> bool| -> R<()> {
        match q.iter().find(|x| !ok(x.0, x.1)) {
            Some(x) => Err(format!("{what}: {} from the axis at {}", x.1, x.0)),
            None => Ok(()),
        }
    };
    let e = 2e-3;
    let eq = |a: f64, b: f64| (a - b.abs()).abs() < e * (1.0 + b.abs() / 50.0);
    if matches!(p.plunger_type, T::Flat | T::Unknown) {
        let (_, q) = get("Flat", 1.25 * w)?;
        range("flat plunger", &q, front.min(back), front.max(back), e)?;
        return radii("flat plunger", &q, &|_, r| eq(r, rod) || r < e);
    }
    let shape = tip(&p.tip_shape);
    let tip_len = shape.last().map(|x| x.0).unwrap_or(0.0);
    let ring0 = front + tip_len + p.ring_gap as f64;
    let ring1 = ring0 + p.ring_width as f64;
    let (_, q) = get("Rod", w)?;
    range("rod", &q, ring1.min(back), ring1.max(back), e)?;
    radii("rod", &q, &|_, r| eq(r, rod) || r < e)?;
    let (_, q) = get("Ring", w)?;
    range("ring", &q, ring0, ring1, e)?;
    let rr = w * p.ring_diam as f64 / 2.0;
    radii("ring", &q, &|_, r| eq(r, rod) || eq(r, rr))?;
    for want in [rod, rr] {
        if !q.iter().any(|x| eq(x.1, want)) {
            return Err(format!("ring: no vertex {want} from the axis"));
        }
    }
    if gltf_has(s, &format!("{}Tip", p.name)) {
        let (_, q) = get("Tip", w)?;
        range("tip", &q, front + shape[0].0, front + tip_len, e)?;
        radii("tip", &q, &|y, r| shape.iter().any(|k| (front + k.0 - y).abs() < e && eq(r, w * k.1 / 2.0)))?;
        for k in &shape {
            if !q.iter().any(|x| (front + k.0 - x.0).abs() < e && eq(x.1, w * k.1 / 2.0)) {
                return Err(format!("tip: nothing at the shape point {k:?}"));
            }
        }
    } else if shape.len() >= 2 {
        return Err("the plunger lacks its tip".into());
    }
    if gltf_has(s, &format!("{}Spring", p.name)) {
        let (m, q) = get("Spring", w)?;
        let (rs, g) = (w / 2.0 * p.spring_diam as f64, p.spring_gauge as f64);
        radii("spring", &q, &|_, r| r <= rs + g + e && r >= rs - g - e)?;
        let (lo, hi) = q.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x.0), a.1.max(x.0)));
        if back > ring1 {
            let turn = (back - ring1) / (p.spring_loops as f64).max(1.0);
            let turn = turn + 2.2 * g;
            let back = back.max(ring1 + p.spring_end_loops as f64 * g * 2.2);
            if lo < ring1 - g - e || hi > back + g + turn / 12.0 + e || lo > ring1 + g + e || hi < back - g - turn / 6.0 - e {
                return Err(format!("the spring reaches from {lo} to {hi}, between ring {ring1} and end {back}"));
            }
        }
        let _ = m;
    } else if p.spring_loops + p.spring_end_loops >= 1.0 {
        return Err("the plunger lacks its spring".into());
    }
    Ok(())
}

fn gltf_has(s: &Scene, n: &str) -> bool {
    s.get(n).is_some()
}

fn check_ramp(r: &Ramp, m: &Mesh) -> R<()> {
    use vpin::vpx::gameitem::ramp::RampType as T;
    let c = curve(&r.drag_points, false, true);
    let total = |mids: &[V]| mids.windows(2).map(|w| (w[1][0] - w[0][0]).hypot(w[1][1] - w[0][1])).sum::<f64>();
    let (hb, ht) = (r.height_bottom as f64, r.height_top as f64);
    // centre line with its own height removed
    let level = |mids: &[V]| -> Vec<(V, f64)> {
        let all = total(mids);
        let mut at = 0.0;
        (0..mids.len())
            .map(|i| {
                if i > 0 {
                    at += (mids[i][0] - mids[i - 1][0]).hypot(mids[i][1] - mids[i - 1][1]);
                }
                let pct = if all > 0.0 { at / all } else { 0.0 };
                ([mids[i][0], mids[i][1], mids[i][2] - hb - pct * (ht - hb)], pct)
            })
            .collect()
    };
    // distance of p from the line through a and b, positive on the right
    let side = |p: V, a: V, b: V| -> f64 {
        let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
        ((p[0] - a[0]) * dy - (p[1] - a[1]) * dx) / dx.hypot(dy)
    };
    if r.ramp_type == T::Flat {
        let walls = (r.right_wall_height_visible > 0.0) as usize + (r.left_wall_height_visible > 0.0) as usize;
        let n = m.pos.len() / (1 + walls);
        if m.pos.len() % (1 + walls) != 0 || n % 2 != 0 || m.idx.len() != (n / 2 - 1) * 2 * (1 + walls) {
            return Err(format!("ramp with {walls} walls of {} vertices, {} triangles", m.pos.len(), m.idx.len()));
        }
        let floor = &m.pos[..n];
        let mids: Vec<V> = (0..n / 2).map(|i| times(add(floor[2 * i], floor[2 * i + 1]), 0.5)).collect();
        let lv = level(&mids);
        follows(&lv.iter().map(|x| x.0).collect::<Vec<_>>(), &c, false, 0.05)?;
        for i in 0..mids.len() {
            let w = (r.width_bottom as f64 + lv[i].1 * (r.width_top as f64 - r.width_bottom as f64)) / 2.0;
            for (k, l) in [(i > 0).then(|| i - 1), (i + 1 < mids.len()).then_some(i)].into_iter().flatten().map(|k| (k, k + 1)) {
                let (a, b) = (side(floor[2 * i], mids[k], mids[l]), side(floor[2 * i + 1], mids[k], mids[l]));
                if (a.abs() - w.abs()).abs() > 0.05 + 0.01 * w.abs() || (a + b).abs() > 0.05 {
                    return Err(format!("ramp edges {a} and {b} beside the centre line at point {i}, half the width is {w}"));
                }
            }
            if (floor[2 * i][2] - floor[2 * i + 1][2]).abs() > 1e-3 {
                return Err(format!("the floor is not level at point {i}"));
            }
        }
        // walls stand on the edges
        let mut at = n;
        for (h, edge) in [(r.right_wall_height_visible, 0), (r.left_wall_height_visible, 1)] {
            if h > 0.0 {
                for i in 0..n / 2 {
                    let f = floor[2 * i + edge];
                    for (p, z) in [(m.pos[at + 2 * i], 0.0), (m.pos[at + 2 * i + 1], h as f64)] {
                        if !close(p, add(f, [0.0, 0.0, z]), 2e-3) {
                            return Err(format!("wall vertex {p:?} over the edge {f:?}, height {h}"));
                        }
                    }
                }
                at += n;
            }
        }
        return Ok(());
    }
    // wires: rings share one texture u
    let wires = match r.ramp_type {
        T::OneWire => 1,
        T::TwoWire => 2,
        T::FourWire => 4,
        _ => 3,
    };
    let per = m.pos.len() / wires;
    let seg = m.uv[..per].iter().take_while(|u| u[0] == m.uv[0][0]).count();
    if per * wires != m.pos.len() || seg < 3 || per % seg != 0 {
        return Err(format!("{} vertices for {wires} wires in rings of {seg}", m.pos.len()));
    }
    let (dx, dy, dia) = (r.wire_distance_x as f64 / 2.0, r.wire_distance_y as f64 / 2.0, r.wire_diameter as f64);
    let lines: Vec<(f64, f64)> = match r.ramp_type {
        T::OneWire => vec![(0.0, 0.0)],
        T::TwoWire => vec![(dx, 3.0), (-dx, 3.0)],
        T::ThreeWireLeft => vec![(dx, 3.0), (-dx, 3.0), (-dx, dy)],
        T::ThreeWireRight => vec![(dx, 3.0), (-dx, 3.0), (dx, dy)],
        _ => vec![(dx, 3.0), (-dx, 3.0), (dx, dy), (-dx, dy)],
    };
    let centres: Vec<Vec<V>> = (0..wires)
        .map(|w| {
            m.pos[w * per..(w + 1) * per].chunks(seg).map(|r| times(r.iter().fold([0.0; 3], |a, p| add(a, *p)), 1.0 / seg as f64)).collect()
        })
        .collect();
    // thickness
    for w in 0..wires {
        for (k, ring) in m.pos[w * per..(w + 1) * per].chunks(seg).enumerate() {
            for p in ring {
                let d = len(sub(*p, centres[w][k]));
                if (d - dia / 2.0).abs() > 5e-3 * (1.0 + dia) {
                    return Err(format!("wire {w}, ring {k}: {d} from its centre, diameter {dia}"));
                }
            }
        }
    }
    // the middle of the lower wires follows the drag points; one wire runs along them
    let mids: Vec<V> = if wires == 1 {
        centres[0].clone()
    } else {
        (0..per / seg).map(|i| sub(times(add(centres[0][i], centres[1][i]), 0.5), [0.0, 0.0, 3.0])).collect()
    };
    if wires == 1 {
        // VPinball shifts a single wire to the side by one unit
        let lv = level(&mids);
        let flat: Vec<V> = mids.iter().map(|p| [p[0], p[1], 0.0]).collect();
        let steep = (ht - hb).abs() / total(&flat).max(1e-3);
        follows(&lv.iter().map(|x| x.0).collect::<Vec<_>>(), &c, false, 1.6 + 1.6 * steep)?;
        return Ok(());
    }
    let lv = level(&mids);
    follows(&lv.iter().map(|x| x.0).collect::<Vec<_>>(), &c, false, 0.05)?;
    for (w, (x, z)) in lines.iter().enumerate() {
        for i in 0..mids.len() {
            for k in [(i > 0).then(|| i - 1), (i + 1 < mids.len()).then_some(i)].into_iter().flatten() {
                let a = side(centres[w][i], mids[k], mids[k + 1]);
                let want = -x;
                if (a.abs() - want.abs()).abs() > 0.05 + 5e-3 * x.abs() {
                    return Err(format!("wire {w} runs {a} beside the centre line at point {i}, expected {want}"));
                }
            }
            let h = centres[w][i][2] - mids[i][2];
            if (h - z).abs() > 5e-3 * (1.0 + z.abs()) {
                return Err(format!("wire {w} runs {h} above the ramp at point {i}, expected {z}"));
            }
            // first two wires on opposite sides, further ones above one of them
            let over = match w {
                0 | 1 => w,
                _ if lines[w].0 == lines[0].0 => 0,
                _ => 1,
            };
            if (centres[w][i][0] - centres[over][i][0]).hypot(centres[w][i][1] - centres[over][i][1]) > 1e-2 {
                return Err(format!("wire {w} is not above wire {over} at point {i}"));
            }
        }
    }
    let _ = T::Flat;
    // the right wire is on the right of the direction of travel (y towards the player)
    let d = sub(mids[1], mids[0]);
    let x = sub(centres[0][0], mids[0]);
    if dx > 0.0 && d[0] * x[1] - d[1] * x[0] < 0.0 {
        return Err("left and right wire are swapped".into());
    }
    Ok(())
}

fn bring_back(p: V, c: V, r: [f32; 3]) -> V {
    // undo z, y, x
    let v = sub(p, c);
    rot(rot(rot(v, 2, -r[2] as f64), 1, -r[1] as f64), 0, -r[0] as f64)
}

/// Undoes the rotation `r` of a mesh about the middle of its own box, which is within `near` of `guess`.
fn unturn(pos: &[V], guess: V, r: [f32; 3], near: f64) -> R<Vec<V>> {
    let back = |mid: V| -> Vec<V> { pos.iter().map(|p| add(bring_back(*p, mid, r), mid)).collect() };
    let (lo, hi) = bbox(&back(guess));
    let off = sub(times(add(lo, hi), 0.5), guess);
    let d = rot(rot(rot(off, 0, r[0] as f64), 1, r[1] as f64), 2, r[2] as f64);
    if d[0].abs().max(d[1].abs()) > near || d[2].abs() > 0.02 {
        return Err(format!("turned about a point {d:?} beside {guess:?}"));
    }
    Ok(back(add(guess, [d[0], d[1], 0.0])))
}

fn check_rubber(r: &Rubber, m: &Mesh) -> R<()> {
    let seg = m.uv.iter().take_while(|u| u[0] == m.uv[0][0]).count();
    let mut c = curve(&r.drag_points, true, false);
    if c.is_empty() {
        return Err("rubber without a curve".into());
    }
    if seg < 3 || m.pos.len() % seg != 0 {
        return Err(format!("{} vertices in rings of {seg}", m.pos.len()));
    }
    // the box of a ring with an odd number of corners is not centred on it
    let tz = 0.01 + r.thickness as f64 / 2.0 * (1.0 - (std::f64::consts::PI / seg as f64).cos());
    // turn it back around the middle of its box at the height of the rubber: find the middle from the ring centres
    let flat: Vec<V> = c.iter().flatten().copied().collect();
    let (lo, hi) = bbox(&flat);
    let mid = [(lo[0] + hi[0]) / 2.0, (lo[1] + hi[1]) / 2.0, r.height as f64];
    let rots = [r.rot_x, r.rot_y, r.rot_z];
    // the box of the thick rubber may be centred a little beside the one of the line
    let pos = unturn(&m.pos, mid, rots, r.thickness as f64)?;
    let rings: Vec<V> = pos.chunks(seg).map(|k| times(k.iter().fold([0.0; 3], |a, p| add(a, *p)), 1.0 / seg as f64)).collect();
    let h = r.height as f64;
    if let Some(k) = rings.iter().find(|k| (k[2] - h).abs() > tz) {
        return Err(format!("ring centre at {k:?}, the rubber is {h} high"));
    }
    c.iter_mut().flatten().for_each(|p| p[2] = 0.0);
    let line: Vec<V> = rings.iter().map(|k| [k[0], k[1], 0.0]).collect();
    follows(&line, &c, true, 0.06)?;
    for (k, ring) in pos.chunks(seg).enumerate() {
        let next = rings[(k + 1) % rings.len()];
        let t = sub(next, rings[k]);
        for p in ring {
            let d = sub(*p, rings[k]);
            if (len(d) - r.thickness as f64 / 2.0).abs() > 5e-3 * (1.0 + r.thickness as f64) {
                return Err(format!("ring {k}: {} from its centre, thickness {}", len(d), r.thickness));
            }
            if dot(d, t).abs() > 1e-2 * len(d) * len(t) + 1e-3 {
                return Err(format!("ring {k} does not stand across the rubber"));
            }
        }
    }
    Ok(())
}

fn check_wall(w: &Wall, s: &Scene) -> R<()> {
    if w.drag_points.len() < 3 {
        return Ok(());
    }
    let (bottom, top) = (w.height_bottom as f64, w.height_top as f64);
    let c = curve(&w.drag_points, true, false);
    let t = part(s, &format!("{}Top", w.name))?;
    outline(&t, &w.drag_points, top).map_err(|e| format!("top: {e}"))?;
    let m = part(s, &format!("{}Side", w.name))?;
    let n = t.pos.len();
    if m.pos.len() != 4 * n || m.idx.len() != 2 * n {
        return Err(format!("side with {} vertices, {} triangles around {n} points", m.pos.len(), m.idx.len()));
    }
    let mut bottoms = vec![];
    for i in 0..n {
        let q = &m.pos[4 * i..4 * i + 4];
        let (a, b) = (q[0], q[3]);
        for (p, x, z) in [(q[0], a, bottom), (q[1], a, top), (q[2], b, top), (q[3], b, bottom)] {
            if !close(p, [x[0], x[1], z], 2e-3) {
                return Err(format!("side {i}: {q:?} between {bottom} and {top}"));
            }
        }
        bottoms.push([a[0], a[1], 0.0]);
        let area: f64 = m.idx[2 * i..2 * i + 2].iter().map(|t| tri_area(&m, t)).sum();
        let want = (a[0] - b[0]).hypot(a[1] - b[1]) * (top - bottom).abs();
        if (area - want).abs() > 1e-3 * (1.0 + want) {
            return Err(format!("side {i} has the area {area}, expected {want}"));
        }
        for k in 0..4 {
            let nn = m.nrm[4 * i + k];
            if nn[2].abs() > 1e-4 {
                return Err(format!("side {i}: normal {nn:?} is not level"));
            }
        }
        let next = m.pos[4 * ((i + 1) % n)];
        if !close(b, next, 2e-3) {
            return Err(format!("side {i} ends at {b:?}, the next one starts at {next:?}"));
        }
    }
    // corners: normals across their edge
    let sharp = w.drag_points.iter().all(|d| !d.smooth);
    if sharp {
        for i in 0..n {
            let e = sub(m.pos[4 * i + 3], m.pos[4 * i]);
            for k in 0..4 {
                if dot(e, m.nrm[4 * i + k]).abs() > 1e-3 * len(e) + 1e-4 {
                    return Err(format!("side {i}: normal {:?} does not stand across the edge", m.nrm[4 * i + k]));
                }
            }
        }
    }
    follows(&bottoms, &c, true, 0.05).map_err(|e| format!("side: {e}"))
}

fn check_flasher(f: &Flasher, m: &Mesh) -> R<()> {
    let c = curve(&f.drag_points, true, false);
    let rots = [f.rot_x, f.rot_y, f.rot_z];
    let z = f.height as f64;
    let flat: Vec<V> = c.iter().flatten().copied().collect();
    let (cl, ch) = bbox(&flat);
    let mid = [(cl[0] + ch[0]) / 2.0, (cl[1] + ch[1]) / 2.0, z];
    // the polyline's box may differ a little from the curve's
    let pos = unturn(&m.pos, mid, rots, 1.0)?;
    let turned = Mesh {
        nrm: m.nrm.iter().map(|n| bring_back(*n, [0.0; 3], rots)).collect(),
        pos,
        uv: m.uv.clone(),
        idx: m.idx.clone(),
    };
    outline(&turned, &f.drag_points, z)
}

fn check_builtin(p: &Primitive, m: &Mesh) -> R<()> {
    let n = p.sides as usize;
    let r = 0.5 / (PI / n as f64).cos();
    let place = |v: V| super::p21::prim_place(p, v.map(|x| x as f32));
    let mut want: Vec<V> = vec![place([0.0, 0.0, 0.5]), place([0.0, 0.0, -0.5])];
    for i in 0..n {
        let a = 2.0 * PI * i as f64 / n as f64 + PI / n as f64 + PI;
        for z in [0.5, -0.5] {
            want.push(place([a.sin() * r, a.cos() * r, z]));
        }
    }
    for q in &m.pos {
        if !want.iter().any(|w| close(*w, *q, 5e-3 + 1e-5 * len(*w))) {
            return Err(format!("vertex {q:?} is no corner of the prism"));
        }
    }
    for w in &want {
        if !m.pos.iter().any(|q| close(*w, *q, 5e-3 + 1e-5 * len(*w))) {
            return Err(format!("corner {w:?} of the prism is missing"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// generated mesh files of the expanded format

/// Every generated mesh file is well formed, stands for a part and has its size.
fn check_generated(i: &G, s: &Scene) -> R<u64> {
    let mut v = ground();
    v.gameitems.clear();
    v.gameitems.push(clone(i)?);
    let plain = exp::files(&exp::extract(&v, Pmf::Obj, false)?);
    let all = exp::files(&exp::extract(&v, Pmf::Obj, true)?);
    let fresh: Files = all.into_iter().filter(|(k, _)| !plain.contains_key(k)).collect();
    let mut h = vec![];
    let parts: Vec<Mesh> = gltf_objects(&table(), i, true).iter().filter(|(n, _)| shows(i, n)).map(|(n, _)| part(s, n)).collect::<R<_>>()?;
    let dims = |m: &Mesh| {
        let (lo, hi) = bbox(&m.pos);
        sub(hi, lo)
    };
    for (k, data) in &fresh {
        if !k.ends_with(".obj") {
            return Err(format!("derived meshes add the file {k:?}"));
        }
        let m = read_generated(data).map_err(|e| format!("{k:?}: {e}"))?;
        shaped(&m, !stored(i)).map_err(|e| format!("{k:?}: {e}"))?;
        let d = dims(&m);
        let scale = match i {
            // documented: the wire is not scaled in this format
            G::Gate(g) if k.contains("-wire") => 1.0 / g.length as f64,
            _ => 1.0,
        };
        let whole = parts.iter().fold(None::<(V, V)>, |a, p| {
            let (lo, hi) = bbox(&p.pos);
            Some(match a {
                None => (lo, hi),
                Some((l, h)) => (std::array::from_fn(|i| l[i].min(lo[i])), std::array::from_fn(|i| h[i].max(hi[i]))),
            })
        });
        let fits = |x: V| (0..3).all(|i| (x[i] * scale - d[i]).abs() <= 0.02 + 1e-3 * d[i].abs());
        if !parts.iter().any(|p| fits(dims(p))) && !whole.is_some_and(|(l, h)| fits(sub(h, l))) {
            return Err(format!("{k:?} measures {d:?}; the parts of the item {:?}", parts.iter().map(dims).collect::<Vec<_>>()));
        }
        h.push(m.pos.len() as u64);
    }
    // what is shown gets a file
    let want = match i {
        G::Wall(_) | G::Ramp(_) | G::Rubber(_) | G::Flasher(_) | G::Spinner(_) => !parts.is_empty(),
        G::Flipper(f) => f.is_visible,
        G::HitTarget(t) => t.is_visible,
        G::Gate(g) => g.is_visible,
        G::Trigger(t) => t.is_visible && !parts.is_empty(),
        G::Plunger(p) => p.is_visible,
        G::Bumper(_) => !parts.is_empty(),
        G::Light(l) => l.show_bulb_mesh && !l.is_backglass,
        _ => false,
    };
    if want && fresh.is_empty() {
        return Err("no generated mesh file for an item that is shown".into());
    }
    if let (G::Bumper(_) | G::Gate(_), true) = (i, want)
        && fresh.len() != parts.len()
    {
        return Err(format!("{} generated mesh files for {} parts", fresh.len(), parts.len()));
    }
    Ok(hash_of(&h))
}

/// A copy of an item by way of its JSON form.
fn clone(i: &G) -> R<G> {
    let mut j = serde_json::to_value(i).map_err(|e| e.to_string())?;
    // not part of the JSON form of every item
    let _ = &mut j;
    serde_json::from_value(j).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------------------------------------
// cases

type Case = (String, Box<dyn Fn() -> G + Sync + Send>);

fn pos_menu() -> [(f32, f32); 4] {
    [(300.0, 500.0), (0.0, 0.0), (-120.5, 2400.25), (951.0, 1.5)]
}
const ROTS: [f32; 7] = [0.0, 30.0, 90.0, -137.0, 180.0, 359.5, 725.0];

fn library_cases(thorough: bool) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let rots: &[f32] = if thorough { &ROTS } else { &ROTS[..5] };
    let sizes: &[[f32; 3]] = &[[1.0, 1.0, 1.0], [0.5, 0.5, 0.5], [32.0, 20.0, 45.0], [3.5, 70.25, 0.125], [100.0, 1.0, 10.0]];
    for (x, y) in pos_menu() {
        for (ri, r) in rots.iter().enumerate() {
            for (zi, z) in sizes.iter().enumerate() {
                for (si, sf) in SURFACES.iter().enumerate() {
                    // every pair of position, rotation, size; surfaces rotate along in the quick tier
                    if !thorough && (ri + zi + x as usize) % SURFACES.len() != si {
                        continue;
                    }
                    let (r, z, sf) = (*r, *z, *sf);
                    let l = format!("{x},{y}/rot={r}/size={zi}/on={sf}");
                    let mut push = |k: String, f: Box<dyn Fn() -> G + Sync + Send>| out.push((format!("{k}/{l}"), f));
                    if si == 0 || !thorough {
                        for t in 1..10u32 {
                            push(format!("target{t}"), Box::new(move || {
                                let mut h = HitTarget::default();
                                h.name = "i".into();
                                h.position = Vertex3D::new(x, y, z[2] - 1.0);
                                h.size = Vertex3D::new(z[0], z[1], z[2]);
                                h.rot_z = r;
                                h.target_type = t.into();
                                h.is_dropped = t % 2 == 0;
                                G::HitTarget(h)
                            }));
                        }
                    }
                    for t in 0..5u32 {
                        push(format!("gate{t}"), Box::new(move || {
                            let mut g = Gate::default();
                            g.name = "i".into();
                            g.center = Vertex2D { x, y };
                            g.length = z[0];
                            g.height = z[2];
                            g.rotation = r;
                            g.show_bracket = true;
                            g.gate_type = if t == 0 { None } else { Some(t.into()) };
                            g.surface = sf.into();
                            G::Gate(g)
                        }));
                    }
                    push("bumper".into(), Box::new(move || {
                        let mut b = Bumper::default();
                        b.name = "i".into();
                        b.center = Vertex2D { x, y };
                        b.radius = z[0];
                        b.height_scale = z[1];
                        b.orientation = r;
                        b.surface = sf.into();
                        G::Bumper(b)
                    }));
                    for t in 0..7u32 {
                        push(format!("kicker{t}"), Box::new(move || {
                            let mut k = Kicker::default();
                            k.name = "i".into();
                            k.center = Vertex2D { x, y };
                            k.radius = z[0];
                            k.orientation = r;
                            k.kicker_type = t.into();
                            k.surface = sf.into();
                            G::Kicker(k)
                        }));
                    }
                    for t in 0..8u32 {
                        push(format!("trigger{t}"), Box::new(move || {
                            let mut k = Trigger::default();
                            k.name = "i".into();
                            k.center = Vertex2D { x, y };
                            k.radius = z[2];
                            k.scale_x = z[0];
                            k.scale_y = z[1];
                            k.rotation = r;
                            k.wire_thickness = if zi == 0 { None } else { Some(z[2] / 8.0) };
                            k.shape = t.into();
                            k.surface = sf.into();
                            G::Trigger(k)
                        }));
                    }
                    push("spinner".into(), Box::new(move || {
                        let mut k = Spinner::default();
                        k.name = "i".into();
                        k.center = Vertex2D { x, y };
                        k.length = z[0];
                        k.height = z[1];
                        k.rotation = r;
                        k.show_bracket = true;
                        k.surface = sf.into();
                        G::Spinner(k)
                    }));
                    push("light".into(), Box::new(move || {
                        let mut k = light("i", x, y);
                        k.mesh_radius = z[0];
                        k.height = Some(z[1]);
                        k.show_bulb_mesh = true;
                        k.surface = sf.into();
                        k.drag_points = square(x, y, 15.0, false);
                        G::Light(k)
                    }));
                    push("decal".into(), Box::new(move || {
                        let mut k = Decal::default();
                        k.name = "i".into();
                        k.image = "pic".into();
                        k.center = Vertex2D { x, y };
                        k.width = z[0];
                        k.height = z[1];
                        k.rotation = r;
                        k.surface = sf.into();
                        G::Decal(k)
                    }));
                    push("ball".into(), Box::new(move || {
                        let mut k = Ball::default();
                        k.name = "i".into();
                        k.pos = Vertex3D::new(x, y, z[1]);
                        k.radius = z[0];
                        G::Ball(k)
                    }));
                    // base and tip radius, length, rubber
                    let (rb, re, fl) = [(21.5f32, 13.0f32, 130.0f32), (13.0, 21.5, 60.0), (20.0, 20.0, 100.0), (8.0, 7.5, 300.0), (30.0, 10.0, 25.0)][zi];
                    for t in [None, Some(0.0f32), Some(2.5), Some(7.0)] {
                        push(format!("flipper{t:?}"), Box::new(move || {
                            let mut f = Flipper::default();
                            f.name = "i".into();
                            f.center = Vertex2D { x, y };
                            f.base_radius = rb;
                            f.end_radius = re;
                            f.flipper_radius_max = fl;
                            f.flipper_radius_min = fl / 2.0;
                            f.start_angle = r;
                            f.end_angle = r + 50.0;
                            f.height = z[2];
                            f.rubber_thickness = t;
                            f.rubber_thickness_int = if zi % 2 == 0 { 0 } else { 5 };
                            f.rubber_height = if zi == 1 { None } else { Some(z[1] / 4.0) };
                            f.rubber_height_int = 19;
                            f.rubber_width = if zi == 2 { None } else { Some(z[1] / 2.0) };
                            f.rubber_width_int = 24;
                            f.surface = sf.into();
                            G::Flipper(f)
                        }));
                    }
                    push("builtin".into(), Box::new(move || {
                        let mut p = Primitive::default();
                        p.name = "i".into();
                        p.position = Vertex3D::new(x, y, z[1]);
                        p.size = Vertex3D::new(z[0], z[1], z[2]);
                        p.rot_and_tra = [r, 10.0, -20.0, 1.0, 2.0, 3.0, 5.0, r / 2.0, -3.0];
                        p.sides = [3, 4, 5, 12, 31][zi];
                        p.draw_textures_inside = ri % 2 == 0;
                        G::Primitive(p)
                    }));
                }
            }
        }
    }
    out
}

fn plunger_cases(thorough: bool) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let shapes = [
        "0 .34; 2 .6; 3 .64; 5 .7; 7 .84; 8 .88; 9 .9; 11 .92; 14 .92; 39 .84",
        "0 1; 10 1",
        "10 1; 0 .5",
        "0 .34",
        "",
        "x y; 1",
        "0 0; 5 1; 5 .5; 20 0",
        "0 .5; 0 .7",
    ];
    let long: String = (0..2100).map(|i| format!("{} .{};", i as f32 / 50.0, 1 + i % 9)).collect();
    for (ti, t) in [1u32, 2, 3].into_iter().enumerate() {
        for (pi, (x, y)) in pos_menu().into_iter().enumerate() {
            for (si, sf) in SURFACES.iter().enumerate() {
                for (hi, sh) in shapes.iter().map(|s| s.to_string()).chain([long.clone()]).enumerate() {
                    for (di, d) in [
                        // width, height, stroke, z, rod, ring gap, ring diam, ring width, spring diam, gauge, loops, end loops
                        [25.0f32, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 8.0, 2.5],
                        [10.0, 5.0, 200.0, -10.0, 1.2, 0.0, 2.0, 0.5, 1.5, 0.25, 3.0, 0.0],
                        [40.0, 100.0, 50.0, 33.0, 0.3, 10.0, 0.5, 10.0, 1.0, 3.0, 1.0, 1.0],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 0.0, 0.0],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 0.02, 0.01],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.0, 1.38, 5.0, 1.0],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.001, 1.38, 5.0, 3.0],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 400.0, 20.0],
                        [25.0, 0.0, 0.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 8.0, 2.5],
                        [0.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 8.0, 2.5],
                        [25.0, 20.0, 80.0, 0.0, 0.0, 2.0, 0.0, 3.0, 0.77, 0.0, 8.0, 2.5],
                        [25.0, 20.0, 80.0, 0.0, 0.6, 2.0, 0.94, 3.0, 0.77, 1.38, 0.0, 4.0],
                    ]
                    .into_iter()
                    .enumerate()
                    {
                        if !thorough && ((hi + di) % 4 != pi || (hi + di + ti) % SURFACES.len() != si) {
                            continue;
                        }
                        let (sh, sf) = (sh.clone(), *sf);
                        out.push((format!("plunger{t}/{x},{y}/on={sf}/tip={hi}/dims={di}"), Box::new(move || {
                            let mut p = Plunger::default();
                            p.name = "i".into();
                            p.center = Vertex2D { x, y };
                            p.plunger_type = t.into();
                            p.surface = sf.into();
                            p.tip_shape = sh.clone();
                            [
                                p.width,
                                p.height,
                                p.stroke,
                                p.z_adjust,
                                p.rod_diam,
                                p.ring_gap,
                                p.ring_diam,
                                p.ring_width,
                                p.spring_diam,
                                p.spring_gauge,
                                p.spring_loops,
                                p.spring_end_loops,
                            ] = d;
                            G::Plunger(p)
                        })));
                    }
                }
            }
        }
    }
    out
}

/// Shapes of drag points by name.
fn lines() -> Vec<(&'static str, Vec<(f32, f32, f32)>)> {
    vec![
        ("two", vec![(100.0, 900.0, 0.0), (400.0, 300.0, 0.0)]),
        ("bend", vec![(100.0, 900.0, 0.0), (150.0, 500.0, 20.0), (420.0, 300.0, 5.0)]),
        ("zig", vec![(0.0, 0.0, 0.0), (100.0, 200.0, 0.0), (0.0, 400.0, 30.0), (130.0, 600.0, 0.0)]),
        ("straight", vec![(300.0, 100.0, 0.0), (300.0, 200.0, 7.0), (300.0, 500.0, 0.0), (300.0, 900.0, 0.0)]),
        ("level", vec![(100.0, 300.0, 0.0), (500.0, 300.0, 0.0), (900.0, 300.0, 0.0)]),
        ("hook", vec![(100.0, 900.0, 0.0), (120.0, 300.0, 0.0), (500.0, 250.0, 10.0), (700.0, 600.0, 10.0), (650.0, 900.0, 50.0)]),
        ("twice", vec![(100.0, 900.0, 0.0), (150.0, 500.0, 0.0), (150.0, 500.0, 0.0), (420.0, 300.0, 0.0)]),
        ("tiny", vec![(100.0, 100.0, 0.0), (100.5, 100.25, 0.0), (101.0, 100.25, 0.0)]),
    ]
}

fn points(p: &[(f32, f32, f32)], smooth: u32) -> Vec<DragPoint> {
    p.iter().enumerate().map(|(i, (x, y, z))| dp(*x, *y, *z, smooth >> i & 1 == 1)).collect()
}

fn ramp_cases(thorough: bool) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    for (ln, l) in lines() {
        let masks = 1u32 << l.len();
        for mask in 0..masks {
            for t in 0..6u32 {
                for (di, d) in [
                    // bottom, top, width bottom, width top, wall left, wall right, wire distance x, y, diameter
                    [0.0f32, 50.0, 75.0, 60.0, 62.0, 62.0, 38.0, 88.0, 6.0],
                    [80.0, 0.0, 60.0, 60.0, 0.0, 0.0, 20.0, 30.0, 2.0],
                    [10.0, 10.0, 20.0, 90.0, 0.0, 12.5, 50.0, 10.0, 8.0],
                    [-20.0, 200.0, 40.0, 1.0, 33.0, 0.0, 38.0, 88.0, 0.5],
                ]
                .into_iter()
                .enumerate()
                {
                    if ln == "tiny" && di != 3 && t != 0 {
                        continue;
                    }
                    if !thorough && masks > 8 && (mask + t + di as u32) % 4 != 0 {
                        continue;
                    }
                    let l = l.clone();
                    out.push((format!("ramp{t}/{ln}/smooth={mask:b}/dims={di}"), Box::new(move || {
                        let mut r = Ramp::default();
                        r.name = "i".into();
                        r.ramp_type = t.into();
                        r.drag_points = points(&l, mask);
                        [
                            r.height_bottom,
                            r.height_top,
                            r.width_bottom,
                            r.width_top,
                            r.left_wall_height_visible,
                            r.right_wall_height_visible,
                            r.wire_distance_x,
                            r.wire_distance_y,
                            r.wire_diameter,
                        ] = d;
                        if di % 2 == 0 {
                            r.image = "pic".into();
                        }
                        r.image_walls = di == 0;
                        r.image_alignment = (di as u32 / 2).into();
                        G::Ramp(r)
                    })));
                }
            }
        }
    }
    out
}

fn rings() -> Vec<(&'static str, Vec<(f32, f32, f32)>)> {
    vec![
        ("square", vec![(270.0, 470.0, 0.0), (330.0, 470.0, 0.0), (330.0, 530.0, 0.0), (270.0, 530.0, 0.0)]),
        ("reverse", vec![(270.0, 530.0, 0.0), (330.0, 530.0, 0.0), (330.0, 470.0, 0.0), (270.0, 470.0, 0.0)]),
        ("triangle", vec![(100.0, 100.0, 0.0), (400.0, 150.0, 0.0), (200.0, 500.0, 0.0)]),
        ("ell", vec![(0.0, 0.0, 0.0), (300.0, 0.0, 0.0), (300.0, 100.0, 0.0), (100.0, 100.0, 0.0), (100.0, 300.0, 0.0), (0.0, 300.0, 0.0)]),
        ("five", vec![(500.0, 300.0, 0.0), (690.0, 438.0, 0.0), (617.0, 662.0, 0.0), (383.0, 662.0, 0.0), (310.0, 438.0, 0.0)]),
        ("far", vec![(-500.0, 2000.0, 3.0), (-300.0, 2100.0, 4.0), (-400.0, 2300.0, 5.0), (-550.0, 2250.0, 6.0)]),
        ("twice", vec![(270.0, 470.0, 0.0), (330.0, 470.0, 0.0), (330.0, 470.0, 0.0), (330.0, 530.0, 0.0), (270.0, 530.0, 0.0)]),
        ("narrow", vec![(100.0, 100.0, 0.0), (110.0, 100.0, 0.0), (110.0, 1100.0, 0.0), (100.0, 1100.0, 0.0)]),
    ]
}

fn ring_cases(thorough: bool) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    for (ln, l) in rings() {
        let masks = 1u32 << l.len();
        for mask in 0..masks {
            let keep = |n: u32| thorough || masks <= 16 || (mask + n) % 3 == 0;
            for (di, (h, hit, t, rx, ry, rz_)) in [
                (25.0f32, Some(25.0f32), 8i32, 0.0f32, 0.0f32, 0.0f32),
                (25.0, None, 8, 0.0, 0.0, 0.0),
                (0.0, Some(10.0), 3, 0.0, 0.0, 0.0),
                (60.0, Some(10.0), 20, 0.0, 0.0, 30.0),
                (60.0, Some(60.0), 8, 90.0, 0.0, 0.0),
                (12.5, None, 8, 10.0, -20.0, 45.0),
            ]
            .into_iter()
            .enumerate()
            {
                if !keep(di as u32) {
                    continue;
                }
                let l = l.clone();
                let stat = di % 2 == 0;
                out.push((format!("rubber/{ln}/smooth={mask:b}/dims={di}"), Box::new(move || {
                    let mut r = Rubber::default();
                    r.name = "i".into();
                    r.drag_points = points(&l, mask);
                    (r.height, r.hit_height, r.thickness) = (h, hit, t);
                    (r.rot_x, r.rot_y, r.rot_z) = (rx, ry, rz_);
                    r.static_rendering = stat;
                    G::Rubber(r)
                })));
                let l = rings().into_iter().find(|x| x.0 == ln).unwrap().1;
                out.push((format!("flasher/{ln}/smooth={mask:b}/dims={di}"), Box::new(move || {
                    let mut f = Flasher::default();
                    f.name = "i".into();
                    f.drag_points = points(&l, mask);
                    // stored position need not be the middle of the points
                    (f.pos_x, f.pos_y) = (123.0, 456.0);
                    f.height = h;
                    (f.rot_x, f.rot_y, f.rot_z) = (rx, ry, rz_);
                    f.image_alignment = (di as u32 % 2).into();
                    f.image_a = if di < 3 { "pic".into() } else { String::new() };
                    G::Flasher(f)
                })));
            }
            for (di, (b, t)) in [(0.0f32, 50.0f32), (5.0, 45.0), (-20.0, -5.0), (30.0, 30.5)].into_iter().enumerate() {
                if !keep(di as u32) {
                    continue;
                }
                let l = l.clone();
                out.push((format!("wall/{ln}/smooth={mask:b}/dims={di}"), Box::new(move || {
                    let mut w = Wall::default();
                    w.name = "i".into();
                    w.drag_points = points(&l, mask);
                    for (k, d) in w.drag_points.iter_mut().enumerate() {
                        d.has_auto_texture = (mask as usize + k + di) % 3 != 0;
                        d.tex_coord = k as f32 / 3.0;
                    }
                    (w.height_bottom, w.height_top) = (b, t);
                    if di % 2 == 0 {
                        w.side_image = "pic".into();
                    }
                    G::Wall(w)
                })));
            }
            let l2 = l.clone();
            out.push((format!("light/{ln}/smooth={mask:b}"), Box::new(move || {
                let mut k = light("i", 300.0, 500.0);
                k.drag_points = points(&l2, mask);
                k.show_bulb_mesh = mask % 2 == 0;
                k.surface = SURFACES[mask as usize % 4].into();
                if mask % 3 == 0 {
                    k.image = "pic".into();
                }
                G::Light(k)
            })));
        }
    }
    out
}

/// Outlines with many points: a bowl (half an arch cut into a block), a comb, a star, a spiral and a disc.
fn long_outline(shape: &str, n: usize) -> Vec<(f32, f32, f32)> {
    use std::f64::consts::PI;
    let mut v: Vec<(f64, f64)> = vec![];
    match shape {
        "bowl" => {
            for i in 0..n - 2 {
                let a = PI * i as f64 / (n - 3) as f64;
                v.push((450.0 + 300.0 * a.cos(), 300.0 + 500.0 * a.sin()));
            }
            v.push((100.0, 1000.0));
            v.push((800.0, 1000.0));
        }
        "comb" => {
            let k = n - 2;
            for i in 0..k {
                v.push((50.0 + 850.0 * i as f64 / (k - 1) as f64, if i % 2 == 0 { 300.0 } else { 900.0 }));
            }
            v.push((900.0, 1000.0));
            v.push((50.0, 1000.0));
        }
        "star" => {
            let k = n / 2 * 2;
            for i in 0..k {
                let (a, r) = (2.0 * PI * i as f64 / k as f64, if i % 2 == 0 { 400.0 } else { 250.0 });
                v.push((450.0 + r * a.cos(), 700.0 + r * a.sin()));
            }
        }
        "spiral" => {
            let k = n / 2;
            let at = |i: usize, d: f64| {
                let t = i as f64 / (k - 1) as f64;
                let (a, r) = (3.5 * PI * t, 80.0 + 300.0 * t + d);
                (450.0 + r * a.cos(), 700.0 + r * a.sin())
            };
            v.extend((0..k).map(|i| at(i, 0.0)));
            v.extend((0..k).rev().map(|i| at(i, 40.0)));
        }
        _ => {
            for i in 0..n {
                let a = 2.0 * PI * i as f64 / n as f64;
                v.push((450.0 + 300.0 * a.cos(), 700.0 + 500.0 * a.sin()));
            }
        }
    }
    v.into_iter().map(|(x, y)| (x as f32, y as f32, 0.0)).collect()
}

fn long_cases(thorough: bool) -> Vec<Case> {
    let mut sizes = vec![31usize, 32, 33, 64, 65, 67, 100, 128, 130, 200, 256, 258];
    if thorough {
        sizes.extend([48, 63, 66, 127, 129, 255, 257, 300, 400, 512, 514]);
    }
    let mut out: Vec<Case> = vec![];
    for shape in ["bowl", "comb", "star", "spiral", "disc"] {
        for &n in &sizes {
            let starts: &[usize] = if thorough { &[0, 1, 4, 2, 3] } else { &[0, 2] };
            for &start in starts {
                for turned in [false, true] {
                    for smooth in [0usize, 1, 3] {
                        if smooth != 0 && (n > 130 || shape == "comb" || shape == "star") {
                            continue;
                        }
                        let l = move || {
                            let mut l = long_outline(shape, n);
                            if turned {
                                l.reverse();
                            }
                            let k = l.len() * start / 5;
                            l.rotate_left(k);
                            // smooth = 3: every third point
                            l.iter().enumerate().map(|(i, (x, y, z))| dp(*x, *y, *z, smooth > 0 && i % smooth == 0)).collect::<Vec<_>>()
                        };
                        let name = |k: &str| format!("long/{k}/{shape}/{n}/start={start}/turned={turned}/smooth={smooth}");
                        out.push((name("wall"), Box::new(move || {
                            let mut w = Wall::default();
                            w.name = "i".into();
                            w.drag_points = l();
                            (w.height_bottom, w.height_top) = (5.0, 45.0);
                            w.side_image = "pic".into();
                            G::Wall(w)
                        })));
                        out.push((name("flasher"), Box::new(move || {
                            let mut f = Flasher::default();
                            f.name = "i".into();
                            f.drag_points = l();
                            f.height = 60.0;
                            G::Flasher(f)
                        })));
                        out.push((name("light"), Box::new(move || {
                            let mut k = light("i", 300.0, 500.0);
                            k.drag_points = l();
                            G::Light(k)
                        })));
                        if start == 0 && (shape == "disc" || shape == "bowl") {
                            out.push((name("rubber"), Box::new(move || {
                                let mut r = Rubber::default();
                                r.name = "i".into();
                                r.drag_points = l();
                                (r.height, r.thickness) = (30.0, 3);
                                G::Rubber(r)
                            })));
                        }
                        if start == 0 && shape == "disc" {
                            for t in 0..6u32 {
                                out.push((name(&format!("ramp{t}")), Box::new(move || {
                                    let mut r = Ramp::default();
                                    (r.name, r.ramp_type) = ("i".into(), t.into());
                                    r.drag_points = l();
                                    (r.height_bottom, r.height_top, r.width_bottom, r.width_top) = (0.0, 80.0, 30.0, 20.0);
                                    (r.left_wall_height_visible, r.right_wall_height_visible) = (30.0, 30.0);
                                    (r.wire_distance_x, r.wire_distance_y, r.wire_diameter) = (10.0, 10.0, 2.0);
                                    G::Ramp(r)
                                })));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

/// All simple polygons with corners on a grid, each once up to the starting corner.
fn polygons(nx: i32, ny: i32, max: usize) -> Vec<Vec<(i32, i32)>> {
    let pts: Vec<(i32, i32)> = (0..nx).flat_map(|x| (0..ny).map(move |y| (x, y))).collect();
    let cross = |o: (i32, i32), a: (i32, i32), b: (i32, i32)| (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0);
    let on = |p: (i32, i32), a: (i32, i32), b: (i32, i32)| {
        cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
    };
    let meets = |a: (i32, i32), b: (i32, i32), c: (i32, i32), d: (i32, i32)| {
        let s = |v: i32| v.signum();
        (s(cross(a, b, c)) * s(cross(a, b, d)) < 0 && s(cross(c, d, a)) * s(cross(c, d, b)) < 0) || on(c, a, b) || on(d, a, b) || on(a, c, d) || on(b, c, d)
    };
    let mut out = vec![];
    fn go(
        path: &mut Vec<(i32, i32)>,
        pts: &[(i32, i32)],
        max: usize,
        out: &mut Vec<Vec<(i32, i32)>>,
        meets: &dyn Fn((i32, i32), (i32, i32), (i32, i32), (i32, i32)) -> bool,
        on: &dyn Fn((i32, i32), (i32, i32), (i32, i32)) -> bool,
    ) {
        let n = path.len();
        if n >= 3 {
            // close it
            let (a, b) = (path[n - 1], path[0]);
            let ok = (1..n - 2).all(|i| !meets(a, b, path[i], path[i + 1])) && !on(path[n - 2], a, b) && !on(path[1], a, b) && !on(b, path[n - 2], a) && !on(a, b, path[1]);
            if ok {
                out.push(path.clone());
            }
        }
        if n == max {
            return;
        }
        for p in pts {
            if *p <= path[0] || path.contains(p) {
                continue;
            }
            let ok = (0..n - 1).all(|i| if i + 2 == n { !on(*p, path[i], path[i + 1]) && !on(path[i], path[i + 1], *p) } else { !meets(path[n - 1], *p, path[i], path[i + 1]) });
            if ok {
                path.push(*p);
                go(path, pts, max, out, meets, on);
                path.pop();
            }
        }
    }
    for p in &pts {
        go(&mut vec![*p], &pts, max, &mut out, &meets, &on);
    }
    out
}

/// Walls, inserts and flashers of one polygon each.
fn check_polygons(ps: &[&Vec<(i32, i32)>], place: [f32; 4], refs: &Refs) -> R<u64> {
    let mut items = vec![];
    for (i, p) in ps.iter().enumerate() {
        let d: Vec<DragPoint> = p.iter().map(|(x, y)| dp(place[0] + *x as f32 * place[2], place[1] + *y as f32 * place[3], 0.0, false)).collect();
        let mut w = wall(&format!("w{i}"), 0.0, 0.0);
        w.drag_points = d.clone();
        items.push(G::Wall(w));
        let mut l = light(&format!("l{i}"), place[0], place[1]);
        l.drag_points = d.clone();
        items.push(G::Light(l));
    }
    let s = {
        let mut v = ground();
        v.gameitems.append(&mut items);
        let s = gltf_out(&v, true, true, ExportUnits::Vpu, "t.glb")?.scene;
        items = v.gameitems.split_off(2);
        s
    };
    for (k, i) in items.iter().enumerate() {
        check_item(i, &s, refs).map_err(|e| format!("{} along {:?}: {e}", i.name(), ps[k / 2]))?;
    }
    Ok(ps.len() as u64)
}

/// Items whose numbers no table editor writes: each as one process of its own, as a crash ends it.
fn wild() -> Vec<(String, Vec<Case>)> {
    let mut out = vec![];
    for (name, big) in [("1e4", 1e4f32), ("1e5", 1e5), ("1e7", 1e7), ("1e9", 1e9), ("1e30", 1e30), ("max", f32::MAX), ("inf", f32::INFINITY), ("nan", f32::NAN)] {
        for smooth in [0u32, 0b1111] {
            let shape = move |k: usize| -> Vec<DragPoint> {
                let mut l = vec![(0.0, 0.0, 0.0), (big, 0.0, 0.0), (big, big, 0.0), (0.0, big / 2.0, 0.0)];
                if k == 1 {
                    l[0] = (-big, 1.0, big);
                }
                points(&l, smooth)
            };
            let mut cases: Vec<Case> = vec![];
            for k in 0..2 {
                cases.push((format!("wall{k}"), Box::new(move || {
                    let mut w = wall("i", 0.0, 0.0);
                    w.drag_points = shape(k);
                    G::Wall(w)
                })));
                cases.push((format!("rubber{k}"), Box::new(move || {
                    let mut r = Rubber::default();
                    r.name = "i".into();
                    r.drag_points = shape(k);
                    G::Rubber(r)
                })));
                cases.push((format!("flasher{k}"), Box::new(move || {
                    let mut r = Flasher::default();
                    r.name = "i".into();
                    r.drag_points = shape(k);
                    G::Flasher(r)
                })));
                cases.push((format!("light{k}"), Box::new(move || {
                    let mut r = light("i", 300.0, 500.0);
                    r.drag_points = shape(k);
                    G::Light(r)
                })));
                for t in [0u32, 4, 5] {
                    cases.push((format!("ramp{t}/{k}"), Box::new(move || {
                        let mut r = Ramp::default();
                        r.name = "i".into();
                        r.ramp_type = t.into();
                        r.drag_points = shape(k);
                        G::Ramp(r)
                    })));
                }
            }
            out.push((format!("{name}/{smooth}"), cases));
        }
    }
    out
}

/// The part of `wild` named by MC_WILD; a process of its own.
fn wild_child(which: &str) -> ! {
    let mut code = 0;
    for (n, cases) in wild() {
        if n != which {
            continue;
        }
        for (l, f) in cases {
            let r: R<()> = crate::fw::guard(|| {
                let fine = which.starts_with("1e4/");
                match export(vec![f()]) {
                    Ok(s) if fine => {
                        for (p, _) in gltf_objects(&table(), &f(), true) {
                            well_formed(&part(&s, &p)?).map_err(|e| format!("{p}: {e}"))?;
                        }
                    }
                    Err(e) if fine || e.starts_with("panic") => return Err(e),
                    _ => {}
                }
                if let Err(e) = check_generated(&f(), &export(vec![]).unwrap())
                    && e.starts_with("panic")
                {
                    return Err(e);
                }
                Ok(())
            });
            if let Err(e) = r {
                println!("{l}: {e}");
                code = 4;
            }
        }
    }
    std::process::exit(code);
}

pub fn run(ctx: &Ctx) {
    if let Ok(w) = std::env::var("MC_WILD") {
        wild_child(&w);
    }
    ctx.rule("every exported part: finite coordinates, indices in range, normals of length one, not empty");
    ctx.rule("library meshes: exactly the mesh of size one scaled, rotated and moved as the item says (and that mesh has its known size)");
    ctx.rule("flippers, plungers, ramps, rubbers, walls, flashers, inserts, decals, balls, prisms: own geometry in double precision from the stored data");
    ctx.rule("generated mesh files of the expanded format: well formed, one for every part shown, as large as the part");
    ctx.assume("sizes are positive, outlines do not cross themselves; winding order is compared between exporters in P21 only");
    let refs = match Refs::new() {
        Ok(r) => r,
        Err(e) => {
            ctx.violation("references", &e, serde_json::json!({}));
            return;
        }
    };
    for (k, m) in &refs.0 {
        if std::env::var("MC_PIN").is_ok() {
            println!("PIN {}", pin_line(k, m));
            continue;
        }
        ctx.case(&format!("reference/{k}"), || pinned(k, m).map(|_| hash_of(&m.pos.len())));
    }
    let t = ctx.thorough();
    let mut cases = library_cases(t);
    cases.extend(plunger_cases(t));
    cases.extend(ramp_cases(t));
    cases.extend(ring_cases(t));
    let long = long_cases(t);
    ctx.add("long_outlines", long.len() as u64);
    cases.extend(long);
    for (k, m) in kinds() {
        for (l, f) in settings(k, m) {
            cases.push((format!("setting/{k}/{l}"), Box::new(move || f("i", 300.0, 500.0))));
        }
    }
    ctx.add("item_configurations", cases.len() as u64);
    on_threads(&cases, |(l, f)| {
        if ctx.too_many() {
            return;
        }
        ctx.case(l, || {
            let i = f();
            let s = export(vec![f()])?;
            check_item(&i, &s, &refs)?;
            check_generated(&i, &s).map_err(|e| format!("generated files: {e}"))
        });
    });
    // outlines without an area, folded back onto themselves, with points on top of each other; tables without a size:
    // whatever has a mesh has a proper one
    let odd: Vec<(&str, Vec<(f32, f32, f32)>)> = vec![
        ("line", vec![(0.0, 0.0, 0.0), (100.0, 0.0, 0.0), (200.0, 0.0, 0.0)]),
        ("back", vec![(0.0, 0.0, 0.0), (200.0, 0.0, 0.0), (100.0, 0.0, 0.0)]),
        ("spike", vec![(0.0, 0.0, 0.0), (200.0, 0.0, 0.0), (100.0, 0.0, 0.0), (50.0, 100.0, 0.0)]),
        ("same", vec![(50.0, 50.0, 0.0), (50.0, 50.0, 0.0), (50.0, 50.0, 0.0)]),
        ("pairs", vec![(0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (100.0, 0.0, 0.0), (100.0, 0.0, 5.0), (100.0, 100.0, 0.0)]),
        ("eight", vec![(0.0, 0.0, 0.0), (100.0, 100.0, 0.0), (100.0, 0.0, 0.0), (0.0, 100.0, 0.0)]),
        ("near", vec![(0.0, 0.0, 0.0), (1e-5, 0.0, 0.0), (1e-5, 1e-5, 0.0), (300.0, 400.0, 0.0)]),
        ("two", vec![(0.0, 0.0, 0.0), (100.0, 50.0, 0.0)]),
        ("there-and-back", vec![(0.0, 0.0, 0.0), (100.0, 50.0, 0.0), (0.0, 0.0, 0.0), (100.0, 50.0, 0.0)]),
        ("up", vec![(10.0, 10.0, 0.0), (10.0, 10.0, 50.0), (10.0, 10.0, 90.0)]),
        ("one", vec![(10.0, 10.0, 0.0)]),
        ("none", vec![]),
    ];
    let mut odds: Vec<(String, Vec<(f32, f32, f32)>, u32, bool)> = vec![];
    for (n, l) in &odd {
        for mask in 0..1u32 << l.len() {
            for empty in [false, true] {
                odds.push((format!("odd/{n}/smooth={mask:b}/table={}", if empty { "empty" } else { "usual" }), l.clone(), mask, empty));
            }
        }
    }
    on_threads(&odds, |(n, l, mask, empty)| {
        ctx.case(n, || {
            let mut v = ground();
            if *empty {
                (v.gamedata.right, v.gamedata.bottom) = (v.gamedata.left, v.gamedata.top);
            }
            let d = points(l, *mask);
            let mut add = |g: G| v.gameitems.push(g);
            let mut w = wall("w", 0.0, 0.0);
            w.drag_points = d.clone();
            w.side_image = "pic".into();
            add(G::Wall(w));
            let mut r = Rubber::default();
            (r.name, r.drag_points) = ("r".into(), d.clone());
            add(G::Rubber(r));
            let mut f = Flasher::default();
            (f.name, f.drag_points) = ("f".into(), d.clone());
            add(G::Flasher(f));
            let mut k = light("k", 300.0, 500.0);
            k.drag_points = d.clone();
            add(G::Light(k));
            for t in 0..6u32 {
                let mut p = Ramp::default();
                (p.name, p.drag_points, p.ramp_type) = (format!("p{t}"), d.clone(), t.into());
                p.image = "pic".into();
                add(G::Ramp(p));
            }
            let s = gltf_out(&v, true, true, ExportUnits::Vpu, "t.glb")?.scene;
            for o in &s.objs {
                well_formed(&Mesh::from(o)).map_err(|e| format!("{}: {e}", o.name))?;
            }
            for (k, data) in exp::files(&exp::extract(&v, Pmf::Obj, true)?) {
                if k.contains("generated") && k.ends_with(".obj") {
                    well_formed(&read_generated(&data)?).map_err(|e| format!("{k}: {e}"))?;
                }
            }
            Ok(hash_of(&s.objs.len()))
        });
    });
    ctx.add("odd_outlines", odds.len() as u64);
    // numbers out of any reason
    for (n, c) in wild() {
        ctx.add("wild_configurations", c.len() as u64);
        ctx.case(&format!("wild/{n}"), || {
            let o = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
                .args(["P20", "quick"])
                .env("MC_WILD", &n)
                .output()
                .map_err(|e| e.to_string())?;
            if !o.status.success() {
                return Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("the process ended")));
            }
            Ok(hash_of(&n))
        });
    }
    // every simple polygon
    let max = if t { 8 } else { 6 };
    let ps = polygons(3, 3, max);
    let mut groups: Vec<(String, Vec<&Vec<(i32, i32)>>, [f32; 4])> = vec![];
    let places = [[100.0f32, 900.0, 40.0, 40.0], [900.0, 100.0, 40.0, 40.0], [-100.0, 300.0, 100.0, 7.0]];
    for (pi, place) in places.iter().enumerate() {
        for (i, c) in ps.chunks(40).enumerate() {
            groups.push((format!("polygons/{pi}/{i}"), c.iter().collect(), *place));
        }
    }
    ctx.add("simple_polygons", ps.len() as u64 * places.len() as u64);
    on_threads(&groups, |(l, c, place)| {
        if !ctx.too_many() {
            ctx.case(l, || check_polygons(c, *place, &refs));
        }
    });
    // the playfield
    let mut fields = vec![];
    for l in [0.0f32, -10.0, 100.0] {
        for t in [0.0f32, 50.0] {
            for r in [952.0f32, 200.0] {
                for b in [2162.0f32, 100.0] {
                    fields.push([l, t, r, b]);
                }
            }
        }
    }
    for f in fields {
        ctx.case(&format!("playfield/{f:?}"), || {
            let mut v = table();
            (v.gamedata.left, v.gamedata.top, v.gamedata.right, v.gamedata.bottom) = (f[0], f[1], f[2], f[3]);
            let s = gltf_out(&v, true, true, ExportUnits::Vpu, "t.glb")?.scene;
            let m = part(&s, "playfield_mesh")?;
            well_formed(&m)?;
            let (lo, hi) = bbox(&m.pos);
            if !close(lo, [f[0] as f64, f[1] as f64, 0.0], 1e-3) || !close(hi, [f[2] as f64, f[3] as f64, 0.0], 1e-3) {
                return Err(format!("playfield from {lo:?} to {hi:?}"));
            }
            tiles(&Mesh { pos: [0, 1, 3, 2].map(|i| m.pos[i]).to_vec(), nrm: vec![], uv: vec![], idx: vec![[0, 1, 2], [0, 2, 3]] }, |p| p)?;
            let area: f64 = m.idx.iter().map(|t| tri_area(&m, t)).sum();
            let want = ((f[2] - f[0]) * (f[3] - f[1])) as f64;
            if (area - want.abs()).abs() > 1.0 {
                return Err(format!("playfield covers {area}, expected {want}"));
            }
            Ok(hash_of(&m.pos.len()))
        });
    }
}
