//! Sane items of every kind with geometry, and what a scene export has to contain for them.
use super::exp::zlib;
use vpin::vpx::VPX;
use vpin::vpx::gameitem::*;
use vpin::vpx::gameitem::{
    ball::Ball, bumper::Bumper, decal::Decal, dragpoint::DragPoint, flasher::Flasher, flipper::Flipper, gate::Gate,
    hittarget::HitTarget, kicker::{Kicker, KickerType}, light::Light, plunger::{Plunger, PlungerType},
    primitive::Primitive, ramp::{Ramp, RampType}, rubber::Rubber, spinner::Spinner, trigger::Trigger,
    vertex2d::Vertex2D, vertex3d::Vertex3D, wall::Wall,
};

pub fn dp(x: f32, y: f32, z: f32, smooth: bool) -> DragPoint {
    let mut d = DragPoint::default();
    d.x = x;
    d.y = y;
    d.z = z;
    d.smooth = smooth;
    d
}

pub fn square(x: f32, y: f32, r: f32, smooth: bool) -> Vec<DragPoint> {
    vec![dp(x - r, y - r, 0.0, smooth), dp(x + r, y - r, 0.0, smooth), dp(x + r, y + r, 0.0, smooth), dp(x - r, y + r, 0.0, smooth)]
}

/// A mesh of `n` vertices and `f` triangles with distinct tame values.
pub fn mesh_data(n: usize, f: usize) -> (Vec<[f32; 8]>, Vec<[u32; 3]>) {
    let v = (0..n)
        .map(|i| {
            let a = i as f32 * 0.37;
            let c = [a.cos(), a.sin(), (i % 7) as f32 * 0.25 - 0.5];
            let l = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
            [c[0], c[1] * 0.5, c[2], c[0] / l, c[1] / l, c[2] / l, (i % 11) as f32 / 11.0, (i % 13) as f32 / 13.0]
        })
        .collect();
    let t = (0..f).map(|i| [(i % n) as u32, ((i * 7 + 1) % n) as u32, ((i * 3 + 2) % n) as u32]).collect();
    (v, t)
}

pub fn set_mesh(p: &mut Primitive, v: &[[f32; 8]], t: &[[u32; 3]]) {
    let vb: Vec<u8> = v.iter().flatten().flat_map(|f| f.to_le_bytes()).collect();
    let ib: Vec<u8> = if v.len() > 65535 {
        t.iter().flatten().flat_map(|i| i.to_le_bytes()).collect()
    } else {
        t.iter().flatten().flat_map(|i| (*i as u16).to_le_bytes()).collect()
    };
    let (vz, iz) = (zlib(&vb), zlib(&ib));
    p.use_3d_mesh = true;
    p.num_vertices = Some(v.len() as u32);
    p.compressed_vertices_len = Some(vz.len() as u32);
    p.compressed_vertices_data = Some(vz);
    p.num_indices = Some(t.len() as u32 * 3);
    p.compressed_indices_len = Some(iz.len() as u32);
    p.compressed_indices_data = Some(iz);
}

pub type Make = fn(&str, f32, f32) -> GameItemEnum;

pub fn prim(name: &str, x: f32, y: f32) -> Primitive {
    let mut p = Primitive::default();
    p.name = name.into();
    p.position = Vertex3D::new(x, y, 12.5);
    p.size = Vertex3D::new(20.0, 30.0, 10.0);
    let (v, t) = mesh_data(5, 3);
    set_mesh(&mut p, &v, &t);
    p
}
pub fn wall(name: &str, x: f32, y: f32) -> Wall {
    let mut w = Wall::default();
    w.name = name.into();
    w.height_bottom = 5.0;
    w.height_top = 45.0;
    w.drag_points = square(x, y, 40.0, false);
    w
}
pub fn ramp(name: &str, x: f32, y: f32, kind: RampType) -> Ramp {
    let mut r = Ramp::default();
    r.name = name.into();
    r.ramp_type = kind;
    r.drag_points = vec![dp(x, y - 100.0, 0.0, false), dp(x + 20.0, y, 10.0, true), dp(x, y + 100.0, 0.0, false)];
    r
}
pub fn light(name: &str, x: f32, y: f32) -> Light {
    let mut l = Light::default();
    l.name = name.into();
    l.center = Vertex2D { x, y };
    l.falloff_radius = 50.0;
    l.is_bulb_light = true;
    l.visible = Some(true);
    l
}

/// Every kind with geometry, by a name used in case labels.
pub fn kinds() -> Vec<(&'static str, Make)> {
    vec![
        ("primitive", |n, x, y| GameItemEnum::Primitive(prim(n, x, y))),
        ("builtin", |n, x, y| {
            let mut p = Primitive::default();
            p.name = n.into();
            p.position = Vertex3D::new(x, y, 20.0);
            p.size = Vertex3D::new(30.0, 30.0, 30.0);
            p.sides = 5;
            GameItemEnum::Primitive(p)
        }),
        ("wall", |n, x, y| GameItemEnum::Wall(wall(n, x, y))),
        ("ramp", |n, x, y| GameItemEnum::Ramp(ramp(n, x, y, RampType::Flat))),
        ("wireramp", |n, x, y| GameItemEnum::Ramp(ramp(n, x, y, RampType::ThreeWireLeft))),
        ("rubber", |n, x, y| {
            let mut r = Rubber::default();
            r.name = n.into();
            r.drag_points = square(x, y, 30.0, true);
            GameItemEnum::Rubber(r)
        }),
        ("flasher", |n, x, y| {
            let mut f = Flasher::default();
            f.name = n.into();
            f.pos_x = x;
            f.pos_y = y;
            f.drag_points = square(x, y, 25.0, false);
            GameItemEnum::Flasher(f)
        }),
        ("flipper", |n, x, y| {
            let mut f = Flipper::default();
            f.name = n.into();
            f.center = Vertex2D { x, y };
            f.rubber_thickness = Some(7.0);
            f.rubber_height = Some(19.0);
            f.rubber_width = Some(24.0);
            GameItemEnum::Flipper(f)
        }),
        ("bumper", |n, x, y| {
            let mut b = Bumper::default();
            b.name = n.into();
            b.center = Vertex2D { x, y };
            b.is_ring_visible = Some(true);
            b.is_socket_visible = Some(true);
            GameItemEnum::Bumper(b)
        }),
        ("spinner", |n, x, y| {
            let mut s = Spinner::default();
            s.name = n.into();
            s.center = Vertex2D { x, y };
            GameItemEnum::Spinner(s)
        }),
        ("hittarget", |n, x, y| {
            let mut h = HitTarget::default();
            h.name = n.into();
            h.position = Vertex3D::new(x, y, 3.0);
            GameItemEnum::HitTarget(h)
        }),
        ("gate", |n, x, y| {
            let mut g = Gate::default();
            g.name = n.into();
            g.center = Vertex2D { x, y };
            g.length = 80.0;
            GameItemEnum::Gate(g)
        }),
        ("trigger", |n, x, y| {
            let mut t = Trigger::default();
            t.name = n.into();
            t.center = Vertex2D { x, y };
            t.scale_x = 1.5;
            t.scale_y = 1.25;
            GameItemEnum::Trigger(t)
        }),
        ("light", |n, x, y| {
            let mut l = light(n, x, y);
            l.show_bulb_mesh = true;
            l.drag_points = square(x, y, 15.0, false);
            GameItemEnum::Light(l)
        }),
        ("plunger", |n, x, y| {
            let mut p = Plunger::default();
            p.name = n.into();
            p.center = Vertex2D { x, y };
            GameItemEnum::Plunger(p)
        }),
        ("flatplunger", |n, x, y| {
            let mut p = Plunger::default();
            p.name = n.into();
            p.center = Vertex2D { x, y };
            p.plunger_type = PlungerType::Flat;
            GameItemEnum::Plunger(p)
        }),
        ("kicker", |n, x, y| {
            let mut k = Kicker::default();
            k.name = n.into();
            k.center = Vertex2D { x, y };
            GameItemEnum::Kicker(k)
        }),
        ("decal", |n, x, y| {
            let mut d = Decal::default();
            d.name = n.into();
            d.center = Vertex2D { x, y };
            d.image = "pic".into();
            GameItemEnum::Decal(d)
        }),
        ("ball", |n, x, y| {
            let mut b = Ball::default();
            b.name = n.into();
            b.pos = Vertex3D::new(x, y, 25.0);
            GameItemEnum::Ball(b)
        }),
    ]
}

/// Kinds without geometry.
pub fn flat_kinds() -> Vec<(&'static str, Make)> {
    vec![
        ("timer", |n, _, _| {
            let mut t = timer::Timer::default();
            t.name = n.into();
            GameItemEnum::Timer(t)
        }),
        ("textbox", |n, _, _| {
            let mut t = textbox::TextBox::default();
            t.name = n.into();
            GameItemEnum::TextBox(t)
        }),
        ("reel", |n, _, _| {
            let mut t = reel::Reel::default();
            t.name = n.into();
            GameItemEnum::Reel(t)
        }),
        ("lightsequencer", |n, _, _| {
            let mut t = lightsequencer::LightSequencer::default();
            t.name = n.into();
            GameItemEnum::LightSequencer(t)
        }),
        ("partgroup", |n, _, _| {
            let mut t = partgroup::PartGroup::default();
            t.name = n.into();
            GameItemEnum::PartGroup(t)
        }),
    ]
}

pub fn rename(i: &mut GameItemEnum, name: &str) {
    match i {
        GameItemEnum::Wall(x) => x.name = name.into(),
        GameItemEnum::Flipper(x) => x.name = name.into(),
        GameItemEnum::Timer(x) => x.name = name.into(),
        GameItemEnum::Plunger(x) => x.name = name.into(),
        GameItemEnum::TextBox(x) => x.name = name.into(),
        GameItemEnum::Bumper(x) => x.name = name.into(),
        GameItemEnum::Trigger(x) => x.name = name.into(),
        GameItemEnum::Light(x) => x.name = name.into(),
        GameItemEnum::Kicker(x) => x.name = name.into(),
        GameItemEnum::Decal(x) => x.name = name.into(),
        GameItemEnum::Gate(x) => x.name = name.into(),
        GameItemEnum::Spinner(x) => x.name = name.into(),
        GameItemEnum::Ramp(x) => x.name = name.into(),
        GameItemEnum::Reel(x) => x.name = name.into(),
        GameItemEnum::LightSequencer(x) => x.name = name.into(),
        GameItemEnum::Primitive(x) => x.name = name.into(),
        GameItemEnum::Flasher(x) => x.name = name.into(),
        GameItemEnum::Rubber(x) => x.name = name.into(),
        GameItemEnum::HitTarget(x) => x.name = name.into(),
        GameItemEnum::PartGroup(x) => x.name = name.into(),
        GameItemEnum::Ball(x) => x.name = name.into(),
        GameItemEnum::Generic(_, _) => {}
    }
}

/// Sets the flag that hides an item; false when the kind has none.
pub fn set_visible(i: &mut GameItemEnum, v: bool) -> bool {
    match i {
        GameItemEnum::Wall(x) => {
            x.is_top_bottom_visible = v;
            x.is_side_visible = v;
        }
        GameItemEnum::Flipper(x) => x.is_visible = v,
        GameItemEnum::Plunger(x) => x.is_visible = v,
        GameItemEnum::Bumper(x) => {
            x.is_base_visible = v;
            x.is_cap_visible = v;
            x.is_ring_visible = Some(v);
            x.is_socket_visible = Some(v);
        }
        GameItemEnum::Trigger(x) => x.is_visible = v,
        GameItemEnum::Light(x) => x.visible = Some(v),
        GameItemEnum::Kicker(x) => x.kicker_type = if v { KickerType::Hole } else { KickerType::Invisible },
        GameItemEnum::Gate(x) => x.is_visible = v,
        GameItemEnum::Spinner(x) => x.is_visible = v,
        GameItemEnum::Ramp(x) => x.is_visible = v,
        GameItemEnum::Primitive(x) => x.is_visible = v,
        GameItemEnum::Flasher(x) => x.is_visible = v,
        GameItemEnum::Rubber(x) => x.is_visible = v,
        GameItemEnum::HitTarget(x) => x.is_visible = v,
        _ => return false,
    }
    true
}

pub fn set_layer(i: &mut GameItemEnum, name: Option<String>, layer: Option<u32>) {
    macro_rules! each { ($($k:ident)*) => { match i { $(GameItemEnum::$k(x) => { x.editor_layer_name = name; x.editor_layer = layer; })* _ => {} } } }
    each!(Wall Flipper Plunger Bumper Trigger Light Kicker Decal Gate Spinner Ramp Primitive Flasher Rubber HitTarget Ball)
}

pub fn set_material(i: &mut GameItemEnum, m: &str) -> bool {
    match i {
        GameItemEnum::Wall(x) => {
            x.top_material = m.into();
            x.side_material = m.into();
        }
        GameItemEnum::Flipper(x) => {
            x.material = m.into();
            x.rubber_material = m.into();
        }
        GameItemEnum::Plunger(x) => x.material = m.into(),
        GameItemEnum::Bumper(x) => {
            x.base_material = m.into();
            x.cap_material = m.into();
            x.socket_material = m.into();
            x.ring_material = Some(m.into());
        }
        GameItemEnum::Trigger(x) => x.material = m.into(),
        GameItemEnum::Kicker(x) => x.material = m.into(),
        GameItemEnum::Decal(x) => x.material = m.into(),
        GameItemEnum::Gate(x) => x.material = m.into(),
        GameItemEnum::Spinner(x) => x.material = m.into(),
        GameItemEnum::Ramp(x) => x.material = m.into(),
        GameItemEnum::Primitive(x) => x.material = m.into(),
        GameItemEnum::Rubber(x) => x.material = m.into(),
        GameItemEnum::HitTarget(x) => x.material = m.into(),
        _ => return false,
    }
    true
}

pub fn set_image(i: &mut GameItemEnum, m: &str) -> bool {
    match i {
        GameItemEnum::Wall(x) => {
            x.image = m.into();
            x.side_image = m.into();
        }
        GameItemEnum::Flipper(x) => x.image = Some(m.into()),
        GameItemEnum::Plunger(x) => x.image = m.into(),
        GameItemEnum::Decal(x) => x.image = m.into(),
        GameItemEnum::Spinner(x) => x.image = m.into(),
        GameItemEnum::Ramp(x) => x.image = m.into(),
        GameItemEnum::Primitive(x) => x.image = m.into(),
        GameItemEnum::Flasher(x) => x.image_a = m.into(),
        GameItemEnum::HitTarget(x) => x.image = m.into(),
        GameItemEnum::Ball(x) => {
            x.decal_mode = true;
            x.image_decal = m.into();
        }
        GameItemEnum::Light(x) => {
            x.is_bulb_light = false;
            x.image = m.into();
        }
        _ => return false,
    }
    true
}

pub fn set_surface(i: &mut GameItemEnum, s: &str) -> bool {
    match i {
        GameItemEnum::Flipper(x) => x.surface = s.into(),
        GameItemEnum::Plunger(x) => x.surface = s.into(),
        GameItemEnum::Bumper(x) => x.surface = s.into(),
        GameItemEnum::Trigger(x) => x.surface = s.into(),
        GameItemEnum::Light(x) => x.surface = s.into(),
        GameItemEnum::Kicker(x) => x.surface = s.into(),
        GameItemEnum::Decal(x) => x.surface = s.into(),
        GameItemEnum::Gate(x) => x.surface = s.into(),
        GameItemEnum::Spinner(x) => x.surface = s.into(),
        _ => return false,
    }
    true
}

fn pre_10_8(vpx: &VPX) -> bool {
    vpx.version.u32() < 1080
}

/// Names of the glTF objects an item stands for, and whether each is visible.
/// `None`: the item is hidden as a whole and not asked for.
pub fn gltf_objects(vpx: &VPX, i: &GameItemEnum, invisible: bool) -> Vec<(String, bool)> {
    let mut out: Vec<(String, bool)> = vec![];
    let mut add = |n: &str, suffix: &str, vis: bool| {
        if vis || invisible {
            out.push((format!("{n}{suffix}"), vis));
        }
    };
    match i {
        GameItemEnum::Primitive(p) => {
            let vis = p.is_visible || (p.name.eq_ignore_ascii_case("playfield_mesh") && pre_10_8(vpx));
            let has = if p.use_3d_mesh { p.num_vertices.unwrap_or(0) > 0 && p.num_indices.unwrap_or(0) > 0 } else { p.sides >= 3 };
            if has {
                add(&p.name, "", vis);
            }
        }
        GameItemEnum::Wall(w) => {
            if w.drag_points.len() >= 3 {
                add(&w.name, "Top", w.is_top_bottom_visible);
                add(&w.name, "Side", w.is_side_visible);
            }
        }
        GameItemEnum::Ramp(r) => {
            if r.drag_points.len() >= 2 {
                add(&r.name, "", r.is_visible);
            }
        }
        GameItemEnum::Rubber(r) => {
            if r.drag_points.len() >= 2 && r.thickness != 0 {
                add(&r.name, "", r.is_visible);
            }
        }
        GameItemEnum::Flasher(f) => {
            if f.drag_points.len() >= 3 {
                add(&f.name, "", f.is_visible);
            }
        }
        GameItemEnum::Flipper(f) => {
            add(&f.name, "Base", f.is_visible);
            if f.rubber_thickness.unwrap_or(f.rubber_thickness_int as f32) > 0.0 {
                add(&f.name, "Rubber", f.is_visible);
            }
        }
        GameItemEnum::Bumper(b) => {
            for (s, v) in [
                ("Base", b.is_base_visible),
                ("Cap", b.is_cap_visible),
                ("Ring", b.is_ring_visible.unwrap_or(true)),
                ("Socket", b.is_socket_visible.unwrap_or(true)),
            ] {
                // hidden parts are never exported
                if v {
                    add(&b.name, s, true);
                }
            }
        }
        GameItemEnum::Spinner(s) => {
            if s.show_bracket {
                add(&s.name, "Bracket", s.is_visible);
            }
            add(&s.name, "Plate", s.is_visible);
        }
        GameItemEnum::HitTarget(h) => add(&h.name, "", h.is_visible),
        GameItemEnum::Gate(g) => {
            if g.show_bracket {
                add(&g.name, "Bracket", g.is_visible);
            }
            add(&g.name, "Wire", g.is_visible);
        }
        GameItemEnum::Trigger(t) => {
            if t.shape != trigger::TriggerShape::None {
                add(&t.name, "", t.is_visible);
            }
        }
        GameItemEnum::Light(l) => {
            if !l.is_backglass {
                let vis = l.visible.unwrap_or(true);
                if l.show_bulb_mesh && !(pre_10_8(vpx) && (!l.is_bulb_light || !vis)) {
                    add(&l.name, "_bulb", vis);
                    add(&l.name, "_socket", vis);
                }
                if l.drag_points.len() >= 3 {
                    add(&l.name, "_insert", vis);
                }
            }
        }
        GameItemEnum::Plunger(p) => match p.plunger_type {
            PlungerType::Flat | PlungerType::Unknown => add(&p.name, "Flat", p.is_visible),
            _ => {
                for s in ["Rod", "Spring", "Ring", "Tip"] {
                    add(&p.name, s, p.is_visible);
                }
            }
        },
        GameItemEnum::Kicker(k) => {
            if k.kicker_type != KickerType::Invisible {
                add(&k.name, "Plate", true);
                add(&k.name, "Kicker", true);
            }
        }
        GameItemEnum::Decal(d) => {
            if d.decal_type == decal::DecalType::Image && !d.image.is_empty() && !d.backglass {
                add(&d.name, "", true);
            }
        }
        GameItemEnum::Ball(b) => add(&b.name, "", true),
        _ => {}
    }
    out
}

/// The point light of an item.
pub fn gltf_light(i: &GameItemEnum, invisible: bool) -> Option<String> {
    match i {
        GameItemEnum::Light(l)
            if !l.is_backglass && l.name.to_lowercase().starts_with("gi") && (invisible || l.visible.unwrap_or(true)) =>
        {
            Some(format!("{}_light", l.name))
        }
        _ => None,
    }
}

/// Pairs (OBJ name, glTF name) of the objects an item stands for in OBJ. As VPinball's own
/// export does, flippers, gates, spinners and hit targets are written whether visible or not.
pub fn obj_objects(vpx: &VPX, i: &GameItemEnum, textures: bool, plunger: bool) -> Vec<(String, Vec<String>)> {
    let one = |v: Vec<(String, bool)>| v.into_iter().map(|(n, _)| (n.clone(), vec![n])).collect::<Vec<_>>();
    match i {
        GameItemEnum::Flasher(_) | GameItemEnum::Light(_) | GameItemEnum::Decal(_) | GameItemEnum::Ball(_) => vec![],
        GameItemEnum::Plunger(_) if !plunger => vec![],
        GameItemEnum::Flipper(_) | GameItemEnum::Gate(_) | GameItemEnum::Spinner(_) | GameItemEnum::HitTarget(_) => {
            one(gltf_objects(vpx, i, true))
        }
        GameItemEnum::Wall(w) => {
            let v = gltf_objects(vpx, i, false);
            let (top, side) = (format!("{}Top", w.name), format!("{}Side", w.name));
            match v.len() {
                0 => vec![],
                1 => vec![(w.name.clone(), vec![v[0].0.clone()])],
                _ if textures => vec![(side.clone(), vec![side]), (top.clone(), vec![top])],
                _ => vec![(w.name.clone(), vec![side, top])],
            }
        }
        GameItemEnum::Bumper(b) => one(gltf_objects(vpx, i, false))
            .into_iter()
            .map(|(n, g)| if n == format!("{}Socket", b.name) { (format!("{}Skirt", b.name), g) } else { (n, g) })
            .collect(),
        GameItemEnum::Kicker(k) => one(gltf_objects(vpx, i, false))
            .into_iter()
            .map(|(n, g)| if n == format!("{}Kicker", k.name) { (k.name.clone(), g) } else { (n, g) })
            .collect(),
        _ => one(gltf_objects(vpx, i, false)),
    }
}
