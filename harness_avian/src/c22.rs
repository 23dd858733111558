//! C22: a compound collider becomes its children's meshes, each moved by its own transform.
use crate::collider_to_trimesh::{ToTriMesh, apply_isometry};
use crate::rt::*;
use avian3d::nalgebra::{Point3, Translation3, UnitQuaternion, Vector3};
use avian3d::parry::math::Isometry;
use avian3d::parry::shape::SharedShape;
use avian3d::prelude::Collider;
use bevy::prelude::{Isometry3d, Quat, Vec3A};
use bevy_rerecast_core::rerecast::TriMesh;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Child {
    kind: u8,
    size: [f32; 3],
    at: [f32; 3],
    axis: [f32; 3],
    angle: f32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    children: Vec<Child>,
    sub: u32,
}

fn shape(c: &Child) -> SharedShape {
    let [x, y, z] = c.size;
    match c.kind {
        0 => SharedShape::cuboid(x, y, z),
        1 => SharedShape::triangle(Point3::new(x, 0.0, 0.0), Point3::new(0.0, y, 0.0), Point3::new(0.0, 0.0, z)),
        2 => SharedShape::ball(x),
        3 => SharedShape::cone(x, y),
        4 => SharedShape::cylinder(x, y),
        5 => SharedShape::capsule_y(x, y),
        6 => SharedShape::segment(Point3::new(x, 0.0, 0.0), Point3::new(0.0, y, 0.0)), // not supported
        7 => SharedShape::round_cuboid(x, y, z, 0.1),
        _ => SharedShape::halfspace(Vector3::y_axis()), // not supported
    }
}
fn iso(c: &Child) -> Isometry<f32> {
    let axis = Vector3::new(c.axis[0], c.axis[1], c.axis[2]);
    let r = UnitQuaternion::from_scaled_axis(axis.normalize() * c.angle);
    Isometry::from_parts(Translation3::new(c.at[0], c.at[1], c.at[2]), r)
}
fn near(a: Vec3A, b: Vec3A) -> bool {
    (a - b).abs().max_element() <= 1e-3
}

fn check(c: &Case) -> Result<bool, String> {
    let parts: Vec<_> = c.children.iter().map(|k| (iso(k), shape(k))).collect();
    // oracle: parry's own transform of each child's own mesh
    let mut verts: Vec<Vec3A> = vec![];
    let mut tris: Vec<[u32; 3]> = vec![];
    let mut kept = 0;
    for (i, s) in &parts {
        let Some(m) = Collider(s.clone()).to_trimesh(c.sub) else { continue };
        kept += 1;
        let base = verts.len() as u32;
        for v in &m.vertices {
            let p = i * Point3::new(v.x, v.y, v.z);
            verts.push(Vec3A::new(p.x, p.y, p.z));
        }
        tris.extend(m.indices.iter().map(|t| [t.x + base, t.y + base, t.z + base]));
    }
    let got = Collider(SharedShape::compound(parts)).to_trimesh(c.sub).ok_or("a compound is supported")?;
    if got.vertices.len() != verts.len() || got.indices.len() != tris.len() || got.area_types.len() != tris.len() {
        return Err(format!("{} vertices, {} triangles, {} areas; expected {}, {}", got.vertices.len(), got.indices.len(), got.area_types.len(), verts.len(), tris.len()));
    }
    for (i, (a, b)) in got.vertices.iter().zip(&verts).enumerate() {
        if !near(*a, *b) {
            return Err(format!("vertex {i} at {a}, expected {b}"));
        }
    }
    for (i, (a, b)) in got.indices.iter().zip(&tris).enumerate() {
        if a.to_array() != *b {
            return Err(format!("triangle {i} {a}, expected {b:?}"));
        }
    }
    if got.area_types.iter().any(|a| a.is_walkable()) {
        return Err("a triangle is walkable already".into());
    }
    Ok(kept >= 2)
}

fn check_single(c: &Child) -> Result<bool, String> {
    // a triangle collider: its three corners
    let t = Collider(shape(&Child { kind: 1, ..c.clone() })).to_trimesh(3).ok_or("triangle unsupported")?;
    let want = [Vec3A::new(c.size[0], 0.0, 0.0), Vec3A::new(0.0, c.size[1], 0.0), Vec3A::new(0.0, 0.0, c.size[2])];
    if t.vertices != want || t.indices.len() != 1 || t.indices[0].to_array() != [0, 1, 2] {
        return Err(format!("{t:?}"));
    }
    for kind in [6, 8] {
        if Collider(shape(&Child { kind, ..c.clone() })).to_trimesh(3).is_some() {
            return Err(format!("kind {kind} is not supported"));
        }
    }
    let i = Isometry3d {
        translation: Vec3A::from(c.at),
        rotation: Quat::from_scaled_axis((Vec3A::from(c.axis).normalize() * c.angle).into()),
    };
    let mut m: TriMesh = t.clone();
    apply_isometry(&mut m, i);
    for (a, b) in m.vertices.iter().zip(&want) {
        if *a != i.rotation * *b + i.translation {
            return Err(format!("{b} moved to {a}"));
        }
    }
    if m.vertices.len() != 3 || m.indices != t.indices || m.area_types != t.area_types {
        return Err("moving changes more than the vertices".into());
    }
    Ok(true)
}

fn child(r: &mut Rng) -> Child {
    Child {
        kind: r.below(9) as u8,
        size: std::array::from_fn(|_| r.f(0.2, 3.0)),
        at: std::array::from_fn(|_| if r.chance(1, 3) { 0.0 } else { r.f(-20.0, 20.0) }),
        axis: std::array::from_fn(|_| r.f(0.1, 1.0)),
        angle: if r.chance(1, 3) { 0.0 } else { r.f(-3.0, 3.0) },
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.group("compound", 80, 100_000, |r, _| Case { children: (0..1 + r.below(5)).map(|_| child(r)).collect(), sub: 3 + r.below(3) as u32 }, check);
    ctx.group("single", 20, 20_000, |r, _| child(r), check_single);
}
