//! C17: appending triangle meshes, marking walkable triangles.
use crate::rt::*;
use glam::{UVec3, Vec3A};
use rerecast::{AreaType, TriMesh};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Mesh {
    v: Vec<[f32; 3]>,
    t: Vec<[u32; 3]>,
    a: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Join {
    meshes: Vec<Mesh>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mark {
    mesh: Mesh,
    threshold: f32,
}
fn real(m: &Mesh) -> TriMesh {
    TriMesh {
        vertices: m.v.iter().map(|v| Vec3A::from(*v)).collect(),
        indices: m.t.iter().map(|v| UVec3::from(*v)).collect(),
        area_types: m.a.iter().map(|v| AreaType(*v)).collect(),
    }
}
fn plain(m: &TriMesh) -> Mesh {
    Mesh {
        v: m.vertices.iter().map(|v| v.to_array()).collect(),
        t: m.indices.iter().map(|v| v.to_array()).collect(),
        a: m.area_types.iter().map(|v| v.0).collect(),
    }
}
fn same(a: &Mesh, b: &Mesh) -> Result<(), String> {
    if a.v != b.v {
        return Err(format!("vertices {:?}, expected {:?}", a.v, b.v));
    }
    if a.t != b.t {
        return Err(format!("triangles {:?}, expected {:?}", a.t, b.t));
    }
    if a.a != b.a {
        return Err(format!("area types {:?}, expected {:?}", a.a, b.a));
    }
    Ok(())
}
fn check_join(c: &Join) -> Result<bool, String> {
    let mut want = Mesh::default();
    let mut got = TriMesh::default();
    for m in &c.meshes {
        let n = want.v.len() as u32;
        want.v.extend(m.v.iter());
        want.t.extend(m.t.iter().map(|t| t.map(|i| i + n)));
        want.a.extend(m.a.iter());
        got.extend(real(m));
        same(&plain(&got), &want)?;
    }
    Ok(c.meshes.iter().filter(|m| !m.t.is_empty()).count() > 1)
}
fn check_mark(c: &Mark) -> Result<bool, String> {
    let mut want = c.mesh.clone();
    let mut any = false;
    for (t, a) in c.mesh.t.iter().zip(&mut want.a) {
        let p = |k: usize| Vec3A::from(c.mesh.v[t[k] as usize]);
        let n = (p(1) - p(0)).cross(p(2) - p(0)).normalize_or_zero();
        if n.y > c.threshold.cos() {
            *a = 255;
            any = true;
        }
    }
    let mut got = real(&c.mesh);
    got.mark_walkable_triangles(c.threshold);
    same(&plain(&got), &want)?;
    Ok(any)
}
fn check_bounds(c: &Mesh) -> Result<bool, String> {
    let got = real(c).compute_aabb();
    let want = (!c.v.is_empty()).then(|| {
        let ext = |f: fn(f32, f32) -> f32, i: f32| std::array::from_fn::<f32, 3, _>(|k| c.v.iter().fold(i, |a, v| f(a, v[k])));
        (ext(f32::min, f32::INFINITY), ext(f32::max, f32::NEG_INFINITY))
    });
    let got = got.map(|b| (b.min.to_array(), b.max.to_array()));
    if got != want {
        return Err(format!("box {got:?}, expected {want:?}"));
    }
    Ok(c.v.len() > 1)
}
fn mesh(r: &mut Rng) -> Mesh {
    let n = if r.chance(1, 500) { r.pick(&[255usize, 256, 300, 65535, 65536, 70000]) } else { r.below(9) as usize };
    let small = r.chance(1, 2);
    let mut v: Vec<[f32; 3]> = vec![];
    for _ in 0..n {
        v.push(std::array::from_fn(|_| if small { r.range(-2, 2) as f32 } else { r.f(-50.0, 50.0) }));
    }
    let k = if n == 0 { 0 } else { r.below(6) as usize };
    let mut t = vec![];
    for _ in 0..k {
        t.push(std::array::from_fn(|_| r.below(n as u64) as u32));
    }
    let a = (0..k).map(|_| if r.chance(1, 2) { 0 } else { r.below(256) as u8 }).collect();
    Mesh { v, t, a }
}
pub fn run(ctx: &mut Ctx) {
    ctx.group("join", 40, 100_000, |r, _| Join { meshes: (0..1 + r.below(4)).map(|_| mesh(r)).collect() }, check_join);
    ctx.group("bounds", 15, 50_000, |r, _| mesh(r), check_bounds);
    ctx.group(
        "mark",
        60,
        100_000,
        |r, _| Mark {
            mesh: mesh(r),
            threshold: match r.below(5) {
                0 => 0.0,
                1 => std::f32::consts::FRAC_PI_2,
                2 => r.f(-4.0, 4.0),
                _ => r.f(0.0, 1.6),
            },
        },
        check_mark,
    );
}
