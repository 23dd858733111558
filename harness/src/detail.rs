//! C16: the detail mesh of the polygons a field leads to, and of polygons given directly.
use crate::field::{Field, build, link};
use crate::rt::*;
use rerecast::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scene {
    f: Field,
    origin: [f32; 3],
    cs: f32,
    ch: f32,
    border: u16,
    min: u16,
    merge: u16,
    err: f32,
    len: u16,
    flags: u8,
    nvp: u16,
    sample: f32,
    max_error: f32,
}

pub fn compact(c: &Scene) -> CompactHeightfield {
    let mut f = build(&c.f);
    (f.cell_size, f.cell_height) = (c.cs, c.ch);
    f.aabb.min = c.origin.into();
    f.aabb.max = f.aabb.min + glam::Vec3::new(f.width as f32 * c.cs, 100.0, f.height as f32 * c.cs);
    f
}

pub fn check(c: &Scene) -> Result<bool, String> {
    let mut f = compact(c);
    f.build_distance_field();
    if f.build_regions(c.border, c.min, c.merge).is_err() {
        return Ok(false);
    }
    let cs = f.build_contours(c.err, c.len, BuildContoursFlags::from_bits_retain(c.flags));
    let Ok(m) = cs.into_polygon_mesh(c.nvp) else { return Ok(false) };
    check_mesh(c, &f, &m)
}

/// the corners of polygon i
pub fn corners(m: &PolygonNavmesh, i: usize) -> Vec<u16> {
    let n = m.max_vertices_per_polygon as usize;
    m.polygons[i * n..(i + 1) * n].iter().copied().take_while(|v| *v != PolygonNavmesh::NO_INDEX).collect()
}

pub fn check_mesh(c: &Scene, f: &CompactHeightfield, m: &PolygonNavmesh) -> Result<bool, String> {
    let d = DetailNavmesh::new(m, f, c.sample, c.max_error).map_err(|e| format!("{e:?}"))?;
    if m.vertices.is_empty() {
        return if d.meshes.is_empty() { Ok(false) } else { Err("submeshes of nothing".into()) };
    }
    if d.meshes.len() != m.polygon_count() {
        return Err(format!("{} submeshes for {} polygons", d.meshes.len(), m.polygon_count()));
    }
    if d.triangle_flags.len() != d.triangles.len() {
        return Err("flags and triangles differ in number".into());
    }
    let (mut bv, mut bt) = (0, 0);
    let mut extra = false;
    for (i, s) in d.meshes.iter().enumerate() {
        let at = |m: String| format!("submesh {i}: {m}");
        if (s.base_vertex_index as usize, s.base_triangle_index as usize) != (bv, bt) {
            return Err(at("does not start where the one before ends".into()));
        }
        let p = corners(m, i);
        let (nv, nt) = (s.vertex_count as usize, s.triangle_count as usize);
        if bv + nv > d.vertices.len() || bt + nt > d.triangles.len() {
            return Err(at("reaches beyond the arrays".into()));
        }
        if nv < p.len() || nv > DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
            return Err(at(format!("{nv} vertices for {} corners", p.len())));
        }
        extra |= nv > p.len();
        let v = &d.vertices[bv..bv + nv];
        let t = &d.triangles[bt..bt + nt];
        let g = &d.triangle_flags[bt..bt + nt];
        (bv, bt) = (bv + nv, bt + nt);
        let pos = |k: u16| {
            let q = m.vertices[k as usize];
            (q.x as f32 * m.cell_size + m.aabb.min.x, q.z as f32 * m.cell_size + m.aabb.min.z)
        };
        for (k, q) in p.iter().enumerate() {
            if (v[k].x, v[k].z) != pos(*q) {
                return Err(at(format!("vertex {k} is at {:?}, the corner at {:?}", v[k], pos(*q))));
            }
        }
        if let Some(q) = v.iter().find(|q| !q.is_finite()) {
            return Err(at(format!("vertex {q:?}")));
        }
        let cell = m.cell_size as f64;
        // heights are those of floors nearby, or, where none is known, of a straight side
        let reach = 1.max(m.max_edge_error.ceil() as i64) + 2;
        for (k, q) in v.iter().enumerate() {
            let y = (q.y - m.aabb.min.y) / c.ch - 1.0;
            let (x, z) = (((q.x - f.aabb.min.x) / c.cs) as i64, ((q.z - f.aabb.min.z) / c.cs) as i64);
            let near = |i: i64, n: u16| i.saturating_sub(reach).max(0)..(i + reach + 1).min(n as i64);
            let ok = near(z, f.height).any(|z| near(x, f.width).any(|x| {
                let cell = f.cells[(x + z * f.width as i64) as usize].clone();
                (cell.index() as usize..cell.index() as usize + cell.count() as usize).any(|s| (f.spans[s].y.min(65534) as f32 - y.min(65534.0)).abs() < 0.05)
            }));
            let level = |o: fn(f32, f32) -> f32, z: f32| v[..p.len()].iter().map(|q| q.y).fold(z, o);
            let side = k >= p.len() && q.y >= level(f32::min, f32::MAX) - 0.05 * c.ch && q.y <= level(f32::max, f32::MIN) + 0.05 * c.ch;
            if !ok && !side {
                return Err(at(format!("vertex {k} of {nv} ({} corners) at {q:?}, cell {x} {z}: no floor at height {y} nearby", p.len())));
            }
        }
        let xz = |k: usize| ((v[k].x - m.aabb.min.x) as f64 / cell, (v[k].z - m.aabb.min.z) as f64 / cell);
        let area = |a: usize, b: usize, c: usize| {
            let (a, b, c) = (xz(a), xz(b), xz(c));
            (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
        };
        let whole: f64 = (1..p.len() - 1).map(|k| area(0, k, k + 1)).sum();
        // the polygons a mesh of simple contours has
        let cut: BTreeMap<u16, usize> = p.iter().copied().zip(0..).collect();
        let turn = |k: usize| area(k, (k + 1) % p.len(), (k + 2) % p.len());
        if whole > -0.01 || cut.len() < p.len() || (0..p.len()).any(|k| turn(k) > 0.01) {
            continue;
        }
        if t.is_empty() {
            return Err(at("no triangles".into()));
        }
        let tol = 1e-3 * (1.0 + whole.abs());
        let mut edges: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut sum = 0.0;
        for (j, q) in t.iter().enumerate() {
            let q = q.map(|k| k as usize);
            if q.iter().any(|k| *k >= nv) || q[0] == q[1] || q[1] == q[2] || q[2] == q[0] {
                return Err(at(format!("triangle {j} is {q:?}")));
            }
            let a = area(q[0], q[1], q[2]);
            if a * whole.signum() < -tol {
                return Err(at(format!("triangle {j} {q:?} is inside out: {a} of {whole}")));
            }
            sum += a;
            for k in 0..3 {
                if edges.insert((q[k], q[(k + 1) % 3]), j).is_some() {
                    return Err(at(format!("two triangles on one side of the edge {}-{}", q[k], q[(k + 1) % 3])));
                }
            }
        }
        if (sum - whole).abs() > tol * 4.0 {
            return Err(at(format!("the triangles cover {sum} of {whole}")));
        }
        // the outline: the edges of one triangle that are flagged; other edges of one triangle may only
        // bound slivers without an area, which the refinement leaves out
        let (mut next, mut slivers) = (BTreeMap::new(), 0.0);
        for (j, q) in t.iter().enumerate() {
            if g[j] & !0b010101 != 0 {
                return Err(at(format!("triangle {j} has flags {:#b}", g[j])));
            }
            for k in 0..3 {
                let e = (q[k] as usize, q[(k + 1) % 3] as usize);
                let (outer, single) = (g[j] >> (2 * k) & 1 == 1, !edges.contains_key(&(e.1, e.0)));
                if outer && !single {
                    return Err(at(format!("triangle {j} has flags {:#b}, its edge {k} is an inner one", g[j])));
                }
                if outer && next.insert(e.0, e.1).is_some() {
                    return Err(at("the outline touches itself".into()));
                }
                if single && !outer {
                    let ((px, pz), (qx, qz)) = (xz(e.0), xz(e.1));
                    let (ox, oz) = xz(0);
                    slivers += (px - ox) * (qz - oz) - (qx - ox) * (pz - oz);
                }
            }
        }
        if slivers.abs() > tol * 4.0 {
            return Err(at(format!("inner edges of one triangle around an area of {slivers}")));
        }
        let mut ring = vec![];
        let mut k = 0;
        loop {
            ring.push(k);
            k = match next.get(&k) {
                Some(k) => *k,
                None => return Err(at(format!("the outline {ring:?} ends"))),
            };
            if k == 0 {
                break;
            }
            if ring.len() > next.len() {
                return Err(at("the outline is no ring".into()));
            }
        }
        if ring.len() != next.len() {
            return Err(at(format!("the outline {ring:?} is only one of several")));
        }
        let cor: Vec<usize> = ring.iter().copied().filter(|k| *k < p.len()).collect();
        if cor != (0..p.len()).collect::<Vec<_>>() {
            return Err(at(format!("the outline passes the corners as {cor:?}")));
        }
    }
    if (bv, bt) != (d.vertices.len(), d.triangles.len()) {
        return Err("vertices or triangles in no submesh".into());
    }
    Ok(extra)
}

fn terrain(r: &mut Rng, k: u64) -> Field {
    let lim = 3 + (k / 30).min(30);
    let (w, h) = (1 + r.below(lim) as i64, 1 + r.below(lim) as i64);
    let layers = if r.chance(1, 4) { 2 } else { 1 };
    let (sx, sz) = (r.f(-2.0, 2.0), r.f(-2.0, 2.0));
    let (a, p, q) = (r.f(0.0, 6.0), r.f(0.1, 1.5), r.f(0.1, 1.5));
    let noise = r.pick(&[0i64, 0, 1, 4]);
    let gap = r.pick(&[0u64, 0, 1, 3]);
    let areas = r.pick(&[1u64, 1, 2]);
    let base = if r.chance(1, 6) { 65500.0 } else { 200.0 };
    let mut cols = vec![];
    for z in 0..h {
        for x in 0..w {
            let y = base + sx * x as f32 + sz * z as f32 + a * ((x as f32 * p).sin() + (z as f32 * q).cos());
            let y = y as i64 + r.range(0, noise);
            let mut v = vec![];
            for l in 0..layers {
                if l == 1 && (x * 3 < w || z * 4 > 3 * h) || r.chance(gap, 40) {
                    continue;
                }
                v.push(((y + 100 * l).min(65535) as u16, r.below(areas) as u8 + 1, [63; 4]));
            }
            cols.push(v);
        }
    }
    // areas in patches
    let cut = r.below(w as u64 + 1) as i64;
    for (i, col) in cols.iter_mut().enumerate() {
        for s in col.iter_mut() {
            if areas > 1 {
                s.1 = if (i as i64 % w) < cut { 1 } else { 2 };
            }
        }
    }
    let mut f = Field { w: w as u16, h: h as u16, cols };
    link(&mut f, r.pick(&[2u16, 4, 20]));
    f
}
pub fn scene(r: &mut Rng, k: u64) -> Scene {
    let cs = r.pick(&[0.3f32, 1.0, 0.5, 0.17]);
    let ch = r.pick(&[0.2f32, 1.0, 0.05]);
    let f = terrain(r, k);
    let most = (f.w.min(f.h) - 1) / 2;
    Scene {
        origin: r.pick(&[[0.0; 3], [-30.5, 2.0, 17.25], [1000.3, -7.1, -2000.9]]),
        cs,
        ch,
        border: r.pick(&[0u16, 0, 0, 1, 3]).min(most),
        f,
        min: r.pick(&[0u16, 1, 8]),
        merge: r.pick(&[0u16, 20, 400]),
        err: r.pick(&[0.0f32, 0.5, 1.3, 3.0]),
        len: r.pick(&[0u16, 2, 12]),
        flags: r.below(4) as u8,
        nvp: r.range(3, 8) as u16,
        sample: r.pick(&[0.0f32, 0.9, 1.0, 2.0, 6.0]) * cs,
        max_error: r.pick(&[0.0f32, 0.5, 1.0, 4.0]) * ch,
    }
}

/// one polygon given directly, at the far end of a field
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Far {
    w: u16,
    h: u16,
    p: Vec<(u16, u16, u16)>,
    own_region: bool,
    sample: f32,
    max_error: f32,
}
fn check_far(c: &Far) -> Result<bool, String> {
    let f = crate::field::flat(c.w, c.h, &[]);
    let s = Scene { f, origin: [0.0; 3], cs: 1.0, ch: 1.0, border: 0, min: 0, merge: 0, err: 1.0, len: 0, flags: 0, nvp: c.p.len() as u16, sample: c.sample, max_error: c.max_error };
    let mut f = compact(&s);
    for s in f.spans.iter_mut() {
        s.region = RegionId::from(1);
    }
    let m = PolygonNavmesh {
        vertices: c.p.iter().map(|p| glam::U16Vec3::new(p.0, p.1, p.2)).collect(),
        polygons: (0..c.p.len() as u16).collect(),
        polygon_neighbors: vec![PolygonNavmesh::NO_CONNECTION; c.p.len()],
        flags: vec![0],
        regions: vec![if c.own_region { RegionId::from(1) } else { RegionId::NONE }],
        areas: vec![AreaType(1)],
        max_vertices_per_polygon: c.p.len() as u16,
        aabb: f.aabb,
        cell_size: 1.0,
        cell_height: 1.0,
        border_size: 0,
        max_edge_error: 1.0,
    };
    check_mesh(&s, &f, &m)
}
fn far(r: &mut Rng, k: u64) -> Far {
    let (w, h) = if k % 2 == 0 { (65535u16, 3u16) } else { (3, 65535) };
    let (a, b) = (w.saturating_sub(1 + r.below(40) as u16).max(0), h.saturating_sub(1 + r.below(40) as u16));
    let mut p = vec![(a, 0, b), (a, 0, h), (w, 0, h), (w, 0, b)];
    p.truncate(3 + r.below(2) as usize);
    Far { w, h, p, own_region: r.chance(1, 2), sample: r.pick(&[0.0f32, 1.0, 3.0]), max_error: r.pick(&[0.0f32, 1.0]) }
}

pub fn c16(ctx: &mut Ctx) {
    ctx.group("far", 10, 40, far, check_far);
    ctx.group("scenes", 90, 1_000_000, scene, check);
}
