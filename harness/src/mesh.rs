//! C14: polygon meshes.
use crate::poly::{P2, area, cross, overlap, simple};
use crate::rt::*;
use glam::U16Vec3;
use rerecast::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cont {
    pub region: u16,
    pub area: u8,
    /// x, y, z, to be removed
    pub v: Vec<(u16, u16, u16, bool)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mesh14 {
    pub nvp: u16,
    pub border: u16,
    pub w: u16,
    pub h: u16,
    pub c: Vec<Cont>,
}
/// labels 1.. of simply connected regions without pinch points on an m x m grid, 0 elsewhere
pub fn gen_labels(r: &mut Rng, m: i64, k: u64) -> BTreeMap<P2, u16> {
    let mut lab: BTreeMap<P2, u16> = BTreeMap::new();
    for l in 1..=k as u16 {
        let p = (r.range(0, m - 1), r.range(0, m - 1));
        lab.entry(p).or_insert(l);
    }
    for _ in 0..r.range(0, 3 * m * m) {
        let all: Vec<(P2, u16)> = lab.iter().map(|(p, l)| (*p, *l)).collect();
        let (p, l) = r.pick(&all);
        let d = r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1)]);
        let q = (p.0 + d.0, p.1 + d.1);
        if q.0 < 0 || q.1 < 0 || q.0 >= m || q.1 >= m || lab.contains_key(&q) {
            continue;
        }
        let ring = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];
        let on: Vec<bool> = ring.iter().map(|d| lab.get(&(q.0 + d.0, q.1 + d.1)) == Some(&l)).collect();
        let runs = (0..8).filter(|&i| on[i] && !on[(i + 7) % 8]).count();
        if runs != 1 || (0..8).any(|i| i % 2 == 1 && on[i] && !on[(i + 7) % 8] && !on[(i + 1) % 8]) {
            continue;
        }
        lab.insert(q, l);
    }
    lab
}
pub fn trace(cells: &BTreeSet<P2>) -> Vec<P2> {
    let mut next = BTreeMap::new();
    for &(x, z) in cells {
        for (d, a, b) in [((0, -1), (x, z), (x + 1, z)), ((1, 0), (x + 1, z), (x + 1, z + 1)), ((0, 1), (x + 1, z + 1), (x, z + 1)), ((-1, 0), (x, z + 1), (x, z))] {
            if !cells.contains(&(x + d.0, z + d.1)) {
                next.insert(a, b);
            }
        }
    }
    let start = *next.keys().next().unwrap();
    let mut v = vec![start];
    let mut p = next[&start];
    while p != start && v.len() < 10_000 {
        v.push(p);
        p = next[&p];
    }
    v.reverse();
    v
}
fn planar(cs: &[Vec<P2>]) -> bool {
    let mut edges: BTreeSet<(P2, P2)> = BTreeSet::new();
    for v in cs {
        if !simple(v) || area(v) >= 0 {
            return false;
        }
        for i in 0..v.len() {
            let (a, b) = (v[i], v[(i + 1) % v.len()]);
            edges.insert((a.min(b), a.max(b)));
        }
    }
    let e: Vec<(P2, P2)> = edges.into_iter().collect();
    let on = |a: P2, b: P2, c: P2| cross(a, b, c) == 0 && a.0.min(b.0) <= c.0 && c.0 <= a.0.max(b.0) && a.1.min(b.1) <= c.1 && c.1 <= a.1.max(b.1);
    for (i, &(a, b)) in e.iter().enumerate() {
        for &(c, d) in &e[i + 1..] {
            if cross(a, b, c).signum() * cross(a, b, d).signum() < 0 && cross(c, d, a).signum() * cross(c, d, b).signum() < 0 {
                return false;
            }
            for (p, q, t) in [(a, b, c), (a, b, d), (c, d, a), (c, d, b)] {
                if t != p && t != q && on(p, q, t) {
                    return false;
                }
            }
        }
    }
    // without crossings two outlines overlap only when an edge of one is inside the other or runs along it
    let sides = |v: &Vec<P2>| (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect::<Vec<_>>();
    let inside = |m: P2, v: &Vec<P2>| {
        sides(v).iter().filter(|(a, b)| {
            let (a, b) = ((2 * a.0, 2 * a.1), (2 * b.0, 2 * b.1));
            (a.1 > m.1) != (b.1 > m.1) && (cross(a, b, m) > 0) == (b.1 > a.1)
        }).count() % 2 == 1
    };
    !cs.iter().enumerate().any(|(i, v)| cs.iter().enumerate().any(|(j, w)| i != j && sides(v).iter().any(|&(a, b)| {
        let other = sides(w);
        other.contains(&(a, b)) || !other.contains(&(b, a)) && inside((a.0 + b.0, a.1 + b.1), w)
    })))
}
pub fn gen14(r: &mut Rng, k: u64) -> Mesh14 {
    let m = 2 + r.below(1 + (k / 200).min(6)) as i64;
    let nreg = 1 + r.below(1 + (k / 100).min(5));
    let flags = r.chance(1, 2);
    let keep_all = r.chance(1, 3);
    let layers = if r.chance(1, 4) { 2 } else { 1 };
    let s = r.pick(&[1i64, 3, 20]);
    let sh = if flags || r.chance(1, 2) { (0, 0) } else { r.pick(&[(-1i64, 0i64), (1, 0), (2, 0), (-1, 1), (0, 1)]) };
    let jit = if flags || s < 20 || r.chance(1, 2) { 0 } else { 7 };
    let mut c = vec![];
    let border = if r.chance(1, 2) { 0 } else { 1 + r.below(4) as u16 };
    let mut reg = 0u16;
    for layer in 0..layers {
        loop {
            let lab = gen_labels(r, m, nreg);
            let at = |x: i64, z: i64| lab.get(&(x, z)).copied().unwrap_or(0);
            let around = |p: P2| [at(p.0 - 1, p.1 - 1), at(p.0, p.1 - 1), at(p.0, p.1), at(p.0 - 1, p.1)];
            let mut jitter: BTreeMap<P2, P2> = BTreeMap::new();
            let mut flag: BTreeMap<P2, bool> = BTreeMap::new();
            let mut base: BTreeMap<P2, i64> = BTreeMap::new();
            let mut out: Vec<(u16, Vec<(P2, i64, bool)>)> = vec![];
            for l in 1..=nreg as u16 {
                let cells: BTreeSet<P2> = lab.iter().filter(|e| *e.1 == l).map(|e| *e.0).collect();
                if cells.is_empty() {
                    continue;
                }
                let mut v = vec![];
                for p in trace(&cells) {
                    let a = around(p);
                    let kinds: BTreeSet<u16> = a.iter().copied().collect();
                    // a point where the outlines go straight on, between the same two regions
                    let plain = kinds.len() <= 2 && ((a[0] == a[1] && a[2] == a[3]) || (a[1] == a[2] && a[3] == a[0]));
                    // two outer cells in a row, two inner ones opposite
                    let wall = (0..4).any(|i| a[i] == 0 && a[(i + 1) % 4] == 0 && a[(i + 2) % 4] != 0 && a[(i + 3) % 4] != 0);
                    if plain && !keep_all {
                        continue;
                    }
                    let f = *flag.entry(p).or_insert_with(|| flags && wall && r.chance(1, 2));
                    let y = *base.entry(p).or_insert_with(|| r.range(0, 30));
                    let j = *jitter.entry(p).or_insert_with(|| if jit > 0 { (r.range(-jit, jit), r.range(-jit, jit)) } else { (0, 0) });
                    let q = (p.0 * s + sh.0 * s * p.1 + j.0, p.1 * s + sh.1 * s * p.0 + j.1);
                    v.push((q, y + if !f && r.chance(1, 8) { r.range(0, 3) } else { 0 } + 200 * layer, f));
                }
                let t = r.below(v.len() as u64) as usize;
                v.rotate_left(t);
                out.push((l, v));
            }
            let outlines: Vec<Vec<P2>> = out.iter().map(|o| o.1.iter().map(|p| p.0).collect()).collect();
            if !planar(&outlines) {
                continue;
            }
            let lo = |f: fn(&P2) -> i64| outlines.iter().flatten().map(f).min().unwrap().min(0);
            let (dx, dz) = (-lo(|p| p.0), -lo(|p| p.1));
            for (_, v) in out {
                reg += 1;
                c.push(Cont {
                    region: reg,
                    area: r.pick(&[63, 63, 5]),
                    v: v.into_iter().map(|(p, y, f)| ((p.0 + dx) as u16, y as u16, (p.1 + dz) as u16, f)).collect(),
                });
            }
            break;
        }
    }
    if r.chance(1, 6) {
        let at = r.below(c.len() as u64 + 1) as usize;
        let n = r.below(3) as u16;
        c.insert(at, Cont { region: 99, area: 63, v: (0..n).map(|i| (i, 0, 0, false)).collect() });
    }
    Mesh14 { nvp: r.range(3, 8) as u16, border, w: (m * s) as u16, h: (m * s) as u16, c }
}
pub fn build14(c: &Mesh14) -> Result<PolygonNavmesh, String> {
    let set = ContourSet {
        contours: c
            .c
            .iter()
            .map(|o| Contour {
                vertices: o.v.iter().map(|p| (U16Vec3::new(p.0, p.1, p.2), if p.3 { RegionVertexId::BORDER_VERTEX.bits() } else { 0 })).collect(),
                raw_vertices: vec![],
                region: RegionId::from(o.region),
                area: AreaType(o.area),
            })
            .collect(),
        width: c.w,
        height: c.h,
        border_size: c.border,
        cell_size: 0.5,
        cell_height: 0.25,
        max_error: 1.5,
        ..Default::default()
    };
    set.into_polygon_mesh(c.nvp).map_err(|e| e.to_string())
}
pub fn check14(c: &Mesh14) -> Result<bool, String> {
    let m = build14(c).map_err(|e| format!("simple contours are rejected: {e}"))?;
    let nvp = c.nvp as usize;
    let none = PolygonNavmesh::NO_INDEX;
    if m.polygons.len() % nvp != 0 {
        return Err(format!("{} entries for {nvp} per polygon", m.polygons.len()));
    }
    let n = m.polygons.len() / nvp;
    if m.polygon_neighbors.len() != n * nvp || m.regions.len() != n || m.areas.len() != n || m.flags.len() != n {
        return Err(format!("{n} polygons, {} regions, {} areas, {} flags, {} neighbour entries", m.regions.len(), m.areas.len(), m.flags.len(), m.polygon_neighbors.len()));
    }
    let pos = |i: u16| { let v = m.vertices[i as usize]; (v.x as i64, v.z as i64) };
    for (i, v) in m.vertices.iter().enumerate() {
        if m.vertices[..i].iter().any(|o| o.x == v.x && o.z == v.z && o.y.abs_diff(v.y) <= 2) {
            return Err(format!("vertex {i} at {v} is there twice"));
        }
        if !c.c.iter().any(|o| o.v.len() >= 3 && o.v.iter().any(|p| (p.0, p.1, p.2) == (v.x, v.y, v.z))) {
            return Err(format!("vertex {i} at {v} is not a contour vertex"));
        }
    }
    let mut polys: Vec<Vec<u16>> = vec![];
    for i in 0..n {
        let p = &m.polygons[i * nvp..(i + 1) * nvp];
        let nv = p.iter().position(|x| *x == none).unwrap_or(nvp);
        if nv < 3 || p[nv..].iter().any(|x| *x != none) || p[..nv].iter().any(|x| *x as usize >= m.vertices.len()) {
            return Err(format!("polygon {i}: {p:?} with {} vertices", m.vertices.len()));
        }
        let p = p[..nv].to_vec();
        if p.iter().collect::<BTreeSet<_>>().len() != nv {
            return Err(format!("polygon {i}: {p:?} names a vertex twice"));
        }
        for j in 0..nv {
            if cross(pos(p[j]), pos(p[(j + 1) % nv]), pos(p[(j + 2) % nv])) > 0 {
                return Err(format!("polygon {i}: {p:?} is not convex"));
            }
        }
        polys.push(p);
    }
    // neighbours
    let mut shared: BTreeMap<(u16, u16), Vec<(usize, usize)>> = BTreeMap::new();
    for (i, p) in polys.iter().enumerate() {
        for j in 0..p.len() {
            let (a, b) = (p[j], p[(j + 1) % p.len()]);
            shared.entry((a.min(b), a.max(b))).or_default().push((i, j));
        }
    }
    for (i, p) in polys.iter().enumerate() {
        for j in 0..nvp {
            let nb = m.polygon_neighbors[i * nvp + j];
            if j >= p.len() {
                if nb != none {
                    return Err(format!("polygon {i}: neighbour {nb} on the unused edge {j}"));
                }
                continue;
            }
            let (a, b) = (p[j], p[(j + 1) % p.len()]);
            let on = &shared[&(a.min(b), a.max(b))];
            let (va, vb) = (m.vertices[a as usize], m.vertices[b as usize]);
            let portal = if c.border == 0 { none }
                else if va.x == 0 && vb.x == 0 { 0x8000 }
                else if va.z == c.h && vb.z == c.h { 0x8001 }
                else if va.x == c.w && vb.x == c.w { 0x8002 }
                else if va.z == 0 && vb.z == 0 { 0x8003 }
                else { none };
            let other: Vec<_> = on.iter().filter(|o| o.0 != i).collect();
            if on.len() == 2 && other.len() == 1 && polys[other[0].0][other[0].1] == b {
                if nb as usize != other[0].0 {
                    return Err(format!("polygon {i} edge {j} ({a}, {b}): neighbour {nb}, shared with polygon {}", other[0].0));
                }
            } else if (nb as usize) < n {
                if !other.iter().any(|o| o.0 == nb as usize && m.polygon_neighbors[o.0 * nvp + o.1] as usize == i) {
                    return Err(format!("polygon {i} edge {j} ({a}, {b}): neighbour {nb} does not record it back"));
                }
            } else if nb != portal {
                return Err(format!("polygon {i} edge {j} ({va}, {vb}): mark {nb:#x} instead of {portal:#x}"));
            }
        }
    }
    // areas
    let flagged: BTreeSet<(u16, u16, u16)> = c.c.iter().flat_map(|o| o.v.iter().filter(|p| p.3).map(|p| (p.0, p.1 / 200, p.2))).collect();
    let mut total = 0;
    for o in c.c.iter().filter(|o| o.v.len() >= 3) {
        let want = area(&o.v.iter().map(|p| (p.0 as i64, p.2 as i64)).collect::<Vec<_>>());
        total += want;
        if flagged.is_empty() {
            let got: i64 = (0..n).filter(|&i| m.regions[i].bits() == o.region).map(|i| area(&polys[i].iter().map(|v| pos(*v)).collect::<Vec<_>>())).sum();
            if got != want {
                return Err(format!("region {}: polygons cover {got}, contour {want}", o.region));
            }
            if (0..n).any(|i| m.regions[i].bits() == o.region && m.areas[i].0 != o.area) {
                return Err(format!("region {}: wrong area type", o.region));
            }
        }
    }
    let got: i64 = polys.iter().map(|p| area(&p.iter().map(|v| pos(*v)).collect::<Vec<_>>())).sum();
    if got != total {
        return Err(format!("polygons cover {got}, contours {total}"));
    }
    for i in 0..n {
        let (r, a) = (m.regions[i].bits(), m.areas[i].0);
        if r == 0 && flagged.is_empty() || !c.c.iter().any(|o| o.v.len() >= 3 && o.area == a && (r == 0 || o.region == r)) {
            return Err(format!("polygon {i}: no contour of region {r} has area type {a}"));
        }
    }
    if !flagged.is_empty() && !c.c.windows(2).any(|w| w[0].region != w[1].region) && m.regions[..n].iter().any(|r| r.bits() == 0) {
        return Err("a polygon of the only region has none".into());
    }
    let layer = |p: &[u16]| m.vertices[p[0] as usize].y / 200;
    for i in 0..n {
        let a: Vec<P2> = polys[i].iter().map(|v| pos(*v)).collect();
        for j in i + 1..n {
            if layer(&polys[i]) == layer(&polys[j]) && overlap(&a, &polys[j].iter().map(|v| pos(*v)).collect::<Vec<_>>()) {
                return Err(format!("polygons {i} and {j} overlap"));
            }
        }
    }
    // a single border vertex goes unless too little would be left
    let full = |p: &(u16, u16, u16)| m.vertices.iter().position(|v| (v.x, v.y / 200, v.z) == *p);
    if flagged.len() == 1
        && let Some(v) = flagged.iter().next().and_then(full)
    {
        let at: Vec<&Vec<u16>> = polys.iter().filter(|p| p.contains(&(v as u16))).collect();
        let left: usize = at.iter().map(|p| p.len() - 2).sum();
        let mut ends: BTreeMap<u16, usize> = BTreeMap::new();
        for p in &at {
            let k = p.iter().position(|x| *x == v as u16).unwrap();
            *ends.entry(p[(k + 1) % p.len()]).or_default() += 1;
            *ends.entry(p[(k + p.len() - 1) % p.len()]).or_default() += 1;
        }
        let same_y = m.vertices.iter().filter(|q| (q.x, q.z) == (m.vertices[v].x, m.vertices[v].z)).count() == 1;
        if same_y && left > 2 && ends.values().filter(|e| **e == 1).count() <= 2 {
            return Err(format!("border vertex {v} is left although {} polygons meet there with {left} other edges", at.len()));
        }
    }
    Ok(n > 1)
}
/// n pentagons that do not touch, cut into triangles: the two inner edges of each are shared
fn check_many(n: &u32) -> Result<bool, String> {
    let c = Mesh14 {
        nvp: 3,
        border: 0,
        w: 1000,
        h: 1000,
        c: (0..*n)
            .map(|i| {
                let (x, z) = ((i % 160) as u16 * 6, (i / 160) as u16 * 6);
                Cont { region: 1 + (i % 30_000) as u16, area: 63, v: vec![(x, 0, z, false), (x, 0, z + 2, false), (x + 1, 0, z + 4, false), (x + 3, 0, z + 2, false), (x + 2, 0, z, false)] }
            })
            .collect(),
    };
    let m = build14(&c)?;
    let polys = m.polygons.len() / 3;
    if polys != 3 * *n as usize {
        return Err(format!("{polys} triangles for {n} pentagons"));
    }
    for i in 0..polys {
        let p = &m.polygons[3 * i..3 * i + 3];
        for j in 0..3 {
            let (a, b) = (p[j], p[(j + 1) % 3]);
            let from = i / 3 * 3;
            let twin = (from..from + 3).find(|&o| o != i && { let q = &m.polygons[3 * o..3 * o + 3]; (0..3).any(|e| q[e] == b && q[(e + 1) % 3] == a) });
            let want = twin.map_or(PolygonNavmesh::NO_CONNECTION, |t| t as u16);
            if m.polygon_neighbors[3 * i + j] != want {
                return Err(format!("polygon {i} edge {j}: neighbour {} instead of {want}", m.polygon_neighbors[3 * i + j]));
            }
        }
    }
    Ok(true)
}
pub fn c14(ctx: &mut Ctx) {
    ctx.group("contours", 85, 400_000, gen14, check14);
    ctx.group("many", 15, 1, |_, _| 13_107u32, check_many);
}
