//! C13, C14: triangulation and polygon meshes.
use crate::rt::*;
#[cfg(rerecast_verif)]
use rerecast::verif::poly_mesh;
use serde::{Deserialize, Serialize};

pub type P2 = (i64, i64);
pub fn cross(a: P2, b: P2, c: P2) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}
pub fn area(v: &[P2]) -> i64 {
    (0..v.len()).map(|i| { let (a, b) = (v[i], v[(i + 1) % v.len()]); a.0 * b.1 - b.0 * a.1 }).sum()
}
fn on_seg(a: P2, b: P2, c: P2) -> bool {
    cross(a, b, c) == 0 && a.0.min(b.0) <= c.0 && c.0 <= a.0.max(b.0) && a.1.min(b.1) <= c.1 && c.1 <= a.1.max(b.1)
}
fn meets(a: P2, b: P2, c: P2, d: P2) -> bool {
    cross(a, b, c).signum() * cross(a, b, d).signum() < 0 && cross(c, d, a).signum() * cross(c, d, b).signum() < 0
        || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}
/// no two edges have a point in common but the shared corner of consecutive ones
pub fn simple(v: &[P2]) -> bool {
    let n = v.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (v[j], v[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                let (p, q, r) = if j == i + 1 { (a, b, d) } else { (c, a, b) };
                // consecutive edges do not fold back
                if n > 3 || j == i + 1 {
                    if cross(p, q, r) == 0 && (p.0 - q.0) * (r.0 - q.0) + (p.1 - q.1) * (r.1 - q.1) > 0 {
                        return false;
                    }
                }
            } else if meets(a, b, c, d) {
                return false;
            }
        }
    }
    true
}
/// the interiors of two convex polygons (same orientation each, non-degenerate) meet
pub fn overlap(s: &[P2], t: &[P2]) -> bool {
    let apart = |s: &[P2], t: &[P2]| {
        let o = area(s).signum();
        (0..s.len()).any(|i| t.iter().all(|p| cross(s[i], s[(i + 1) % s.len()], *p) * o <= 0))
    };
    area(s) != 0 && area(t) != 0 && !apart(s, t) && !apart(t, s)
}

/// a random simply connected union of cells, traced with the interior on the side the contours have it
pub fn gen_cells(r: &mut Rng, m: i64) -> Vec<P2> {
    let mut cells = std::collections::BTreeSet::new();
    cells.insert((m / 2, m / 2));
    for _ in 0..r.below((m * m) as u64) {
        let c: Vec<P2> = cells.iter().copied().collect();
        let p = r.pick(&c);
        let d = r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1)]);
        let q = (p.0 + d.0, p.1 + d.1);
        if q.0 < 0 || q.1 < 0 || q.0 >= m || q.1 >= m || cells.contains(&q) {
            continue;
        }
        // adding q keeps the union simply connected and without pinch points: its neighbours in the
        // 8-ring form one run
        let ring = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];
        let on: Vec<bool> = ring.iter().map(|d| cells.contains(&(q.0 + d.0, q.1 + d.1))).collect();
        let runs = (0..8).filter(|&i| on[i] && !on[(i + 7) % 8]).count();
        if runs != 1 {
            continue;
        }
        // a run may not start or end at a corner only
        if (0..8).any(|i| i % 2 == 1 && on[i] && !on[(i + 7) % 8] && !on[(i + 1) % 8]) {
            continue;
        }
        cells.insert(q);
    }
    // boundary edges with the interior on the left
    let mut next = std::collections::BTreeMap::new();
    for &(x, z) in &cells {
        for (d, a, b) in [((0, -1), (x, z), (x + 1, z)), ((1, 0), (x + 1, z), (x + 1, z + 1)), ((0, 1), (x + 1, z + 1), (x, z + 1)), ((-1, 0), (x, z + 1), (x, z))] {
            if !cells.contains(&(x + d.0, z + d.1)) {
                next.insert(a, b);
            }
        }
    }
    let start = *next.keys().next().unwrap();
    let mut v = vec![start];
    let mut p = next[&start];
    while p != start && v.len() < 10_000 {
        v.push(p);
        p = next[&p];
    }
    v
}
/// a random simple polygon: points joined without crossing (2-opt), or the boundary of a union of cells
pub fn gen_polygon(r: &mut Rng, k: u64) -> Vec<P2> {
    loop {
        let mut v = match r.below(5) {
            0 | 1 => {
                let m = 2 + (k / 400).min(6) as i64;
                let mut v = gen_cells(r, m);
                match r.below(3) {
                    0 => {}
                    1 => {
                        // corners only
                        let n = v.len();
                        v = (0..n).filter(|&i| cross(v[(i + n - 1) % n], v[i], v[(i + 1) % n]) != 0).map(|i| v[i]).collect();
                    }
                    _ => {
                        // some points dropped
                        let mut w = v.clone();
                        let n = r.below(w.len() as u64);
                        for _ in 0..n {
                            if w.len() > 3 {
                                let i = r.below(w.len() as u64) as usize;
                                let old = w.clone();
                                w.remove(i);
                                if !simple(&w) {
                                    w = old;
                                }
                            }
                        }
                        v = w;
                    }
                }
                v
            }
            2 => {
                // star shaped around a centre
                let n = 3 + r.below(10) as usize;
                let m = r.pick(&[4i64, 12, 200, 16000]);
                let mut v: Vec<P2> = (0..n).map(|_| (r.range(-m, m), r.range(-m, m))).collect();
                v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).total_cmp(&(b.1 as f64).atan2(b.0 as f64)));
                v
            }
            _ => {
                let n = 3 + r.below(3 + (k / 300).min(12)) as usize;
                let m = r.pick(&[3i64, 5, 10, 100, 32767]);
                let mut v: Vec<P2> = vec![];
                for _ in 0..4 * n {
                    let p = (r.range(0, m), r.range(0, m));
                    if !v.contains(&p) && v.len() < n {
                        v.push(p);
                    }
                }
                let mut go = 0;
                while go < 200 && !simple(&v) {
                    go += 1;
                    let n = v.len();
                    let (mut i, mut j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                    if i > j {
                        std::mem::swap(&mut i, &mut j);
                    }
                    let mut w = v.clone();
                    w[i..=j].reverse();
                    let len = |v: &[P2]| (0..n).map(|i| { let (a, b) = (v[i], v[(i + 1) % n]); (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt() }).sum::<f64>();
                    if len(&w) < len(&v) || r.chance(1, 30) {
                        v = w;
                    }
                }
                v
            }
        };
        if v.len() < 3 || !simple(&v) || area(&v) == 0 {
            continue;
        }
        if area(&v) > 0 {
            v.reverse();
        }
        let lo = (v.iter().map(|p| p.0).min().unwrap(), v.iter().map(|p| p.1).min().unwrap());
        let hi = (v.iter().map(|p| p.0).max().unwrap(), v.iter().map(|p| p.1).max().unwrap());
        let sh = if r.chance(1, 3) { (32767 - hi.0, 32767 - hi.1) } else { (-lo.0, -lo.1) };
        for p in v.iter_mut() {
            *p = (p.0 + sh.0, p.1 + sh.1);
        }
        let t = r.below(v.len() as u64) as usize;
        v.rotate_left(t);
        return v;
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Tri {
    /// a simple polygon, and the order its vertices are stored in
    Simple(Vec<P2>, Vec<usize>),
    Any(Vec<P2>),
}
#[cfg(rerecast_verif)]
fn check13(c: &Tri) -> Result<bool, String> {
    let (v, slot) = match c {
        Tri::Simple(v, s) => (v.clone(), s.clone()),
        Tri::Any(v) => (v.clone(), (0..v.len()).collect()),
    };
    let n = v.len();
    let mut verts = vec![(glam::U16Vec3::ZERO, 0u32); n];
    for (k, p) in v.iter().enumerate() {
        verts[slot[k]] = (glam::U16Vec3::new(p.0 as u16, (k * 7) as u16, p.1 as u16), 0);
    }
    let at = |i: u16| { let q = verts[i as usize].0; (q.x as i64, q.z as i64) };
    let mut indices = slot.clone();
    let mut tris = vec![glam::U16Vec3::ZERO; n];
    let Some(count) = poly_mesh::triangulate_contour(n, &verts, &mut indices, &mut tris) else {
        return match c {
            Tri::Simple(..) => Err("a simple polygon is not triangulated".into()),
            _ => Ok(false),
        };
    };
    if count != n - 2 {
        return Err(format!("{count} triangles for {n} vertices"));
    }
    let mut sum = 0;
    let mut ts: Vec<[P2; 3]> = vec![];
    for t in &tris[..count] {
        for q in [t.x, t.y, t.z] {
            if q as usize >= n {
                return Err(format!("{t} names no vertex"));
            }
        }
        if t.x == t.y || t.y == t.z || t.x == t.z {
            return Err(format!("{t} has a repeated corner"));
        }
        let p = [at(t.x), at(t.y), at(t.z)];
        sum += area(&p);
        ts.push(p);
    }
    if sum != area(&v) {
        return Err(format!("signed areas add up to {sum}, polygon has {}", area(&v)));
    }
    if let Tri::Simple(..) = c {
        for (i, t) in ts.iter().enumerate() {
            if area(t) > 0 {
                return Err(format!("triangle {:?} is inside out", tris[i]));
            }
            for (j, u) in ts.iter().enumerate().skip(i + 1) {
                if overlap(t, u) {
                    return Err(format!("triangles {:?} and {:?} overlap", tris[i], tris[j]));
                }
            }
        }
    }
    Ok(n > 3)
}

pub fn c13(ctx: &mut Ctx) {
    #[cfg(rerecast_verif)]
    {
        ctx.group(
            "simple",
            85,
            300_000,
            |r, k| {
                let v = gen_polygon(r, k);
                let n = v.len();
                let mut s: Vec<usize> = (0..n).collect();
                if r.chance(1, 2) {
                    for i in (1..n).rev() {
                        s.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
                Tri::Simple(v, s)
            },
            check13,
        );
        ctx.group(
            "any",
            15,
            300_000,
            |r, _| {
                let n = 3 + r.below(9);
                let m = r.pick(&[2i64, 4, 10, 32767]);
                Tri::Any((0..n).map(|_| (r.range(0, m), r.range(0, m))).collect())
            },
            check13,
        );
    }
    #[cfg(not(rerecast_verif))]
    let _ = ctx;
}
