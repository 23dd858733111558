//! C12: tracing and simplifying region boundaries.
use crate::rt::*;
use glam::U16Vec3;
#[cfg(rerecast_verif)]
use rerecast::verif::contours;
use rerecast::*;
use serde::{Deserialize, Serialize};

const REGION: u32 = 0xffff;
const BORDER: u32 = 0x10000;
const AREA: u32 = 0x20000;

/// a boundary ring: x, z and code of every vertex
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ring {
    p: Vec<(u16, u16, u32)>,
    err: f32,
    len: u16,
    flags: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fld {
    w: u16,
    h: u16,
    border: u16,
    err: f32,
    len: u16,
    flags: u8,
    /// region, area, height of every cell; region 0x10000 for no span
    cells: Vec<(u32, u8, u16)>,
    /// cut links: cell, direction
    cut: Vec<(usize, u8)>,
}

fn wall(code: u32) -> bool {
    code & REGION == 0 || code & AREA != 0
}
fn split_kind(code: u32, flags: u8) -> bool {
    flags & 1 != 0 && code & REGION == 0 || flags & 2 != 0 && code & AREA != 0
}
fn dist(p: (u16, u16), a: (u16, u16), b: (u16, u16)) -> f64 {
    let f = |v: (u16, u16)| (v.0 as f64, v.1 as f64);
    let (p, a, b) = (f(p), f(a), f(b));
    let (dx, dz) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dz * dz;
    let t = if l > 0.0 { (((p.0 - a.0) * dx + (p.1 - a.1) * dz) / l).clamp(0.0, 1.0) } else { 0.0 };
    let (ex, ez) = (a.0 + t * dx - p.0, a.1 + t * dz - p.1);
    (ex * ex + ez * ez).sqrt()
}

#[cfg(rerecast_verif)]
fn points(c: &Ring) -> Vec<(U16Vec3, RegionVertexId)> {
    c.p.iter().enumerate().map(|(k, p)| (U16Vec3::new(p.0, k as u16, p.1), RegionVertexId::from(p.2))).collect()
}
/// the ring positions of the result, checked to be in cyclic order and to carry the right codes
fn places(c: &Ring, s: &[(U16Vec3, u32)]) -> Result<Vec<usize>, String> {
    let n = c.p.len();
    let mut v = vec![];
    for (p, code) in s {
        let k = p.y as usize;
        if k >= n || (c.p[k].0, c.p[k].1) != (p.x, p.z) {
            return Err(format!("{p:?} is no vertex of the boundary"));
        }
        let want = c.p[(k + 1) % n].2 & (REGION | AREA) | c.p[k].2 & BORDER;
        if *code != want {
            return Err(format!("vertex {k} has code {code:#x}, expected {want:#x}"));
        }
        v.push(k);
    }
    for w in v.windows(2) {
        if (w[0] + n - v[0]) % n >= (w[1] + n - v[0]) % n {
            return Err(format!("the vertices {v:?} are not in the order of the boundary"));
        }
    }
    Ok(v)
}
#[cfg(rerecast_verif)]
fn check_ring(c: &Ring) -> Result<bool, String> {
    let n = c.p.len();
    let pts = points(c);
    let flags = BuildContoursFlags::from_bits_retain(c.flags);
    let s0 = places(c, &contours::simplify(&pts, c.err, 0, flags))?;
    let s1 = places(c, &contours::simplify(&pts, c.err, c.len, flags))?;
    if s0.len() < 2 {
        return Err("fewer than two vertices".into());
    }
    // mandatory vertices
    if c.p.iter().any(|p| p.2 & REGION != 0) {
        for k in 0..n {
            if (c.p[k].2 ^ c.p[(k + 1) % n].2) & (REGION | AREA) != 0 && !(s0.contains(&k) && s1.contains(&k)) {
                return Err(format!("vertex {k}, where the neighbour changes, is missing"));
            }
        }
    }
    // error
    let at = |k: usize| (c.p[k].0, c.p[k].1);
    let tol = 1e-3 * c.err as f64 + 0.02;
    for j in 0..s0.len() {
        let (a, b) = (s0[j], s0[(j + 1) % s0.len()]);
        if wall(c.p[(a + 1) % n].2) {
            let mut k = (a + 1) % n;
            while k != b {
                let d = dist(at(k), at(a), at(b));
                if d > c.err as f64 + tol {
                    return Err(format!("dropped vertex {k} is {d} away from the edge {a}-{b}, allowed {}", c.err));
                }
                k = (k + 1) % n;
            }
        }
    }
    // splitting
    if !s0.iter().all(|k| s1.contains(k)) {
        return Err("splitting edges loses vertices".into());
    }
    for j in 0..s0.len() {
        let (a, b) = (s0[j], s0[(j + 1) % s0.len()]);
        if !split_kind(c.p[(a + 1) % n].2, c.flags) || c.len == 0 {
            let mut k = (a + 1) % n;
            while k != b {
                if s1.contains(&k) {
                    return Err(format!("edge {a}-{b} was split at {k}"));
                }
                k = (k + 1) % n;
            }
        }
    }
    for j in 0..s1.len() {
        let (a, b) = (s1[j], s1[(j + 1) % s1.len()]);
        let steps = (b + n - a) % n;
        let (p, q) = (at(a), at(b));
        let l = (p.0 as i64 - q.0 as i64).pow(2) + (p.1 as i64 - q.1 as i64).pow(2);
        if c.len > 0 && split_kind(c.p[(a + 1) % n].2, c.flags) && steps > 1 && l > (c.len as i64).pow(2) {
            return Err(format!("edge {a}-{b} of {steps} steps and square length {l} was left unsplit with limit {}", c.len));
        }
    }
    Ok(s0.len() < n)
}
#[cfg(rerecast_verif)]
fn check_degenerate(c: &Vec<(u16, u16)>) -> Result<bool, String> {
    let mut v: Vec<(U16Vec3, u32)> = c.iter().enumerate().map(|(k, p)| (U16Vec3::new(p.0, k as u16, p.1), 100 + k as u32)).collect();
    contours::remove_degenerate(&mut v);
    let mut last = -1;
    for (p, r) in &v {
        let k = p.y as i64;
        if k <= last || *r != 100 + p.y as u32 || c.get(k as usize) != Some(&(p.x, p.z)) {
            return Err(format!("{v:?} is no subsequence"));
        }
        last = k;
    }
    let got: Vec<(u16, u16)> = v.iter().map(|(p, _)| (p.x, p.z)).collect();
    let mut want = c.clone();
    want.dedup();
    if want.len() > 1 && want.first() == want.last() {
        want.pop();
    }
    if got != want && !(want.len() == 1 && got.is_empty()) {
        return Err(format!("{got:?} is left, expected {want:?}"));
    }
    Ok(got.len() < c.len())
}

fn gen_code(r: &mut Rng, ids: u64) -> u32 {
    let reg = r.below(ids) as u32 * if r.chance(1, 8) { 0x8001 } else { 1 };
    (reg & REGION) | if r.chance(1, 4) { AREA } else { 0 }
}
fn gen_ring(r: &mut Rng, k: u64) -> Ring {
    let mut p: Vec<(u16, u16, u32)> = vec![];
    let kind = r.below(4);
    let n = 2 + r.below(match kind { 0 => 4, 1 => 12, 2 => 40, _ => 10 }) as usize;
    let side = r.pick(&[2u64, 4, 8, 40]);
    if kind == 3 || r.chance(1, 3) {
        // around a set of cells
        let m = r.range(2, 9);
        let lab = crate::mesh::gen_labels(r, m, 1);
        let cells = lab.keys().copied().collect();
        let scale = r.pick(&[1u16, 1, 1, 7, 300]);
        for q in crate::mesh::trace(&cells) {
            p.push((q.0 as u16 * scale, q.1 as u16 * scale, 0));
        }
    } else if r.chance(1, 2) {
        // a walk, with long straight runs
        let (mut x, mut z) = (r.below(500) as i64, r.below(500) as i64);
        while p.len() < n {
            let (dx, dz) = r.pick(&[(1i64, 0i64), (-1, 0), (0, 1), (0, -1)]);
            for _ in 0..1 + r.below(10) {
                p.push((x as u16, z as u16, 0));
                x = (x + dx).clamp(0, 4000);
                z = (z + dz).clamp(0, 4000);
            }
        }
    } else {
        let far = if r.chance(1, 6) { 32767 } else { side };
        for _ in 0..n {
            let v = |r: &mut Rng| if r.chance(1, 10) { far as u16 } else { r.below(side) as u16 };
            p.push((v(r), v(r), 0));
        }
    }
    if p.iter().all(|q| (q.0, q.1) == (p[0].0, p[0].1)) {
        p.push((p[0].0 + 1, p[0].1, 0));
    }
    // codes, in runs
    if r.chance(4, 5) {
        let ids = 1 + r.below(4);
        let hold = r.pick(&[1u64, 3, 10]);
        let mut code = gen_code(r, ids);
        for q in p.iter_mut() {
            if r.chance(1, hold) {
                code = gen_code(r, ids);
            }
            q.2 = code;
        }
    }
    for q in p.iter_mut() {
        if r.chance(1, 6) {
            q.2 |= BORDER;
        }
    }
    let far = p.iter().any(|q| q.0 > 5000 || q.1 > 5000);
    let _ = k;
    Ring {
        p,
        err: if far { r.pick(&[0.5f32, 2.0, 100.0]) } else { r.pick(&[0.0f32, 0.5, 1.0, 1.3, 2.0, 5.0, 1000.0]) },
        len: r.pick(&[0u16, 1, 2, 3, 5, 12, 40, 255, 256, 300, 4096, 46341, 65535]),
        flags: r.below(4) as u8,
    }
}

fn span_of(c: &Fld) -> Vec<Option<usize>> {
    let mut n = 0;
    c.cells.iter().map(|v| (v.0 < 0x10000).then(|| { n += 1; n - 1 })).collect()
}
const DIRS: [(i64, i64); 4] = [(-1, 0), (0, 1), (1, 0), (0, -1)];
fn neighbour(c: &Fld, at: usize, d: usize) -> Option<usize> {
    let (x, z) = (at as i64 % c.w as i64 + DIRS[d].0, at as i64 / c.w as i64 + DIRS[d].1);
    if x < 0 || z < 0 || x >= c.w as i64 || z >= c.h as i64 {
        return None;
    }
    let b = (z * c.w as i64 + x) as usize;
    let cut = |p: usize, d: usize| c.cut.iter().any(|q| *q == (p, d as u8));
    (c.cells[at].0 < 0x10000 && c.cells[b].0 < 0x10000 && !cut(at, d) && !cut(b, (d + 2) % 4)).then_some(b)
}
fn world(c: &Fld) -> Aabb3d {
    Aabb3d { min: [-7.5, 2.0, 3.25].into(), max: [-7.5 + 0.5 * c.w as f32, 20.0, 3.25 + 0.5 * c.h as f32].into() }
}
fn field(c: &Fld) -> CompactHeightfield {
    let at = span_of(c);
    let mut f = CompactHeightfield { width: c.w, height: c.h, cell_size: 0.5, cell_height: 0.25, aabb: world(c), border_size: c.border, ..Default::default() };
    for (k, v) in c.cells.iter().enumerate() {
        let mut cell = CompactCell::default();
        if let Some(i) = at[k] {
            cell.set_index(i as u32);
            cell.set_count(1);
            let data = (0..4).fold(10u32 << 24, |d, e| d | (if neighbour(c, k, e).is_some() { 0u32 } else { 63 } << (6 * e)));
            f.spans.push(CompactSpan { y: v.2, region: RegionId::from(v.0 as u16), data });
            f.areas.push(AreaType(v.1));
            f.max_region = f.max_region.max(RegionId::from(v.0 as u16 & 0x7fff));
        }
        f.cells.push(cell);
    }
    f
}
/// the boundary cycles of the regions, as (cell, direction) edges, in the order in which a scan meets them
fn cycles(c: &Fld) -> Vec<Vec<(usize, usize)>> {
    let own = |k: usize| c.cells[k].0 > 0 && c.cells[k].0 < 0x8000;
    let out = |k: usize, d: usize| own(k) && neighbour(c, k, d).is_none_or(|b| c.cells[b].0 != c.cells[k].0);
    let lone = |k: usize| (0..4).all(|d| out(k, d));
    let mut seen = vec![[false; 4]; c.cells.len()];
    let mut v = vec![];
    for k in 0..c.cells.len() {
        if lone(k) {
            continue;
        }
        if let Some(d) = (0..4).find(|&d| out(k, d) && !seen[k][d]) {
            let mut e = (k, d);
            let mut cyc = vec![];
            loop {
                if out(e.0, e.1) {
                    seen[e.0][e.1] = true;
                    cyc.push(e);
                    e.1 = (e.1 + 1) % 4;
                } else {
                    e = (neighbour(c, e.0, e.1).unwrap(), (e.1 + 3) % 4);
                }
                if e == (k, d) {
                    break;
                }
            }
            v.push(cyc);
        }
    }
    for k in 0..c.cells.len() {
        for d in 0..4 {
            assert!(seen[k][d] == (out(k, d) && !lone(k)));
        }
    }
    v
}
/// the corner behind edge e, with its height, and its code
fn vertex(c: &Fld, e: (usize, usize)) -> (U16Vec3, u32) {
    let (k, d) = e;
    let (x, z) = (k as u16 % c.w, k as u16 / c.w);
    let (dx, dz) = [(0, 1), (1, 1), (1, 0), (0, 0)][d];
    let q = (d + 1) % 4;
    let v = |k: Option<usize>| k.map(|k| (c.cells[k].0 as u16, c.cells[k].1, c.cells[k].2));
    let a = neighbour(c, k, d);
    let b = neighbour(c, k, q);
    let ab = b.and_then(|b| neighbour(c, b, d)).or(a.and_then(|a| neighbour(c, a, q)));
    let ring = [v(Some(k)), v(a), v(ab), v(b)];
    let y = ring.iter().flatten().map(|s| s.2).max().unwrap();
    let ext = |s: &Option<(u16, u8, u16)>| s.is_some_and(|s| s.0 & 0x8000 != 0);
    let at_border = (0..4).any(|i| {
        let (p, q, s, t) = (ring[i], ring[(i + 1) % 4], ring[(i + 2) % 4], ring[(i + 3) % 4]);
        let some = |s: Option<(u16, u8, u16)>| s.is_some_and(|s| s.0 != 0 || s.1 != 0);
        ext(&p) && p.map(|s| (s.0, s.1)) == q.map(|s| (s.0, s.1)) && !ext(&s) && !ext(&t) && ring.iter().all(|s| some(*s)) && s.unwrap().1 == t.unwrap().1
    });
    let mut code = a.map_or(0, |a| c.cells[a].0);
    if a.is_some_and(|a| c.cells[a].1 != c.cells[k].1) {
        code |= AREA;
    }
    if at_border {
        code |= BORDER;
    }
    (U16Vec3::new(x + dx, y, z + dz), code)
}
#[cfg(rerecast_verif)]
fn check_field(c: &Fld) -> Result<bool, String> {
    let f = field(c);
    let flags = BuildContoursFlags::from_bits_retain(c.flags);
    let got = f.build_contours(c.err, c.len, flags);
    if (got.width, got.height, got.border_size) != (c.w - 2 * c.border, c.h - 2 * c.border, c.border) {
        return Err(format!("size {} {} {}", got.width, got.height, got.border_size));
    }
    let (b, pad) = (world(c), 0.5 * c.border as f32);
    let far = |p: f32, q: f32| !((p - q).abs() < 1e-3);
    let moved = far(got.aabb.min.x, b.min.x + pad) || far(got.aabb.min.z, b.min.z + pad) || far(got.aabb.max.x, b.max.x - pad) || far(got.aabb.max.z, b.max.z - pad);
    if moved || got.aabb.min.y != b.min.y || got.aabb.max.y != b.max.y || (got.cell_size, got.cell_height, got.max_error) != (0.5, 0.25, c.err) {
        return Err(format!("box {:?} cell {} x {} error {} from {b:?}", got.aabb, got.cell_size, got.cell_height, got.max_error));
    }
    let mut want = vec![];
    for cyc in cycles(c) {
        let mut raw: Vec<(U16Vec3, RegionVertexId)> = cyc.iter().map(|e| vertex(c, *e)).map(|(p, r)| (p, RegionVertexId::from(r))).collect();
        let mut s = contours::simplify(&raw, c.err, c.len, flags);
        contours::remove_degenerate(&mut s);
        if s.len() >= 3 {
            let shift = |p: &mut U16Vec3| {
                p.x = p.x.saturating_sub(c.border);
                p.z = p.z.saturating_sub(c.border);
            };
            raw.iter_mut().for_each(|p| shift(&mut p.0));
            s.iter_mut().for_each(|p| shift(&mut p.0));
            let k = cyc[0].0;
            want.push(Contour { vertices: s, raw_vertices: raw, region: RegionId::from(c.cells[k].0 as u16), area: AreaType(c.cells[k].1) });
        }
    }
    if got.contours.len() != want.len() {
        return Err(format!("{} contours, expected {}", got.contours.len(), want.len()));
    }
    for (k, (g, w)) in got.contours.iter().zip(&want).enumerate() {
        if (g.region, g.area) != (w.region, w.area) {
            return Err(format!("contour {k} belongs to {:?} {:?}, expected {:?} {:?}", g.region, g.area, w.region, w.area));
        }
        if g.raw_vertices != w.raw_vertices {
            return Err(format!("boundary {k} is traced as {:?}, expected {:?}", g.raw_vertices, w.raw_vertices));
        }
        if g.vertices != w.vertices {
            return Err(format!("contour {k} is {:?}, expected {:?}", g.vertices, w.vertices));
        }
    }
    Ok(!want.is_empty())
}
fn gen_fld(r: &mut Rng, k: u64) -> Fld {
    let lim = 3 + (k / 40).min(10);
    let border = if r.chance(1, 4) { 1 + r.below(2) as u16 } else { 0 };
    let (w, h) = (1 + 2 * border + r.below(lim) as u16, 1 + 2 * border + r.below(lim) as u16);
    let n = w as usize * h as usize;
    let holes = k % 30 == 7;
    let (w, h, n) = if holes { (w + 9, h + 9, (w + 9) as usize * (h + 9) as usize) } else { (w, h, n) };
    let ids = 1 + r.below(4) as u32;
    let smooth = r.chance(2, 3);
    let none = r.pick(&[0u64, 1, 3, 8]);
    let areas = 1 + r.below(3) as u8;
    let mix = r.below(4) as u8;
    let mut cells: Vec<(u32, u8, u16)> = vec![];
    for q in 0..n {
        let (x, z) = (q as u16 % w, q as u16 / w);
        let mut reg = if r.chance(none, 40) { 0x10000 } else { r.below(ids as u64 + 1) as u32 };
        if smooth && r.chance(9, 10) && q > w as usize && cells[q - 1].0 & 0x8000 == 0 && cells[q - w as usize].0 & 0x8000 == 0 {
            reg = if r.chance(1, 2) { cells[q - 1].0 } else { cells[q - w as usize].0 };
        }
        if holes {
            reg = if x % 3 == 1 && z % 3 == 1 && r.chance(4, 5) { r.pick(&[0x10000, 0, 1, 2]) } else { 1 };
        }
        if border > 0 && reg != 0x10000 {
            if x < border {
                reg = 0x8001;
            } else if x >= w - border {
                reg = 0x8002;
            } else if z < border {
                reg = 0x8003;
            } else if z >= h - border {
                reg = 0x8004;
            }
        }
        // the spans of a region have one area type
        let area = if reg == 0 { r.below(3) as u8 } else { 1 + ((reg & 3) as u8 ^ mix) % areas };
        cells.push((reg, area, if r.chance(1, 3) { r.below(5) as u16 } else { 3 }));
    }
    let cut = (0..if r.chance(1, 3) { r.below(6) } else { 0 }).map(|_| (r.below(n as u64) as usize, r.below(4) as u8)).collect();
    Fld { w, h, border, err: r.pick(&[0.0f32, 0.5, 1.3, 3.0]), len: r.pick(&[0u16, 1, 2, 4, 12, 256]), flags: r.below(4) as u8, cells, cut }
}

pub fn c12(ctx: &mut Ctx) {
    #[cfg(rerecast_verif)]
    {
        ctx.group("rings", 45, 3_000_000, gen_ring, check_ring);
        ctx.group(
            "degenerate",
            10,
            500_000,
            |r, k| {
                let n = r.below(3 + (k / 20).min(9));
                let side = 1 + r.below(3);
                (0..n).map(|_| (r.below(side) as u16, r.below(2) as u16)).collect::<Vec<_>>()
            },
            check_degenerate,
        );
        ctx.group("fields", 45, 500_000, gen_fld, check_field);
    }
    #[cfg(not(rerecast_verif))]
    let _ = (ctx, gen_ring, gen_fld, field, world, cycles, vertex, places, dist, wall);
}
