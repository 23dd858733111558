//! C08, C09: distances on compact heightfields with arbitrary links.
use crate::rt::*;
use rerecast::{AreaType, CompactCell, CompactHeightfield, CompactSpan, RegionId};
use serde::{Deserialize, Serialize};
use std::collections::BinaryHeap;

pub const DIRS: [(i64, i64); 4] = [(-1, 0), (0, 1), (1, 0), (0, -1)];

/// columns of (floor, area, links), row by row; 63 for no link
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Field {
    pub w: u16,
    pub h: u16,
    pub cols: Vec<Vec<(u16, u8, [u8; 4])>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    Field(Field, u16),
    /// one flat layer with some unwalkable cells
    Flat { w: u16, h: u16, off: Vec<(u16, u16)>, r: u16 },
}

pub fn flat(w: u16, h: u16, off: &[(u16, u16)]) -> Field {
    let mut cols = vec![];
    for z in 0..h as i64 {
        for x in 0..w as i64 {
            let links = std::array::from_fn(|d| {
                let (a, b) = (x + DIRS[d].0, z + DIRS[d].1);
                if a < 0 || b < 0 || a >= w as i64 || b >= h as i64 { 63 } else { 0 }
            });
            let area = if off.contains(&(x as u16, z as u16)) { 0 } else { 1 };
            cols.push(vec![(0, area, links)]);
        }
    }
    Field { w, h, cols }
}

pub fn link(f: &mut Field, climb: u16) {
    let (w, h) = (f.w as i64, f.h as i64);
    let old = f.cols.clone();
    for (c, col) in f.cols.iter_mut().enumerate() {
        let (x, z) = (c as i64 % w, c as i64 / w);
        for s in col.iter_mut() {
            for d in 0..4 {
                let (a, b) = (x + DIRS[d].0, z + DIRS[d].1);
                s.2[d] = 63;
                if a >= 0 && b >= 0 && a < w && b < h {
                    let n = &old[(b * w + a) as usize];
                    if let Some(k) = n.iter().position(|t| t.0.abs_diff(s.0) <= climb) {
                        s.2[d] = k as u8;
                    }
                }
            }
        }
    }
}

pub fn gen_field(r: &mut Rng, k: u64) -> Field {
    let lim = 1 + (k / 50).min(8);
    let (w, h) = (1 + r.below(lim) as u16, 1 + r.below(lim) as u16);
    let layers = 1 + r.below(3);
    let sparse = r.below(8);
    let areas = 1 + r.below(3);
    let unwalk = r.below(10);
    let cols = (0..w as u64 * h as u64)
        .map(|_| {
            let mut v = vec![];
            for l in 0..layers {
                if !r.chance(sparse, 40) {
                    let a = if r.chance(unwalk, 40) { 0 } else { 1 + r.below(areas) as u8 };
                    v.push(((l * 10 + r.below(4)) as u16, a, [63; 4]));
                }
            }
            v
        })
        .collect();
    let mut f = Field { w, h, cols };
    link(&mut f, r.pick(&[1u16, 3, 3, 3, 3, 12]));
    if r.chance(1, 3) {
        // missing or strange links
        let n = 1 + r.below(4);
        let counts: Vec<usize> = f.cols.iter().map(|c| c.len()).collect();
        for _ in 0..n {
            let c = r.below(f.cols.len() as u64) as usize;
            if f.cols[c].is_empty() {
                continue;
            }
            let i = r.below(f.cols[c].len() as u64) as usize;
            let d = r.below(4) as usize;
            if f.cols[c][i].2[d] != 63 {
                let nc = (c as i64 + DIRS[d].0 + DIRS[d].1 * w as i64) as usize;
                f.cols[c][i].2[d] = if r.chance(1, 2) { 63 } else { r.below(counts[nc] as u64) as u8 };
            }
        }
    }
    f
}

pub fn build(f: &Field) -> CompactHeightfield {
    let mut c = CompactHeightfield { width: f.w, height: f.h, cell_size: 1.0, cell_height: 1.0, ..Default::default() };
    for col in &f.cols {
        let mut cell = CompactCell::default();
        if !col.is_empty() {
            cell.set_index(c.spans.len() as u32);
            cell.set_count(col.len() as u8);
        }
        c.cells.push(cell);
        for (y, a, l) in col {
            let data = l.iter().enumerate().fold(10u32 << 24, |d, (k, v)| d | ((*v as u32) << (6 * k)));
            c.spans.push(CompactSpan { y: *y, region: RegionId::from(0), data });
            c.areas.push(AreaType(*a));
        }
    }
    c
}

/// the links of every span, by span index
pub struct Graph {
    pub area: Vec<u8>,
    pub cell: Vec<usize>,
    pub nb: Vec<[Option<usize>; 4]>,
}
pub fn graph(f: &Field) -> Graph {
    let mut start = vec![];
    let mut n = 0;
    for c in &f.cols {
        start.push(n);
        n += c.len();
    }
    let (mut area, mut cell, mut nb) = (vec![], vec![], vec![]);
    for (c, col) in f.cols.iter().enumerate() {
        for s in col {
            area.push(s.1);
            cell.push(c);
            nb.push(std::array::from_fn(|d| {
                (s.2[d] != 63).then(|| start[(c as i64 + DIRS[d].0 + DIRS[d].1 * f.w as i64) as usize] + s.2[d] as usize)
            }));
        }
    }
    Graph { area, cell, nb }
}
impl Graph {
    pub fn steps(&self, j: usize) -> Vec<(usize, u32)> {
        let mut v = vec![];
        for d in 0..4 {
            if let Some(a) = self.nb[j][d] {
                v.push((a, 2));
                for e in [(d + 1) % 4, (d + 3) % 4] {
                    if let Some(b) = self.nb[a][e] {
                        v.push((b, 3));
                    }
                }
            }
        }
        v
    }
    /// links are mutual and agree around corners
    pub fn consistent(&self) -> bool {
        (0..self.nb.len()).all(|j| {
            (0..4).all(|d| {
                self.nb[j][d].is_none_or(|a| {
                    self.nb[a][(d + 2) % 4] == Some(j)
                        && [(d + 1) % 4, (d + 3) % 4].into_iter().all(|e| {
                            let (x, y) = (self.nb[a][e], self.nb[j][e].and_then(|b| self.nb[b][d]));
                            x.is_none() || y.is_none() || x == y
                        })
                })
            })
        })
    }
    /// cost of the cheapest way from every span to one in b
    pub fn distance(&self, b: &[bool]) -> Vec<u32> {
        let n = self.nb.len();
        let mut back = vec![vec![]; n];
        for j in 0..n {
            for (k, w) in self.steps(j) {
                back[k].push((j, w));
            }
        }
        let mut d = vec![u32::MAX; n];
        let mut q = BinaryHeap::new();
        for j in 0..n {
            if b[j] {
                d[j] = 0;
                q.push((std::cmp::Reverse(0), j));
            }
        }
        while let Some((std::cmp::Reverse(x), j)) = q.pop() {
            if x > d[j] {
                continue;
            }
            for &(k, w) in &back[j] {
                if x + w < d[k] {
                    d[k] = x + w;
                    q.push((std::cmp::Reverse(x + w), k));
                }
            }
        }
        d
    }
}

fn rest_same(a: &CompactHeightfield, b: &CompactHeightfield) -> bool {
    (a.width, a.height, a.walkable_height, a.walkable_climb, a.border_size, a.max_region) == (b.width, b.height, b.walkable_height, b.walkable_climb, b.border_size, b.max_region)
        && a.cells.iter().map(|c| (c.index(), c.count())).eq(b.cells.iter().map(|c| (c.index(), c.count())))
        && a.spans.iter().map(|s| (s.y, s.data, s.region)).eq(b.spans.iter().map(|s| (s.y, s.data, s.region)))
}

fn expand(c: &Case) -> (Field, u16) {
    match c {
        Case::Field(f, r) => (f.clone(), *r),
        Case::Flat { w, h, off, r } => (flat(*w, *h, off), *r),
    }
}
fn gen_case(r: &mut Rng, k: u64) -> Case {
    if k % 500 == 7 || k % 500 == 77 {
        let s = if k < 10 { 270 } else { 240 } + r.below(80) as u16;
        let off = (0..r.below(3)).map(|_| (r.below(s as u64) as u16, r.below(s as u64) as u16)).collect();
        return Case::Flat { w: s, h: s + r.below(20) as u16, off, r: if k == 7 { 100 } else { r.pick(&[60u16, 100, 126, 127, 128, 129, 130, 140, 200, 255, 256, 300, 32767, 32768, 32769, 65535]) } };
    }
    let rad = if r.chance(1, 10) { r.pick(&[127u16, 128, 129, 200, 255, 256, 32767, 32768, 65535]) } else { r.below(7) as u16 };
    if let Some((w, h)) = crate::hf::wide(r, k) {
        let off = (0..r.below(4)).map(|_| (r.below(w as u64) as u16, r.below(h as u64) as u16)).collect();
        return Case::Flat { w, h, off, r: rad };
    }
    Case::Field(gen_field(r, k), rad)
}

pub fn c08(ctx: &mut Ctx) {
    ctx.group("erosion", 100, 400_000, gen_case, |c| {
        let (f, r) = expand(c);
        let mut got = build(&f);
        let before = got.clone();
        got.erode_walkable_area(r);
        if !rest_same(&got, &before) || got.areas.len() != before.areas.len() || got.dist != before.dist || got.max_distance != before.max_distance {
            return Err("something other than area types changed".into());
        }
        let g = graph(&f);
        let b: Vec<bool> = (0..g.nb.len()).map(|j| g.area[j] == 0 || g.nb[j].iter().any(|n| n.is_none_or(|n| g.area[n] == 0))).collect();
        let dist = g.distance(&b);
        let cons = g.consistent();
        let mut nt = false;
        for j in 0..g.nb.len() {
            let a = got.areas[j].0;
            let near = (dist[j] as u64) < 2 * r as u64;
            if a != g.area[j] && (a != 0 || !near) {
                return Err(format!("span {j} of column {}: area {} became {a}, at distance {} of the boundary", g.cell[j], g.area[j], dist[j]));
            }
            if a != 0 && (near && cons || r > 0 && b[j]) {
                return Err(format!("span {j} of column {} kept area {a}, at distance {} of the boundary", g.cell[j], dist[j]));
            }
            nt |= a != 0 && dist[j] > 2;
        }
        Ok(nt)
    });
}

pub fn c09(ctx: &mut Ctx) {
    ctx.group("distance field", 100, 400_000, gen_case, |c| {
        let (f, _) = expand(c);
        let mut got = build(&f);
        let before = got.clone();
        got.build_distance_field();
        if !rest_same(&got, &before) || got.areas != before.areas {
            return Err("something other than the distances changed".into());
        }
        let g = graph(&f);
        let n = g.nb.len();
        if got.dist.len() != n {
            return Err(format!("{} distances for {n} spans", got.dist.len()));
        }
        if !g.consistent() {
            // the distances before smoothing are not observable; zero and small ones are kept by smoothing
            for j in 0..n {
                let b = (0..4).any(|d| g.nb[j][d].is_none_or(|a| g.area[a] != g.area[j]));
                if b != (got.dist[j] == 0) {
                    return Err(format!("span {j}: distance {}, on the boundary: {b}", got.dist[j]));
                }
            }
            return Ok(false);
        }
        let b: Vec<bool> = (0..n).map(|j| (0..4).any(|d| g.nb[j][d].is_none_or(|a| g.area[a] != g.area[j]))).collect();
        let s = g.distance(&b);
        let max = s.iter().copied().max().unwrap_or(0);
        if got.max_distance as u32 != max {
            return Err(format!("maximum {}, expected {max}", got.max_distance));
        }
        for j in 0..n {
            let want = if s[j] <= 2 {
                s[j]
            } else {
                let mut t = s[j];
                for d in 0..4 {
                    t += match g.nb[j][d] {
                        None => 2 * s[j],
                        Some(a) => s[a] + g.nb[a][(d + 1) % 4].map_or(s[j], |b| s[b]),
                    };
                }
                (t + 5) / 9
            };
            if got.dist[j] as u32 != want {
                return Err(format!("span {j} of column {}: {} expected {want} (unsmoothed {})", g.cell[j], got.dist[j], s[j]));
            }
        }
        Ok(max > 2)
    });
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Vol {
    f: Field,
    /// cell size and height in eighths, origin in quarters
    size: u32,
    tall: u32,
    origin: (i32, i32, i32),
    /// quarters
    outline: Vec<(i32, i32)>,
    y: (i32, i32),
    area: u8,
}

/// Some(inside), None on the outline; even-odd rule in exact arithmetic (eighths of eighths)
fn inside(p: (i64, i64), v: &[(i64, i64)]) -> Option<bool> {
    let mut r = false;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        let c = (b.0 - a.0) * (p.1 - a.1) - (p.0 - a.0) * (b.1 - a.1);
        if c == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) {
            return None;
        }
        if (a.1 > p.1) != (b.1 > p.1) && (c > 0) == (b.1 > a.1) {
            r = !r;
        }
    }
    Some(r)
}

fn check18(v: &Vol) -> Result<bool, String> {
    let mut c = build(&v.f);
    let (s, t) = (v.size as f32 / 8.0, v.tall as f32 / 8.0);
    c.cell_size = s;
    c.cell_height = t;
    let q = |x: i32| x as f32 / 4.0;
    c.aabb.min = glam::Vec3::new(q(v.origin.0), q(v.origin.1), q(v.origin.2));
    c.aabb.max = c.aabb.min + glam::Vec3::new(v.f.w as f32 * s, 1000.0, v.f.h as f32 * s);
    let old = c.clone();
    c.mark_convex_poly_area(rerecast::ConvexVolume {
        vertices: v.outline.iter().map(|p| glam::Vec2::new(q(p.0), q(p.1))).collect(),
        min_y: q(v.y.0),
        max_y: q(v.y.1),
        area: AreaType(v.area),
    });
    // sixteenths
    let o: Vec<(i64, i64)> = v.outline.iter().map(|p| (p.0 as i64 * 4, p.1 as i64 * 4)).collect();
    let cell = |y: i32| (2 * (y - v.origin.1) as i64).div_euclid(v.tall as i64);
    let (lo, hi) = (cell(v.y.0), cell(v.y.1));
    let mut j = 0;
    let mut some = false;
    for (k, col) in v.f.cols.iter().enumerate() {
        let (x, z) = ((k % v.f.w as usize) as i64, (k / v.f.w as usize) as i64);
        let p = (v.origin.0 as i64 * 4 + (2 * x + 1) * v.size as i64, v.origin.2 as i64 * 4 + (2 * z + 1) * v.size as i64);
        let ins = if o.is_empty() { Some(false) } else { inside(p, &o) };
        for sp in col {
            let keep = sp.1 == 0 || (sp.0 as i64) < lo || sp.0 as i64 > hi;
            let got = c.areas[j].0;
            let want = match ins {
                _ if keep => Some(sp.1),
                Some(true) => Some(v.area),
                Some(false) => Some(sp.1),
                None => None,
            };
            if let Some(w) = want {
                if got != w {
                    return Err(format!("span {j} of column ({x}, {z}), floor {}, area {}: {got}, expected {w}", sp.0, sp.1));
                }
                some |= w != sp.1;
            }
            j += 1;
        }
    }
    c.areas = old.areas.clone();
    if format!("{c:?}") != format!("{old:?}") {
        return Err("changes more than area types".into());
    }
    Ok(some)
}

pub fn c18(ctx: &mut Ctx) {
    ctx.group(
        "volumes",
        100,
        400_000,
        |r, k| {
            let mut f = gen_field(r, k);
            if f.cols.len() < 3 || r.chance(1, 6) {
                f = flat(1 + r.below(9) as u16, 1 + r.below(9) as u16, &[]);
            }
            let wide = crate::hf::wide(r, k);
            if let Some((w, h)) = wide {
                f = flat(w, h, &[]);
            }
            // floors at the upper end of their range
            let lift = if r.chance(1, 4) { r.pick(&[30000u16, 32750, 65490]) } else { 0 };
            for s in f.cols.iter_mut().flatten() {
                s.0 += lift;
            }
            let size = r.pick(&[1u32, 2, 4, 8, 8, 16]);
            let tall = r.pick(&[1u32, 2, 4, 8]);
            let origin = (r.range(-40, 40) as i32, r.range(-40, 40) as i32, r.range(-40, 40) as i32);
            // outline in quarters around the field: the field is w * size / 2 quarters wide
            let (fw, fh) = (f.w as i64 * size as i64 / 2, f.h as i64 * size as i64 / 2);
            let m = r.pick(&[0i64, 2, 8, 30]);
            let pt = |r: &mut Rng| (origin.0 + r.range(-m, fw + m) as i32, origin.2 + r.range(-m, fh + m) as i32);
            let outline: Vec<(i32, i32)> = match if wide.is_some() { 1 + r.below(3) } else { r.below(8) } {
                0 => vec![],
                1 | 2 => {
                    let (a, b) = (pt(r), pt(r));
                    vec![a, (b.0, a.1), b, (a.0, b.1)]
                }
                3 => {
                    // the whole field and more
                    let (a, b) = ((origin.0 - 3, origin.2 - 3), (origin.0 + fw as i32 + 3, origin.2 + fh as i32 + 3));
                    vec![a, (b.0, a.1), b, (a.0, b.1)]
                }
                4 => {
                    // beside the field
                    let d = (fw + 2 * m + 4) as i32 * if r.chance(1, 2) { 1 } else { -1 };
                    let sh = r.chance(1, 2);
                    (0..3).map(|_| pt(r)).map(|p| if sh { (p.0 + d, p.1) } else { (p.0, p.1 + d) }).collect()
                }
                5 => (0..1 + r.below(2)).map(|_| pt(r)).collect(),
                _ => {
                    let n = 3 + r.below(4);
                    let mut v: Vec<(i32, i32)> = (0..n).map(|_| pt(r)).collect();
                    let g = (v.iter().map(|p| p.0 as f64).sum::<f64>() / n as f64, v.iter().map(|p| p.1 as f64).sum::<f64>() / n as f64);
                    v.sort_by(|a, b| {
                        let t = |p: &(i32, i32)| (p.1 as f64 - g.1).atan2(p.0 as f64 - g.0);
                        t(a).total_cmp(&t(b))
                    });
                    v
                }
            };
            let hq = |c: i64| origin.1 + ((c + lift as i64) * tall as i64 / 2) as i32;
            let (a, b) = (r.range(-4, 40), r.range(-4, 40));
            let mut y = (hq(a.min(b)) + r.range(-1, 1) as i32, hq(a.max(b)) + r.range(-1, 1) as i32);
            if r.chance(1, 3) || wide.is_some() {
                y = (hq(-10), hq(60));
            }
            Vol { f, size, tall, origin, outline, y, area: r.below(5) as u8 }
        },
        check18,
    );
}

// ---- C10 ----
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Land {
    Field(Field),
    /// one flat layer; letters other than '.' are areas, '.' is unwalkable
    Rows(Vec<String>),
    /// a room with a corridor of the given length
    Corridor(u16),
    /// isolated spans and a room
    Dots(u16, u16),
    /// one flat layer with some unwalkable cells
    Flat(u16, u16, Vec<(u16, u16)>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Watershed {
    land: Land,
    border: u16,
    min: u16,
    merge: u16,
}
fn land(l: &Land) -> Field {
    match l {
        Land::Field(f) => f.clone(),
        Land::Flat(w, h, off) => flat(*w, *h, off),
        Land::Rows(r) => {
            let (w, h) = (r[0].len() as u16, r.len() as u16);
            let mut f = flat(w, h, &[]);
            for (z, row) in r.iter().enumerate() {
                for (x, b) in row.bytes().enumerate() {
                    f.cols[z * w as usize + x][0].1 = if b == b'.' { 0 } else { b - b'a' + 1 };
                }
            }
            f
        }
        Land::Corridor(n) => {
            let w = n + 12;
            let mut f = flat(w, 11, &[]);
            for z in 0..11usize {
                for x in 11..w as usize {
                    if z != 5 {
                        f.cols[z * w as usize + x].clear();
                    }
                }
            }
            link(&mut f, 1);
            f
        }
        Land::Dots(w, h) => {
            let mut f = flat(*w, *h, &[]);
            for z in 0..*h as usize {
                for x in 0..*w as usize {
                    if (x + z) % 2 == 1 && (x > 8 || z > 8) {
                        f.cols[z * *w as usize + x].clear();
                    }
                }
            }
            link(&mut f, 1);
            f
        }
    }
}
fn gen_rows(r: &mut Rng, k: u64) -> Vec<String> {
    let lim = 4 + (k / 100).min(36);
    let (w, h) = (1 + r.below(lim), 1 + r.below(lim));
    let mut g = vec![vec![b'a'; w as usize]; h as usize];
    for _ in 0..r.below(2 + lim / 2) {
        // blocks of unwalkable or other ground
        let (a, b) = (1 + r.below(lim / 2), 1 + r.below(lim / 2));
        let (x, z) = (r.below(w), r.below(h));
        let c = if r.chance(2, 3) { b'.' } else { b'a' + r.below(3) as u8 };
        for i in x..(x + a).min(w) {
            for j in z..(z + b).min(h) {
                g[j as usize][i as usize] = c;
            }
        }
    }
    for _ in 0..r.below(3 * lim) {
        let (x, z) = (r.below(w), r.below(h));
        g[z as usize][x as usize] = if r.chance(2, 3) { b'.' } else { b'a' };
    }
    g.into_iter().map(|v| String::from_utf8(v).unwrap()).collect()
}
fn gen_watershed(r: &mut Rng, k: u64) -> Watershed {
    let land = match k {
        37 => Land::Corridor(33000),
        61 => Land::Dots(300, 300),
        73 => Land::Dots(250, 250),
        11 | 53 | 97 | 131 => {
            let (a, b) = (r.pick(&[300u16, 33000]), 2 + r.below(4) as u16);
            let (w, h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            let off = (0..r.below(40)).map(|_| (r.below(w as u64) as u16, r.below(h as u64) as u16)).collect();
            Land::Flat(w, h, off)
        }
        _ if r.chance(1, 2) => Land::Rows(gen_rows(r, k)),
        _ => Land::Field(gen_field(r, k)),
    };
    Watershed {
        land,
        border: if r.chance(1, 2) { 0 } else { r.pick(&[1u16, 1, 2, 3, 5, 20, 65535]) },
        min: r.pick(&[0u16, 0, 1, 2, 4, 8, 20, 100, 65535]),
        merge: r.pick(&[0u16, 1, 4, 10, 20, 100, 65535]),
    }
}
pub fn c10(ctx: &mut Ctx) {
    ctx.group("regions", 100, 400_000, gen_watershed, |c| {
        let f = land(&c.land);
        let mut got = build(&f);
        got.build_distance_field();
        let before = got.clone();
        let big = before.spans.len() > 32_000;
        let res = got.build_regions(c.border, c.min, c.merge);
        let mut want = before.clone();
        want.border_size = got.border_size;
        want.max_region = got.max_region;
        for (a, b) in want.spans.iter_mut().zip(&got.spans) {
            a.region = b.region;
        }
        if !rest_same(&got, &want) || got.areas != before.areas || got.dist != before.dist || got.max_distance != before.max_distance || got.spans.len() != before.spans.len() {
            return Err("something other than regions changed".into());
        }
        if res.is_err() {
            return if big { Ok(true) } else { Err("too many regions reported".into()) };
        }
        if got.border_size != c.border {
            return Err(format!("border size {}", got.border_size));
        }
        let g = graph(&f);
        let n = g.nb.len();
        let (w, h, b) = (f.w as i64, f.h as i64, c.border as i64);
        let max = got.max_region.bits();
        let mut area_of = std::collections::BTreeMap::new();
        let lab: Vec<u16> = got.spans.iter().map(|s| s.region.bits()).collect();
        for j in 0..n {
            let (x, z) = (g.cell[j] as i64 % w, g.cell[j] as i64 / w);
            let rim = x < b || z < b || x >= w - b || z >= h - b;
            let r = lab[j];
            if g.area[j] == 0 {
                if r != 0 {
                    return Err(format!("unwalkable span {j} of column ({x}, {z}) in region {r}"));
                }
                continue;
            }
            if rim != (r & 0x8000 != 0) {
                return Err(format!("span {j} of column ({x}, {z}) in region {r}; within the border: {rim}"));
            }
            if rim || r == 0 {
                continue;
            }
            if r > max {
                return Err(format!("region {r} of span {j} beyond the maximum {max}"));
            }
            let a = *area_of.entry(r).or_insert(g.area[j]);
            if a != g.area[j] {
                return Err(format!("region {r} holds areas {a} and {}", g.area[j]));
            }
        }
        // pieces
        let mut adj = vec![vec![]; n];
        for j in 0..n {
            for a in g.nb[j].iter().flatten() {
                adj[j].push(*a);
                adj[*a].push(j);
            }
        }
        let piece = |same: &dyn Fn(usize, usize) -> bool| {
            let mut id = vec![usize::MAX; n];
            let mut m = 0;
            for j in 0..n {
                if id[j] == usize::MAX {
                    let mut q = vec![j];
                    id[j] = m;
                    while let Some(a) = q.pop() {
                        for &b in &adj[a] {
                            if id[b] == usize::MAX && same(a, b) {
                                id[b] = m;
                                q.push(b);
                            }
                        }
                    }
                    m += 1;
                }
            }
            (id, m)
        };
        let (by_label, _) = piece(&|a, b| lab[a] == lab[b]);
        let mut seen = std::collections::BTreeMap::new();
        for j in 0..n {
            if lab[j] != 0 && lab[j] & 0x8000 == 0 && *seen.entry(lab[j]).or_insert(by_label[j]) != by_label[j] {
                return Err(format!("region {} is in two pieces", lab[j]));
            }
        }
        // small pieces of land away from the border are removed, and nothing else is without a minimum size
        let (ground, m) = piece(&|a, b| g.area[a] != 0 && g.area[b] != 0);
        let (mut size, mut rim) = (vec![0u64; m], vec![false; m]);
        for j in 0..n {
            size[ground[j]] += 1;
            rim[ground[j]] |= lab[j] & 0x8000 != 0;
        }
        for j in 0..n {
            let p = ground[j];
            if g.area[j] != 0 && !rim[p] && size[p] < c.min as u64 && lab[j] != 0 {
                return Err(format!("span {j} in region {} is on a piece of {} spans away from the border", lab[j], size[p]));
            }
            if g.area[j] != 0 && lab[j] == 0 && c.min <= 1 && before.max_distance > 0 {
                return Err(format!("walkable span {j} of column {} in no region", g.cell[j]));
            }
        }
        Ok(seen.len() > 1)
    });
}
