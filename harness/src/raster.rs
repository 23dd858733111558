//! C19: rasterizing triangles into a heightfield.
use crate::hf::*;
use crate::rt::*;
use glam::Vec3A;
use rerecast::*;
use serde::{Deserialize, Serialize};

type V = [f32; 3];
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    hf: Hf,
    min: V,
    top: f32,
    cs: f32,
    ch: f32,
    tris: Vec<([V; 3], u8)>,
    thr: u16,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Split {
    v: Vec<V>,
    at: f32,
    axis: usize,
}

type P = [f64; 3];
/// the part of a polygon with v[axis] * sign >= lim * sign
fn clip(p: &[P], axis: usize, lim: f64, sign: f64) -> Vec<P> {
    let mut out = vec![];
    for k in 0..p.len() {
        let (a, b) = (p[k], p[(k + 1) % p.len()]);
        let (da, db) = ((a[axis] - lim) * sign, (b[axis] - lim) * sign);
        if da >= 0.0 {
            out.push(a);
        }
        if (da > 0.0 && db < 0.0) || (da < 0.0 && db > 0.0) {
            let t = da / (da - db);
            let mut q = [0.0; 3];
            for e in 0..3 {
                q[e] = a[e] + (b[e] - a[e]) * t;
            }
            q[axis] = lim;
            out.push(q);
        }
    }
    out
}
fn part(t: &[V; 3], x: (f64, f64), z: (f64, f64)) -> Vec<P> {
    let mut p: Vec<P> = t.iter().map(|v| [v[0] as f64, v[1] as f64, v[2] as f64]).collect();
    p = clip(&p, 0, x.0, 1.0);
    p = clip(&p, 0, x.1, -1.0);
    p = clip(&p, 2, z.0, 1.0);
    clip(&p, 2, z.1, -1.0)
}
fn ys(p: &[P]) -> (f64, f64) {
    p.iter().fold((f64::MAX, f64::MIN), |a, v| (a.0.min(v[1]), a.1.max(v[1])))
}
fn size(p: &[P]) -> f64 {
    // twice the area
    let mut s = [0.0; 3];
    for k in 1..p.len().max(1) - 1 {
        let u: Vec<f64> = (0..3).map(|e| p[k][e] - p[0][e]).collect();
        let w: Vec<f64> = (0..3).map(|e| p[k + 1][e] - p[0][e]).collect();
        for e in 0..3 {
            s[e] += u[(e + 1) % 3] * w[(e + 2) % 3] - u[(e + 2) % 3] * w[(e + 1) % 3];
        }
    }
    (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt()
}
fn solid(c: &Col, y: i64) -> bool {
    c.iter().any(|s| (s.0 as i64) <= y && y < s.1 as i64)
}
pub fn heightfield(c: &Case) -> Heightfield {
    let mut f = build(&c.hf);
    f.cell_size = c.cs;
    f.cell_height = c.ch;
    f.aabb.min = glam::Vec3::from_array(c.min);
    f.aabb.max = glam::Vec3::new(c.min[0] + c.hf.w as f32 * c.cs, c.min[1] + c.top, c.min[2] + c.hf.h as f32 * c.cs);
    f
}
fn tri(t: &[V; 3]) -> [Vec3A; 3] {
    t.map(Vec3A::from_array)
}
fn check(c: &Case) -> Result<bool, String> {
    let mut f = heightfield(c);
    let (lo, hi) = (f.aabb.min, f.aabb.max);
    let far = c.tris.iter().flat_map(|t| t.0.iter().flatten()).fold(0.0f64, |a, v| a.max(v.abs() as f64));
    let span = (hi - lo).max_element().max(lo.abs().max_element()) as f64;
    // positions are f32: what is closer than this cannot be told apart
    // (what is left of a triangle is rounded again at every row, which adds up on very long fields)
    let rows = 1.0 + c.hf.w.max(c.hf.h) as f64 / 1000.0;
    let eps = 3e-6 * (far + span) * rows + 1e-6;
    let mut hit = false;
    for (t, area) in &c.tris {
        let old = read(&f)?;
        f.rasterize_triangle(tri(t), AreaType(*area), c.thr).map_err(|e| format!("failed: {e}"))?;
        let new = read(&f)?;
        let all: Vec<P> = t.iter().map(|v| v.map(|x| x as f64)).collect();
        let outside = (0..3).any(|e| {
            let (a, b) = (all.iter().map(|v| v[e]).fold(f64::MAX, f64::min), all.iter().map(|v| v[e]).fold(f64::MIN, f64::max));
            b < lo[e] as f64 || a > hi[e] as f64
        });
        if outside && (old.cols != new.cols || old.w != new.w || old.h != new.h) {
            return Err("a triangle outside the field changes it".into());
        }
        // how fast the triangle climbs, at most
        for k in 0..new.cols.len() {
            let (o, n) = (&old.cols[k], &new.cols[k]);
            let (x, z) = ((k % c.hf.w as usize) as f64, (k / c.hf.w as usize) as f64);
            let cell = |base: f32, i: f64, e: f64| {
                let a = base as f64 + i * c.cs as f64;
                (a - e, a + c.cs as f64 + e)
            };
            let wide = part(t, cell(lo.x, x, eps), cell(lo.z, z, eps));
            let tight = part(t, cell(lo.x, x, -eps), cell(lo.z, z, -eps));
            let height = |y: f64| (y - lo.y as f64) / c.ch as f64;
            let e2 = eps / c.ch as f64 + 1e-6;
            let by = (hi.y - lo.y) as f64 / c.ch as f64;
            // candidate spans
            let mut ok: Vec<Option<(i64, i64)>> = vec![];
            let sure = tight.len() >= 3 && size(&tight) > 20.0 * eps * (far + span) && {
                let (a, b) = ys(&tight);
                height(b) > e2 && height(a) < by - e2
            };
            if !sure {
                ok.push(None);
            }
            if !wide.is_empty() {
                let (a, b) = ys(&wide);
                let (a, b) = (height(a), height(b));
                if b >= -e2 && a <= by + e2 {
                    let bottom = |y: f64, d: f64| ((y + d).clamp(0.0, (by + d).max(0.0)).floor() as i64).clamp(0, 65534);
                    let top = |y: f64, d: f64, mn: i64| ((y + d).clamp(0.0, (by + d).max(0.0)).ceil() as i64).clamp(mn + 1, 65535);
                    let (ta, tb) = if sure { let (p, q) = ys(&tight); (height(p), height(q)) } else { (b, a) };
                    let mut mins: Vec<i64> = (bottom(a, -e2)..=bottom(ta, e2)).collect();
                    mins.truncate(200);
                    for mn in mins {
                        let mut maxs: Vec<i64> = (top(tb.min(b), -e2, mn)..=top(b, e2, mn)).collect();
                        maxs.truncate(200);
                        for mx in maxs {
                            ok.push(Some((mn, mx)));
                        }
                    }
                }
            }
            let fits = ok.iter().any(|s| match s {
                None => o == n,
                Some((a, b)) => crate::c01::insert(o, (*a as u16, *b as u16, *area), c.thr) == *n,
            });
            if !fits {
                // solid material must stay whatever else happens
                for s in o {
                    for y in s.0 as i64..s.1 as i64 {
                        if !solid(n, y) {
                            return Err(format!("column {k}: cell {y} is no longer solid"));
                        }
                    }
                }
                return Err(format!("column {k} becomes {n:?} from {o:?}, expected one of {:?} with area {area}", ok.iter().take(8).collect::<Vec<_>>()));
            }
            hit |= o != n;
        }
    }
    // the mesh as a whole
    let mut g = heightfield(c);
    let mesh = TriMesh {
        vertices: c.tris.iter().flat_map(|t| tri(&t.0)).collect(),
        indices: (0..c.tris.len() as u32).map(|k| glam::UVec3::new(3 * k, 3 * k + 1, 3 * k + 2)).collect(),
        area_types: c.tris.iter().map(|t| AreaType(t.1)).collect(),
    };
    g.rasterize_triangles(&mesh, c.thr).map_err(|e| format!("failed: {e}"))?;
    if read(&g)?.cols != read(&f)?.cols {
        return Err("rasterizing a mesh differs from rasterizing its triangles one by one".into());
    }
    // and with the filters
    let mut p = heightfield(c);
    let tall = c.thr / 2 + 2;
    p.populate_from_trimesh(mesh, tall, c.thr).map_err(|e| format!("failed: {e}"))?;
    g.filter_low_hanging_walkable_obstacles(c.thr);
    g.filter_ledge_spans(tall, c.thr);
    g.filter_walkable_low_height_spans(tall);
    if read(&p)?.cols != read(&g)?.cols {
        return Err("populating a field differs from rasterizing its mesh and filtering".into());
    }
    Ok(hit)
}
fn gen_case(r: &mut Rng, k: u64) -> Case {
    let lim = 1 + (k / 100).min(6);
    let (mut w, mut h) = (1 + r.below(lim) as u16, 1 + r.below(lim) as u16);
    let cs = r.pick(&[1.0f32, 1.0, 0.5, 0.3, 0.1, 0.7, 3.3]);
    let ch = r.pick(&[1.0f32, 0.5, 0.2, 0.3]);
    let min: V = std::array::from_fn(|_| r.pick(&[0.0f32, 0.0, -3.0, 1.1, -7.3, 100.1]));
    let top = r.pick(&[3.0f32, 5.0, 10.0, 20.5]);
    if k % 5000 == 4000 {
        (w, h) = r.pick(&[(40_000, 1), (1, 40_000), (65535, 1), (32768, 2), (2, 32767)]);
    }
    let big = w as u32 * h as u32 > 1000;
    let cols = (0..w as usize * h as usize).map(|_| if big || r.chance(1, 2) { vec![] } else { gen_col(r, 3, 60) }).collect();
    let kind = r.below(6);
    let n = if big { 1 } else { 1 + r.below(2) };
    let tris = (0..n)
        .map(|_| {
            let mut t: [V; 3] = std::array::from_fn(|_| {
                let p = |r: &mut Rng, lo: f32, cell: f32, n: f32| {
                    let (a, b) = (-2.0f32, n + 2.0);
                    match kind {
                        // on the grid
                        0 => lo + (r.range(a as i64, b as i64) as f32) * cell,
                        1 => lo + (r.range(2 * a as i64, 2 * b as i64) as f32) * 0.5 * cell,
                        2 => r.f(lo + a * cell, lo + b * cell),
                        3 => if r.chance(1, 2) { lo + (r.range(a as i64, b as i64) as f32) * cell } else { r.f(lo + a * cell, lo + b * cell) },
                        // around the start of the field
                        4 => r.f(lo - 1.2 * cell, lo + 1.5 * cell),
                        _ => lo + r.f(-1.0, 1.0) * 10f32.powi(r.range(0, 3) as i32),
                    }
                };
                [p(r, min[0], cs, w as f32), p(r, min[1], 1.0, top), p(r, min[2], cs, h as f32)]
            });
            if r.chance(1, 10) {
                // flat, vertical or thin
                let e = r.below(3) as usize;
                t[1][e] = t[0][e];
                t[2][e] = if r.chance(1, 2) { t[0][e] } else { f32::from_bits(t[0][e].to_bits() ^ 1) };
            }
            (t, gen_area(r))
        })
        .collect();
    let mut c = Case { hf: Hf { w, h, cols }, min, top, cs, ch, tris, thr: r.pick(&[0u16, 1, 3, 65535]) };
    if k % 400 == 399 {
        // higher than the highest cell
        c.ch = r.pick(&[1.0f32, 0.25]);
        c.min[1] = 0.0;
        c.top = 70_000.0 * c.ch;
        for t in &mut c.tris {
            for v in &mut t.0 {
                v[1] = c.ch * r.pick(&[65530.0f32, 65534.0, 65535.0, 65535.5, 65536.0, 68000.0, 69999.0]);
            }
        }
    }
    c
}

#[cfg(rerecast_verif)]
fn check_split(c: &Split) -> Result<bool, String> {
    let v: Vec<Vec3A> = c.v.iter().map(|p| Vec3A::from_array(*p)).collect();
    let got = rerecast::verif::rasterize::split(&v, c.at, c.axis);
    if c.v.len() > 12 {
        return if got.is_none() { Ok(true) } else { Err("more than 12 vertices were accepted".into()) };
    }
    let Some((a, b)) = got else { return Err("refused".into()) };
    let side = |p: &Vec3A| { let d = c.at - p[c.axis]; if d > 0.0 { 1 } else if d < 0.0 { -1 } else { 0 } };
    let n = v.len();
    // what the first and second part consist of: a vertex, or a point between two vertices
    let mut want: (Vec<(usize, usize)>, Vec<(usize, usize)>) = (vec![], vec![]);
    for k in 0..n {
        let j = (k + n - 1) % n;
        let (s, t) = (side(&v[k]), side(&v[j]));
        if (s >= 0) != (t >= 0) {
            want.0.push((j, k));
            want.1.push((j, k));
            if s > 0 {
                want.0.push((k, k));
            }
            if s < 0 {
                want.1.push((k, k));
            }
        } else {
            if s >= 0 {
                want.0.push((k, k));
            }
            if s <= 0 {
                want.1.push((k, k));
            }
        }
    }
    for (name, got, want) in [("first", &a, &want.0), ("second", &b, &want.1)] {
        if got.len() != want.len() {
            return Err(format!("the {name} part has {} vertices, expected {}", got.len(), want.len()));
        }
        for (p, (j, k)) in got.iter().zip(want) {
            let ok = if j == k {
                *p == v[*k]
            } else {
                let (x, y) = (v[*j], v[*k]);
                let d = y - x;
                let t = (c.at as f64 - x[c.axis] as f64) / (y[c.axis] as f64 - x[c.axis] as f64);
                (0..3).all(|e| {
                    let q = x[e] as f64 + d[e] as f64 * t;
                    (q - p[e] as f64).abs() <= 1e-5 * (x[e].abs() + y[e].abs() + d[e].abs()) as f64 + 1e-6
                })
            };
            if !ok {
                return Err(format!("the {name} part has {p} for the point on edge {j}-{k}"));
            }
        }
    }
    Ok(!a.is_empty() && !b.is_empty())
}

pub fn c19(ctx: &mut Ctx) {
    ctx.group("triangles", 75, 3_000_000, gen_case, check);
    #[cfg(rerecast_verif)]
    ctx.group(
        "split",
        25,
        1_000_000,
        |r, _| {
            let n = if r.chance(1, 50) { 13 + r.below(200) } else { r.below(13) };
            let grid = r.chance(1, 2);
            let v = (0..n).map(|_| std::array::from_fn(|_| if grid { r.range(-3, 3) as f32 } else { r.f(-5.0, 5.0) })).collect();
            // a polygon with many crossings may outgrow the 12 places of the output, as no convex polygon does
            let mut c = Split { v, at: if r.chance(2, 3) { r.range(-4, 4) as f32 } else { r.f(-6.0, 6.0) }, axis: r.pick(&[0, 2]) };
            if n <= 12 {
                loop {
                    let s: Vec<bool> = c.v.iter().map(|p| c.at - p[c.axis] >= 0.0).collect();
                    let m = s.len();
                    let cross = (0..m).filter(|&k| s[k] != s[(k + m - 1) % m]).count();
                    if m + cross <= 12 {
                        break;
                    }
                    c.v.pop();
                }
            }
            c
        },
        check_split,
    );
}
