//! C15: integer geometry predicates, ring stepping, directions.
use crate::rt::*;
#[cfg(rerecast_verif)]
use rerecast::verif::{math, poly_mesh};
use serde::{Deserialize, Serialize};

type P = (u16, u16, u16);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pts(P, P, P, P);

fn cross(a: P, b: P, c: P) -> i64 {
    let s = |p: P| (p.0 as i64, p.2 as i64);
    let (a, b, c) = (s(a), s(b), s(c));
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}
fn on_seg(a: P, b: P, c: P) -> bool {
    cross(a, b, c) == 0 && a.0.min(b.0) <= c.0 && c.0 <= a.0.max(b.0) && a.2.min(b.2) <= c.2 && c.2 <= a.2.max(b.2)
}
fn proper(a: P, b: P, c: P, d: P) -> bool {
    cross(a, b, c).signum() * cross(a, b, d).signum() < 0 && cross(c, d, a).signum() * cross(c, d, b).signum() < 0
}

#[cfg(rerecast_verif)]
fn check(q: &Pts) -> Result<bool, String> {
    let Pts(a, b, c, d) = q.clone();
    let v = |p: P| glam::U16Vec3::new(p.0, p.1, p.2);
    let (o, l, lo, co) = poly_mesh::orient(v(a), v(b), v(c));
    let e = cross(a, b, c);
    if (o as i64, l, lo, co) != (e, e < 0, e <= 0, e == 0) {
        return Err(format!("orientation of {a:?} {b:?} {c:?}: {o} {l} {lo} {co}, exact {e}"));
    }
    let t = poly_mesh::segment_between(v(a), v(b), v(c));
    if t != on_seg(a, b, c) {
        return Err(format!("{c:?} on the segment {a:?} {b:?}: {t}"));
    }
    let (i, p) = poly_mesh::segments_intersect(v(a), v(b), v(c), v(d));
    if p != proper(a, b, c, d) {
        return Err(format!("{a:?}{b:?} properly crosses {c:?}{d:?}: {p}"));
    }
    let ei = proper(a, b, c, d) || on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
    if i != ei {
        return Err(format!("{a:?}{b:?} meets {c:?}{d:?}: {i}"));
    }
    Ok(e == 0 || i)
}

pub fn run(ctx: &mut Ctx) {
    #[cfg(rerecast_verif)]
    {
        ctx.group(
            "points",
            80,
            3_000_000,
            |r, k| {
                let m = [3u64, 5, 12, 32768][(k % 4) as usize];
                let base = if r.chance(1, 2) { 0 } else { 32768 - m };
                let p = |r: &mut Rng| ((base + r.below(m)) as u16, r.below(65536) as u16, (base + r.below(m)) as u16);
                let (a, b) = (p(r), p(r));
                let line = |r: &mut Rng| {
                    let t = r.range(-2, 4);
                    let f = |u: u16, v: u16| u as i64 + (v as i64 - u as i64) * t / 2;
                    ((f(a.0, b.0).clamp(0, 32767)) as u16, 3, f(a.2, b.2).clamp(0, 32767) as u16)
                };
                let c = if r.chance(1, 3) { line(r) } else { p(r) };
                let d = match r.below(5) {
                    0 => line(r),
                    1 => a,
                    2 => c,
                    _ => p(r),
                };
                let x = |r: &mut Rng| (r.pick(&[0u16, 32767]), 0, r.pick(&[0u16, 32767]));
                if r.chance(1, 30) { Pts(x(r), x(r), x(r), x(r)) } else { Pts(a, b, c, d) }
            },
            check,
        );
        ctx.group(
            "ring",
            10,
            200_000,
            |r, k| {
                let bits = r.range(1, 40);
                let n = if k < 2000 { 1 + k / 45 } else { 1 + r.below(1 << bits) };
                let any = r.below(n);
                let i = if k < 2000 { (k % 45) % n } else { r.pick(&[0, n - 1, any]) };
                (i, n)
            },
            |&(i, n)| {
                let (i, n) = (i as usize, n as usize);
                let (p, q) = (math::prev_index(i, n), math::next_index(i, n));
                let (ep, eq) = (if i == 0 { n - 1 } else { i - 1 }, if i + 1 == n { 0 } else { i + 1 });
                if (p, q) != (ep, eq) { Err(format!("prev {p}, next {q} of {i} in a ring of {n}")) } else { Ok(true) }
            },
        );
        ctx.group(
            "directions",
            10,
            4,
            |_, k| k as u8,
            |&d| {
                let want = [(-1i8, 0i8), (0, 1), (1, 0), (0, -1)];
                let got = math::dir_offsets(d);
                if got != want[d as usize] {
                    return Err(format!("direction {d} is {got:?}"));
                }
                if math::dir_of(got.0 as i32, got.1 as i32) != d as i8 {
                    return Err(format!("direction of {got:?} is {}", math::dir_of(got.0 as i32, got.1 as i32)));
                }
                Ok(true)
            },
        );
    }
    #[cfg(not(rerecast_verif))]
    let _ = ctx;
}
