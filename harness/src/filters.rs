//! C02, C03, C04: the three span filters against their definitions.
use crate::hf::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    hf: Hf,
    height: u16,
    climb: u16,
}

const TOP: i64 = 65535;

fn small_col(r: &mut Rng) -> Col {
    // a few heights only, so that floors of neighbours meet within the limits often
    let mut v = vec![];
    let mut y = r.below(5) as i64;
    for _ in 0..r.below(4) {
        let max = y + r.below(3) as i64;
        v.push((y as u16, max as u16, gen_area(r)));
        y = max + 1 + r.below(6) as i64;
    }
    v
}

fn gen_case(r: &mut Rng, k: u64) -> Case {
    let mut hf = gen_hf(r, 1 + (k / 300).min(4), 1 + (k / 200).min(5));
    let wide = wide(r, k);
    if let Some((w, h)) = wide {
        hf = Hf { w, h, cols: vec![vec![]; w as usize * h as usize] };
    }
    let flat = r.chance(2, 3);
    if flat {
        for c in hf.cols.iter_mut() {
            *c = small_col(r);
            if r.chance(1, 2) && c.is_empty() {
                c.push((0, r.below(3) as u16, 1));
            }
        }
    }
    if r.chance(1, 2) {
        for s in hf.cols.iter_mut().flatten() {
            if s.2 == 0 && r.chance(3, 4) {
                s.2 = 1 + r.below(200) as u8;
            }
        }
    }
    let lim = |r: &mut Rng| match r.below(10) {
        0 => r.below(65536) as u16,
        1 => 65535,
        2 => (32760 + r.below(16)) as u16,
        _ => r.below(7) as u16,
    };
    // without a ceiling the topmost floors always count as ledges unless the agent is very tall
    if r.chance(1, 3) {
        let base = 65535 - 60;
        for c in hf.cols.iter_mut() {
            for s in c.iter_mut() {
                s.0 = base + s.0.min(50);
                s.1 = (base + s.1.min(55)).max(s.0);
            }
            let mut last = -1i64;
            c.retain(|s| {
                let ok = s.0 as i64 > last;
                if ok {
                    last = s.1 as i64
                };
                ok
            });
        }
    }
    Case { hf, height: lim(r), climb: lim(r) }
}

fn compare(o: &Hf, got: &Hf, want: impl Fn(usize, usize) -> u8) -> Result<bool, String> {
    let mut nt = false;
    if got.w != o.w || got.h != o.h {
        return Err("the field's size changed".into());
    }
    for c in 0..o.cols.len() {
        if got.cols[c].len() != o.cols[c].len() {
            return Err(format!("column {c} has {} spans, had {}", got.cols[c].len(), o.cols[c].len()));
        }
        for j in 0..o.cols[c].len() {
            let (a, b) = (o.cols[c][j], got.cols[c][j]);
            if a.0 != b.0 || a.1 != b.1 {
                return Err(format!("column {c} span {j}: heights {b:?}, were {a:?}"));
            }
            let w = want(c, j);
            if b.2 != w {
                return Err(format!("column {c} span {j}: area {}, expected {w} (was {})", b.2, a.2));
            }
            nt |= w != a.2;
        }
    }
    Ok(nt)
}

/// area of every span after the low-obstacle filter
fn promoted(col: &Col, climb: i64) -> Vec<u8> {
    (0..col.len())
        .map(|j| {
            if col[j].2 == 0 && j > 0 && col[j - 1].2 != 0 && col[j].1 as i64 - col[j - 1].1 as i64 <= climb {
                col[j - 1].2
            } else {
                col[j].2
            }
        })
        .collect()
}

fn bottom(col: &Col, j: usize) -> i64 {
    col.get(j).map_or(TOP, |s| s.0 as i64)
}

fn is_ledge(o: &Hf, c: usize, j: usize, wh: i64, climb: i64) -> bool {
    let (x, z) = ((c % o.w as usize) as i64, (c / o.w as usize) as i64);
    let floor = o.cols[c][j].1 as i64;
    let ceil = bottom(&o.cols[c], j + 1);
    let mut levels = vec![floor];
    for (dx, dz) in [(-1, 0), (0, 1), (1, 0), (0, -1)] {
        let (nx, nz) = (x + dx, z + dz);
        if nx < 0 || nz < 0 || nx >= o.w as i64 || nz >= o.h as i64 {
            return true;
        }
        let n = &o.cols[(nz * o.w as i64 + nx) as usize];
        if ceil.min(bottom(n, 0)) - floor >= wh {
            return true;
        }
        for k in 0..n.len() {
            let nf = n[k].1 as i64;
            if ceil.min(bottom(n, k + 1)) - floor.max(nf) < wh {
                continue;
            }
            if nf - floor < -climb {
                return true;
            }
            if nf - floor <= climb {
                levels.push(nf);
            }
        }
    }
    levels.iter().max().unwrap() - levels.iter().min().unwrap() > climb
}

pub fn c02(ctx: &mut Ctx) {
    ctx.group("low_obstacles", 100, 600_000, gen_case, |c| {
        let mut f = build(&c.hf);
        f.filter_low_hanging_walkable_obstacles(c.climb);
        let want: Vec<Vec<u8>> = c.hf.cols.iter().map(|k| promoted(k, c.climb as i64)).collect();
        compare(&c.hf, &read(&f)?, |c, j| want[c][j])
    });
}

pub fn c03(ctx: &mut Ctx) {
    ctx.group("ledges", 100, 600_000, gen_case, |c| {
        let mut f = build(&c.hf);
        f.filter_ledge_spans(c.height, c.climb);
        compare(&c.hf, &read(&f)?, |i, j| {
            if c.hf.cols[i][j].2 != 0 && is_ledge(&c.hf, i, j, c.height as i64, c.climb as i64) { 0 } else { c.hf.cols[i][j].2 }
        })
    });
}

pub fn c04(ctx: &mut Ctx) {
    ctx.group("headroom", 100, 600_000, gen_case, |c| {
        let mut f = build(&c.hf);
        f.filter_walkable_low_height_spans(c.height);
        compare(&c.hf, &read(&f)?, |i, j| {
            let s = c.hf.cols[i][j];
            if bottom(&c.hf.cols[i], j + 1) - (s.1 as i64) < c.height as i64 { 0 } else { s.2 }
        })
    });
}
