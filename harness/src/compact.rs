//! C05, C06, C07: the compact heightfield.
use crate::hf::*;
use crate::rt::*;
use rerecast::{CompactCell, CompactHeightfield, CompactSpan};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub hf: Hf,
    pub height: u16,
    pub climb: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Open {
    pub y: u16,
    pub h: u8,
    pub area: u8,
}

pub fn opens(col: &Col) -> Vec<Open> {
    let mut v = vec![];
    for j in 0..col.len() {
        if col[j].2 != 0 {
            let top = col.get(j + 1).map_or(65535, |s| s.0);
            v.push(Open { y: col[j].1, h: (top - col[j].1).min(255) as u8, area: col[j].2 });
        }
    }
    v
}

pub const DIRS: [(i64, i64); 4] = [(-1, 0), (0, 1), (1, 0), (0, -1)];

pub fn steps(a: &Open, b: &Open, height: u16, climb: u16) -> bool {
    let top = (a.y as i64 + a.h as i64).min(b.y as i64 + b.h as i64);
    let bot = a.y.max(b.y) as i64;
    top - bot >= height as i64 && (a.y as i64 - b.y as i64).abs() <= climb as i64
}

pub fn gen_case(r: &mut Rng, k: u64) -> Case {
    if r.chance(1, 400) {
        // columns around the limits of the packed records
        let n = r.pick(&[61u64, 62, 63, 64, 65, 254, 255, 256, 257]) as usize;
        let tall: Col = (0..n).map(|i| (4 * i as u16, 4 * i as u16 + 1, 1 + (r.below(3) as u8))).collect();
        let mut cols = vec![tall.clone()];
        let at = r.below(n as u64) as usize;
        let y = if r.chance(1, 2) { tall[n - 1 - r.below(3) as usize].1 } else { tall[at].1 };
        let mut other: Col = vec![(y.saturating_sub(r.below(2) as u16), y, 1)];
        if r.chance(1, 3) {
            other = tall.clone();
        }
        cols.push(other);
        if r.chance(1, 2) {
            cols.reverse();
        }
        let (w, h) = if r.chance(1, 2) { (2, 1) } else { (1, 2) };
        return Case { hf: Hf { w, h, cols }, height: r.below(3) as u16, climb: r.below(3) as u16 };
    }
    let mut hf = gen_hf(r, 1 + (k / 300).min(4), 1 + (k / 200).min(5));
    if let Some((w, h)) = wide(r, k) {
        let base = Hf { w: 7, h: 1, cols: (0..7).map(|_| gen_col(r, 3, u16::MAX)).collect() };
        hf = tile(r, &base, w, h);
    }
    if r.chance(2, 3) {
        for s in hf.cols.iter_mut().flatten() {
            if s.2 == 0 && r.chance(3, 4) {
                s.2 = 1 + r.below(200) as u8;
            }
        }
    }
    let lim = |r: &mut Rng| match r.below(10) {
        0 => r.below(65536) as u16,
        1 => 250 + r.below(10) as u16,
        _ => r.below(9) as u16,
    };
    Case { hf, height: lim(r), climb: lim(r) }
}

/// expected open spans per column, or the layer index that must be rejected
pub enum Want {
    Links(Vec<Vec<(Open, [Option<u8>; 4])>>),
    Reject,
}

pub fn expected(c: &Case) -> Want {
    let hf = &c.hf;
    let o: Vec<Vec<Open>> = hf.cols.iter().map(opens).collect();
    if o.iter().any(|v| v.len() > 255) {
        return Want::Reject;
    }
    let mut all = vec![];
    for (i, col) in o.iter().enumerate() {
        let (x, z) = ((i % hf.w as usize) as i64, (i / hf.w as usize) as i64);
        let mut v = vec![];
        for s in col {
            let mut links = [None; 4];
            for d in 0..4 {
                let (nx, nz) = (x + DIRS[d].0, z + DIRS[d].1);
                if nx < 0 || nz < 0 || nx >= hf.w as i64 || nz >= hf.h as i64 {
                    continue;
                }
                let n = &o[(nz * hf.w as i64 + nx) as usize];
                if let Some(k) = n.iter().position(|b| steps(s, b, c.height, c.climb)) {
                    if k > 62 {
                        return Want::Reject;
                    }
                    links[d] = Some(k as u8);
                }
            }
            v.push((s.clone(), links));
        }
        all.push(v);
    }
    Want::Links(all)
}

pub fn raw_links(s: &CompactSpan) -> [Option<u8>; 4] {
    std::array::from_fn(|d| {
        let v = (s.data >> (6 * d)) & 63;
        if v == 63 { None } else { Some(v as u8) }
    })
}

fn check(c: &Case, links: bool) -> Result<bool, String> {
    let f = build(&c.hf);
    let r = f.into_compact(c.height, c.climb);
    let (want, f) = match (expected(c), r) {
        (Want::Reject, Err(_)) => return Ok(true),
        (Want::Reject, Ok(_)) => return Err("a field with too many layers for the packed records was accepted".into()),
        (Want::Links(_), Err(e)) => return Err(format!("rejected: {e}")),
        (Want::Links(w), Ok(f)) => (w, f),
    };
    let mut next = 0usize;
    let mut at = 0;
    let first: Vec<usize> = want.iter().map(|v| (at, at += v.len()).0).collect();
    let mut nt = false;
    if (f.width, f.height, f.cells.len()) != (c.hf.w, c.hf.h, c.hf.cols.len()) {
        return Err("size of the field".into());
    }
    for (i, col) in want.iter().enumerate() {
        let cell: &CompactCell = &f.cells[i];
        if cell.count() as usize != col.len() || (!col.is_empty() && cell.index() as usize != next) {
            return Err(format!("cell {i}: index {} count {}, expected {next} and {}", cell.index(), cell.count(), col.len()));
        }
        let (x, z) = ((i % c.hf.w as usize) as u16, (i / c.hf.w as usize) as u16);
        if f.get_cell_at(x, z).map(|c| (c.index(), c.count())) != Some((cell.index(), cell.count())) {
            return Err(format!("the cell at ({x}, {z}) is {:?}, expected {cell:?}", f.get_cell_at(x, z)));
        }
        if cell.index_range() != (cell.index() as usize..cell.index() as usize + cell.count() as usize) {
            return Err(format!("cell {i}: range {:?}", cell.index_range()));
        }
        for (k, (o, l)) in col.iter().enumerate() {
            let s = &f.spans[next + k];
            if s.y != o.y || (s.data >> 24) as u8 != o.h || f.areas[next + k].0 != o.area {
                return Err(format!("column {i} span {k}: y {} height {} area {}, expected {o:?}", s.y, s.data >> 24, f.areas[next + k].0));
            }
            if links {
                let got = raw_links(s);
                if &got != l {
                    return Err(format!("column {i} span {k}: links {got:?}, expected {l:?}"));
                }
                let (x, z) = ((i % c.hf.w as usize) as i64, (i / c.hf.w as usize) as i64);
                for d in 0..4u8 {
                    if s.con(d) != l[d as usize] {
                        return Err(format!("column {i} span {k}: con({d}) is {:?}, expected {l:?}", s.con(d)));
                    }
                    if let Some(n) = s.con(d) {
                        let (nx, nz, ni) = f.con_indices(x as i32, z as i32, d, n);
                        let (ex, ez) = (x + DIRS[d as usize].0, z + DIRS[d as usize].1);
                        let e = first[(ez * c.hf.w as i64 + ex) as usize] + n as usize;
                        if (nx as i64, nz as i64, ni) != (ex, ez, e) {
                            return Err(format!("column {i} span {k} direction {d}: resolves to {:?}, expected {:?}", (nx, nz, ni), (ex, ez, e)));
                        }
                    }
                }
                nt |= l.iter().any(|l| l.is_some());
            }
        }
        next += col.len();
        nt |= !links && !col.is_empty();
    }
    if f.spans.len() != next || f.areas.len() != next {
        return Err(format!("{} open spans and {} areas, expected {next}", f.spans.len(), f.areas.len()));
    }
    Ok(nt)
}

pub fn c05(ctx: &mut Ctx) {
    ctx.group("compact", 100, 400_000, gen_case, |c| check(c, false));
}
pub fn c06(ctx: &mut Ctx) {
    ctx.group("links", 100, 400_000, gen_case, |c| check(c, true));
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Writes {
    data: u32,
    y: u16,
    reg: u16,
    ops: Vec<(u8, Option<u8>)>,
    cell: Vec<(u8, u32)>,
}

pub fn c07(ctx: &mut Ctx) {
    ctx.group(
        "records",
        100,
        2_000_000,
        |r, _| Writes {
            data: r.next() as u32,
            y: r.next() as u16,
            reg: r.next() as u16,
            ops: (0..1 + r.below(6))
                .map(|_| {
                    if r.chance(1, 4) {
                        (4, Some(r.next() as u8))
                    } else {
                        (r.below(4) as u8, if r.chance(1, 5) { None } else { Some(r.below(64) as u8) })
                    }
                })
                .collect(),
            cell: (0..r.below(5)).map(|_| (r.below(2) as u8, if r.chance(1, 3) { r.below(256) as u32 } else { r.next() as u32 })).collect(),
        },
        |c| {
            let mut s = CompactSpan { y: c.y, region: rerecast::RegionId::from(c.reg), data: c.data };
            let mut links = raw_links(&s);
            let mut h = (c.data >> 24) as u8;
            for (k, v) in &c.ops {
                if *k == 4 {
                    h = v.unwrap();
                    s.set_height(h);
                } else {
                    links[*k as usize] = v.filter(|v| *v != 63);
                    if v.is_some() && v.unwrap() % 2 == 0 { s.set_con(*k, v.unwrap()) } else { s.set_con(*k, *v) }
                }
                let got: [Option<u8>; 4] = std::array::from_fn(|d| s.con(d as u8));
                if got != links || s.height() != h || s.y != c.y || s.region != rerecast::RegionId::from(c.reg) {
                    return Err(format!("after {k} {v:?}: links {got:?} height {}, expected {links:?} {h}", s.height()));
                }
            }
            let mut cell = CompactCell::default();
            let (mut i, mut n) = (0u32, 0u8);
            for (k, v) in &c.cell {
                if *k == 0 {
                    i = *v;
                    cell.set_index(i);
                } else {
                    n = *v as u8;
                    cell.set_count(n);
                }
                if n < 255 && *v % 3 == 0 {
                    cell.inc_count();
                    n += 1;
                }
                if cell.index() != i || cell.count() != n || cell.index_range() != (i as usize..i as usize + n as usize) {
                    return Err(format!("cell {cell:?}, expected index {i} count {n}"));
                }
            }
            Ok(true)
        },
    );
}

#[allow(dead_code)]
pub fn unused(_: &CompactHeightfield) {}
