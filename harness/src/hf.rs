//! Plain-data heightfields shared by the heightfield properties.
use crate::rt::Rng;
use rerecast::{AreaType, Heightfield, HeightfieldBuilder, Span, SpanKey, Spans};
use serde::{Deserialize, Serialize};

/// (min, max, area), lowest first
pub type Col = Vec<(u16, u16, u8)>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hf {
    pub w: u16,
    pub h: u16,
    pub cols: Vec<Col>,
}

pub fn empty(w: u16, h: u16) -> Heightfield {
    // built by hand, so that a defect in the builder cannot hide or fake one here
    let mut f = Heightfield::default();
    f.width = w;
    f.height = h;
    f.cell_size = 1.0;
    f.cell_height = 1.0;
    f.spans = vec![None; w as usize * h as usize];
    f.allocated_spans = Spans::default();
    let _ = HeightfieldBuilder { aabb: f.aabb, cell_size: 1.0, cell_height: 1.0 };
    f
}

pub fn build(d: &Hf) -> Heightfield {
    let mut f = empty(d.w, d.h);
    for (c, col) in d.cols.iter().enumerate() {
        let mut next: Option<SpanKey> = None;
        for (min, max, area) in col.iter().rev() {
            next = Some(f.allocated_spans.insert(Span { min: *min, max: *max, area: AreaType(*area), next }));
        }
        f.spans[c] = next;
    }
    f
}

/// Reads the columns back; fails on a broken chain.
pub fn read(f: &Heightfield) -> Result<Hf, String> {
    let n = f.width as usize * f.height as usize;
    if f.spans.len() != n {
        return Err(format!("{} columns for {}x{}", f.spans.len(), f.width, f.height));
    }
    let mut seen = std::collections::HashSet::new();
    let mut cols = vec![];
    for c in 0..n {
        let mut col = vec![];
        let mut k = f.spans[c];
        while let Some(key) = k {
            if !seen.insert(key) {
                return Err(format!("a span is linked twice (column {c})"));
            }
            let Some(s) = f.allocated_spans.get(key) else { return Err(format!("dangling key in column {c}")) };
            col.push((s.min, s.max, s.area.0));
            k = s.next;
        }
        cols.push(col);
    }
    if seen.len() != f.allocated_spans.len() {
        return Err(format!("{} spans allocated, {} reachable", f.allocated_spans.len(), seen.len()));
    }
    Ok(Hf { w: f.width, h: f.height, cols })
}

pub fn gen_area(r: &mut Rng) -> u8 {
    match r.below(6) {
        0 | 1 => 0,
        2 => 255,
        3 => 1,
        4 => r.below(256) as u8,
        _ => r.range(1, 4) as u8,
    }
}

/// sorted, disjoint, non-touching; heights up to `top`
pub fn gen_col(r: &mut Rng, max_spans: u64, top: u16) -> Col {
    let n = r.below(max_spans + 1);
    let mut v = vec![];
    let mut y: u32 = match r.below(8) {
        0 => top.saturating_sub(40) as u32,
        _ => r.below(6) as u32,
    };
    for _ in 0..n {
        let min = y;
        let max = min + if r.chance(1, 6) { r.below(40) as u32 } else { r.below(5) as u32 };
        if max > top as u32 {
            break;
        }
        v.push((min as u16, max as u16, gen_area(r)));
        y = max + 1 + if r.chance(1, 6) { r.below(300) as u32 } else { r.below(7) as u32 };
    }
    if let Some(l) = v.last_mut()
        && r.chance(1, 30)
    {
        l.1 = top;
    }
    v
}

pub fn gen_hf(r: &mut Rng, max_side: u64, max_spans: u64) -> Hf {
    let w = 1 + r.below(max_side) as u16;
    let h = 1 + r.below(max_side) as u16;
    let cols = (0..w as usize * h as usize).map(|_| gen_col(r, max_spans, u16::MAX)).collect();
    Hf { w, h, cols }
}

/// sizes beyond the range of small integer types, for some of the cases: (width, height)
pub fn wide(r: &mut Rng, k: u64) -> Option<(u16, u16)> {
    let kind = match k {
        11 => 0,
        23 => 1,
        37 => 2,
        53 => 3,
        71 => 4,
        _ if r.chance(1, 1500) => r.below(6),
        _ => return None,
    };
    let (a, b) = (256 + r.below(60) as u16, 1 + r.below(3) as u16);
    let long = r.pick(&[32768u16, 32769, 33000, 40000, 65535]);
    Some(match kind {
        0 => (a, b),
        1 => (long, b),
        2 => (b, long),
        3 => (b, a),
        4 => (a, 115 + r.below(30) as u16),
        _ => (115 + r.below(30) as u16, a),
    })
}

/// repeats the columns, with some left out or exchanged
pub fn tile(r: &mut Rng, hf: &Hf, w: u16, h: u16) -> Hf {
    let n = hf.cols.len() as u64;
    let cols = (0..w as u64 * h as u64)
        .map(|i| match r.below(40) {
            0 => vec![],
            1..4 => hf.cols[r.below(n) as usize].clone(),
            _ => hf.cols[(i % n) as usize].clone(),
        })
        .collect();
    Hf { w, h, cols }
}
