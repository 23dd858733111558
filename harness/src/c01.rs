use crate::hf::*;
use crate::rt::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ins {
    x: u16,
    z: u16,
    thr: u16,
    min: u16,
    max: u16,
    area: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    start: Hf,
    ops: Vec<Ins>,
}

/// The column after inserting one span.
pub fn insert(col: &Col, n: (u16, u16, u8), thr: u16) -> Col {
    let mut out: Col = col.iter().filter(|s| s.1 < n.0).cloned().collect();
    let mut m = n;
    for s in col.iter().filter(|s| s.1 >= n.0 && s.0 <= n.1) {
        m.0 = m.0.min(s.0);
        m.1 = m.1.max(s.1);
        if m.1 - s.1 <= thr {
            m.2 = m.2.max(s.2);
        }
    }
    out.push(m);
    out.extend(col.iter().filter(|s| s.0 > n.1));
    out
}

#[cfg(rerecast_verif)]
fn add(f: &mut rerecast::Heightfield, i: &Ins) -> bool {
    let s = rerecast::Span { min: i.min, max: i.max, area: rerecast::AreaType(i.area), next: None };
    rerecast::verif::heightfield::add_span(f, i.x, i.z, i.thr, s).is_ok()
}

pub fn run(ctx: &mut Ctx) {
    #[cfg(rerecast_verif)]
    ctx.group(
        "insert",
        100,
        400_000,
        |r, k| {
            let start = gen_hf(r, 1 + (k / 1000).min(2), 1 + (k / 500).min(6));
            let ops = (0..1 + r.below(5))
                .map(|_| {
                    let lo = match r.below(8) {
                        0 => r.below(65536) as u16,
                        1 => (65500 + r.below(36)) as u16,
                        _ => r.below(40) as u16,
                    };
                    let hi = lo.saturating_add(if r.chance(1, 8) { r.below(400) as u16 } else { r.below(12) as u16 });
                    let inside = !r.chance(1, 40);
                    Ins {
                        x: r.below(start.w as u64) as u16,
                        z: if inside { r.below(start.h as u64) as u16 } else { start.h + r.below(3) as u16 },
                        thr: if r.chance(1, 10) { r.below(65536) as u16 } else { r.below(6) as u16 },
                        min: lo,
                        max: hi,
                        area: gen_area(r),
                    }
                })
                .collect();
            Case { start, ops }
        },
        |c| {
            let mut f = build(&c.start);
            let mut want = c.start.clone();
            let mut nt = false;
            for (k, i) in c.ops.iter().enumerate() {
                let idx = i.x as usize + i.z as usize * c.start.w as usize;
                let ok = add(&mut f, i);
                if ok != (idx < want.cols.len()) {
                    return Err(format!("op {k}: result {ok} for column {idx} of {}", want.cols.len()));
                }
                if ok {
                    nt |= !want.cols[idx].is_empty();
                    want.cols[idx] = insert(&want.cols[idx], (i.min, i.max, i.area), i.thr);
                }
                let got = read(&f)?;
                if got.cols != want.cols {
                    return Err(format!("op {k} ({i:?}): columns {:?}, expected {:?}", got.cols, want.cols));
                }
                for col in &got.cols {
                    if col.windows(2).any(|w| w[0].1 >= w[1].0) || col.iter().any(|s| s.0 > s.1) {
                        return Err(format!("op {k}: column not sorted and disjoint: {col:?}"));
                    }
                }
            }
            Ok(nt)
        },
    );
    #[cfg(not(rerecast_verif))]
    let _ = ctx;
}
