//! C11: region adjacency records.
use crate::rt::*;
#[cfg(rerecast_verif)]
use rerecast::verif::regions::{self, Record};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct R(u16, u8, usize, Vec<u16>, Vec<u16>);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    CanMerge(R, R),
    Merge(R, R),
    Replace(R, u16, u16),
    Floor(R, u16),
    Border(R),
}

/// the ring without cyclically adjacent repeats
fn squash(v: &[u16]) -> Vec<u16> {
    let mut c: Vec<u16> = v.to_vec();
    c.dedup();
    if c.len() > 1 && c.first() == c.last() {
        c.pop();
    }
    c
}
fn behind(v: &[u16], x: u16) -> Vec<u16> {
    let p = v.iter().position(|y| *y == x).unwrap();
    v[p + 1..].iter().chain(&v[..p]).copied().collect()
}

#[cfg(rerecast_verif)]
fn rec(r: &R) -> Record {
    Record { id: r.0, area: r.1, span_count: r.2, connections: r.3.clone(), floors: r.4.clone() }
}
#[cfg(rerecast_verif)]
fn check(op: &Op) -> Result<bool, String> {
    match op {
        Op::CanMerge(a, b) => {
            let got = regions::can_merge(&rec(a), &rec(b));
            let n = a.3.iter().filter(|x| **x == b.0).count();
            let want = a.1 == b.1 && n <= 1 && !a.4.contains(&b.0);
            if got != want {
                return Err(format!("may merge: {got}, expected {want}"));
            }
            Ok(want)
        }
        Op::Merge(a, b) => {
            let mut x = rec(a);
            let got = regions::merge(&mut x, &rec(b));
            let want = a.3.contains(&b.0) && b.3.contains(&a.0);
            if got != want {
                return Err(format!("merged: {got}, expected {want}"));
            }
            let mut e = rec(a);
            if want {
                let mut ring = behind(&a.3, b.0);
                ring.extend(behind(&b.3, a.0));
                e.connections = squash(&ring);
                for f in &b.4 {
                    if !e.floors.contains(f) {
                        e.floors.push(*f);
                    }
                }
                e.span_count = a.2 + b.2;
            }
            if x != e {
                return Err(format!("merging gives {x:?}, expected {e:?}"));
            }
            Ok(want)
        }
        Op::Replace(a, o, n) => {
            let mut x = rec(a);
            regions::replace(&mut x, *o, *n);
            let mut e = rec(a);
            let ren = |v: &[u16]| -> Vec<u16> { v.iter().map(|y| if y == o { *n } else { *y }).collect() };
            e.floors = ren(&a.4);
            if a.3.contains(o) {
                e.connections = squash(&ren(&a.3));
            }
            if x != e {
                return Err(format!("replacing {o} by {n} gives {x:?}, expected {e:?}"));
            }
            Ok(a.3.contains(o) || a.4.contains(o))
        }
        Op::Floor(a, f) => {
            let mut x = rec(a);
            regions::add_floor(&mut x, *f);
            let mut e = rec(a);
            if !a.4.contains(f) {
                e.floors.push(*f);
            }
            if x != e {
                return Err(format!("adding floor {f} gives {x:?}"));
            }
            Ok(true)
        }
        Op::Border(a) => {
            let got = regions::touches_border(&rec(a));
            if got != a.3.contains(&0) {
                return Err(format!("connected to the border: {got}"));
            }
            Ok(true)
        }
    }
}

pub fn c11(ctx: &mut Ctx) {
    #[cfg(rerecast_verif)]
    ctx.group(
        "records",
        100,
        2_000_000,
        |r, k| {
            let ids = 2 + r.below(if k % 3 == 0 { 3 } else { 7 });
            let big = r.chance(1, 20);
            let one = |r: &mut Rng| {
                let id = |r: &mut Rng| {
                    let v = r.below(ids) as u16;
                    if r.chance(1, 30) { v | 0x8000 } else { v }
                };
                let ring = r.below(if big { 40 } else { 8 });
                let fl = r.below(5);
                let mut floors: Vec<u16> = vec![];
                for _ in 0..fl {
                    let f = id(r);
                    if !floors.contains(&f) {
                        floors.push(f);
                    }
                }
                let mut ring: Vec<u16> = (0..ring).map(|_| id(r)).collect();
                if r.chance(3, 4) {
                    ring = squash(&ring);
                }
                let count = if r.chance(1, 10) { 70_000 + r.below(1 << 40) } else { r.below(70_000) } as usize;
                R(id(r), 1 + (r.below(8) / 5) as u8, count, ring, floors)
            };
            let (a, b) = (one(r), one(r));
            let (o, n) = (r.below(ids) as u16, r.below(ids) as u16);
            match r.below(12) {
                0..=3 => Op::CanMerge(a, b),
                4..=7 => Op::Merge(a, b),
                8..=9 => Op::Replace(a, o, n),
                10 => Op::Floor(a, o),
                _ => Op::Border(a),
            }
        },
        check,
    );
    #[cfg(not(rerecast_verif))]
    let _ = ctx;
}
