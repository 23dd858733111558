//! C20: parameters derived from the agent description; size of a built heightfield.
use crate::rt::*;
use rerecast::{Aabb3d, HeightfieldBuilder};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Field {
    min: [f32; 3],
    max: [f32; 3],
    cs: f32,
    ch: f32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cfg {
    f: [f32; 13],
    tile: u16,
    min: [f32; 3],
    max: [f32; 3],
    flags: u8,
    tiling: bool,
}

fn cells(lo: f32, hi: f32, cs: f32) -> f32 {
    (hi - lo) / cs + 0.5
}
fn aabb(min: [f32; 3], max: [f32; 3]) -> Aabb3d {
    Aabb3d { min: min.into(), max: max.into() }
}
fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a == b || a.is_nan() && b.is_nan()
}

fn check_field(c: &Field) -> Result<bool, String> {
    let bb = aabb(c.min, c.max);
    let (w, h) = (cells(c.min[0], c.max[0], c.cs), cells(c.min[2], c.max[2], c.cs));
    let fits = !(w >= 65536.0) && !(h >= 65536.0);
    match (HeightfieldBuilder { aabb: bb, cell_size: c.cs, cell_height: c.ch }).build() {
        Ok(f) => {
            if !fits {
                return Err(format!("{w} x {h} cells accepted as {} x {}", f.width, f.height));
            }
            let (ew, eh) = (w as u16, h as u16);
            if (f.width, f.height) != (ew, eh) {
                return Err(format!("{w} x {h} cells built as {} x {}", f.width, f.height));
            }
            if f.spans.len() != ew as usize * eh as usize {
                return Err(format!("{} columns for {ew} x {eh}", f.spans.len()));
            }
            if f.spans.iter().any(|s| s.is_some()) || f.allocated_spans.len() != 0 {
                return Err("not empty".into());
            }
            if f.aabb != bb || !same(f.cell_size, c.cs) || !same(f.cell_height, c.ch) {
                return Err("box or cell size changed".into());
            }
            Ok(ew != 0 && eh != 0)
        }
        Err(e) if fits => Err(format!("{w} x {h} cells rejected: {e}")),
        Err(_) => Ok(true),
    }
}

#[cfg(rerecast_verif)]
fn check_cfg(c: &Cfg) -> Result<bool, String> {
    let [cs, ch, height, radius, climb, slope, min_size, merge_size, edge, error, verts, dist, derr] = c.f;
    let bb = aabb(c.min, c.max);
    let flags = rerecast::BuildContoursFlags::from_bits_truncate(c.flags);
    let r = rerecast::verif::config::builder(c.f, c.tile, bb, flags, c.tiling).build();
    let rad = (radius / cs).ceil() as u16;
    let border = rad as u32 + 3;
    let eq = |n: &str, got: u32, want: u32| if got == want { Ok(()) } else { Err(format!("{n}: {got}, expected {want}")) };
    let feq = |n: &str, got: f32, want: f32| if same(got, want) { Ok(()) } else { Err(format!("{n}: {got}, expected {want}")) };
    eq("walkable_radius", r.walkable_radius as u32, rad as u32)?;
    eq("border_size", r.border_size as u32, border)?;
    eq("walkable_height", r.walkable_height as u32, (height / ch).ceil() as u16 as u32)?;
    eq("walkable_climb", r.walkable_climb as u32, (climb / ch).floor() as u16 as u32)?;
    eq("max_edge_len", r.max_edge_len as u32, (edge / cs) as u16 as u32)?;
    eq("min_region_area", r.min_region_area as u32, (min_size * min_size) as u16 as u32)?;
    eq("merge_region_area", r.merge_region_area as u32, (merge_size * merge_size) as u16 as u32)?;
    eq("max_vertices_per_polygon", r.max_vertices_per_polygon as u32, verts as u16 as u32)?;
    feq("detail_sample_dist", r.detail_sample_dist, if dist < 0.9 { 0.0 } else { cs * dist })?;
    feq("detail_sample_max_error", r.detail_sample_max_error, ch * derr)?;
    let side = |lo: f32, hi: f32| if c.tiling { c.tile as u32 + 2 * border } else { cells(lo, hi, cs) as u16 as u32 };
    eq("width", r.width as u32, side(c.min[0], c.max[0]))?;
    eq("height", r.height as u32, side(c.min[2], c.max[2]))?;
    eq("tile_size", r.tile_size as u32, c.tile as u32)?;
    feq("cell_size", r.cell_size, cs)?;
    feq("cell_height", r.cell_height, ch)?;
    feq("walkable_slope_angle", r.walkable_slope_angle, slope)?;
    feq("max_simplification_error", r.max_simplification_error, error)?;
    eq("contour_flags", r.contour_flags.bits() as u32, flags.bits() as u32)?;
    if r.aabb != bb {
        return Err("aabb changed".into());
    }
    Ok(true)
}

/// exact multiples of the cell size, values just beside them, and anything else
fn near(r: &mut Rng, unit: f32, top: u64) -> f32 {
    let k = r.below(top) as f32;
    match r.below(6) {
        0 => unit * k,
        1 => f32::from_bits((unit * k).to_bits() + 1),
        2 => unit * (k + 0.5),
        3 => f32::from_bits((unit * (k + 0.5)).to_bits().saturating_sub(1)),
        _ => unit * (k + r.f(0.0, 1.0)),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.group(
        "heightfield",
        50,
        100_000,
        |r, k| {
            let cs = r.pick(&[0.25f32, 0.3, 1.0, 0.1, 2.0, 0.05, 1e-3]);
            let ch = r.pick(&[0.2f32, 0.5, 1.0]);
            let o = if r.chance(1, 2) { [0.0; 3] } else { [r.f(-50.0, 50.0), r.f(-9.0, 9.0), r.f(-50.0, 50.0)] };
            let small = |r: &mut Rng| near(r, cs, 40);
            let mut e = [small(r), near(r, ch, 20), small(r)];
            match if k % 25 == 0 { 8 } else { r.below(8) } {
                0 => {
                    // around the widest field
                    let i = 2 * r.below(2) as usize;
                    e[i] = cs * (65533 + r.below(8)) as f32 + r.pick(&[0.0, 0.5, 0.49]) * cs;
                    e[2 - i] = cs * r.below(3) as f32;
                }
                1 => e[2 * r.below(2) as usize] = -near(r, cs, 40),
                8 => {
                    let i = 2 * r.below(2) as usize;
                    e[i] = r.pick(&[1e9f32, 1e22, 1e30, 3e38, f32::INFINITY]);
                    e[2 - i] = if r.chance(1, 2) { e[i] } else { cs };
                    if e[i] < 1e20 {
                        e[2 - i] = cs;
                    }
                }
                _ => {}
            }
            Field { min: o, max: [o[0] + e[0], o[1] + e[1], o[2] + e[2]], cs, ch }
        },
        check_field,
    );
    #[cfg(rerecast_verif)]
    ctx.group(
        "config",
        50,
        400_000,
        |r, k| {
            let cs = r.pick(&[0.25f32, 0.3, 1.0, 0.1, 2.0, 0.05]);
            let ch = r.pick(&[0.2f32, 0.5, 1.0, 0.1, 0.05]);
            let o = if r.chance(1, 2) { [0.0; 3] } else { [r.f(-50.0, 50.0), r.f(-9.0, 9.0), r.f(-50.0, 50.0)] };
            let ext = [near(r, cs, 400), near(r, ch, 20), near(r, cs, 400)];
            let big = k % 11 == 0;
            let f = [
                cs,
                ch,
                near(r, ch, if big { 70000 } else { 30 }),
                near(r, cs, if big { 20000 } else { 20 }),
                near(r, ch, if big { 70000 } else { 30 }),
                r.f(0.0, 1.5),
                r.f(0.0, if big { 300.0 } else { 20.0 }),
                r.f(0.0, if big { 300.0 } else { 30.0 }),
                near(r, cs, if big { 70000 } else { 60 }),
                r.f(0.0, 3.0),
                r.f(0.0, 12.0),
                r.pick(&[0.0f32, 0.9, 0.89999, 0.90001, 1.0, 6.0, 0.5]),
                r.f(0.0, 3.0),
            ];
            Cfg {
                f,
                tile: r.below(if big { 25000 } else { 200 }) as u16,
                min: o,
                max: [o[0] + ext[0], o[1] + ext[1], o[2] + ext[2]],
                flags: r.below(4) as u8,
                tiling: r.chance(1, 3),
            }
        },
        check_cfg,
    );
}
