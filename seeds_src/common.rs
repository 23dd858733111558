//! shared by the demonstrations
#![allow(dead_code)]
pub use rerecast::*;
/// columns of (min, max, area), lowest first, row by row
pub fn field(w: u16, h: u16, cols: &[Vec<(u16, u16, u8)>]) -> Heightfield {
    let mut f = Heightfield::default();
    f.width = w;
    f.height = h;
    f.cell_size = 1.0;
    f.cell_height = 1.0;
    f.spans = vec![None; w as usize * h as usize];
    for (c, col) in cols.iter().enumerate() {
        let mut next: Option<SpanKey> = None;
        for (min, max, area) in col.iter().rev() {
            next = Some(f.allocated_spans.insert(Span { min: *min, max: *max, area: AreaType(*area), next }));
        }
        f.spans[c] = next;
    }
    f
}
pub fn column(f: &Heightfield, x: u16, z: u16) -> Vec<(u16, u16, u8)> {
    let mut v = vec![];
    let mut k = f.spans[x as usize + z as usize * f.width as usize];
    while let Some(key) = k {
        let s = &f.allocated_spans[key];
        v.push((s.min, s.max, s.area.0));
        k = s.next;
    }
    v
}
/// prints and exits with 1 when `ok` is false
pub fn expect(ok: bool, what: &str) {
    println!("{}: {what}", if ok { "ok" } else { "FAILED" });
    if !ok {
        std::process::exit(1);
    }
}
