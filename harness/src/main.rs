//! exec PROPERTY SEED BUDGET_MS OUT.json [REPLAY.json]: the executable form of the contracts, run
//! against the real crate. Exit 0: no failing input; exit 1: OUT.json has one.
mod c01;
mod c15;
mod c17;
mod c20;
mod compact;
mod contour;
mod detail;
mod field;
mod mesh;
mod poly;
mod raster;
mod regions;
mod filters;
mod hf;
mod rt;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let replay = a.get(5).map(|p| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        v["failure"].clone()
    });
    let mut ctx = rt::Ctx {
        seed: a[2].parse().unwrap(),
        budget: std::time::Duration::from_millis(a[3].parse().unwrap()),
        replay,
        out_path: a[4].clone(),
        prop: a[1].clone(),
        groups: vec![],
        known: vec![],
    };
    rt::install(a[4].clone(), a[1].clone());
    match a[1].as_str() {
        "C01" => c01::run(&mut ctx),
        "C02" => filters::c02(&mut ctx),
        "C03" => filters::c03(&mut ctx),
        "C04" => filters::c04(&mut ctx),
        "C05" => compact::c05(&mut ctx),
        "C06" => compact::c06(&mut ctx),
        "C07" => compact::c07(&mut ctx),
        "C08" => field::c08(&mut ctx),
        "C09" => field::c09(&mut ctx),
        "C10" => field::c10(&mut ctx),
        "C11" => regions::c11(&mut ctx),
        "C18" => field::c18(&mut ctx),
        "C14" => mesh::c14(&mut ctx),
        "C12" => contour::c12(&mut ctx),
        "C13" => poly::c13(&mut ctx),
        "C15" => c15::run(&mut ctx),
        "C16" => detail::c16(&mut ctx),
        "C17" => c17::run(&mut ctx),
        "C19" => raster::c19(&mut ctx),
        "C20" => c20::run(&mut ctx),
        _ => {}
    }
    std::process::exit(ctx.finish());
}
