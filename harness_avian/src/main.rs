//! exec PROPERTY SEED BUDGET_MS OUT.json [REPLAY.json]: runs the real conversion of colliders
//! (source file of /repo, compiled here against the real parry3d and bevy_math).
#[path = "/repo/crates/avian_rerecast/src/collider_to_trimesh.rs"]
#[allow(warnings)]
mod collider_to_trimesh;
#[path = "../../harness/src/rt.rs"]
#[allow(dead_code)]
mod rt;
mod c22;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let replay = a.get(5).map(|p| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        v["failure"].clone()
    });
    let mut ctx = rt::Ctx {
        seed: a[2].parse().unwrap(),
        budget: std::time::Duration::from_millis(a[3].parse().unwrap()),
        replay,
        out_path: a[4].clone(),
        prop: a[1].clone(),
        groups: vec![],
        known: vec![],
    };
    rt::install(a[4].clone(), a[1].clone());
    if a[1] == "C22" {
        c22::run(&mut ctx);
    }
    std::process::exit(ctx.finish());
}
