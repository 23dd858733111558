//! Runtime: generation, checking, panic capture, watchdog, replay.
use serde::{Serialize, de::DeserializeOwned};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn f(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * (self.below(1 << 24) as f32 / (1u32 << 24) as f32)
    }
}

pub struct Out {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<(serde_json::Value, String)>,
}

pub struct Ctx {
    pub seed: u64,
    pub budget: Duration,
    pub replay: Option<serde_json::Value>,
    pub out_path: String,
    pub prop: String,
    pub groups: Vec<(String, Out)>,
    pub known: Vec<serde_json::Value>,
}

static CURRENT: Mutex<Option<(Instant, serde_json::Value, String)>> = Mutex::new(None);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install(out_path: String, prop: String) {
    std::panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let g = CURRENT.lock().unwrap();
            if let Some((t, case, group)) = &*g
                && t.elapsed() > Duration::from_secs(20)
            {
                let j = serde_json::json!({"property": prop, "failure": {"group": group, "case": case,
                    "message": "does not terminate (20 s)"}, "groups": {}});
                std::fs::write(&out_path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                std::process::exit(1);
            }
        }
    });
}

impl Ctx {
    /// One family of cases. `share` is the part of the time budget it may use, in percent.
    /// `check` returns Ok(true) for a non-trivial case that passed.
    pub fn group<C: Serialize + DeserializeOwned>(
        &mut self,
        name: &str,
        share: u32,
        max_cases: u64,
        mut make: impl FnMut(&mut Rng, u64) -> C,
        check: impl Fn(&C) -> Result<bool, String>,
    ) {
        if self.groups.iter().any(|g| g.1.failure.is_some()) {
            return;
        }
        let mut out = Out { evaluations: 0, nontrivial: 0, samples: vec![], failure: None };
        if let Some(r) = &self.replay {
            if r["group"].as_str() == Some(name) {
                let c: C = serde_json::from_value(r["case"].clone()).expect("case");
                out.evaluations = 1;
                if let Err(m) = self.one(name, &c, &check) {
                    out.failure = Some((r["case"].clone(), m));
                } else {
                    out.nontrivial = 1;
                }
                self.groups.push((name.into(), out));
            }
            return;
        }
        let mut rng = Rng::new(self.seed ^ name.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
        let start = Instant::now();
        let lim = self.budget * share / 100;
        let mut k = 0;
        while k < max_cases && start.elapsed() < lim {
            let c = make(&mut rng, k);
            k += 1;
            out.evaluations += 1;
            match self.one(name, &c, &check) {
                Ok(nt) => {
                    out.nontrivial += nt as u64;
                    if nt && out.samples.len() < 2 {
                        out.samples.push(serde_json::to_value(&c).unwrap());
                    }
                }
                Err(m) => {
                    let v = serde_json::to_value(&c).unwrap();
                    out.failure = Some((v, m));
                    break;
                }
            }
        }
        self.groups.push((name.into(), out));
    }

    fn one<C: Serialize>(&self, name: &str, c: &C, check: &impl Fn(&C) -> Result<bool, String>) -> Result<bool, String> {
        *CURRENT.lock().unwrap() = Some((Instant::now(), serde_json::to_value(c).unwrap(), name.into()));
        let r = catch_unwind(AssertUnwindSafe(|| check(c)));
        *CURRENT.lock().unwrap() = None;
        match r {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().unwrap())),
        }
    }

    pub fn finish(self) -> i32 {
        let mut groups = serde_json::Map::new();
        let mut failure = serde_json::Value::Null;
        for (n, o) in &self.groups {
            groups.insert(n.clone(), serde_json::json!({"evaluations": o.evaluations, "nontrivial": o.nontrivial, "samples": o.samples}));
            if let Some((c, m)) = &o.failure {
                failure = serde_json::json!({"group": n, "case": c, "message": m});
            }
        }
        let code = if failure.is_null() { 0 } else { 1 };
        let j = serde_json::json!({"property": self.prop, "failure": failure, "groups": groups, "known": self.known});
        std::fs::write(&self.out_path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        code
    }
}
