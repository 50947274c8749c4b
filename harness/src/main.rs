mod drive;
mod props;
mod refm;
#[macro_use]
mod sets;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static CUR: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

/// One run of the cases of one property.
pub struct Ctx {
    pub prop: String,
    pub rng: drive::Rng,
    pub scale: usize,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
    pub parts: Vec<(String, u64)>,
    part: String,
}
fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
impl Ctx {
    pub fn part(&mut self, s: &str) {
        if self.part != s {
            self.part = s.to_string();
            self.parts.push((s.to_string(), 0));
        }
        *CUR.lock().unwrap() = s.to_string();
    }
    /// Runs one case. `key` identifies it; `desc` writes it out.
    pub fn case(&mut self, key: &[u8], desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        TICK.fetch_add(1, Ordering::Relaxed);
        if let Some(p) = self.parts.last_mut() {
            p.1 += 1;
        }
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(fnv(key) ^ fnv(self.part.as_bytes()));
        }
        if self.violations.len() >= 3 {
            return;
        }
        if self.samples.len() < 12 && (self.evals.is_power_of_two()) {
            let mut d = desc();
            if d.len() > 400 {
                let mut n = 400;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
                d.push_str("...");
            }
            self.samples.push(format!("{}: {}", self.part, d));
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", PANIC.lock().unwrap())),
        };
        if let Err(e) = r {
            self.violations.push((format!("{}: {}", self.part, desc()), e));
        }
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn out(c: &Ctx) {
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"parts\":{},\"samples\":{},\"known\":{},\"violations\":{}}}",
        js(&c.prop),
        c.evals,
        c.distinct.len(),
        list(c.parts.iter().map(|(n, k)| format!("[{},{}]", js(n), k)).collect()),
        list(c.samples.iter().map(|s| js(s)).collect()),
        list(c.known.iter().map(|s| js(s)).collect()),
        list(c.violations.iter().map(|(d, e)| format!("{{\"case\":{},\"what\":{}}}", js(d), js(e))).collect()),
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: usize = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(100) /* percent */;
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut p) = PANIC.lock() {
            *p = i.to_string();
        }
    }));
    refm::self_test();
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            last = if t == last.0 { (t, last.1 + 1) } else { (t, 0) };
            if last.1 > 60 {
                let cur = CUR.lock().map(|s| s.clone()).unwrap_or_default();
                println!(
                    "{{\"property\":{},\"evaluations\":{t},\"distinct\":{t},\"parts\":[],\"samples\":[],\"known\":[],\"violations\":[{{\"case\":{},\"what\":\"does not terminate (60 s)\"}}]}}",
                    js(&p2),
                    js(&format!("{cur}, case number {t} of this seed"))
                );
                std::process::exit(0);
            }
        }
    });
    let mut c = Ctx {
        rng: drive::Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ fnv(prop.as_bytes())),
        prop: prop.clone(),
        scale,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        violations: vec![],
        known: vec![],
        parts: vec![],
        part: String::new(),
    };
    props::run(&mut c);
    out(&c);
}
