//! jv: runs the monitors of one property over a range of cases.
//!
//! jv run ID --seed S --cases N [--shard I --of K] [--secs T] [--out FILE] [--cur FILE] [--replays DIR] [--tier quick]
//! jv case ID SEED [--dump FILE]       one case, verbose
//! jv list
mod checks;
mod enc;
mod gen;
mod huff;
mod lossless;
mod model;
mod mon;
mod mutate;
mod peer;
mod refs;
mod rng;

use rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;

#[global_allocator]
static ALLOC: mon::Counting = mon::Counting;

pub struct Fail {
    pub msg: String,
    pub bytes: Vec<u8>,
    /// stable signature of the failing situation (known findings are keyed on it)
    pub key: String,
}

pub fn fail<T>(msg: impl Into<String>, bytes: &[u8]) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), bytes: bytes.to_vec(), key: String::new() })
}

#[derive(Default)]
pub struct Cx {
    pub counters: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub tier_thorough: bool,
    pub verbose: bool,
    pub index: u64,
    pub known: Vec<String>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub peers: BTreeMap<String, peer::Peer>,
    pub store: checks::Store,
}

impl Cx {
    pub fn count(&mut self, k: impl AsRef<str>) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: impl AsRef<str>, n: u64) {
        let k = k.as_ref();
        match self.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxes.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v
        }
    }
    /// A case whose oracle really decided something; `h` identifies it.
    pub fn nontrivial(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = s();
            self.samples.push(s);
        }
    }
    /// Report a situation that is listed as a known finding; false when it is not listed.
    pub fn is_known(&mut self, key: &str, msg: &str) -> bool {
        if self.known.iter().any(|k| k == key) {
            let e = self.known_hits.entry(key.to_string()).or_insert((0, msg.to_string()));
            e.0 += 1;
            return true;
        }
        false
    }
}

pub type CaseFn = fn(&mut Cx, &mut Rng) -> Result<(), Fail>;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = rng::mix(seed);
    for b in id.bytes() {
        h = rng::mix(h ^ b as u64);
    }
    rng::mix(h ^ rng::mix(index))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    mon::install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("serve") => peer::serve(),
        Some("list") => {
            for (id, _) in checks::CHECKS {
                println!("{id}")
            }
        }
        Some("case") => {
            let id = &args[2];
            let seed: u64 = args[3].parse().unwrap();
            let f = checks::find(id).expect("no such check");
            // single cases are random ones unless told otherwise
            let mut cx = Cx { verbose: true, index: u64::MAX, ..Default::default() };
            cx.tier_thorough = opt("--tier").as_deref() == Some("thorough");
            cx.known = opt("--known").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
            if let Some(i) = opt("--index") {
                cx.index = i.parse().unwrap();
            }
            let r = mon::guard(|| f(&mut cx, &mut Rng::new(seed)));
            let r = match r {
                Ok(r) => r,
                Err(p) => fail(format!("the harness panicked: {p}"), &[]),
            };
            for (k, v) in &cx.counters {
                println!("  {k}: {v}");
            }
            match r {
                Ok(()) => println!("held"),
                Err(e) => {
                    println!("VIOLATED {} {}", e.key, e.msg);
                    if let Some(p) = opt("--dump") {
                        std::fs::write(p, &e.bytes).unwrap();
                    }
                    std::process::exit(1);
                }
            }
        }
        Some("run") => {
            let id = args[2].clone();
            let f = checks::find(&id).expect("no such check");
            let num = |k: &str, d: u64| opt(k).map_or(d, |s| s.parse().unwrap());
            let (seed, cases, shard, of) = (num("--seed", 1), num("--cases", 100), num("--shard", 0), num("--of", 1));
            let secs = num("--secs", 600);
            let cur = opt("--cur").map(|p| std::fs::File::create(p).unwrap());
            let replays = opt("--replays").unwrap_or_else(|| "/tmp".into());
            let mut cx = Cx::default();
            cx.tier_thorough = opt("--tier").as_deref() == Some("thorough");
            cx.known = opt("--known").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
            let t0 = std::time::Instant::now();
            let mut viols: Vec<String> = vec![];
            let mut ran = 0u64;
            let mut complete = true;
            // numbers of the random cases of another build start elsewhere
            let base: u64 = std::env::var("JV_BASE").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut i = shard;
            while i < cases {
                if t0.elapsed().as_secs() >= secs {
                    complete = false;
                    break;
                }
                let cs = case_seed(seed, &id, base + i);
                if let Some(c) = &cur {
                    let mut b = [0u8; 24];
                    b[..8].copy_from_slice(&cs.to_le_bytes());
                    b[8..16].copy_from_slice(&i.to_le_bytes());
                    b[16..].copy_from_slice(&(ran + 1).to_le_bytes());
                    let _ = c.write_at(&b, 0);
                }
                cx.index = i;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx, &mut Rng::new(cs))));
                ran += 1;
                let e = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(_) => {
                        // a panic outside the guarded calls is a fault of the harness
                        let p = mon::take_panics().join(" | ");
                        eprintln!("HARNESS PANIC in {id} case {cs}: {p}");
                        std::process::exit(70);
                    }
                };
                if let Some(e) = e {
                    let name = format!("{}/{}-{:016x}.jpg", replays, id, cs);
                    let _ = std::fs::write(&name, &e.bytes);
                    viols.push(format!(
                        "{{\"case\":{},\"index\":{},\"key\":{},\"msg\":{},\"file\":{}}}",
                        jstr(&cs.to_string()),
                        i,
                        jstr(&e.key),
                        jstr(&e.msg),
                        jstr(&name)
                    ));
                    if viols.len() >= 3 {
                        complete = false;
                        break;
                    }
                }
                i += of;
            }
            drop(std::mem::take(&mut cx.peers));
            let mut o = String::from("{");
            let _ = write!(o, "\"evals\":{},\"cases\":{},\"complete\":{},", cx.evals, ran, complete);
            let c: Vec<String> = cx.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            let _ = write!(o, "\"counters\":{{{}}},", c.join(","));
            let c: Vec<String> = cx.maxes.iter().map(|(k, v)| format!("{}:{:.4}", jstr(k), v)).collect();
            let _ = write!(o, "\"maxes\":{{{}}},", c.join(","));
            let c: Vec<String> = cx.samples.iter().map(|k| jstr(k)).collect();
            let _ = write!(o, "\"samples\":[{}],", c.join(","));
            let c: Vec<String> =
                cx.known_hits.iter().map(|(k, v)| format!("{}:[{},{}]", jstr(k), v.0, jstr(&v.1))).collect();
            let _ = write!(o, "\"known\":{{{}}},", c.join(","));
            let _ = write!(o, "\"wall\":{:.3},", t0.elapsed().as_secs_f64());
            let _ = write!(o, "\"violations\":[{}]}}", viols.join(","));
            if let Some(p) = opt("--out") {
                std::fs::write(&p, &o).unwrap();
                let mut h: Vec<u8> = Vec::with_capacity(cx.distinct.len() * 8);
                for d in &cx.distinct {
                    h.extend_from_slice(&d.to_le_bytes());
                }
                std::fs::write(format!("{p}.distinct"), h).unwrap();
            } else {
                println!("{o}");
                println!("distinct {}", cx.distinct.len());
            }
            std::io::stdout().flush().unwrap();
            // skip teardown of pools
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: jv run|case|list|serve");
            std::process::exit(64)
        }
    }
}
