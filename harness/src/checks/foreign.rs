//! Pictures decoded by builds of the crate that run in an interpreter: undefined behaviour, other targets.
use super::par::{ask, differs};
use crate::gen;
use crate::lossless;
use crate::mon::{self, Req};
use crate::mutate;
use crate::peer::{answer, TRANSFORMS};
use crate::rng::{hash, Rng};
use crate::{enc, fail, Cx, Fail};

/// Interpreters are slow: a few dozen blocks.
fn small(cx: &mut Cx, rng: &mut Rng) -> (Vec<u8>, Req, bool) {
    let mut req = Req::default();
    let n = gen::ncomp(rng);
    let (b, valid) = match rng.below(12) {
        0 => (lossless::random(rng, n, 600).encode().bytes(), true),
        1 | 2 => (mutate::hostile(cx, rng, 1500), false),
        k => {
            let mut f = if k < 6 {
                // widths of every remainder of the vector kernels, and beyond the parallelism threshold
                let id = gen::ids(rng, n);
                let fac = if rng.flip() { vec![(1, 1); n] } else { gen::factors(rng, n) };
                let w = if rng.chance(1, 3) { rng.range(129, 150) } else { rng.range(1, 40) };
                let h = rng.range(1, 8);
                gen::frame_with(rng, w, h, &id, &fac)
            } else {
                gen::frame(rng, n, 10)
            };
            gen::fill_encoder(rng, &mut f);
            let mut o = gen::opts(rng, &f);
            if o.scans.len() > 12 {
                o = gen::opts_for(rng, &f, crate::model::Proc::Baseline);
            }
            let mut s = enc::encode(&f, &o);
            if rng.chance(1, 4) && n > 1 {
                let t = if n == 3 { rng.below(2) as u8 } else { *rng.pick(&[0u8, 2]) };
                s.insert(1, super::image::adobe_seg(rng, t));
            }
            (s.bytes(), true)
        }
    };
    if rng.chance(1, 4) {
        req.scale = Some((rng.range(0, 80) as u16, rng.range(0, 20) as u16));
    }
    if rng.chance(1, 4) {
        req.transform = Some(*rng.pick(&TRANSFORMS));
    }
    (b, req, valid)
}

fn stderr_of(name: &str) -> String {
    let Ok(p) = std::env::var(format!("JV_ERR_{name}")) else { return String::new() };
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let at = s.find("error: Undefined").or_else(|| s.find("error: ")).unwrap_or(0);
    s[at..].lines().filter(|l| !l.trim().is_empty()).take(14).collect::<Vec<_>>().join(" | ")
}

const PEERS: [&str; 4] = ["MIRI", "MIRI_RAYON", "S390X", "I686"];

/// What decoding costs the interpreter: blocks of all scans, roughly.
fn cost(b: &[u8]) -> usize {
    let scans = b.windows(2).filter(|w| w == &[0xFF, 0xDA]).count();
    super::hostile::declared(b).1 * (scans + 1) + b.len() / 40
}

fn with_peers(cx: &mut Cx, rng: &mut Rng, exact: bool) -> Result<(), Fail> {
    let (b, q, valid) = loop {
        let x = small(cx, rng);
        if cost(&x.0) < 400 {
            break x;
        }
    };
    let me = answer(&mon::decode_from(&b[..], &q));
    for name in PEERS {
        let Some(mut x) = ask(cx, name, &b, &q) else { continue };
        cx.eval();
        cx.count(format!("decoded under {name}"));
        if x.class == "peer died" {
            let e = stderr_of(name);
            if !e.contains("Undefined Behavior") && !e.contains("deadlock") {
                // an operation the interpreter does not know, for example
                cx.count(format!("{name} gave up"));
                continue;
            }
            return fail(format!("{name}: {e}; {q:?}"), &b);
        }
        // two-byte samples are native-endian (several components: the known finding under C03)
        let two = x.info.map_or(false, |i| {
            let n = [1, 1, 3, 4][(i.2 as usize).min(3)];
            i.2 == 1 || x.pixels.len() == 2 * n * i.0 as usize * i.1 as usize
        });
        if name == "S390X" && two {
            x.pixels.chunks_exact_mut(2).for_each(|c| c.swap(0, 1));
        }
        if exact {
            if let Some(d) = differs(&me, &x) {
                return fail(format!("this build / {name}: {d}; {q:?}"), &b);
            }
        } else if (&me.class, &me.info, me.pixels.len()) != (&x.class, &x.info, x.pixels.len()) {
            return fail(format!("this build / {name}: {} / {}; {q:?}", me.class, x.class), &b);
        }
        cx.count(format!("outcome:{}", x.class.split(' ').next().unwrap()));
    }
    if valid {
        cx.count("valid pictures");
    }
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{} bytes, {q:?}: {}", b.len(), me.class));
    Ok(())
}

/// The accelerated build under the interpreter.
pub fn c02x(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    with_peers(cx, rng, false)
}
/// The portable build for other targets.
pub fn c11x(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    with_peers(cx, rng, true)
}
