//! C10, C11, C23: schedules, builds, worker threads.
use crate::enc;
use crate::gen;
use crate::lossless;
use crate::model::*;
use crate::mon::{self, Chunk, MonReader, Out, Req};
use crate::mutate;
use crate::peer::{answer, Answer, Peer, TRANSFORMS};
use crate::rng::{hash, mix, Rng};
use crate::{fail, Cx, Fail};
use jpeg_decoder::{ColorTransform, Decoder};
use std::io::ErrorKind;

const SIMD: bool = cfg!(not(feature = "portable"));

/// A narrow picture with more rows of blocks than any queue between threads may hold.
fn tall(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.chance(3, 4) { 1 } else { 3 };
    let id = gen::ids(rng, n);
    let f: Vec<_> = (0..n).map(|_| (1, rng.range(1, 2))).collect();
    let h = if rng.flip() { rng.range(8200, 14_000) } else { rng.range(2000, 36_000) };
    let mut f = gen::frame_with(rng, 129, h, &id, &f);
    let k = rng.range(20, 400);
    for c in &mut f.comps {
        for _ in 0..k {
            let i = rng.below(c.coefs.len());
            c.coefs[i][rng.below(3)] = rng.range(0, 8) as i16 - 4;
        }
    }
    f.q.iter_mut().flatten().for_each(|q| q.iter_mut().for_each(|q| *q = (*q).min(100)));
    let p = *rng.pick(&[Proc::Baseline, Proc::Baseline, Proc::Progressive]);
    let o = gen::opts_for(rng, &f, p);
    enc::encode(&f, &o).bytes()
}

/// A frame beyond the threshold of parallel work.
fn wide_frame(rng: &mut Rng, n: usize, max_h: usize) -> Frame {
    let id = gen::ids(rng, n);
    let fac = gen::factors(rng, n);
    let w = match rng.below(4) {
        0 => 129,
        1 => rng.range(129, 200),
        2 => rng.range(129, 520),
        _ => rng.range(9, 32) * 16 + rng.below(3),
    };
    let (mut w, mut h) = (w, rng.range(1, max_h));
    if !cfg!(miri) && max_h > 20 && rng.chance(1, 100) {
        w = gen::long_side(rng);
        h = rng.range(1, (40_000 / w).clamp(1, max_h));
    }
    gen::frame_with(rng, w, h, &id, &fac)
}

fn input(cx: &mut Cx, rng: &mut Rng, max_h: usize) -> (Vec<u8>, Req, &'static str) {
    let mut req = Req::default();
    let kind;
    let b = match rng.below(12) {
        0..=5 => {
            let n = gen::ncomp(rng);
            let mut f = if rng.chance(5, 6) { wide_frame(rng, n, max_h) } else { gen::frame(rng, n, 200) };
            if rng.flip() {
                gen::fill_encoder(rng, &mut f)
            } else {
                gen::fill_any(rng, &mut f)
            }
            let mut o = gen::opts(rng, &f);
            if o.proc_ == Proc::Progressive && rng.chance(1, 4) {
                let k = rng.range(1, o.scans.len());
                o.scans.truncate(k);
                kind = "unfinished progressive";
            } else if o.proc_ == Proc::Progressive {
                kind = "progressive";
            } else if o.scans.len() > 1 {
                kind = "sequential, several scans";
            } else {
                kind = "sequential";
            }
            let mut b = enc::encode(&f, &o).bytes();
            if rng.chance(1, 8) {
                let k = rng.below(b.len());
                b.truncate(k);
            }
            b
        }
        6 => {
            kind = "lossless";
            let n = gen::ncomp(rng);
            lossless::random(rng, n, 4000).encode().bytes()
        }
        7 => {
            kind = "decorated";
            mutate::valid(rng, 200).bytes()
        }
        8 | 9 => {
            kind = "damaged wide picture";
            let n = gen::ncomp(rng);
            let mut f = wide_frame(rng, n, max_h);
            gen::fill_noise_small(rng, &mut f);
            let o = gen::opts(rng, &f);
            let mut s = enc::encode(&f, &o);
            if rng.flip() {
                mutate::mutate_stream(rng, &mut s);
            }
            let mut b = s.bytes();
            mutate::mutate_bytes(rng, &mut b);
            mutate::clamp_dims(&mut b, 300_000);
            b
        }
        _ => {
            kind = "hostile";
            mutate::hostile(cx, rng, 200_000)
        }
    };
    if rng.chance(1, 4) {
        req.scale = Some((rng.range(0, 300) as u16, rng.range(0, 100) as u16));
    }
    if rng.chance(1, 6) {
        req.transform = Some(*rng.pick(&TRANSFORMS));
    }
    req.info_first = rng.chance(1, 6);
    (b, req, kind)
}

fn peer<'a>(cx: &'a mut Cx, name: &str) -> Option<&'a mut Peer> {
    if !cx.peers.contains_key(name) {
        let p = Peer::spawn(name)?;
        cx.peers.insert(name.to_string(), p);
    }
    cx.peers.get_mut(name)
}

pub fn ask(cx: &mut Cx, name: &str, b: &[u8], q: &Req) -> Option<Answer> {
    let a = peer(cx, name)?.decode(b, q);
    if a.class == "peer died" {
        cx.peers.remove(name);
    }
    Some(a)
}

fn short(a: &Answer) -> String {
    format!("{} ({} bytes, {:016x}, info {:?})", a.class, a.pixels.len(), hash(&a.pixels), a.info)
}

pub fn differs(a: &Answer, b: &Answer) -> Option<String> {
    if a == b {
        return None;
    }
    let mut s = format!("{} / {}", short(a), short(b));
    if a.pixels.len() == b.pixels.len() {
        if let Some(k) = a.pixels.iter().zip(&b.pixels).position(|(x, y)| x != y) {
            let n = a.pixels.iter().zip(&b.pixels).filter(|(x, y)| x != y).count();
            s += &format!(", {n} bytes differ, the first at {k}");
        }
    }
    Some(s)
}

fn one(b: &[u8], q: &Req, seed: u64) -> Answer {
    let mut r = MonReader::new(b);
    r.rng = Rng::new(seed);
    r.yields = seed & 3 == 0;
    if seed & 12 == 0 {
        r.chunk = Chunk::Random(50)
    }
    answer(&mon::decode_from(&mut r, q))
}

#[cfg(feature = "rayon")]
const POOLS: [usize; 6] = [1, 2, 3, 5, 8, 16];

/// One decode somewhere: on this thread or inside a pool.
fn run_at(pool: usize, b: &[u8], q: &Req, seed: u64) -> Answer {
    #[cfg(feature = "rayon")]
    if pool > 0 {
        return super::hostile::pool(pool).install(|| one(b, q, seed));
    }
    let _ = pool;
    one(b, q, seed)
}

/// Worker threads that start late: everything their owner sends has to wait for them.
fn late_starts(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let (b, q) = if rng.chance(1, 3) {
        (tall(rng), Req::default())
    } else {
        let (b, q, _) = input(cx, rng, 200);
        (b, q)
    };
    let a = one(&b, &q, 1);
    for us in [300, 3_000, *rng.pick(&[10_000, 60_000, 150_000, 1_500_000])] {
        mon::delay_spawn(us);
        let x = one(&b, &q, rng.u64());
        mon::delay_spawn(0);
        cx.eval();
        let n = mon::spawns_delayed();
        cx.add("worker threads started late", n);
        if n > 0 {
            cx.nontrivial(hash(&b) ^ us);
        }
        if let Some(d) = differs(&a, &x) {
            return fail(format!("alone / with threads that start up to {us} us late: {d}; {q:?}"), &b);
        }
    }
    if a.class == "panic" {
        return fail(format!("panic while decoding {} bytes", b.len()), &b);
    }
    Ok(())
}

/// A reader or one of the threads that rests for a second in the middle.
fn stalls(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let mut f = wide_frame(rng, n, 200);
    gen::fill_encoder(rng, &mut f);
    let o = gen::opts(rng, &f);
    let b = enc::encode(&f, &o).bytes();
    let q = Req::default();
    let a = one(&b, &q, 1);
    let us = *rng.pick(&[20_000, 200_000, 700_000, 1_200_000]);
    {
        let mut r = MonReader::new(&b);
        r.stall = Some((rng.below(b.len()), us));
        let x = answer(&mon::decode_from(&mut r, &q));
        cx.eval();
        cx.count("reader at rest");
        if let Some(d) = differs(&a, &x) {
            return fail(format!("alone / with a reader that rests for {us} us: {d}"), &b);
        }
    }
    for _ in 0..3 {
        let pool = if cfg!(feature = "rayon") { *rng.pick(&[0, 2, 3, 8]) } else { 0 };
        mon::chaos_start(rng.u64());
        let at = if rng.flip() { rng.below(12) } else { rng.below(200) };
        mon::stall(us, at as u64, rng.below(3) as u64);
        let x = run_at(pool, &b, &q, 1);
        let k = mon::stall(0, 0, 0);
        mon::chaos_stop();
        cx.eval();
        cx.add("threads at rest", k);
        if k > 0 {
            cx.nontrivial(hash(&b) ^ at as u64);
        }
        if let Some(d) = differs(&a, &x) {
            return fail(format!("alone / with a thread that rests for {us} us at its allocation {at}: {d}"), &b);
        }
    }
    Ok(())
}

/// The first decodes of a process, when what is set up on first use is not yet there.
fn first_use(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let (b, q) = if rng.chance(2, 3) {
        let n = *rng.pick(&[3, 4, 4]);
        let mut f = if rng.flip() { wide_frame(rng, n, 60) } else { gen::frame(rng, n, 200) };
        gen::fill_encoder(rng, &mut f);
        let o = gen::opts(rng, &f);
        let mut q = Req::default();
        if rng.flip() {
            q.transform = Some(if n == 3 { ColorTransform::YCbCr } else { *rng.pick(&[ColorTransform::YCCK, ColorTransform::YCCK, ColorTransform::CMYK]) });
        }
        if rng.chance(1, 4) {
            q.scale = Some((rng.range(0, 300) as u16, rng.range(0, 100) as u16));
        }
        (enc::encode(&f, &o).bytes(), q)
    } else {
        let (b, mut q, _) = input(cx, rng, 200);
        q.info_first = false;
        (b, q)
    };
    let a = one(&b, &q, 1);
    for k in 0..6 {
        let threads = [1, 2, 3, 4, 8, 12][k];
        let x = Peer::fresh().decode_by(threads, &b, &q);
        cx.eval();
        cx.add("first decodes of a new process", threads as u64);
        cx.nontrivial(mix(hash(&b) ^ k as u64));
        if let Some(d) = differs(&a, &x) {
            return fail(format!("here / among {threads} first decodes of a new process: {d}; {q:?}"), &b);
        }
    }
    Ok(())
}

pub fn c10(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    if rng.chance(1, 8) {
        return first_use(cx, rng);
    }
    if cfg!(all(feature = "faults", not(feature = "rayon"))) && rng.chance(1, 12) {
        return late_starts(cx, rng);
    }
    if rng.chance(1, 30) {
        return stalls(cx, rng);
    }
    let k = if rng.chance(1, 3) { rng.range(3, 6) } else { 2 };
    let max_h = if rng.chance(1, 10) { 400 } else { 70 };
    let mut jobs: Vec<(Vec<u8>, Req, Answer)> = vec![];
    // neighbours that share tables, geometry or identifiers are the likeliest to be mixed up
    let twin = rng.chance(1, 3);
    let rng0 = rng.fork();
    for j in 0..k {
        let (b, q, kind) = if twin && j > 0 {
            let mut r = rng0.clone();
            let (mut b, q, kind) = input(cx, &mut r, max_h);
            if rng.flip() {
                mutate::mutate_bytes(rng, &mut b);
                mutate::clamp_dims(&mut b, 300_000);
            }
            (b, q, kind)
        } else if twin {
            let mut r = rng0.clone();
            input(cx, &mut r, max_h)
        } else {
            input(cx, rng, max_h)
        };
        let a = one(&b, &q, 1);
        if a.class == "panic" {
            cx.count("panicked");
            return Ok(());
        }
        cx.count(format!("input:{kind}"));
        cx.count(format!("result:{}", a.class.split(' ').next().unwrap()));
        // the same input in the other builds
        for p in ["MPSC", "RELEASE", "RAYON"] {
            let Some(x) = ask(cx, p, &b, &q) else { continue };
            cx.eval();
            cx.count(format!("compared with build {p}"));
            if let Some(d) = differs(&a, &x) {
                return fail(format!("this build / build {p}: {d}; {q:?}"), &b);
            }
        }
        jobs.push((b, q, a));
    }
    // one after another, in pools of several sizes
    #[cfg(feature = "rayon")]
    let pools: Vec<usize> = (0..3).map(|_| *rng.pick(&POOLS)).collect();
    #[cfg(not(feature = "rayon"))]
    let pools: Vec<usize> = vec![0, 0];
    let (b, q, a) = &jobs[0];
    for p in pools {
        let seed = rng.u64();
        mon::chaos_start(seed);
        let x = run_at(p, b, q, seed);
        let (h, ev) = mon::chaos_stop();
        cx.eval();
        cx.count(if p > 0 { format!("pool of {p}") } else { "threads per component".into() });
        cx.add("allocator events logged", ev);
        cx.nontrivial(mix(h ^ hash(b) ^ p as u64));
        if let Some(d) = differs(a, &x) {
            return fail(format!("alone / in a pool of {p}: {d}; {q:?}"), b);
        }
    }
    // all of them at the same time
    let seed = rng.u64();
    let reps = 2;
    #[cfg(feature = "rayon")]
    let (shared, stolen) = (*rng.pick(&[0, 0, 1, 2, 3, 8]), rng.chance(1, 3));
    #[cfg(not(feature = "rayon"))]
    let (shared, stolen) = (0, false);
    let bad: std::sync::Mutex<Vec<(usize, String)>> = Default::default();
    let job = |i: usize, p: usize| {
        for r in 0..reps {
            let j = (i + r) % jobs.len();
            let x = run_at(p, &jobs[j].0, &jobs[j].1, mix(seed ^ (i * 8 + r) as u64));
            if let Some(d) = differs(&jobs[j].2, &x) {
                bad.lock().unwrap().push((j, d));
            }
        }
    };
    mon::chaos_start(seed);
    let n = jobs.len() + rng.below(3);
    if stolen {
        // decodes as tasks of one pool: an idle decode steals another one
        #[cfg(feature = "rayon")]
        {
            let p = *rng.pick(&[1usize, 2, 3, 8]);
            super::hostile::pool(p).scope(|s| {
                for i in 0..n {
                    let job = &job;
                    s.spawn(move |_| job(i, 0));
                }
            });
            cx.count(format!("decodes as tasks of a pool of {p}"));
        }
    } else {
        std::thread::scope(|s| {
            for i in 0..n {
                let job = &job;
                s.spawn(move || job(i, shared));
            }
        });
        cx.count(format!("concurrent decoders in pool {shared}"));
    }
    let (h, ev) = mon::chaos_stop();
    cx.add("allocator events logged", ev);
    cx.add("concurrent decodes", (n * reps) as u64);
    for _ in 0..n * reps {
        cx.eval();
    }
    cx.nontrivial(mix(h ^ hash(b) ^ 77));
    if let Some((j, d)) = bad.lock().unwrap().first() {
        return fail(format!("alone / among {n} decoders (shared pool {shared}, tasks {stolen}): {d}; {:?}", jobs[*j].1), &jobs[*j].0);
    }
    cx.sample(|| format!("{} inputs, {n} decoders at once x {reps}, {ev} allocator events; first: {}", jobs.len(), short(&jobs[0].2)));
    Ok(())
}

pub fn c11(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let mut colour = n > 1;
    let mut req = Req::default();
    let valid = rng.chance(5, 6);
    let what;
    let mut exact = false;
    let b = if !valid {
        what = "hostile";
        mutate::hostile(cx, rng, 200_000)
    } else if rng.chance(1, 12) {
        what = "lossless";
        exact = true;
        lossless::random(rng, n, 2000).encode().bytes()
    } else {
        what = "encoder-range";
        let mut f = if rng.chance(1, 5) { wide_frame(rng, n, 40) } else { gen::frame(rng, n, 150) };
        gen::fill_encoder(rng, &mut f);
        let o = gen::opts(rng, &f);
        let mut s = enc::encode(&f, &o);
        if rng.chance(1, 3) && n > 1 {
            let t = if n == 3 { rng.below(2) as u8 } else { *rng.pick(&[0u8, 2]) };
            s.insert(1, super::image::adobe_seg(rng, t));
        }
        s.bytes()
    };
    if valid && rng.chance(1, 4) {
        req.scale = Some((rng.range(0, 150) as u16, rng.range(0, 80) as u16));
    }
    if valid && rng.chance(1, 4) && n > 1 && !exact {
        let t = if n == 3 {
            *rng.pick(&[jpeg_decoder::ColorTransform::None, jpeg_decoder::ColorTransform::RGB, jpeg_decoder::ColorTransform::YCbCr])
        } else {
            *rng.pick(&[jpeg_decoder::ColorTransform::None, jpeg_decoder::ColorTransform::CMYK, jpeg_decoder::ColorTransform::YCCK])
        };
        req.transform = Some(t);
        use jpeg_decoder::ColorTransform as T;
        if matches!(t, T::None | T::RGB | T::CMYK) {
            colour = false
        }
    }
    let me = answer(&mon::decode_from(&b[..], &req));
    let ports: Vec<(String, Answer)> =
        ["PORT", "PORTR", "PORT0"].iter().filter_map(|p| ask(cx, p, &b, &req).map(|a| (p.to_string(), a))).collect();
    if ports.is_empty() {
        return fail("no portable build to compare with", &b);
    }
    cx.count(format!("input:{what}"));
    let p0 = ports[0].1.clone();
    if !SIMD {
        if let Some(d) = differs(&me, &p0) {
            return fail(format!("portable builds differ: {d}"), &b);
        }
    }
    for (name, p) in &ports[1..] {
        cx.eval();
        cx.count("portable builds compared");
        if let Some(d) = differs(&p0, p) {
            return fail(format!("portable builds differ (PORT / {name}): {d}; {req:?}"), &b);
        }
    }
    cx.eval();
    if valid && p0.class != "ok" {
        return fail(format!("the portable build does not decode a valid picture: {}", short(&p0)), &b);
    }
    if (&me.class, &me.info, me.pixels.len()) != (&p0.class, &p0.info, p0.pixels.len()) {
        return fail(format!("accelerated / portable: {} / {}; {req:?}", short(&me), short(&p0)), &b);
    }
    if valid && me.class == "ok" {
        let mut worst = 0;
        let mut at = 0;
        for (i, (x, y)) in me.pixels.iter().zip(&p0.pixels).enumerate() {
            let d = x.abs_diff(*y);
            if d > worst {
                worst = d;
                at = i;
            }
        }
        let lim = if exact { 0 } else if colour { 4 } else { 2 };
        cx.max(if colour { "largest difference, colour" } else { "largest difference, one plane" }, worst as f64);
        cx.add("samples compared", me.pixels.len() as u64);
        if worst > lim {
            return fail(format!("{worst} levels between accelerated and portable at {at}; {what} {req:?}, {} components", n), &b);
        }
        cx.nontrivial(hash(&b));
        if worst > 0 {
            cx.count("pictures with differing samples");
        }
    } else if !valid {
        cx.count(format!("hostile outcome:{}", me.class.split(' ').next().unwrap()));
        cx.nontrivial(hash(&b));
    }
    cx.sample(|| format!("{what}, {n} components, {req:?}: {}", short(&me)));
    Ok(())
}

/// Threads that are there when no decode is in progress.
fn base_threads() -> usize {
    use std::sync::OnceLock;
    static BASE: OnceLock<usize> = OnceLock::new();
    *BASE.get_or_init(|| {
        let mut rng = Rng::new(5);
        for _ in 0..3 {
            let mut f = gen::frame_with(&mut rng, 200, 40, &[1, 2, 3], &[(2, 2), (1, 1), (1, 1)]);
            gen::fill_encoder(&mut rng, &mut f);
            let _ = mon::decode(&enc::encode(&f, &enc::Opts::canonical(&f)).bytes());
        }
        #[cfg(feature = "rayon")]
        for n in [1, 2, 8] {
            super::hostile::pool(n);
        }
        // pools start their threads at once; per-component threads end
        #[cfg(not(feature = "rayon"))]
        mon::wait_threads(1, 20_000);
        std::thread::sleep(std::time::Duration::from_millis(50));
        let n = mon::threads();
        if cfg!(not(feature = "rayon")) {
            1
        } else {
            n
        }
    })
}

pub fn c23(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let base = base_threads();
    let mut known: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let rounds = rng.range(1, 6);
    let started0 = mon::SPAWNED.load(std::sync::atomic::Ordering::SeqCst);
    let mut last = vec![];
    let mut ends = vec![];
    // decoders that failed or finished stay alive for a while: the threads must end without their being dropped
    let mut dropped_later: Vec<Decoder<MonReader<'static>>> = vec![];
    for _ in 0..rounds {
        let n = *rng.pick(&[1usize, 3, 3, 4]);
        let mut f = wide_frame(rng, n, 60);
        if rng.flip() {
            gen::fill_encoder(rng, &mut f)
        } else {
            gen::fill_noise_small(rng, &mut f)
        }
        let o = gen::opts(rng, &f);
        let b: &'static [u8] = Box::leak(enc::encode(&f, &o).bytes().into_boxed_slice());
        last = b.to_vec();
        let mut r = MonReader::new(b);
        r.rng = rng.fork();
        r.yields = rng.flip();
        if rng.flip() {
            r.chunk = Chunk::Random(rng.range(1, 60) as u64)
        }
        // positions inside the entropy-coded data are the interesting ones
        let pos = {
            let e = b.windows(2).position(|w| w == [0xFF, 0xDA]).unwrap_or(0);
            let from = if rng.chance(1, 6) { 0 } else { e };
            rng.range(from, b.len() - 1)
        };
        let mut spawn_fault = None;
        let mut want = "";
        let kind = rng.below(if mon::CAN_FAIL_SPAWN && cfg!(not(feature = "rayon")) { 7 } else { 5 });
        match kind {
            0 => want = "ok",
            1 => {
                r.panic_at = Some(pos);
                want = "panic";
            }
            2 => {
                r.fault = Some((pos, ErrorKind::TimedOut, false));
                want = "io TimedOut";
            }
            3 => {
                // the data goes wrong
                let mut v = b.to_vec();
                for _ in 0..rng.range(1, 3) {
                    let k = rng.range(pos.min(v.len() - 1), v.len() - 1);
                    v[k] = rng.byte();
                }
                mutate::clamp_dims(&mut v, 300_000);
                r.data = Box::leak(v.into_boxed_slice());
            }
            4 => {
                // broken off by the caller: only metadata is read
                want = "info";
            }
            _ => {
                spawn_fault = Some(rng.below(n + 1) as i64);
            }
        }
        let mut d = Decoder::new(r);
        if rng.chance(1, 4) {
            let _ = mon::guard(|| d.read_info());
        }
        let scaled = rng.chance(1, 6) && want != "info";
        if scaled {
            let _ = mon::guard(|| d.scale(rng.range(100, 600) as u16, 10));
        }
        if want == "info" {
            let _ = mon::guard(|| d.read_info());
        } else {
            let before = mon::SPAWNED.load(std::sync::atomic::Ordering::SeqCst);
            if let Some(k) = spawn_fault {
                mon::fail_spawn(k);
            }
            let out = mon::guard(|| Out::of(d.decode())).unwrap_or_else(Out::Panic);
            let refused = mon::fail_spawn_off();
            let started = mon::SPAWNED.load(std::sync::atomic::Ordering::SeqCst) - before;
            cx.eval();
            cx.count(format!("end:{}", out.class().split(' ').next().unwrap()));
            if want == "ok" && !out.is_ok() {
                return fail(format!("a valid picture after {ends:?}: {}", out.short()), b);
            }
            if want == "io TimedOut" && !matches!(out, Out::Io(ErrorKind::TimedOut)) {
                return fail(format!("a failing reader at {pos}: {}", out.short()), b);
            }
            if let Some(k) = spawn_fault {
                if refused > 0 {
                    cx.count("thread start refused");
                    if !matches!(out, Out::Io(_)) {
                        return fail(format!("start of thread {k} of the decode failed: {}", out.short()), b);
                    }
                } else if !out.is_ok() {
                    return fail(format!("no thread start failed, yet {}", out.short()), b);
                }
            }
            if out.is_ok() && known.len() < 3 && rng.flip() && kind == 0 && !scaled {
                if let Out::Ok(v) = &out {
                    known.push((b.to_vec(), v.clone()));
                }
            }
            if mon::CAN_FAIL_SPAWN && cfg!(not(feature = "rayon")) && started > 8 {
                return fail(format!("{started} threads started by one decode of {n} components"), b);
            }
            ends.push(out.class());
        }
        if rng.flip() {
            dropped_later.push(d);
        }
        // the same again on a fresh decoder must not depend on what failed before
        if let Some((kb, kv)) = known.last() {
            if rng.flip() {
                let x = mon::decode(kb);
                cx.eval();
                if x.out != Out::Ok(kv.clone()) {
                    return fail(format!("a decode after {ends:?} gives {} instead of {} bytes", x.out.short(), kv.len()), kb);
                }
            }
        }
    }
    let t = std::time::Instant::now();
    if !mon::wait_threads(base, 30_000) {
        return fail(
            format!("{} threads are left {} s after {ends:?}, {base} expected", mon::threads(), t.elapsed().as_secs()),
            &last,
        );
    }
    cx.max("milliseconds until the threads were gone", t.elapsed().as_micros() as f64 / 1000.0);
    cx.add("threads started", mon::SPAWNED.load(std::sync::atomic::Ordering::SeqCst) - started0);
    cx.add("thread count checks", 1);
    drop(dropped_later);
    // and a known picture
    let mut r2 = Rng::new(mix(rng.u64() % 16));
    let mut f = wide_frame(&mut r2, 3, 40);
    gen::fill_encoder(&mut r2, &mut f);
    let o = gen::opts(&mut r2, &f);
    let b = enc::encode(&f, &o).bytes();
    let x = mon::decode(&b);
    let w = cx.store.first.entry(hash(&b)).or_insert_with(|| x.out.clone());
    cx.evals += 1;
    if !x.out.is_ok() || *w != x.out {
        return fail(format!("the known picture after {ends:?}: {} instead of {}", x.out.short(), w.short()), &b);
    }
    cx.nontrivial(mix(hash(&last) ^ ends.len() as u64));
    cx.sample(|| format!("{rounds} decodes ending {ends:?}; {base} threads before and after"));
    Ok(())
}
