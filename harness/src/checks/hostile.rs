//! C01, C02, C16, C17, C20: behaviour on arbitrary streams and call histories.
use crate::gen;
use crate::model::*;
use crate::mon::{self, Chunk, MonReader, Out, Req};
use crate::mutate;
use crate::peer::TRANSFORMS;
use crate::rng::{hash, mix, Rng};
use crate::{enc, fail, lossless, Cx, Fail};
use jpeg_decoder::{ColorTransform, Decoder, ImageInfo};
use std::io::ErrorKind;

#[derive(Clone, Debug)]
pub enum Call {
    ReadInfo,
    Info,
    Scale(u16, u16),
    Decode,
    Transform(ColorTransform),
    Limit(usize),
    Meta,
}

fn history(rng: &mut Rng) -> Vec<Call> {
    let n = match rng.below(4) {
        0 => 1,
        1 => rng.range(2, 8),
        _ => rng.range(1, 4),
    };
    let mut v: Vec<Call> = (0..n)
        .map(|_| match rng.below(14) {
            0..=4 => Call::Decode,
            5 | 6 => Call::ReadInfo,
            7 => Call::Info,
            8 | 9 => Call::Scale(size(rng), size(rng)),
            10 | 11 => Call::Transform(*rng.pick(&TRANSFORMS)),
            12 => Call::Limit(match rng.below(4) {
                0 => 0,
                1 => rng.below(5000),
                2 => rng.below(1 << 20),
                _ => usize::MAX,
            }),
            _ => Call::Meta,
        })
        .collect();
    if !v.iter().any(|c| matches!(c, Call::Decode)) {
        v.push(Call::Decode)
    }
    // what a caller asks after a call, whether it failed or not
    if rng.flip() {
        v.push(Call::Info);
        v.push(Call::Meta);
    }
    v
}

fn size(rng: &mut Rng) -> u16 {
    match rng.below(4) {
        0 => 0,
        1 => rng.range(1, 64) as u16,
        2 => rng.range(1, 2000) as u16,
        _ => rng.u64() as u16,
    }
}

/// Perform a history; the class of every outcome. Err: a panic.
pub fn perform<R: std::io::Read>(dec: &mut Decoder<R>, calls: &[Call]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for c in calls {
        let r = mon::guard(|| match c {
            Call::ReadInfo => match dec.read_info() {
                Ok(()) => "ok".to_string(),
                Err(e) => Out::err(e).class(),
            },
            Call::Info => if dec.info().is_some() { "some".into() } else { "none".into() },
            Call::Scale(w, h) => match dec.scale(*w, *h) {
                Ok(_) => "ok".into(),
                Err(e) => Out::err(e).class(),
            },
            Call::Decode => {
                let r = dec.decode();
                if let Ok(px) = &r {
                    // every byte handed out decides a branch, so that MemorySanitizer sees it
                    if px.iter().fold(0u64, |a, &b| mix(a ^ b as u64)) == 0 {
                        std::hint::black_box(());
                    }
                }
                Out::of(r).class()
            }
            Call::Transform(t) => {
                dec.set_color_transform(*t);
                String::new()
            }
            Call::Limit(l) => {
                dec.set_max_decoding_buffer_size(*l);
                String::new()
            }
            Call::Meta => {
                let _ = (dec.exif_data().map(|x| x.len()), dec.xmp_data().map(|x| x.len()), dec.icc_profile());
                String::new()
            }
        });
        match r {
            Ok(s) => out.push(s),
            Err(p) => return Err(format!("{c:?} panicked: {p}")),
        }
    }
    Ok(out)
}

fn reader<'a>(rng: &mut Rng, b: &'a [u8]) -> MonReader<'a> {
    let mut r = MonReader::new(b);
    r.rng = rng.fork();
    r.chunk = match rng.below(4) {
        0 => Chunk::One,
        1 => Chunk::Random(rng.range(1, 40) as u64),
        _ => Chunk::All,
    };
    if rng.chance(1, 5) {
        r.interrupt = rng.range(1, 60)
    }
    if rng.chance(1, 6) {
        r.fault = Some((rng.range(0, b.len()), *rng.pick(&KINDS), rng.flip()));
    }
    r
}

pub const KINDS: [ErrorKind; 14] = [
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::NotConnected,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
];

fn tally(cx: &mut Cx, calls: &[Call], out: &[String]) {
    for (c, o) in calls.iter().zip(out) {
        if matches!(c, Call::Decode) {
            let o = o.split(' ').next().unwrap();
            cx.count(format!("decode:{o}"));
        }
    }
    cx.add("calls", calls.len() as u64);
}

/// Any bytes, any calls.
pub fn c01(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let max = if rng.chance(1, 40) { 4_000_000 } else { 120_000 };
    let b = if rng.chance(1, 300) {
        let (x, k) = mutate::flood(rng, 20_000);
        cx.count(format!("flood of {k}"));
        x
    } else {
        mutate::hostile(cx, rng, max)
    };
    let calls = history(rng);
    let mut r = reader(rng, &b);
    let mut dec = Decoder::new(&mut r);
    let res = perform(&mut dec, &calls);
    cx.eval();
    match mon::guard(move || drop(dec)) {
        Ok(()) => {}
        Err(p) => return fail(format!("dropping the decoder panicked: {p}"), &b),
    }
    let out = match res {
        Ok(o) => o,
        Err(e) => return fail(format!("{e}; calls {calls:?}"), &b),
    };
    // a worker thread may have panicked without the call noticing
    let left = mon::take_panics();
    if !left.is_empty() {
        return fail(format!("a worker thread panicked: {}; calls {calls:?}", left.join(" | ")), &b);
    }
    tally(cx, &calls, &out);
    let mut h = hash(&b);
    for c in &out {
        h = mix(h ^ hash(c.as_bytes()));
    }
    cx.nontrivial(h);
    cx.sample(|| format!("{} bytes, {calls:?} -> {out:?}", b.len()));
    Ok(())
}

/// Inputs for the memory-error monitors (sanitizer builds, Miri): valid pictures of every geometry and hostile ones.
pub fn c02(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let b;
    let mut calls;
    if rng.chance(2, 3) {
        let n = gen::ncomp(rng);
        if rng.chance(1, 8) {
            b = lossless::random(rng, n, 1500).encode().bytes();
        } else {
            let mut f = if rng.chance(1, 4) {
                let (w, h) = (rng.range(1, 70), rng.range(1, 20));
                let ids = gen::ids(rng, n);
                let fac: Vec<_> = (0..n).map(|_| (rng.range(1, 4), rng.range(1, 4))).collect();
                gen::frame_with(rng, w, h, &ids, &fac)
            } else {
                let m = if cfg!(miri) { 12 } else { 60 };
                gen::frame(rng, n, m)
            };
            gen::fill_any(rng, &mut f);
            let o = gen::opts(rng, &f);
            b = enc::encode(&f, &o).bytes();
        }
        calls = vec![];
        if rng.chance(1, 3) {
            calls.push(Call::Scale(rng.range(1, 100) as u16, rng.range(1, 100) as u16));
        }
        if rng.chance(1, 3) {
            calls.push(Call::Transform(*rng.pick(&TRANSFORMS)));
        }
        calls.push(Call::Decode);
        cx.count("valid pictures");
    } else {
        b = mutate::hostile(cx, rng, if cfg!(miri) { 2000 } else { 120_000 });
        calls = history(rng);
        cx.count("hostile streams");
    }
    let mut r = reader(rng, &b);
    let mut dec = Decoder::new(&mut r);
    let res = perform(&mut dec, &calls);
    drop(dec);
    cx.eval();
    match res {
        Ok(out) => {
            tally(cx, &calls, &out);
            if out.iter().any(|o| o == "ok") {
                cx.nontrivial(hash(&b));
            }
            cx.sample(|| format!("{} bytes, {calls:?} -> {out:?}", b.len()));
        }
        // panics are the business of C01
        Err(_) => cx.count("panicked"),
    }
    Ok(())
}

/// Samples of the padded planes the first usable frame header declares (0: none).
pub fn declared(b: &[u8]) -> (usize, usize) {
    let (mut best, mut blocks) = (0, 0);
    let mut i = 0;
    while i + 9 < b.len() {
        if b[i] == 0xFF && mutate::is_sof(b[i + 1]) {
            let h = u16::from_be_bytes([b[i + 5], b[i + 6]]) as usize;
            let w = u16::from_be_bytes([b[i + 7], b[i + 8]]) as usize;
            let n = b[i + 9] as usize;
            let mut fac = vec![];
            for c in 0..n {
                match b.get(i + 11 + 3 * c) {
                    Some(&x) if n <= 4 => fac.push(((x >> 4) as usize, (x & 15) as usize)),
                    _ => break,
                }
            }
            let hm = fac.iter().map(|f| f.0).max().unwrap_or(1).max(1);
            let vm = fac.iter().map(|f| f.1).max().unwrap_or(1).max(1);
            let a: usize = fac.iter().map(|f| cdiv(w, hm * 8) * f.0 * cdiv(h, vm * 8) * f.1).sum();
            best = best.max(a * 64).max(w * h * fac.len());
            blocks = blocks.max(a);
        }
        i += 1;
    }
    (best, blocks)
}

pub const MEM_CONST: f64 = 400_000.0;
pub const MEM_AREA: f64 = 16.0;
pub const MEM_BYTES: f64 = 16.0;

fn warm_up() {
    // pools and thread-locals are set up once
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let mut rng = Rng::new(1);
        for w in [20, 200, 200] {
            let mut f = gen::frame_with(&mut rng, w, 16, &[1, 2, 3], &[(2, 2), (1, 1), (1, 1)]);
            gen::fill_encoder(&mut rng, &mut f);
            let b = enc::encode(&f, &enc::Opts::canonical(&f)).bytes();
            let _ = mon::decode(&b);
        }
        mon::wait_threads(1 + if cfg!(feature = "rayon") { 64 } else { 0 }, 2000);
        std::thread::sleep(std::time::Duration::from_millis(20));
    });
}

pub fn c16(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    warm_up();
    let kind = rng.below(10);
    let (b, what);
    let mut no_scan = false;
    match kind {
        0..=3 => {
            let max = if rng.chance(1, 20) { 4_000_000 } else { 200_000 };
            b = mutate::hostile(cx, rng, max);
            what = "hostile stream";
        }
        4 | 5 => {
            b = mutate::valid(rng, 400).bytes();
            what = "valid picture";
        }
        6 => {
            // large declared dimensions, no scan
            let n = gen::ncomp(rng);
            let (w, h) = (rng.range(1000, 65535), rng.range(1000, 65535));
            let ids = gen::ids(rng, n);
            let mut segs = vec![Seg::new(Kind::Soi, vec![0xFF, 0xD8])];
            let q = gen::qtable(rng);
            segs.push(Seg::seg(Kind::Dqt, 0xDB, &enc::dqt_body(0, &q, false)));
            let m = *rng.pick(&[0xC0u8, 0xC1, 0xC2, 0xC3]);
            let mut body = vec![8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, n as u8];
            for id in &ids {
                body.extend_from_slice(&[*id, 0x11, 0]);
            }
            segs.push(Seg::seg(Kind::Sof, m, &body));
            segs.push(Seg::new(Kind::Eoi, vec![0xFF, 0xD9]));
            b = Stream(segs).bytes();
            no_scan = true;
            what = "no scan";
        }
        7 => {
            let (x, k) = mutate::flood(rng, 20_000);
            b = x;
            cx.count(format!("flood of {k}"));
            what = "flood of segments";
        }
        8 => {
            // many scans over the same picture
            let n = gen::ncomp(rng);
            let mut f = gen::frame(rng, n, 300);
            gen::fill_noise_small(rng, &mut f);
            let o = gen::opts_for(rng, &f, Proc::Progressive);
            let mut s = enc::encode(&f, &o);
            let sos = s.find(Kind::Sos);
            let (a, e) = (*rng.pick(&sos), s.0.len() - 1);
            let end = (a + 2).min(e);
            let part: Vec<Seg> = s.0[a..end].to_vec();
            for _ in 0..rng.range(10, 60) {
                for p in part.iter().rev() {
                    s.insert(end, p.clone());
                }
            }
            b = s.bytes();
            what = "repeated scans";
        }
        _ => {
            let n = gen::ncomp(rng);
            b = lossless::random(rng, n, 60_000).encode().bytes();
            what = "lossless";
        }
    }
    let calls = if rng.flip() { vec![Call::Decode] } else { history(rng) };
    let threads0 = mon::threads();
    let base = mon::mem_mark();
    let mut r = MonReader::new(&b);
    let mut dec = Decoder::new(&mut r);
    // only the peak matters here: results are dropped as they come
    let res = perform(&mut dec, &calls);
    let peak = mon::mem_peak() - base;
    drop(dec);
    cx.eval();
    let Ok(out) = res else {
        cx.count("panicked");
        return Ok(());
    };
    drop(out);
    let (area, _) = declared(&b);
    let read = r.pos as f64;
    let area_term = if no_scan { 0.0 } else { MEM_AREA * area as f64 };
    let bound = MEM_CONST + area_term + MEM_BYTES * read;
    let p = peak as f64;
    if area > 20_000 && !no_scan {
        cx.max("peak bytes per padded sample", (p - MEM_BYTES * read).max(0.0) / area as f64);
    }
    if no_scan || area < 1000 {
        cx.max("peak bytes without a usable frame", p);
    }
    if p > bound {
        return fail(
            format!("peak {peak} bytes for {area} padded samples and {read} bytes read (bound {bound:.0}); {what}; {calls:?}"),
            &b,
        );
    }
    // everything is given back
    if !cfg!(feature = "rayon") {
        mon::wait_threads(threads0, 3000);
    }
    let mut left = mon::mem_cur() - base;
    let t = std::time::Instant::now();
    while left > 65536 && t.elapsed().as_millis() < 3000 {
        std::thread::sleep(std::time::Duration::from_millis(1));
        left = mon::mem_cur() - base;
    }
    cx.max("bytes kept after the decoder is dropped", left as f64);
    if left > 65536 {
        return fail(format!("{left} bytes are still allocated after the decoder is gone; {what}; {calls:?}"), &b);
    }
    // nor does a little stay behind each time
    if rng.chance(1, 25) && area < 60_000 && b.len() < 60_000 {
        let settle = || {
            if !cfg!(feature = "rayon") {
                mon::wait_threads(threads0, 3000);
            }
            mon::mem_cur()
        };
        let level = settle();
        let n = 50;
        for _ in 0..n {
            let mut r = MonReader::new(&b);
            let mut dec = Decoder::new(&mut r);
            let _ = perform(&mut dec, &calls);
        }
        let t = std::time::Instant::now();
        let mut grown = settle() - level;
        while grown > 50_000 && t.elapsed().as_millis() < 2000 {
            std::thread::sleep(std::time::Duration::from_millis(1));
            grown = settle() - level;
        }
        cx.max("bytes kept by fifty decodes of one stream", grown as f64);
        cx.add("decodes repeated to see whether memory grows", n);
        if grown > 50_000 {
            return fail(format!("{grown} bytes more are allocated after {n} further decodes of the same stream; {what}; {calls:?}"), &b);
        }
    }
    cx.count(what);
    cx.add("bytes read", r.pos as u64);
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{what}: {} bytes, {area} padded samples, peak {peak}", b.len()));
    Ok(())
}

fn cpu_now() -> f64 {
    let mut t = [0i64; 2];
    extern "C" {
        fn clock_gettime(c: i32, t: *mut i64) -> i32;
    }
    unsafe { clock_gettime(2, t.as_mut_ptr()) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

pub fn c17(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut b = match if rng.chance(1, 80) { 9 } else { rng.below(9) } {
        9 => {
            // work that grows with the square of a side shows here
            cx.count("long or large picture");
            let n = gen::ncomp(rng);
            if rng.chance(1, 3) {
                lossless::random(rng, n, 200_000).encode().bytes()
            } else {
                let mut f = if rng.chance(1, 4) { gen::desert(rng, n) } else { super::image::gen_extreme(rng, n) };
                if rng.flip() {
                    f.comps.iter_mut().for_each(|c| c.coefs[0][1] = 3);
                }
                let p = *rng.pick(&[Proc::Baseline, Proc::Progressive]);
                let mut o = gen::opts_for(rng, &f, p);
                o.scans.truncate(8);
                enc::encode(&f, &o).bytes()
            }
        }
        0 | 1 => mutate::valid(rng, 200).bytes(),
        3 => {
            let (x, k) = mutate::flood(rng, 5000);
            cx.count(format!("flood of {k}"));
            x
        }
        2 => {
            // lots of scans without data
            let n = gen::ncomp(rng);
            let mut f = gen::frame(rng, n, 100);
            gen::fill_noise_small(rng, &mut f);
            let o = gen::opts_for(rng, &f, Proc::Progressive);
            let mut s = enc::encode(&f, &o);
            let sos = s.find(Kind::Sos);
            let k = *rng.pick(&sos);
            let part = s.0[k].clone();
            for _ in 0..rng.range(1, 200) {
                s.insert(k, part.clone());
            }
            s.bytes()
        }
        _ => {
            let max = if rng.chance(1, 30) { 4_000_000 } else { 100_000 };
            mutate::hostile(cx, rng, max)
        }
    };
    match rng.below(5) {
        0 => {
            let k = rng.below(b.len() + 1);
            b.truncate(k)
        }
        1 => {
            // an endless tail of one byte, or of a pattern
            let n = rng.range(1, 3000);
            let p = rng.byte();
            let q = if rng.flip() { p } else { 0xFF };
            b.extend((0..n).map(|i| if i % 2 == 0 { p } else { q }));
        }
        _ => {}
    }
    let calls = history(rng);
    let mut r = MonReader::new(&b);
    r.chunk = if rng.chance(1, 3) { Chunk::One } else { Chunk::All };
    let chunk = r.chunk.clone();
    if rng.chance(1, 4) {
        // a reader that keeps failing
        r.fault = Some((rng.range(0, b.len()), *rng.pick(&KINDS), false));
        cx.count("reader that keeps failing");
    }
    let fault = r.fault;
    let ncalls = calls.len() as u64;
    let bound = 4 * b.len() as u64 + 64 * ncalls;
    r.budget = 2 * bound + 1000;
    let scans = b.windows(2).filter(|w| w == &[0xFF, 0xDA]).count();
    let (_, blocks) = declared(&b);
    let t0 = cpu_now();
    let run = {
        let mut dec = Decoder::new(&mut r);
        run_in(rng, cx, &mut dec, &calls)
    };
    let cpu = cpu_now() - t0;
    cx.eval();
    cx.max("reads that failed, per call", r.fault_reads as f64 / ncalls as f64);
    if r.reads > bound {
        return fail(format!("{} reads for {} bytes; fault {fault:?}; {calls:?}", r.reads, b.len()), &b);
    }
    if r.fault_reads > 16 * ncalls {
        return fail(format!("{} reads although the reader fails; fault {fault:?}; {calls:?}", r.fault_reads), &b);
    }
    let Ok(out) = run else {
        cx.count("panicked");
        return Ok(());
    };
    cx.max("reads per byte", r.reads as f64 / (b.len() as f64 + 16.0 * ncalls as f64));
    cx.max("reads at the end of data per call", r.zero_reads as f64 / ncalls as f64);
    if r.zero_reads > 16 * ncalls {
        return fail(format!("{} reads at the end of the data; {calls:?}", r.zero_reads), &b);
    }
    // per-block work, with a wide margin (process CPU time, one case at a time; several times when it was long)
    let limit = 0.1 + 6e-6 * (blocks as f64 * (scans + 1) as f64 * ncalls as f64 + b.len() as f64);
    let mut cpu = cpu;
    for _ in 0..3 {
        if cpu <= limit {
            break;
        }
        cx.count("timed again");
        let mut r = MonReader::new(&b);
        r.chunk = chunk.clone();
        r.fault = fault;
        let mut dec = Decoder::new(&mut r);
        let t = cpu_now();
        let _ = perform(&mut dec, &calls);
        drop(dec);
        cpu = cpu.min(cpu_now() - t);
    }
    let per = cpu / (20e-3 + (blocks as f64 * (scans + 1) as f64 * ncalls as f64 + b.len() as f64) * 1e-6);
    cx.max("CPU microseconds per block, scan and byte", per);
    if cpu > limit {
        return fail(format!("{cpu:.1} s of CPU for {blocks} blocks, {scans} scan headers and {} bytes; {calls:?}", b.len()), &b);
    }
    tally(cx, &calls, &out);
    cx.add("reads observed", r.reads);
    let mut h = hash(&b);
    for c in &out {
        h = mix(h ^ hash(c.as_bytes()));
    }
    cx.nontrivial(h);
    cx.sample(|| format!("{} bytes, {} reads, {} at the end, {cpu:.4} s CPU, {calls:?}", b.len(), r.reads, r.zero_reads));
    Ok(())
}

#[cfg(feature = "rayon")]
pub fn pool(n: usize) -> &'static rayon::ThreadPool {
    use std::sync::{Mutex, OnceLock};
    static POOLS: OnceLock<Mutex<std::collections::BTreeMap<usize, &'static rayon::ThreadPool>>> = OnceLock::new();
    let mut m = POOLS.get_or_init(|| Mutex::new(Default::default())).lock().unwrap();
    m.entry(n).or_insert_with(|| {
        Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")))
    })
}

/// Perform the calls on this thread or from inside pools of several sizes.
fn run_in<R: std::io::Read + Send>(rng: &mut Rng, cx: &mut Cx, dec: &mut Decoder<R>, calls: &[Call]) -> Result<Vec<String>, String> {
    #[cfg(feature = "rayon")]
    {
        let n = *rng.pick(&[0usize, 0, 1, 1, 2, 3, 8]);
        if n > 0 {
            cx.count(format!("inside a pool of {n}"));
            let p = pool(n);
            return p.install(|| perform(dec, calls));
        }
    }
    let _ = (rng, cx);
    perform(dec, calls)
}

/// What the caller can observe of one decode.
#[derive(Clone, Debug, PartialEq)]
struct View {
    out: String,
    pixels: Vec<u8>,
    info: Option<ImageInfo>,
    exif: Option<Vec<u8>>,
    xmp: Option<Vec<u8>>,
    icc: Option<Vec<u8>>,
}

pub fn c20(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut s = mutate::valid(rng, 60);
    for _ in 0..2 {
        mutate::decorate(rng, &mut s);
    }
    let tail = rng.below(30);
    let sof_end = s.sof_end();
    let mut b = s.bytes();
    let end = b.len();
    b.extend(rng.bytes(tail));
    // calls before the decode, then the decode, then queries
    let over = rng.chance(1, 4);
    let mut calls = vec![];
    for _ in 0..rng.below(7) {
        calls.push(match rng.below(6) {
            0 => Call::Info,
            1 => Call::Meta,
            2 => Call::ReadInfo,
            3 if over => Call::Transform(*rng.pick(&TRANSFORMS)),
            _ => Call::Scale(size(rng), size(rng)),
        });
    }
    let transform = calls.iter().rev().find_map(|c| if let Call::Transform(t) = c { Some(*t) } else { None });
    let last = calls.iter().rev().find_map(|c| if let Call::Scale(w, h) = c { Some((*w, *h)) } else { None });
    // the reference: a decoder that is only asked once
    let d = mon::decode_from(&b[..], &Req { scale: last, transform, ..Default::default() });
    let want = View {
        out: d.out.class(),
        pixels: if let Out::Ok(p) = &d.out { p.clone() } else { vec![] },
        info: d.info,
        exif: d.exif,
        xmp: d.xmp,
        icc: d.icc,
    };
    if want.out == "panic" {
        cx.count("panicked");
        return Ok(());
    }
    let full = mon::decode_from(&b[..], &Req::default()).info;
    let mut r = MonReader::new(&b);
    if rng.flip() {
        r.chunk = Chunk::One
    }
    let shared = r.shared.clone();
    let pos = || shared.load(std::sync::atomic::Ordering::Relaxed);
    let mut dec = Decoder::new(&mut r);
    // a second decoder on other data, used in between
    let other = match rng.below(4) {
        0 => mutate::hostile(cx, rng, 20_000),
        1 => crate::checks::rules::unacceptable(rng).bytes(),
        _ => mutate::valid(rng, 30).bytes(),
    };
    let other_ref = mon::decode(&other).out;
    // and one that is in the middle of its own calls all the while
    let third = mutate::valid(rng, 30).bytes();
    let third_ref = mon::decode(&third).out;
    let mut slow = Decoder::new(&third[..]);
    let (begins, ends) = (rng.below(calls.len() + 1), rng.below(calls.len() + 1));
    let what = format!("{calls:?}");
    let mut known: Option<ImageInfo> = None;
    cx.eval();
    let run = mon::guard(|| -> Result<View, String> {
        if dec.info().is_some() {
            return Err("image information before anything was read".into());
        }
        for (i, c) in calls.iter().enumerate() {
            if i == begins {
                slow.read_info().map_err(|e| format!("read_info of a decoder used in between: {e}"))?;
            }
            if i == ends {
                let o = Out::of(slow.decode());
                if !o.same(&third_ref) {
                    return Err(format!("a decoder used in between gave {} instead of {}", o.short(), third_ref.short()));
                }
                slow = Decoder::new(&third[..]);
            }
            if rng.chance(1, 4) {
                let o = mon::decode(&other).out;
                if !o.same(&other_ref) {
                    return Err(format!("another decoder gave {} instead of {}", o.short(), other_ref.short()));
                }
            }
            let before = pos();
            match c {
                Call::Info => {
                    if dec.info() != known {
                        return Err(format!("info() gave {:?}, expected {known:?}", dec.info()));
                    }
                    if pos() != before {
                        return Err("info() consumed input".into());
                    }
                }
                Call::Meta => {
                    let _ = (dec.exif_data(), dec.xmp_data(), dec.icc_profile());
                    if pos() != before {
                        return Err("a metadata query consumed input".into());
                    }
                }
                Call::ReadInfo => {
                    dec.read_info().map_err(|e| format!("read_info: {e}"))?;
                    if known.is_some() && pos() != before {
                        return Err(format!("a second read_info took {} bytes", pos() - before));
                    }
                    if pos() != sof_end {
                        return Err(format!("read_info stopped at {} instead of {sof_end}", pos()));
                    }
                    if known.is_none() {
                        known = dec.info();
                        if known.is_none() || known != full {
                            return Err(format!("info after read_info is {known:?}, after decoding {full:?}"));
                        }
                    } else if dec.info() != known {
                        return Err("read_info changed the image information".into());
                    }
                }
                Call::Scale(w, h) => {
                    let (x, y) = dec.scale(*w, *h).map_err(|e| format!("scale: {e}"))?;
                    if known.is_some() && pos() != before {
                        return Err("scale read more input after metadata had been read".into());
                    }
                    known = dec.info();
                    match known {
                        Some(i) if (i.width, i.height) == (x, y) => {
                            let f = full.unwrap();
                            if i.pixel_format != f.pixel_format || i.coding_process != f.coding_process {
                                return Err("scaling changed format or process".into());
                            }
                        }
                        k => return Err(format!("scale returned {x}x{y}, info says {k:?}")),
                    }
                }
                Call::Transform(t) => {
                    dec.set_color_transform(*t);
                    if pos() != before || dec.info() != known {
                        return Err("an override consumed input or changed the image information".into());
                    }
                }
                _ => unreachable!(),
            }
        }
        let o = Out::of(dec.decode());
        if begins == calls.len() || ends == calls.len() {
            // begun before, or not at all
            let o = Out::of(slow.decode());
            if !o.same(&third_ref) {
                return Err(format!("a decoder used in between gave {} instead of {}", o.short(), third_ref.short()));
            }
        }
        let v = View {
            out: o.class(),
            pixels: if let Out::Ok(p) = o { p } else { vec![] },
            info: dec.info(),
            exif: dec.exif_data().map(|x| x.to_vec()),
            xmp: dec.xmp_data().map(|x| x.to_vec()),
            icc: dec.icc_profile(),
        };
        if v.out == "ok" && pos() != end {
            return Err(format!("decode stopped at {} instead of {end}", pos()));
        }
        // queries afterwards
        let p = pos();
        dec.read_info().map_err(|e| format!("read_info after decode: {e}"))?;
        if pos() != p {
            return Err("read_info after decode took input".into());
        }
        if dec.info() != v.info {
            return Err("read_info after decode changed the information".into());
        }
        Ok(v)
    });
    let v = match run {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return fail(format!("{e}; {what}"), &b),
        Err(p) => return fail(format!("panic {p}; {what}"), &b),
    };
    if v != want {
        let mut why = String::new();
        if v.out != want.out {
            why = format!("outcome {} instead of {}", v.out, want.out)
        } else if v.pixels != want.pixels {
            why = "pixels differ".into()
        } else if v.info != want.info {
            why = format!("info {:?} instead of {:?}", v.info, want.info)
        } else if why.is_empty() {
            why = "metadata differ".into()
        }
        return fail(format!("{why} from decoding directly; {what}"), &b);
    }
    cx.count(format!("outcome:{}", v.out.split(' ').next().unwrap()));
    cx.add("calls", calls.len() as u64 + 2);
    cx.nontrivial(hash(&b) ^ hash(what.as_bytes()));
    cx.sample(|| what);
    Ok(())
}
