//! C03 to C09: what valid images decode to.
use crate::enc::{self, Opts};
use crate::gen;
use crate::lossless;
use crate::model::*;
use crate::mon::{self, Out, Req};
use crate::peer::TRANSFORMS;
use crate::refs::{self, Up};
use crate::rng::{hash, Rng};
use crate::{fail, Cx, Fail};
use jpeg_decoder::{CodingProcess, ColorTransform, PixelFormat, UnsupportedFeature};

/// Largest distance (levels) of the 8x8 inverse transform from the ideal one, before rounding to an integer.
pub const SIMD: bool = !cfg!(feature = "portable");

pub fn describe(f: &Frame, o: &Opts) -> String {
    format!(
        "{:?} {}x{} {} comps [{}] {} scans{} style {:?}",
        o.proc_,
        f.w,
        f.h,
        f.comps.len(),
        f.comps.iter().map(|c| format!("{}x{}", c.h, c.v)).collect::<Vec<_>>().join(" "),
        o.scans.len(),
        if o.scans.iter().any(|s| s.restart > 0) { " restarts" } else { "" },
        o.style
    )
}

pub fn note(cx: &mut Cx, f: &Frame, o: &Opts) {
    cx.count(format!("process:{:?}", o.proc_));
    cx.count(format!("components:{}", f.comps.len()));
    if o.scans.iter().any(|s| s.restart > 0) {
        cx.count("with restarts");
    }
    if o.scans.iter().any(|s| s.comps.len() > 1) && f.comps.len() > 1 {
        cx.count("interleaved");
    }
    if f.w > 128 {
        cx.count("parallel path (width > 128)");
    }
    cx.add("scans", o.scans.len() as u64);
    cx.add("blocks", f.blocks() as u64);
}

/// Component planes as the decoder itself reconstructs them one by one.
pub fn planes(f: &Frame, scale: Option<(u16, u16)>) -> Result<Vec<(usize, usize, Vec<u8>)>, String> {
    (0..f.comps.len())
        .map(|i| {
            let g = f.extract(i);
            let b = enc::encode(&g, &Opts::canonical(&g)).bytes();
            let d = mon::decode_from(&b[..], &Req { scale, ..Default::default() });
            let p = d.pixels()?.to_vec();
            let info = d.info.ok_or("no info")?;
            let (w, h) = (info.width as usize, info.height as usize);
            if p.len() != w * h {
                return Err(format!("component plane of {} bytes for {}x{}", p.len(), w, h));
            }
            Ok((w, h, p))
        })
        .collect()
}

pub fn c03(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let lossless = rng.chance(1, 3);
    let scale = if rng.chance(1, 2) {
        Some((rng.range(0, 200) as u16, if rng.chance(1, 4) { rng.byte() as u16 * 257 } else { rng.range(0, 200) as u16 }))
    } else {
        None
    };
    let info_first = rng.flip();
    let (bytes, w, h, fmt, proc_, bpp, precision);
    if lossless {
        let m = lossless::random(rng, n, 6000);
        bytes = m.encode().bytes();
        (w, h, precision) = (m.w, m.h, m.precision);
        proc_ = CodingProcess::Lossless;
        cx.count("process:Lossless");
        cx.count(format!("lossless precision:{precision}"));
    } else {
        let mut f = match rng.below(800) {
            0 => gen::desert(rng, n),
            1..=20 => gen_extreme(rng, n),
            21..=40 => gen::frame(rng, n, 4000),
            _ => gen::frame(rng, n, 120),
        };
        gen::fill_noise_small(rng, &mut f);
        let o = gen::opts(rng, &f);
        note(cx, &f, &o);
        bytes = enc::encode(&f, &o).bytes();
        (w, h, precision) = (f.w, f.h, 8);
        proc_ = if o.proc_ == Proc::Progressive { CodingProcess::DctProgressive } else { CodingProcess::DctSequential };
    }
    fmt = match n {
        1 if precision <= 8 => PixelFormat::L8,
        1 => PixelFormat::L16,
        3 => PixelFormat::RGB24,
        _ => PixelFormat::CMYK32,
    };
    bpp = fmt.pixel_bytes();
    let want_bpp = match (n, precision) {
        (1, 0..=8) => 1,
        (1, _) => 2,
        (n, _) => n,
    };
    if bpp != want_bpp {
        return fail(format!("pixel_bytes of {fmt:?} is {bpp}"), &bytes);
    }
    let d = mon::decode_from(&bytes[..], &Req { scale, info_first, ..Default::default() });
    cx.eval();
    let px = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(e, &bytes),
    };
    let Some(i) = d.info else { return fail("no info after a successful decode", &bytes) };
    let (mut ew, mut eh) = (w, h);
    if let Some((sw, sh)) = d.scaled {
        cx.count("with scale request");
        (ew, eh) = (sw as usize, sh as usize);
        let ok = [1, 2, 4, 8].iter().any(|s| ew == cdiv(w * s, 8) && eh == cdiv(h * s, 8));
        if !ok {
            return fail(format!("scale({scale:?}) of {w}x{h} reports {ew}x{eh}"), &bytes);
        }
    }
    if (i.width as usize, i.height as usize) != (ew, eh) {
        return fail(format!("info says {}x{}, expected {ew}x{eh}", i.width, i.height), &bytes);
    }
    if i.pixel_format != fmt || i.coding_process != proc_ {
        return fail(format!("info says {:?} {:?}, expected {fmt:?} {proc_:?}", i.pixel_format, i.coding_process), &bytes);
    }
    if px.len() != ew * eh * bpp {
        let m = format!("{} bytes for {ew}x{eh} {fmt:?} (precision {precision}, {proc_:?})", px.len());
        if lossless && n > 1 && precision > 8 && px.len() == 2 * ew * eh * bpp {
            if cx.is_known("lossless-multicomponent-over-8-bit", &m) {
                return Ok(());
            }
        }
        return fail(m, &bytes);
    }
    cx.nontrivial(hash(&bytes));
    cx.sample(|| format!("{proc_:?} {w}x{h} n={n} P={precision} scale={scale:?} -> {} bytes", px.len()));
    Ok(())
}

/// One side of any length up to the 16-bit limit, the other small.
pub fn gen_extreme(rng: &mut Rng, n: usize) -> Frame {
    let id = gen::ids(rng, n);
    let fac = gen::factors(rng, n);
    let big = gen::long_side(rng);
    let small = rng.range(1, (40_000 / big).clamp(3, 24));
    let (w, h) = if rng.flip() { (big, small) } else { (small, big) };
    gen::frame_with(rng, w, h, &id, &fac)
}

/// Of the colour conversion (measured over all colours: 0.52).
pub const COLOUR_TOL: f64 = 0.75;

/// |pixel - ideal| allowed: half a level for rounding plus the stated error.
pub fn idct_tol() -> f64 {
    if SIMD {
        1.25
    } else {
        1.0
    }
}

pub fn c04(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut f = match rng.below(300) {
        0 => gen_extreme(rng, 1),
        1..=15 => gen::frame(rng, 1, 1500),
        _ => gen::frame(rng, 1, 60),
    };
    gen::fill_encoder(rng, &mut f);
    let o = gen::opts(rng, &f);
    let bytes = enc::encode(&f, &o).bytes();
    let d = mon::decode(&bytes);
    cx.eval();
    note(cx, &f, &o);
    let px = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; {}", describe(&f, &o)), &bytes),
    };
    let (w, h, ideal) = refs::plane(&f, 0, 8);
    if px.len() != w * h {
        return fail(format!("{} samples instead of {}", px.len(), w * h), &bytes);
    }
    let mut worst = 0.0f64;
    for i in 0..w * h {
        let e = refs::off(px[i], ideal[i]);
        if e > worst {
            worst = e;
        }
        if e > idct_tol() {
            return fail(
                format!("sample ({}, {}) is {} where the ideal value is {:.3}; {}", i % w, i / w, px[i], ideal[i], describe(&f, &o)),
                &bytes,
            );
        }
    }
    cx.max("largest distance from the ideal sample", worst);
    cx.add("samples compared", (w * h) as u64);
    cx.nontrivial(hash(&bytes));
    cx.sample(|| format!("{}: largest distance {worst:.3}", describe(&f, &o)));
    Ok(())
}

pub fn c05(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let max = if rng.chance(1, 30) { 3000 } else { 150 };
    let mut f = gen::frame(rng, n, max);
    if rng.chance(1, 200) {
        f = gen_extreme(rng, n);
    }
    let desert = rng.chance(1, 250);
    if desert {
        f = gen::desert(rng, n);
        cx.count("more than 16000 blocks");
    } else if rng.chance(1, 4) {
        gen::fill_encoder(rng, &mut f)
    } else {
        gen::fill_any(rng, &mut f)
    }
    let canon = enc::encode(&f, &Opts::canonical(&f)).bytes();
    let a = mon::decode(&canon);
    let pa = match a.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("canonical coding: {e}; {}", describe(&f, &Opts::canonical(&f))), &canon),
    };
    cx.eval();
    for k in 0..2 {
        let mut o = gen::opts(rng, &f);
        if desert {
            o = gen::opts_for(rng, &f, if k == 0 { Proc::Progressive } else { o.proc_ });
            o.max_eobrun = 0x7FFF;
            if o.proc_ == Proc::Progressive {
                // one scan with as long a run as possible
                o.scans.iter_mut().for_each(|s| if rng.flip() { s.restart = 0 });
            }
        }
        let bytes = enc::encode(&f, &o).bytes();
        let d = mon::decode(&bytes);
        cx.eval();
        note(cx, &f, &o);
        let p = match d.pixels() {
            Ok(p) => p,
            Err(e) => return fail(format!("{e}; {}", describe(&f, &o)), &bytes),
        };
        if p != pa {
            let k = p.iter().zip(pa).position(|(x, y)| x != y).unwrap_or(p.len().min(pa.len()));
            return fail(
                format!("byte {k} of {} differs from the canonical coding's; {}; scans {:?}", pa.len(), describe(&f, &o), o.scans),
                &bytes,
            );
        }
        for s in &o.scans {
            if o.proc_ == Proc::Progressive {
                let c = match (s.ss, s.ah) {
                    (0, 0) => "scan:dc first",
                    (0, _) => "scan:dc refine",
                    (_, 0) => "scan:ac first",
                    _ => "scan:ac refine",
                };
                cx.count(c);
            }
        }
        cx.nontrivial(hash(&bytes));
        cx.sample(|| describe(&f, &o));
    }
    Ok(())
}

pub fn c06(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let max = if rng.chance(1, 300) { 200_000 } else if rng.chance(1, 20) { 40000 } else { 3000 };
    let mut m = lossless::random(rng, n, max);
    if n == 1 && rng.chance(1, 6) {
        // sampling factors mean nothing for a single component
        m.fac = (rng.range(1, 4), rng.range(1, 4));
    }
    let bytes = m.encode().bytes();
    let d = mon::decode(&bytes);
    cx.eval();
    let what = format!("{}x{} P={} n={n} scans {:?}", m.w, m.h, m.precision, m.scans);
    let p = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; {what}"), &bytes),
    };
    let want = m.expected();
    if p.len() != want.len() {
        return fail(format!("{} bytes instead of {}; {what}", p.len(), want.len()), &bytes);
    }
    if p != &want[..] {
        let k = p.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        return fail(format!("byte {k} is {} instead of {}; {what}", p[k], want[k]), &bytes);
    }
    for s in &m.scans {
        cx.count(format!("predictor:{}", s.sel));
        if s.pt > 0 {
            cx.count("with point transform");
        }
        if s.rows > 0 && s.rows < m.h {
            cx.count("with restarts");
        }
    }
    cx.count(format!("precision:{}", m.precision));
    cx.count(format!("components:{n} scans:{}", m.scans.len()));
    cx.add("samples compared", (m.w * m.h * n) as u64);
    cx.nontrivial(hash(&bytes));
    cx.sample(|| what);
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model {
    Rgb,
    Ycc,
    Cmyk,
    Ycck,
    None,
    BgYcc,
    BgRgb,
    Misfit,
    /// the documentation does not say
    Unspecified,
}

/// The documented decision: override, identifiers, JFIF, Adobe.
pub fn model(ids: &[u8], jfif: bool, adobe: Option<u8>, over: Option<ColorTransform>) -> Model {
    let n = ids.len();
    if let Some(t) = over {
        return match (t, n) {
            (ColorTransform::None, _) => Model::None,
            (ColorTransform::RGB, 3) => Model::Rgb,
            (ColorTransform::YCbCr, 3) => Model::Ycc,
            (ColorTransform::CMYK, 4) => Model::Cmyk,
            (ColorTransform::YCCK, 4) => Model::Ycck,
            (ColorTransform::JcsBgYcc, _) => Model::BgYcc,
            (ColorTransform::JcsBgRgb, _) => Model::BgRgb,
            _ => Model::Misfit,
        };
    }
    if n == 3 {
        match (ids[0], ids[1], ids[2]) {
            (1, 2, 3) => return Model::Ycc,
            (1, 34, 35) => return Model::BgYcc,
            (82, 71, 66) => return Model::Rgb,
            (114, 103, 98) => return Model::BgRgb,
            _ => {}
        }
        if jfif {
            return Model::Ycc;
        }
        match adobe {
            None | Some(1) => Model::Ycc,
            Some(0) => Model::Rgb,
            _ => Model::Unspecified,
        }
    } else {
        match adobe {
            None | Some(0) => Model::Cmyk,
            Some(2) => Model::Ycck,
            _ => Model::Unspecified,
        }
    }
}

/// Ideal output (real values) of full-resolution component planes.
pub fn convert(m: Model, p: &[Vec<f64>], i: usize, out: &mut Vec<f64>) {
    match m {
        Model::Rgb | Model::None => out.extend(p.iter().map(|c| c[i])),
        Model::Ycc => out.extend(refs::ycc(p[0][i], p[1][i], p[2][i])),
        Model::Cmyk => out.extend(p.iter().map(|c| 255.0 - c[i])),
        Model::Ycck => {
            out.extend(refs::ycc(p[0][i], p[1][i], p[2][i]));
            out.push(255.0 - p[3][i]);
        }
        _ => unreachable!(),
    }
}

pub fn jfif_seg(rng: &mut Rng) -> Seg {
    let mut b = b"JFIF\0".to_vec();
    b.extend_from_slice(&[1, rng.below(3) as u8, rng.below(3) as u8, 0, 72, 0, 72, 0, 0]);
    Seg::app(0, &b)
}
pub fn adobe_seg(rng: &mut Rng, t: u8) -> Seg {
    let mut b = b"Adobe\0".to_vec();
    b.extend_from_slice(&[100, rng.byte(), rng.byte(), rng.byte(), rng.byte(), t]);
    if rng.chance(1, 4) {
        let n = rng.range(1, 20);
        b.extend(rng.bytes(n));
    }
    Seg::app(14, &b)
}

/// The segment, perhaps longer than it need be: a JFIF thumbnail, private data behind Adobe's.
fn lengthen(rng: &mut Rng, seg: Seg, jfif: bool) -> Seg {
    if !rng.chance(1, 4) {
        return seg;
    }
    let mut b = seg.data[4..16].to_vec();
    let n = if jfif {
        let (w, h) = if rng.chance(1, 4) { (147, 147) } else { (rng.range(1, 40), rng.range(1, 40)) };
        b.extend_from_slice(&[w as u8, h as u8]);
        3 * w * h
    } else if rng.chance(1, 4) {
        65_533 - b.len()
    } else {
        (20f64 * (3000f64).powf(rng.range(0, 1000) as f64 / 1000.0)) as usize
    };
    b.extend(rng.bytes(n));
    Seg::app(if jfif { 0 } else { 14 }, &b)
}

/// Every (Cb, Cr) at one Y, one pixel each: pictures of flat blocks, decoded at 1/8.
fn c07_cube(cx: &mut Cx, rng: &mut Rng, y: u8, n: usize) -> Result<(), Fail> {
    // widths of every remainder, so that vector bodies and scalar tails both see pixels
    let bw = rng.range(250, 270);
    let bh = cdiv(65536, bw);
    let ids: Vec<(u8, usize, usize, usize)> = (1..=n as u8).map(|i| (i, 1, 1, 0)).collect();
    let mut f = Frame::new(bw * 8, bh * 8, &ids);
    f.q[0] = Some([8; 64]);
    // a random order of the pairs, so that each meets other neighbours and lanes in other runs
    let (mul, add) = (rng.u64() as u32 | 1, rng.u64() as u32);
    let pair = |i: usize| ((i as u32).wrapping_mul(mul).wrapping_add(add) & 0xFFFF) as usize;
    let val = |i: usize, c: usize| -> u8 {
        let p = pair(i);
        match c {
            0 => y,
            1 => (p >> 8) as u8,
            2 => p as u8,
            _ => (p * 7 >> 3) as u8 ^ y,
        }
    };
    for c in 0..n {
        for (i, b) in f.comps[c].coefs.iter_mut().enumerate() {
            b[0] = val(i, c) as i16 - 128;
        }
    }
    let mut st = enc::encode(&f, &Opts::simple(&f));
    if n == 4 {
        st.insert(1, adobe_seg(rng, 2));
    }
    let bytes = st.bytes();
    let d = mon::decode_from(&bytes[..], &Req { scale: Some((1, 1)), ..Default::default() });
    cx.eval();
    let px = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; all chroma pairs at luminance {y}"), &bytes),
    };
    if px.len() != bw * bh * n {
        return fail(format!("{} bytes for {bw}x{bh}x{n} at 1/8", px.len()), &bytes);
    }
    let mut worst = 0.0f64;
    for i in 0..bw * bh {
        let v = refs::ycc(y as f64, val(i, 1) as f64, val(i, 2) as f64);
        for c in 0..n {
            let ideal = if c == 3 { 255.0 - val(i, 3) as f64 } else { v[c] };
            let e = refs::off(px[i * n + c], ideal);
            worst = worst.max(e);
            if e > if c == 3 { 0.0 } else { COLOUR_TOL } {
                return fail(
                    format!(
                        "({y}, {}, {}) gives channel {c} = {} where {ideal:.3} is ideal, pixel {i} of rows of {bw}, {n} components",
                        val(i, 1),
                        val(i, 2),
                        px[i * n + c]
                    ),
                    &bytes,
                );
            }
        }
    }
    cx.max("largest distance from the ideal conversion", worst);
    cx.add("pixels compared", (bw * bh) as u64);
    cx.add("(Y, Cb, Cr) triples covered exhaustively", 65536);
    cx.nontrivial(hash(&bytes));
    cx.sample(|| format!("all 65536 chroma pairs at luminance {y}, {n} components: largest distance {worst:.3}"));
    Ok(())
}

pub fn c07(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    if cx.index < 512 {
        return c07_cube(cx, rng, cx.index as u8, if cx.index < 256 { 3 } else { 4 });
    }
    let n = *rng.pick(&[3, 3, 4]);
    let ids: Vec<u8> = match rng.below(8) {
        0 if n == 3 => vec![1, 34, 35],
        1 if n == 3 => vec![82, 71, 66],
        2 if n == 3 => vec![114, 103, 98],
        3 => (1..=n as u8).collect(),
        4 => {
            // near misses of the special identifier sets
            let mut v: Vec<u8> = rng.pick(&[[1u8, 2, 3, 4], [82, 71, 66, 65], [1, 34, 35, 36], [114, 103, 98, 97]])[..n].to_vec();
            let k = rng.below(n);
            let o = v[k];
            loop {
                v[k] = rng.byte();
                if v[k] != o && (0..n).all(|j| j == k || v[j] != v[k]) {
                    break;
                }
            }
            if rng.chance(1, 3) {
                v.swap(0, 1)
            }
            v
        }
        _ => gen::ids(rng, n),
    };
    let jfif = rng.chance(1, 3);
    let adobe = if rng.flip() { Some(rng.below(3) as u8) } else { None };
    let over = if rng.chance(1, 3) { Some(*rng.pick(&TRANSFORMS)) } else { None };
    let m = model(&ids, jfif, adobe, over);
    let sub = rng.chance(1, 3);
    let fac = if sub { gen::factors(rng, n) } else { vec![(1, 1); n] };
    let w = match rng.below(6) {
        0 => rng.range(1, 9),
        1 => rng.range(1, 40),
        2 => rng.range(1, 40) * 8,
        3 => 128 + rng.below(10),
        _ => rng.range(1, 120),
    };
    let (mut w, mut h) = (w, rng.range(1, 16));
    if rng.chance(1, 400) {
        (w, h) = (gen::long_side(rng), rng.range(1, 2));
        cx.count("long picture");
    }
    let mut f = gen::frame_with(rng, w, h, &ids, &fac);
    // full sample range: flat blocks of every value, or noise
    let flat = rng.flip();
    for i in 0..n {
        let q = f.q[f.comps[i].tq].unwrap();
        let edge = rng.chance(1, 3);
        for b in &mut f.comps[i].coefs {
            let mut s = gen::sample_block(rng, if flat { 1 } else { 0 });
            if edge {
                for x in &mut s {
                    *x = if rng.flip() { 255.0 } else { 0.0 }
                }
            }
            *b = gen::quantise(&refs::fdct(&s), &q);
        }
    }
    let o = gen::opts(rng, &f);
    let mut st = enc::encode(&f, &o);
    // the marker segments stand anywhere among the headers before the last scan
    let last = *st.find(Kind::Sos).last().unwrap();
    let place = |rng: &mut Rng, st: &Stream| {
        let c: Vec<usize> = (1..=last).filter(|&i| st.0[i].kind != Kind::Ecs).collect();
        *rng.pick(&c)
    };
    if jfif {
        let at = if rng.flip() { 1 } else { place(rng, &st) };
        let s = jfif_seg(rng);
        let s = lengthen(rng, s, true);
        st.insert(at, s);
    }
    if let Some(t) = adobe {
        let at = place(rng, &st);
        let s = adobe_seg(rng, t);
        let s = lengthen(rng, s, false);
        st.insert(at, s);
    }
    if rng.chance(1, 4) {
        // a second APP0 / APP14 that is neither JFIF nor Adobe
        let at = place(rng, &st);
        let s = if rng.flip() { Seg::app(0, b"JFXX\0\x10\0\0") } else { Seg::app(14, b"Adobf\0\0\0\0\0\0\0") };
        st.insert(at, s);
    }
    let bytes = st.bytes();
    let what = format!("ids {ids:?} jfif {jfif} adobe {adobe:?} override {over:?}: {m:?}; {}", describe(&f, &o));
    // an override counts whenever it is made before decoding, and the last one does
    let late = match rng.below(3) {
        _ if over.is_none() => None,
        0 => Some(None),
        1 => Some(Some(*rng.pick(&TRANSFORMS))),
        _ => None,
    };
    let d = mon::decode_from(&bytes[..], &Req { transform: over, late, info_first: rng.flip(), ..Default::default() });
    cx.eval();
    if late.is_some() {
        cx.count("override made late");
    }
    cx.count(format!("model:{m:?}"));
    match m {
        Model::Unspecified => {
            if matches!(d.out, Out::Panic(_)) {
                return fail(format!("{}; {what}", d.out.short()), &bytes);
            }
            return Ok(());
        }
        Model::BgYcc | Model::BgRgb => {
            let t = if m == Model::BgYcc { ColorTransform::JcsBgYcc } else { ColorTransform::JcsBgRgb };
            if d.out != Out::Unsup(UnsupportedFeature::ColorTransform(t)) {
                return fail(format!("big-gamut model: {}; {what}", d.out.short()), &bytes);
            }
            cx.nontrivial(hash(&bytes) ^ hash(what.as_bytes()));
            return Ok(());
        }
        Model::Misfit => {
            if !matches!(d.out, Out::Format(_) | Out::Unsup(_)) {
                return fail(format!("unfit override: {}; {what}", d.out.short()), &bytes);
            }
            cx.nontrivial(hash(&bytes) ^ hash(what.as_bytes()));
            return Ok(());
        }
        _ => {}
    }
    let px = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; {what}"), &bytes),
    };
    if px.len() != w * h * n {
        return fail(format!("{} bytes for {w}x{h}x{n}; {what}", px.len()), &bytes);
    }
    // full-resolution components, exactly as the decoder has them: via an override that only interleaves
    let neutral = if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK };
    let e = mon::decode_from(&bytes[..], &Req { transform: Some(neutral), ..Default::default() });
    let ep = match e.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("with override {neutral:?}: {e}; {what}"), &bytes),
    };
    if !sub {
        // and these must be the component planes themselves
        match planes(&f, None) {
            Err(e) => return fail(format!("component alone: {e}; {what}"), &bytes),
            Ok(pl) => {
                for i in 0..w * h {
                    for c in 0..n {
                        let v = pl[c].2[i];
                        let v = if n == 4 { 255 - v } else { v };
                        if ep[i * n + c] != v {
                            return fail(format!("override {neutral:?}: pixel {i} component {c} is {} instead of {v}; {what}", ep[i * n + c]), &bytes);
                        }
                    }
                }
            }
        }
    }
    let comp: Vec<Vec<f64>> = (0..n)
        .map(|c| (0..w * h).map(|i| if n == 4 { 255.0 - ep[i * n + c] as f64 } else { ep[i * n + c] as f64 }).collect())
        .collect();
    let exact = !matches!(m, Model::Ycc | Model::Ycck);
    let tol = if exact { 0.0 } else { COLOUR_TOL };
    let mut out = Vec::with_capacity(n);
    let mut worst = 0.0f64;
    for i in 0..w * h {
        out.clear();
        convert(m, &comp, i, &mut out);
        for c in 0..n {
            let e = refs::off(px[i * n + c], out[c]);
            worst = worst.max(e);
            if e > tol {
                return fail(
                    format!("pixel ({}, {}) channel {c} is {} where {:.3} is ideal; {what}", i % w, i / w, px[i * n + c], out[c]),
                    &bytes,
                );
            }
        }
    }
    if !exact {
        cx.max("largest distance from the ideal conversion", worst);
    }
    cx.add("pixels compared", (w * h) as u64);
    cx.nontrivial(hash(&bytes) ^ hash(what.as_bytes()));
    cx.sample(|| what);
    Ok(())
}

fn any_factors(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    match rng.below(3) {
        0 => gen::factors(rng, n),
        1 => (0..n).map(|_| (rng.range(1, 4), rng.range(1, 4))).collect(),
        _ => {
            let (a, b) = (rng.range(1, 4), rng.range(1, 4));
            let mut v: Vec<_> = (0..n)
                .map(|_| {
                    let da: Vec<usize> = (1..=a).filter(|d| a % d == 0).collect();
                    let db: Vec<usize> = (1..=b).filter(|d| b % d == 0).collect();
                    (*rng.pick(&da), *rng.pick(&db))
                })
                .collect();
            v[rng.below(n)] = (a, b);
            v
        }
    }
}

/// Compare a multi-component picture in a model that only interleaves with ideally upsampled planes.
pub fn check_upsampled(
    cx: &mut Cx,
    f: &Frame,
    px: &[u8],
    pl: &[(usize, usize, Vec<u8>)],
    ow: usize,
    oh: usize,
    inverted: bool,
    what: &str,
) -> Result<(), String> {
    let n = f.comps.len();
    if px.len() != ow * oh * n {
        return Err(format!("{} bytes for {ow}x{oh}x{n}; {what}", px.len()));
    }
    for (c, co) in f.comps.iter().enumerate() {
        let k = refs::up_kind(co.h, co.v, f.hmax, f.vmax, ow, oh);
        cx.count(format!("filter:{k:?} {}:{}", f.hmax / co.h, f.vmax / co.v));
        let up = refs::upsample(&pl[c].2, pl[c].0, pl[c].1, k, f.hmax / co.h, f.vmax / co.v, ow, oh);
        // copied and replicated samples are exact, the others rounded
        let tol = if matches!(k, Up::Copy | Up::Rep) { 0.0 } else { 0.5 + 1e-6 };
        let mut worst = 0f64;
        for i in 0..ow * oh {
            let v = px[i * n + c] as f64;
            let v = if inverted { 255.0 - v } else { v };
            worst = worst.max((v - up[i]).abs());
            if (v - up[i]).abs() > tol {
                return Err(format!(
                    "component {c} ({k:?}) at ({}, {}) is {v} where {:.3} is ideal; {what}",
                    i % ow,
                    i / ow,
                    up[i]
                ));
            }
        }
        cx.add("samples compared", (ow * oh) as u64);
        cx.max(&format!("largest distance, {k:?}"), worst);
    }
    Ok(())
}

pub fn c08(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = *rng.pick(&[3, 3, 4]);
    let fac = any_factors(rng, n);
    let (mut w, h) = match rng.below(6) {
        0 => (rng.range(1, 4), rng.range(1, 4)),
        1 => (rng.range(129, 200), rng.range(1, 20)),
        _ => (rng.range(1, 70), rng.range(1, 50)),
    };
    if rng.chance(1, 150) {
        w = if rng.flip() { rng.range(60000, 65535) } else { gen::long_side(rng) };
    }
    let h = if w > 1000 { rng.range(1, 2) } else { h };
    let ids: Vec<u8> = if n == 3 && rng.flip() { vec![82, 71, 66] } else { gen::ids(rng, n) };
    let mut f = gen::frame_with(rng, w, h, &ids, &fac);
    let mode = rng.below(3);
    for i in 0..n {
        let q = f.q[f.comps[i].tq].unwrap();
        for b in &mut f.comps[i].coefs {
            *b = gen::quantise(&refs::fdct(&gen::sample_block(rng, [0, 3, 2][mode])), &q);
        }
    }
    let o = gen::opts(rng, &f);
    let bytes = enc::encode(&f, &o).bytes();
    let neutral = if n == 3 { ColorTransform::RGB } else { ColorTransform::CMYK };
    let req = Req { transform: if n == 3 && ids[0] == 82 { None } else { Some(neutral) }, ..Default::default() };
    let d = mon::decode_from(&bytes[..], &req);
    cx.eval();
    let what = describe(&f, &o);
    let unsupported = f.comps.iter().any(|c| refs::up_kind(c.h, c.v, f.hmax, f.vmax, w, h) == Up::No);
    if unsupported {
        cx.count("non-integer ratio");
        if d.out != Out::Unsup(UnsupportedFeature::NonIntegerSubsamplingRatio) {
            return fail(format!("non-integer ratio: {}; {what}", d.out.short()), &bytes);
        }
        cx.nontrivial(hash(&bytes));
        return Ok(());
    }
    let px = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; {what}"), &bytes),
    };
    let pl = match planes(&f, None) {
        Ok(p) => p,
        Err(e) => return fail(format!("component alone: {e}; {what}"), &bytes),
    };
    note(cx, &f, &o);
    if let Err(e) = check_upsampled(cx, &f, px, &pl, w, h, n == 4, &what) {
        return fail(e, &bytes);
    }
    cx.nontrivial(hash(&bytes));
    cx.sample(|| what);
    Ok(())
}

pub fn c09(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    // the documented factor for a request
    fn factor(w: usize, h: usize, rw: usize, rh: usize) -> usize {
        for s in [1, 2, 4] {
            if cdiv(w * s, 8) >= rw || cdiv(h * s, 8) >= rh {
                return s;
            }
        }
        8
    }
    let request = |rng: &mut Rng, w: usize, h: usize| -> (u16, u16) {
        let one = |rng: &mut Rng, l: usize| -> u16 {
            let v = match rng.below(6) {
                0 => rng.range(0, 3) as i64,
                1 => rng.range(0, 65535) as i64,
                _ => cdiv(l * *rng.pick(&[1, 2, 4, 8]), 8) as i64 + rng.irange(-1, 2),
            };
            v.clamp(0, 65535) as u16
        };
        match rng.below(4) {
            0 => (one(rng, w), 65535),
            1 => (65535, one(rng, h)),
            _ => (one(rng, w), one(rng, h)),
        }
    };
    if rng.chance(1, 10) {
        // lossless: full size whatever is asked
        let n = gen::ncomp(rng);
        let mut m = lossless::random(rng, n, 2000);
        if n > 1 {
            let p = rng.range(2, 8) as u8;
            m = lossless::random_with(rng, n, m.w, m.h, p);
        }
        let bytes = m.encode().bytes();
        let r = request(rng, m.w, m.h);
        let d = mon::decode_from(&bytes[..], &Req { scale: Some(r), ..Default::default() });
        cx.eval();
        cx.count("lossless");
        let what = format!("lossless {}x{} P={} scale {r:?}", m.w, m.h, m.precision);
        if d.scaled.map(|s| (s.0 as usize, s.1 as usize)) != Some((m.w, m.h)) {
            return fail(format!("reported {:?}; {what}", d.scaled), &bytes);
        }
        match d.pixels() {
            Ok(p) if p == &m.expected()[..] => {}
            Ok(_) => return fail(format!("samples differ; {what}"), &bytes),
            Err(e) => return fail(format!("{e}; {what}"), &bytes),
        }
        cx.nontrivial(hash(&bytes) ^ r.0 as u64);
        return Ok(());
    }
    let n = gen::ncomp(rng);
    let max = if rng.chance(1, 30) { 1500 } else { 120 };
    let mut f = if rng.chance(1, 200) { gen_extreme(rng, n) } else { gen::frame(rng, n, max) };
    gen::fill_encoder(rng, &mut f);
    let mut reqs = vec![];
    for _ in 0..rng.range(1, 3) {
        let q = request(rng, f.w, f.h);
        reqs.push(q);
    }
    let last = reqs[reqs.len() - 1];
    let chosen = factor(f.w, f.h, last.0 as usize, last.1 as usize);
    if chosen < 8 && rng.flip() {
        // full-range pictures of the reduced size
        gen::fill_low(rng, &mut f, chosen);
        cx.count("reduced-size pictures");
    }
    let o = gen::opts(rng, &f);
    let bytes = enc::encode(&f, &o).bytes();
    let what = format!("requests {reqs:?}; {}", describe(&f, &o));
    let neutral = if n == 4 { ColorTransform::CMYK } else { ColorTransform::RGB };
    let mut dec = jpeg_decoder::Decoder::new(&bytes[..]);
    if n > 1 {
        dec.set_color_transform(neutral);
    }
    let mut s = 8;
    let run = mon::guard(|| {
        for &(rw, rh) in &reqs {
            s = factor(f.w, f.h, rw as usize, rh as usize);
            let want = (cdiv(f.w * s, 8) as u16, cdiv(f.h * s, 8) as u16);
            match dec.scale(rw, rh) {
                Ok(got) if got == want => {}
                Ok(got) => return Err(format!("scale({rw}, {rh}) gave {got:?} instead of {want:?}")),
                Err(e) => return Err(format!("scale({rw}, {rh}): {e}")),
            }
            let i = dec.info().ok_or("no info after scale")?;
            if (i.width, i.height) != want {
                return Err(format!("info says {}x{} after scale, expected {want:?}", i.width, i.height));
            }
        }
        dec.decode().map_err(|e| e.to_string())
    });
    cx.eval();
    let px = match run {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return fail(format!("{e}; {what}"), &bytes),
        Err(p) => return fail(format!("panic {p}; {what}"), &bytes),
    };
    cx.count(format!("factor:{s}/8"));
    note(cx, &f, &o);
    let (ow, oh) = (cdiv(f.w * s, 8), cdiv(f.h * s, 8));
    // planes of the components alone at the same factor, checked against the ideal reduced transform
    let mut pl = vec![];
    for i in 0..n {
        let (w, h, ideal) = refs::plane(&f, i, s);
        let p = if n == 1 {
            px.clone()
        } else {
            let g = f.extract(i);
            let b = enc::encode(&g, &Opts::canonical(&g)).bytes();
            let ask = |s: usize| (cdiv(g.w * s, 8), cdiv(g.h * s, 8));
            // a request that selects factor s for this component's own size, if there is one
            let r = ask(s);
            if factor(g.w, g.h, r.0, r.1) != s {
                // factors coincide for tiny planes: use the ideal transform, rounded
                ideal.iter().map(|x| refs::clamp8(*x).round() as u8).collect()
            } else {
                let d = mon::decode_from(&b[..], &Req { scale: Some((r.0 as u16, r.1 as u16)), ..Default::default() });
                match d.pixels() {
                    Ok(p) => p.to_vec(),
                    Err(e) => return fail(format!("component alone: {e}; {what}"), &b),
                }
            }
        };
        if p.len() != w * h {
            return fail(format!("component {i}: {} samples for {w}x{h}; {what}", p.len()), &bytes);
        }
        let tol = match s {
                8 => idct_tol(),
                4 => 0.9,
                2 => 0.75,
                _ => 1.0,
            };
        for k in 0..w * h {
            let e = refs::off(p[k], ideal[k]);
            if s < 8 {
                cx.max(["", "distance 1/8", "distance 1/4", "", "distance 1/2"][s], e);
            }
            if e > tol {
                return fail(format!("component {i} at ({}, {}) is {} where {:.3} is ideal; factor {s}/8; {what}", k % w, k / w, p[k], ideal[k]), &bytes);
            }
        }
        cx.add("samples compared", (w * h) as u64);
        pl.push((w, h, p));
    }
    if n > 1 {
        let tiny = (0..n).any(|i| {
            let c = &f.comps[i];
            factor(c.cw, c.ch, cdiv(c.cw * s, 8), cdiv(c.ch * s, 8)) != s
        });
        if tiny {
            cx.count("tiny planes (upsampling not compared)");
        } else if let Err(e) = check_upsampled(cx, &f, &px, &pl, ow, oh, n == 4, &what) {
            return fail(e, &bytes);
        }
    }
    cx.nontrivial(hash(&bytes) ^ s as u64);
    cx.sample(|| what);
    Ok(())
}
