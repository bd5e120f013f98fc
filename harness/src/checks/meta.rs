//! C14, C15: metadata and the buffer limit.
use crate::gen;
use crate::lossless;
use crate::model::*;
use crate::mon::{self, Out, Req};
use crate::rng::{hash, Rng};
use crate::{enc, fail, Cx, Fail};

fn payload(rng: &mut Rng, longest: usize) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 1,
        1 => rng.range(1, 4),
        2 if rng.flip() => longest - rng.below(3),
        2 => rng.range(60_000, longest),
        _ => rng.range(1, 300),
    };
    let mut v = rng.bytes(n);
    if rng.chance(1, 4) {
        // markers inside
        for k in 0..v.len() {
            if rng.chance(1, 3) {
                v[k] = *rng.pick(&[0xFF, 0xD9, 0xD8, 0xDA, 0]);
            }
        }
    }
    match rng.below(12) {
        // padding as writers leave it
        0 | 1 => {
            let (k, x) = (rng.range(1, v.len()), *rng.pick(&[0, 0, b' ', b'\n', 0xFF]));
            let n = v.len();
            v[n - k..].fill(x);
        }
        2 => {
            let (k, x) = (rng.range(1, v.len()), *rng.pick(&[0, b' ', 0xFF]));
            v[..k].fill(x);
        }
        3 => {
            // text
            let t = b"<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\r\n<x:xmpmeta/>  ";
            for (i, x) in v.iter_mut().enumerate() {
                *x = t[i % t.len()]
            }
        }
        4 => {
            // one of the other signatures
            let s: &[u8] = *rng.pick(&[&b"Exif\0\0"[..], XMP, b"ICC_PROFILE\0\x01\x01", b"JFIF\0", b"MM\0*", b"II*\0"]);
            let n = s.len().min(v.len());
            v[..n].copy_from_slice(&s[..n]);
        }
        _ => {}
    }
    v
}

const XMP: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";

/// A segment that must be ignored; it looks almost like metadata.
fn near_miss(rng: &mut Rng) -> Seg {
    let p = payload(rng, 65_490);
    let (mut sig, mut n): (Vec<u8>, u8) = match rng.below(3) {
        0 => (b"Exif\0\0".to_vec(), 1),
        1 => (XMP.to_vec(), 1),
        _ => (b"ICC_PROFILE\0".to_vec(), 2),
    };
    let icc = n == 2;
    match rng.below(3) {
        // another application's segment
        0 => {
            n = loop {
                let m = rng.range(0, 15) as u8;
                if m != n && m != 14 {
                    break m;
                }
            }
        }
        1 => {
            let k = rng.below(sig.len());
            sig[k] ^= 1 << rng.below(8);
        }
        _ => {
            let l = rng.below(sig.len());
            sig.truncate(l);
            return Seg::app(n, &sig);
        }
    }
    if icc {
        sig.extend_from_slice(&[1, 1]);
    }
    sig.extend(p.iter().take(60_000));
    Seg::app(n, &sig)
}

pub fn c14(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let mut st = if rng.chance(1, 6) {
        lossless::random(rng, n, 300).encode()
    } else {
        let mut f = gen::frame(rng, n, 12);
        gen::fill_noise_small(rng, &mut f);
        let o = gen::opts(rng, &f);
        enc::encode(&f, &o)
    };
    let clean = mon::decode(&st.bytes());
    if !clean.out.is_ok() {
        return fail(format!("without metadata: {}", clean.out.short()), &st.bytes());
    }
    let mut segs: Vec<Seg> = vec![];
    let mut exif = None;
    let mut xmp = None;
    if rng.flip() {
        let p = if rng.chance(1, 40) { vec![] } else { payload(rng, 65_527) };
        let mut b = b"Exif\0\0".to_vec();
        b.extend_from_slice(&p);
        segs.push(Seg::app(1, &b));
        exif = Some(p);
        cx.count("exif");
    }
    if rng.flip() {
        let p = if rng.chance(1, 40) { vec![] } else { payload(rng, 65_504) };
        let mut b = XMP.to_vec();
        b.extend_from_slice(&p);
        segs.push(Seg::app(1, &b));
        xmp = Some(p);
        cx.count("xmp");
    }
    let mut icc = None;
    let mut what = String::from("no profile");
    if rng.chance(3, 4) {
        let k = match rng.below(8) {
            0 => 1,
            1 => rng.range(200, 255),
            2 => 255,
            3 => 254,
            _ => rng.range(1, 12),
        };
        let mut chunks: Vec<(u8, u8, Vec<u8>)> = (1..=k)
            .map(|i| {
                let l = match rng.below(6) {
                    0 => 1,
                    1 if k < 5 && rng.chance(1, 3) => 65_519,
                    1 if k < 5 => rng.range(60_000, 65_519),
                    _ => rng.range(1, 40),
                };
                let mut d = rng.bytes(l);
                if rng.chance(1, 8) {
                    let (j, x) = (rng.below(l), *rng.pick(&[0, 0xFF, b' ']));
                    d[j..].fill(x);
                }
                (i as u8, k as u8, d)
            })
            .collect();
        let whole: Vec<u8> = chunks.iter().flat_map(|c| c.2.clone()).collect();
        icc = Some(whole);
        what = format!("{k} chunks");
        if rng.chance(2, 5) {
            // an unusable set
            icc = None;
            let j = rng.below(chunks.len());
            match rng.below(6) {
                0 => {
                    chunks.remove(j);
                    what += ", one missing";
                }
                1 if k < 255 => {
                    let c = chunks[j].clone();
                    let at = rng.below(chunks.len() + 1);
                    chunks.insert(at, c);
                    what += ", one twice";
                }
                2 => {
                    chunks[j].0 = 0;
                    what += ", number zero";
                }
                3 if k > 1 => {
                    chunks[j].0 = chunks[(j + 1) % k].0;
                    what += ", duplicate number instead of another";
                }
                4 => {
                    chunks[j].1 = loop {
                        let x = rng.byte();
                        if x as usize != k {
                            break x;
                        }
                    };
                    what += ", wrong count in one";
                }
                5 => {
                    chunks[j].0 = if k < 255 { rng.range(k + 1, 255) as u8 } else { 0 };
                    what += ", number beyond the count";
                }
                _ => {
                    let d = loop {
                        let x = rng.byte();
                        if x as usize != k {
                            break x;
                        }
                    };
                    for c in &mut chunks {
                        c.1 = d;
                    }
                    what += ", wrong count in all";
                }
            }
            cx.count("unusable profile");
        } else {
            cx.count(if k == 1 { "profile in one chunk" } else { "profile in several chunks" });
        }
        if rng.chance(2, 3) {
            rng.shuffle(&mut chunks);
        }
        for (s, t, d) in chunks {
            let mut b = b"ICC_PROFILE\0".to_vec();
            b.push(s);
            b.push(t);
            b.extend(d);
            segs.push(Seg::app(2, &b));
        }
    } else {
        cx.count("no profile");
    }
    // keep the order of profile chunks, spread over the whole stream; other segments anywhere
    let anywhere = |rng: &mut Rng, st: &Stream| {
        let c: Vec<usize> =
            (1..st.0.len()).filter(|&i| st.0[i].kind != Kind::Ecs).collect();
        *rng.pick(&c)
    };
    let single = rng.flip();
    for s in segs {
        let at = if single { 1 } else { anywhere(rng, &st) };
        st.insert(at, s);
    }
    for _ in 0..rng.below(4) {
        let at = anywhere(rng, &st);
        let s = near_miss(rng);
        st.insert(at, s);
        cx.count("near miss");
    }
    let b = st.bytes();
    let info_first = rng.flip();
    let d = mon::decode_from(&b[..], &Req { info_first, ..Default::default() });
    cx.eval();
    if !d.out.is_ok() {
        return fail(format!("{}; {what}", d.out.short()), &b);
    }
    if d.out != clean.out || d.info != clean.info {
        return fail(format!("metadata changed the picture; {what}"), &b);
    }
    let cmp = |name: &str, got: &Option<Vec<u8>>, want: &Option<Vec<u8>>| -> Option<String> {
        if got == want {
            return None;
        }
        Some(format!("{name}: {:?} bytes instead of {:?}", got.as_ref().map(|x| x.len()), want.as_ref().map(|x| x.len())))
    };
    for m in [cmp("Exif", &d.exif, &exif), cmp("XMP", &d.xmp, &xmp), cmp("ICC", &d.icc, &icc)].into_iter().flatten() {
        return fail(format!("{m}; {what}"), &b);
    }
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{what}, exif {:?}, xmp {:?}", exif.map(|x| x.len()), xmp.map(|x| x.len())));
    Ok(())
}

/// A frame header that claims far more than the stream holds, over limits of every magnitude.
fn giant(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let mut wide = 1;
    let (mut st, kind) = if rng.flip() {
        let m = lossless::random(rng, n, 200);
        if m.precision > 8 && n == 1 {
            wide = 2
        }
        if m.precision > 8 && n > 1 {
            wide = 0
        }
        (m.encode(), "lossless")
    } else {
        let mut f = gen::frame(rng, n, 16);
        gen::fill_noise_small(rng, &mut f);
        let o = gen::opts(rng, &f);
        (enc::encode(&f, &o), "DCT")
    };
    if wide == 0 {
        return Ok(());
    }
    let side = |rng: &mut Rng| match rng.below(4) {
        0 => 65535 - rng.below(16),
        1 => rng.range(33_000, 65_535),
        2 => 1 << rng.range(9, 15),
        _ => rng.range(500, 65_535),
    };
    let (w, h) = (side(rng), side(rng));
    let at = st.find(Kind::Sof)[0];
    let d = &mut st.0[at].data;
    d[5..7].copy_from_slice(&(h as u16).to_be_bytes());
    d[7..9].copy_from_slice(&(w as u16).to_be_bytes());
    let bytes = st.bytes();
    let size = w * h * n * wide;
    let p = 1usize << rng.range(10, 34);
    let mut limits = vec![size - 1, size - 1 - rng.below(1000), rng.below(size), p, p - 1, size % (1 << 32), (size % (1 << 32)).wrapping_sub(1)];
    if rng.chance(1, 8) {
        limits.push(u32::MAX as usize + rng.below(3));
    }
    let l = *rng.pick(&limits);
    let l = if l >= size { size - 1 } else { l };
    let earlier = if rng.flip() { vec![] } else { vec![usize::MAX] };
    let q = Req { limit: Some(l), earlier, info_first: rng.flip(), ..Default::default() };
    let base = mon::mem_mark();
    let d = mon::decode_from(&bytes[..], &q);
    let peak = mon::mem_peak() - base;
    cx.eval();
    cx.count(format!("header of more than {} bytes, {kind}", if size > u32::MAX as usize { "4 G" } else { "0.25 M" }));
    if l > u32::MAX as usize {
        cx.count("limit above 4 G");
    }
    let what = format!("{kind} header of {w} x {h} x {n} ({size} bytes), limit {l}");
    if !matches!(d.out, Out::Format(_)) {
        return fail(format!("{}; {what}", d.out.short()), &bytes);
    }
    cx.max("peak bytes when refusing a large header", peak as f64);
    if peak > 100_000 + bytes.len() as i64 {
        return fail(format!("{peak} bytes allocated before refusing; {what}"), &bytes);
    }
    cx.nontrivial(hash(&bytes) ^ (l as u64).wrapping_mul(31));
    Ok(())
}

pub fn c15(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    if rng.chance(1, 5) {
        return giant(cx, rng);
    }
    let n = gen::ncomp(rng);
    let big = rng.chance(1, 6);
    let bytes;
    let mut scale = None;
    let kind;
    if rng.chance(1, 4) {
        let m = lossless::random(rng, n, if big { 300_000 } else { 4000 });
        bytes = m.encode().bytes();
        kind = "lossless";
    } else {
        let mut f = if big {
            let ids = gen::ids(rng, n);
            let (w, h) = (rng.range(600, 1200), rng.range(400, 900));
            let fac = gen::factors(rng, n);
            let mut f = gen::frame_with(rng, w, h, &ids, &fac);
            for c in &mut f.comps {
                let k = rng.below(c.coefs.len());
                c.coefs[k][0] = 5;
            }
            f
        } else {
            let mut f = gen::frame(rng, n, 80);
            gen::fill_noise_small(rng, &mut f);
            f
        };
        if big {
            f.q.iter_mut().flatten().for_each(|q| q[0] = q[0].min(50));
        }
        let o = gen::opts(rng, &f);
        kind = if o.proc_ == Proc::Progressive { "progressive" } else { "sequential" };
        bytes = enc::encode(&f, &o).bytes();
        if rng.chance(1, 3) {
            let s = *rng.pick(&[1, 2, 4]);
            scale = Some((cdiv(f.w * s, 8) as u16, cdiv(f.h * s, 8) as u16));
        }
    }
    let free = mon::decode_from(&bytes[..], &Req { scale, ..Default::default() });
    let size = match free.pixels() {
        Ok(p) => p.len(),
        Err(e) => return fail(e, &bytes),
    };
    cx.count(format!("kind:{kind}{}", if scale.is_some() { " scaled" } else { "" }));
    let mut limits = vec![size - 1, size, size + 1, 0, size / 2, usize::MAX];
    limits.push(rng.below(2 * size));
    for l in limits {
        let info_first = rng.flip();
        let base = mon::mem_mark();
        // the limit that counts is the last one set
        let earlier: Vec<usize> = (0..rng.below(3))
            .map(|_| *rng.pick(&[0, 1, size - 1, size, size + 1, size / 2, 2 * size, usize::MAX]))
            .collect();
        let q = Req { scale, limit: Some(l), info_first, earlier, ..Default::default() };
        let d = mon::decode_from(&bytes[..], &q);
        let peak = mon::mem_peak() - base;
        cx.eval();
        if l >= size {
            if d.out != free.out || d.info != free.info {
                return fail(format!("limit {l} (after {:?}) for an output of {size}: {}", q.earlier, d.out.short()), &bytes);
            }
            cx.count("within the limit");
        } else {
            if !matches!(d.out, Out::Format(_)) {
                return fail(format!("limit {l} (after {:?}) for an output of {size}: {}", q.earlier, d.out.short()), &bytes);
            }
            cx.count("refused");
            // tables and small buffers only
            let bound = 100_000 + bytes.len() as i64;
            if size > 400_000 {
                cx.count("refused, allocation observed on a large image");
                cx.max("peak bytes when refusing a large image", peak as f64);
                if peak > bound {
                    return fail(format!("{peak} bytes allocated before refusing an output of {size} over the limit {l}; {kind}"), &bytes);
                }
            }
        }
        cx.nontrivial(hash(&bytes) ^ (l as u64).wrapping_mul(31));
    }
    cx.sample(|| format!("{kind}, output {size} bytes, scale {scale:?}"));
    Ok(())
}
