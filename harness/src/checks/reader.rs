//! C12, C13: how the bytes arrive.
use super::hostile::KINDS;
use crate::mon::{self, Chunk, Dec, MonReader, Out, Req};
use crate::mutate;
use crate::peer::TRANSFORMS;
use crate::rng::{hash, mix, Rng};
use crate::{fail, Cx, Fail};
use jpeg_decoder::Decoder;
use std::error::Error as _;
use std::io::{BufReader, ErrorKind, Read};

fn differ(a: &Dec, b: &Dec) -> Option<String> {
    if a.out != b.out {
        return Some(format!("{} instead of {}", b.out.short(), a.out.short()));
    }
    if a.info != b.info {
        return Some(format!("info {:?} instead of {:?}", b.info, a.info));
    }
    if a.scaled != b.scaled {
        return Some(format!("scale {:?} instead of {:?}", b.scaled, a.scaled));
    }
    if a.exif != b.exif || a.xmp != b.xmp || a.icc != b.icc {
        return Some("different metadata".into());
    }
    None
}

fn request(rng: &mut Rng) -> Req {
    Req {
        transform: if rng.chance(1, 6) { Some(*rng.pick(&TRANSFORMS)) } else { None },
        limit: None,
        scale: if rng.chance(1, 5) { Some((rng.range(0, 90) as u16, rng.range(0, 90) as u16)) } else { None },
        info_first: rng.chance(1, 4),
        ..Default::default()
    }
}

pub fn c12(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let valid = rng.chance(3, 4);
    let mut end = None;
    let mut sof_end = None;
    let mut b = if valid {
        let mut s = mutate::valid(rng, 50);
        mutate::decorate(rng, &mut s);
        sof_end = Some(s.sof_end());
        let b = s.bytes();
        end = Some(b.len());
        b
    } else {
        mutate::hostile(cx, rng, 60_000)
    };
    let image = b.clone();
    // what follows the image: nothing, noise, markers, another image
    if valid {
        match rng.below(5) {
            0 => {}
            1 => {
                let n = rng.range(1, 40);
                b.extend(rng.bytes(n))
            }
            2 => b.extend_from_slice(&[0xFF, 0xD9, 0xFF, 0xD8, 0xFF]),
            3 => b.extend(image.clone()),
            _ => b.extend(vec![0xFF; rng.range(1, 20)]),
        }
    }
    let q = request(rng);
    let plain = mon::decode_from(&b[..], &q);
    cx.eval();
    let mut h = hash(&b);
    for k in 0..4 {
        let mut r = MonReader::new(&b);
        r.rng = rng.fork();
        let what;
        let d = match k {
            0 => {
                r.chunk = Chunk::One;
                what = "one byte at a time".to_string();
                mon::decode_from(&mut r, &q)
            }
            1 => {
                let m = rng.range(2, 60);
                r.chunk = Chunk::Random(m as u64);
                r.interrupt = rng.below(128);
                what = format!("up to {m} bytes at a time, interruptions {}/256", r.interrupt);
                mon::decode_from(&mut r, &q)
            }
            2 => {
                let k = rng.range(1, 100);
                what = format!("through a BufReader of {k}");
                r.chunk = Chunk::Random(rng.range(1, 30) as u64);
                mon::decode_from(BufReader::with_capacity(k, &mut r), &q)
            }
            _ => {
                let k = rng.range(0, b.len());
                what = format!("two chained slices, split at {k}");
                mon::decode_from(b[..k].chain(&b[k..]), &q)
            }
        };
        cx.eval();
        if let Some(m) = differ(&plain, &d) {
            return fail(format!("delivered {what}: {m}; {q:?}"), &b);
        }
        cx.add("interruptions delivered", r.interrupts);
        cx.add("reads observed", r.reads);
        h = mix(h ^ hash(what.as_bytes()));
        if k < 2 && d.out.is_ok() {
            if let Some(e) = end {
                cx.count("consumption checked");
                if r.pos != e {
                    return fail(format!("a successful decode consumed {} bytes of an image of {e} ({what})", r.pos), &b);
                }
            }
        }
    }
    // whole buffers must not be taken either
    let mut r = MonReader::new(&b);
    let d = mon::decode_from(&mut r, &q);
    if let (true, Some(e)) = (d.out.is_ok(), end) {
        if r.pos != e {
            return fail(format!("a successful decode consumed {} bytes of an image of {e}", r.pos), &b);
        }
        // and a second image can be decoded from the same reader
        if r.pos < b.len() && b[r.pos..] == image[..] {
            let d2 = mon::decode_from(&mut r, &q);
            cx.count("second image from the same reader");
            if let Some(m) = differ(&d, &d2) {
                return fail(format!("the following image in the same reader: {m}"), &b);
            }
        }
    }
    if let Some(se) = sof_end {
        let mut r = MonReader::new(&b);
        r.chunk = if rng.flip() { Chunk::All } else { Chunk::One };
        let ok = {
            let mut dec = Decoder::new(&mut r);
            mon::guard(|| dec.read_info().is_ok() && dec.info().is_some())
        };
        if ok == Ok(true) {
            cx.count("read_info consumption checked");
            if r.pos != se {
                return fail(format!("read_info consumed {} bytes, the frame header ends at {se}", r.pos), &b);
            }
        } else if plain.out.is_ok() {
            return fail(format!("read_info fails ({ok:?}) where decoding succeeds"), &b);
        }
    }
    cx.count(format!("outcome:{}", plain.out.class().split(' ').next().unwrap()));
    cx.nontrivial(h);
    cx.sample(|| format!("{} bytes -> {}", b.len(), plain.out.short()));
    Ok(())
}

fn io_kind(o: &Out) -> Option<ErrorKind> {
    if let Out::Io(k) = o {
        Some(*k)
    } else {
        None
    }
}

pub fn c13(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut s = mutate::valid(rng, if cx.tier_thorough { 60 } else { 24 });
    mutate::decorate(rng, &mut s);
    if rng.chance(1, 4) {
        // a final restart marker, as some encoders leave
        let at = *s.find(crate::model::Kind::Ecs).last().unwrap();
        let n = s.0[at].rst.len() % 8;
        s.0[at].data.extend_from_slice(&[0xFF, 0xD0 + n as u8]);
    }
    let sof_end = s.sof_end();
    let b = s.bytes();
    let whole = mon::decode(&b);
    if !whole.out.is_ok() {
        // e.g. a metadata segment that changes the colour model to an unsupported one
        cx.count("not decodable");
        return Ok(());
    }
    let n = b.len();
    let all = n <= 150 || (cx.tier_thorough && n <= 600);
    let mut at: Vec<usize> = if all { (0..n).collect() } else { (0..60).map(|_| rng.below(n)).collect() };
    if !all {
        // segment boundaries and their neighbourhood
        for _ in 0..30 {
            let k = s.offset(rng.range(0, s.0.len())) as i64 + rng.irange(-3, 3);
            at.push(k.clamp(0, n as i64 - 1) as usize);
        }
        at.extend(n.saturating_sub(6)..n);
    }
    for p in at {
        cx.eval();
        cx.add("fault positions", 1);
        let d = mon::decode(&b[..p]);
        if io_kind(&d.out) != Some(ErrorKind::UnexpectedEof) {
            return fail(format!("{n} bytes cut at {p}: {}", d.out.short()), &b[..p]);
        }
        let kind = *rng.pick(&KINDS);
        let once = rng.flip();
        let mut r = MonReader::new(&b);
        r.fault = Some((p, kind, once));
        if rng.flip() {
            r.chunk = Chunk::One
        }
        let d = mon::decode_from(&mut r, &Req::default());
        if io_kind(&d.out) != Some(kind) {
            return fail(
                format!("{n} bytes, {kind:?} at {p} ({}): {}", if once { "once" } else { "from there on" }, d.out.short()),
                &b,
            );
        }
        if r.fault_reads != 1 {
            return fail(format!("{kind:?} at {p}: the reader was asked {} times after failing", r.fault_reads), &b);
        }
        // metadata only
        let mut r = MonReader::new(&b);
        r.fault = Some((p, kind, once));
        let mut dec = Decoder::new(&mut r);
        let res = mon::guard(|| dec.read_info());
        match res {
            Ok(Ok(())) if p >= sof_end => {}
            Ok(Ok(())) => return fail(format!("read_info succeeds although the reader fails at {p} of {sof_end}"), &b),
            Ok(Err(e)) if p < sof_end => {
                // the error leads to its source
                let src = e.source().and_then(|s| s.downcast_ref::<std::io::Error>()).map(|e| e.kind());
                if src != Some(kind) {
                    return fail(format!("read_info with {kind:?} at {p}: {e}, source kind {src:?}"), &b);
                }
            }
            Ok(Err(e)) => return fail(format!("read_info fails ({e}) with a fault at {p}, behind the frame header ({sof_end})"), &b),
            Err(p) => return fail(format!("read_info panics: {p}"), &b),
        }
        // one truncated metadata read
        if p < sof_end {
            let mut dec = Decoder::new(&b[..p]);
            let o = mon::guard(|| Out::of(dec.read_info().map(|_| vec![])));
            match o {
                Ok(Out::Io(ErrorKind::UnexpectedEof)) => {}
                o => return fail(format!("read_info on {p} of {n} bytes: {o:?}"), &b[..p]),
            }
        }
        cx.nontrivial(mix(hash(&b) ^ p as u64));
    }
    // a fault behind the image is never met
    let mut r = MonReader::new(&b);
    r.fault = Some((n, ErrorKind::Other, false));
    let d = mon::decode_from(&mut r, &Req::default());
    if d.out != whole.out || r.fault_reads != 0 {
        return fail(format!("a fault behind the image: {}", d.out.short()), &b);
    }
    cx.count("streams");
    cx.sample(|| format!("{n} bytes, frame header ends at {sof_end}"));
    Ok(())
}
