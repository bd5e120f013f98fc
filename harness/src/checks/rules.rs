//! C18, C19, C21, C22: what is refused, what is tolerated, what is shown of unfinished pictures.
use crate::enc::{self, Opts};
use crate::gen;
use crate::lossless;
use crate::model::*;
use crate::mon::{self, Chunk, MonReader, Out, Req};
use crate::rng::{hash, mix, Rng};
use crate::{fail, Cx, Fail};
use jpeg_decoder::{ColorTransform, Decoder, UnsupportedFeature};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Base,
    Ext,
    Prog,
    Loss,
}

pub struct Pic {
    pub s: Stream,
    pub p: P,
    pub n: usize,
    pub frame: Option<Frame>,
    pub opts: Option<Opts>,
}

/// A valid stream without extras.
pub fn plain(rng: &mut Rng, max_blocks: usize) -> Pic {
    let n = gen::ncomp(rng);
    if rng.chance(1, 5) {
        let m = lossless::random(rng, n, max_blocks * 16);
        return Pic { s: m.encode(), p: P::Loss, n, frame: None, opts: None };
    }
    let mut f = gen::frame(rng, n, max_blocks);
    if rng.flip() {
        gen::fill_any(rng, &mut f)
    } else {
        gen::fill_noise_small(rng, &mut f)
    }
    let mut o = gen::opts(rng, &f);
    o.late_q = false;
    let p = match o.proc_ {
        Proc::Baseline => P::Base,
        Proc::Extended => P::Ext,
        Proc::Progressive => P::Prog,
    };
    Pic { s: enc::encode(&f, &o), p, n, frame: Some(f), opts: Some(o) }
}

fn pick_seg(rng: &mut Rng, s: &Stream, k: Kind) -> Option<usize> {
    let v = s.find(k);
    if v.is_empty() {
        None
    } else {
        Some(*rng.pick(&v))
    }
}

/// A place where a marker segment may stand: before any segment but SOI and entropy-coded data.
fn place(rng: &mut Rng, s: &Stream) -> usize {
    let c: Vec<usize> = (1..s.0.len()).filter(|&i| s.0[i].kind != Kind::Ecs).collect();
    *rng.pick(&c)
}

/// As `place`, but not directly behind entropy-coded data.
fn place_apart(rng: &mut Rng, s: &Stream) -> usize {
    let c: Vec<usize> =
        (1..s.0.len()).filter(|&i| s.0[i].kind != Kind::Ecs && s.0[i - 1].kind != Kind::Ecs).collect();
    *rng.pick(&c)
}

fn set_len(d: &mut [u8], n: usize) {
    d[2] = (n >> 8) as u8;
    d[3] = n as u8;
}

fn ones() -> Vec<u8> {
    [0xFF, 0x00].repeat(12)
}

/// Bits that begin with a code no table of the scan at segment `at` assigns to its first symbol, and nothing more.
fn unassigned(rng: &mut Rng, s: &Stream, at: usize, p: P) -> Vec<u8> {
    let d = &s.0[at].data;
    let (class, slot) = if p == P::Prog && d[d.len() - 3] > 0 { (1, d[6] & 15) } else { (0, d[6] >> 4) };
    let mut bits = None;
    for x in s.0[..at].iter().filter(|x| x.kind == Kind::Dht) {
        let b = &x.data[4..];
        let mut k = 0;
        while k + 17 <= b.len() {
            if b[k] == class << 4 | slot {
                bits = Some(&b[k + 1..k + 17]);
            }
            k += 17 + b[k + 1..k + 17].iter().map(|&c| c as usize).sum::<usize>();
        }
    }
    let Some(bits) = bits else { return ones() };
    // everything from here on is free
    let first: usize = bits.iter().enumerate().map(|(i, &n)| (n as usize) << (15 - i)).sum();
    if first > 0xFFFF {
        return ones();
    }
    let v = if rng.flip() { first } else { rng.range(first, 0xFFFF) } as u16;
    let mut out = vec![];
    for b in v.to_be_bytes() {
        out.push(b);
        if b == 0xFF {
            out.push(0)
        }
    }
    if rng.flip() {
        // zero bits are a code of every table
        let n = rng.range(1, 40);
        out.extend(vec![0; n]);
    }
    out
}

/// (class, slot) tables defined before segment `at`
fn defined(s: &Stream, at: usize) -> [[bool; 4]; 2] {
    let mut t = [[false; 4]; 2];
    for x in &s.0[..at] {
        if x.kind == Kind::Dht {
            let b = &x.data[4..];
            let mut k = 0;
            while k + 17 <= b.len() {
                t[(b[k] >> 4) as usize][(b[k] & 15) as usize] = true;
                k += 17 + b[k + 1..k + 17].iter().map(|&c| c as usize).sum::<usize>();
            }
        }
    }
    t
}

/// Body of a Huffman table definition whose code lengths overflow the code space.
fn oversubscribed(rng: &mut Rng) -> ([u8; 16], usize) {
    let mut bits = [0u8; 16];
    // a complete code of depth l, then one more code word
    let l = rng.range(1, 16);
    match rng.below(3) {
        0 => {
            for i in 0..l {
                bits[i] = 1
            }
            bits[l - 1] += 1;
            let at = rng.range(l, 16);
            bits[at - 1] += 1;
        }
        1 => {
            let l = l.min(7);
            bits[l - 1] = 1 << l;
            let at = rng.range(l, 16);
            bits[at - 1] += rng.range(1, 3) as u8;
        }
        _ => {
            bits[0] = rng.range(3, 200) as u8;
        }
    }
    let n = bits.iter().map(|&b| b as usize).sum();
    (bits, n)
}

fn dht_seg(class: u8, id: u8, bits: &[u8; 16], vals: &[u8]) -> Seg {
    let mut b = vec![class << 4 | id];
    b.extend_from_slice(bits);
    b.extend_from_slice(vals);
    Seg::seg(Kind::Dht, 0xC4, &b)
}

const RULES: usize = 52;

/// Break rule `k` of a valid stream; `None` where it does not apply.
fn violate(rng: &mut Rng, pic: &mut Pic, k: usize) -> Option<String> {
    let p = pic.p;
    let n = pic.n;
    let s = &mut pic.s;
    let sof = s.find(Kind::Sof)[0];
    let sos1 = s.find(Kind::Sos)[0];
    let dct = p != P::Loss;
    Some(match k {
        0 => {
            s.0.remove(0);
            "no start of image".into()
        }
        1 => {
            let i = rng.below(2);
            let o = s.0[0].data[i];
            loop {
                let x = rng.byte();
                if x != o {
                    s.0[0].data[i] = x;
                    break;
                }
            }
            "start of image damaged".into()
        }
        2 => {
            let at = place(rng, s);
            s.insert(at, Seg::new(Kind::Raw, vec![0xFF, 0xD8]));
            "second start of image".into()
        }
        3 => {
            let at = rng.range(1, sof);
            s.insert(at, Seg::new(Kind::Eoi, vec![0xFF, 0xD9]));
            "end of image before the frame header".into()
        }
        4 => {
            let at = rng.range(sof + 1, sos1);
            s.insert(at, Seg::new(Kind::Eoi, vec![0xFF, 0xD9]));
            "end of image before any scan".into()
        }
        5 => {
            if p == P::Prog {
                return None;
            }
            let sos = s.find(Kind::Sos);
            if sos.len() < 2 {
                return None;
            }
            let i = *rng.pick(&sos);
            s.0.drain(i..i + 2);
            "a component without data".into()
        }
        6 => {
            let x = s.0.remove(sof);
            let at = s.find(Kind::Ecs)[0] + 1;
            s.insert(at, x);
            "scan before the frame header".into()
        }
        7 => {
            let m = *rng.pick(&[0x01u8, 0x02, 0x4F, 0xBF, 0xC8, 0xF0, 0xF7, 0xFD, 0x80]);
            let at = place(rng, s);
            let v = if rng.flip() { vec![0xFF, m] } else { vec![0xFF, m, 0, 4, 0, 0] };
            s.insert(at, Seg::new(Kind::Raw, v));
            format!("reserved marker {m:#x} among the segments")
        }
        8 => {
            let at = place_apart(rng, s);
            s.insert(at, Seg::new(Kind::Raw, vec![0xFF, 0xD0 + rng.below(8) as u8]));
            "restart marker outside a scan".into()
        }
        9 => {
            let late = s.find(Kind::Ecs).len() > 1 && rng.flip();
            let at = if late { s.find(Kind::Ecs)[rng.range(1, s.find(Kind::Ecs).len() - 1)] + 1 } else { rng.range(1, sos1) };
            s.insert(at, Seg::seg(Kind::Raw, 0xDC, &[0, 10]));
            "number of lines defined elsewhere than after the first scan".into()
        }
        10 => {
            let c: Vec<usize> = (0..s.0.len()).filter(|&i| s.0[i].data.len() >= 4 && s.0[i].kind != Kind::Ecs).collect();
            let i = *rng.pick(&c);
            set_len(&mut s.0[i].data, rng.below(2));
            format!("length below 2 in {:?}", s.0[i].kind)
        }
        11 => {
            let m = *rng.pick(&[0xFEu8, 0xE0, 0xE1, 0xE2, 0xED, 0xEE, 0xE5]);
            let at = place(rng, s);
            let mut x = Seg::seg(Kind::Raw, m, &rng.bytes(6));
            set_len(&mut x.data, rng.below(2));
            s.insert(at, x);
            format!("length below 2 in segment {m:#x}")
        }
        12 => {
            let d = &mut s.0[sof].data;
            let l = d.len() - 2;
            let new = loop {
                let x = match rng.below(3) {
                    0 => rng.below(9),
                    1 => l + rng.range(1, 4) - 2,
                    _ => rng.below(65536),
                };
                if x != l {
                    break x;
                }
            };
            set_len(d, new);
            format!("frame header length {new}")
        }
        13 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let d = &mut s.0[i].data;
            let l = d.len() - 2;
            let new = loop {
                let x = match rng.below(3) {
                    0 => rng.below(9),
                    1 => l + rng.range(1, 4) - 2,
                    _ => rng.below(65536),
                };
                if x != l {
                    break x;
                }
            };
            set_len(d, new);
            format!("scan header length {new}")
        }
        14 => {
            let at = place(rng, s);
            let l = loop {
                let l = if rng.flip() { rng.below(9) } else { rng.below(65536) };
                if l != 4 {
                    break l;
                }
            };
            let mut x = Seg::seg(Kind::Dri, 0xDD, &[0, 3, 0, 0]);
            set_len(&mut x.data, l);
            s.insert(at, x);
            format!("restart interval definition of length {l}")
        }
        15 => {
            let i = pick_seg(rng, s, Kind::Dqt)?;
            let l = s.0[i].data.len() - 2;
            let d = if rng.flip() { l - rng.range(1, 64) } else { l + rng.range(1, 64) };
            set_len(&mut s.0[i].data, d);
            format!("quantisation table segment of {l} bytes with length {d}")
        }
        16 => {
            let i = pick_seg(rng, s, Kind::Dht)?;
            let l = s.0[i].data.len() - 2;
            let d = if rng.flip() { l - rng.range(1, 16) } else { l + rng.range(1, 17) };
            set_len(&mut s.0[i].data, d);
            format!("Huffman table segment of {l} bytes with length {d}")
        }
        17 => {
            if n < 2 {
                return None;
            }
            let (a, b) = (rng.below(n), rng.below(n));
            if a == b {
                return None;
            }
            let d = &mut s.0[sof].data;
            d[10 + 3 * a] = d[10 + 3 * b];
            "duplicate component in the frame header".into()
        }
        18 => {
            let c = rng.below(n);
            let d = &mut s.0[sof].data[11 + 3 * c];
            let x = *rng.pick(&[0, 5, 6, 7, 8, 9, 15]) as u8;
            *d = if rng.flip() { (*d & 0x0F) | x << 4 } else { (*d & 0xF0) | x };
            format!("sampling factors {d:#04x}")
        }
        19 => {
            let c = rng.below(n);
            let x = if dct {
                if rng.flip() { rng.range(4, 255) as u8 } else { *rng.pick(&[4u8, 5, 8, 16, 128]) }
            } else {
                rng.range(1, 255) as u8
            };
            s.0[sof].data[12 + 3 * c] = x;
            format!("quantisation table {x} in the frame header")
        }
        20 => {
            let x = loop {
                let x = if rng.flip() { rng.byte() } else { rng.below(20) as u8 };
                let ok = match p {
                    P::Loss => x <= 16,
                    P::Base => x == 8,
                    _ => x == 8 || x == 12,
                };
                if !ok {
                    break x;
                }
            };
            s.0[sof].data[4] = x;
            format!("precision {x} in a {p:?} frame")
        }
        21 => {
            s.0[sof].data[7] = 0;
            s.0[sof].data[8] = 0;
            "zero width".into()
        }
        22 => {
            if rng.flip() {
                s.0[sof].data[9] = 0;
                if rng.flip() {
                    s.0[sof].data.truncate(10);
                    set_len(&mut s.0[sof].data, 8);
                }
                "no components in the frame header".into()
            } else {
                let x = loop {
                    let x = rng.byte();
                    if x as usize != n {
                        break x;
                    }
                };
                s.0[sof].data[9] = x;
                format!("{x} components in a frame header of {n}")
            }
        }
        23 => {
            if p != P::Prog {
                return None;
            }
            let k = rng.range(5, 10);
            let d = &mut s.0[sof].data;
            d.truncate(10);
            d[9] = k as u8;
            set_len(d, 8 + 3 * k);
            for i in 0..k {
                d.extend_from_slice(&[100 + i as u8, 0x11, 0]);
            }
            "progressive frame of more than 4 components".into()
        }
        24 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let ids: Vec<u8> = (0..n).map(|c| s.0[sof].data[10 + 3 * c]).collect();
            let m = s.0[i].data[4] as usize;
            let x = loop {
                let x = rng.byte();
                if !ids.contains(&x) {
                    break x;
                }
            };
            s.0[i].data[5 + 2 * rng.below(m)] = x;
            "scan of an undefined component".into()
        }
        25 | 26 => {
            let c: Vec<usize> = s.find(Kind::Sos).into_iter().filter(|&i| s.0[i].data[4] > 1).collect();
            if c.is_empty() {
                return None;
            }
            let i = *rng.pick(&c);
            let d = &mut s.0[i].data;
            let m = d[4] as usize;
            let a = rng.below(m - 1);
            if k == 25 {
                d[7 + 2 * a] = d[5 + 2 * a];
                "a component twice in a scan".into()
            } else {
                d.swap(5 + 2 * a, 7 + 2 * a);
                "components of a scan out of order".into()
            }
        }
        27 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let d = &mut s.0[i].data;
            let m = d[4] as usize;
            let j = 6 + 2 * rng.below(m);
            let x = if p == P::Base && rng.flip() { rng.range(2, 3) } else { rng.range(4, 15) } as u8;
            d[j] = if rng.flip() { (d[j] & 0x0F) | x << 4 } else { (d[j] & 0xF0) | x };
            format!("entropy table selector {:#04x} in a {p:?} scan", d[j])
        }
        28 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let m = *rng.pick(&[0, 5, 6, 255]);
            let d = &mut s.0[i].data;
            let tail: Vec<u8> = d[d.len() - 3..].to_vec();
            d.truncate(5);
            d[4] = m as u8;
            for j in 0..m {
                d.extend_from_slice(&[j as u8, 0]);
            }
            d.extend(tail);
            set_len(d, 6 + 2 * m);
            format!("scan of {m} components")
        }
        29 => {
            // more than 10 blocks per MCU
            let f = pic.frame.as_ref()?;
            if n < 3 {
                return None;
            }
            let facs = [(4, 2), (2, 1), (2, 2), (2, 2)];
            let g = gen::frame_with(rng, f.w, f.h, &f.comps.iter().map(|c| c.id).collect::<Vec<_>>(), &facs[..n]);
            let mut o = Opts::simple(&g);
            o.proc_ = if p == P::Prog { Proc::Extended } else { pic.opts.as_ref()?.proc_ };
            *s = enc::encode(&g, &o);
            "interleaved scan of more than 10 blocks per MCU".into()
        }
        30 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let d = &mut s.0[i].data;
            let m = d[4] as usize;
            let q = d.len() - 3;
            let (ss, se, a) = match p {
                P::Prog => match rng.below(7) {
                    0 => (rng.range(2, 63), 1, 0),
                    1 => (rng.range(1, 63), rng.range(64, 255), 0),
                    2 => (0, rng.range(1, 255), 0),
                    3 => {
                        if m < 2 {
                            return None;
                        }
                        (rng.range(1, 20), rng.range(20, 63), 0)
                    }
                    4 => (d[q] as usize, d[q + 1] as usize, rng.range(14, 15)),
                    5 => (d[q] as usize, d[q + 1] as usize, rng.range(14, 15) << 4 | rng.below(14)),
                    _ => {
                        let (ah, al) = loop {
                            let (ah, al) = (rng.range(1, 13), rng.range(0, 7));
                            if ah != al + 1 {
                                break (ah, al);
                            }
                        };
                        (d[q] as usize, d[q + 1] as usize, ah << 4 | al)
                    }
                },
                P::Loss => match rng.below(4) {
                    0 => (rng.range(8, 255), 0, 0),
                    1 => (1, rng.range(1, 255), 0),
                    2 => (1, 0, rng.range(1, 15) << 4),
                    _ => {
                        let pr = s.0[sof].data[4] as usize;
                        if pr > 15 {
                            return None;
                        }
                        (1, 0, rng.range(pr, 15))
                    }
                },
                _ => match rng.below(4) {
                    0 => (rng.range(1, 63), 63, 0),
                    1 => (0, rng.range(1, 62), 0),
                    2 => (0, rng.range(64, 255), 0),
                    _ => (0, 63, rng.range(1, 255)),
                },
            };
            let d = &mut s.0[i].data;
            d[q] = ss as u8;
            d[q + 1] = se as u8;
            d[q + 2] = a as u8;
            format!("{p:?} scan of {m} with parameters {ss} {se} {a:#04x}")
        }
        31 => {
            let i = pick_seg(rng, s, Kind::Dqt)?;
            let d = &mut s.0[i].data;
            let x = if rng.flip() { rng.range(2, 15) << 4 | (d[4] & 15) as usize } else { (d[4] & 0xF0) as usize | rng.range(4, 15) };
            d[4] = x as u8;
            format!("quantisation table with precision and identifier {x:#04x}")
        }
        32 => {
            let i = pick_seg(rng, s, Kind::Dqt)?;
            let d = &mut s.0[i].data;
            let k = rng.below(64);
            if d[4] >> 4 == 1 {
                d[5 + 2 * k] = 0;
                d[6 + 2 * k] = 0;
            } else {
                d[5 + k] = 0;
            }
            format!("zero quantiser at {k}")
        }
        33 => {
            if !dct {
                return None;
            }
            let v = s.find(Kind::Dqt);
            if rng.flip() {
                for i in v.into_iter().rev() {
                    s.0.remove(i);
                }
            } else {
                // tables are written once, each for a component that uses it
                let i = *rng.pick(&v);
                s.0.remove(i);
            }
            "missing quantisation table".into()
        }
        34 => {
            let i = pick_seg(rng, s, Kind::Dht)?;
            let d = &mut s.0[i].data;
            let x = match rng.below(3) {
                0 => rng.range(2, 15) << 4 | (d[4] & 15) as usize,
                1 => (d[4] & 0xF0) as usize | rng.range(4, 15),
                _ => {
                    if p != P::Base || i < sof {
                        return None;
                    }
                    (d[4] & 0xF0) as usize | rng.range(2, 3)
                }
            };
            d[4] = x as u8;
            format!("Huffman table with class and identifier {x:#04x} in a {p:?} image")
        }
        35 => {
            let at = place(rng, s);
            let (class, id) = (rng.below(2) as u8, rng.below(2) as u8);
            match rng.below(4) {
                0 => {
                    // a table without codes; bytes follow so that the segment is long enough
                    let tail = rng.range(1, 20);
                    let v = rng.bytes(tail);
                    s.insert(at, dht_seg(class, id, &[0; 16], &v));
                    "Huffman table without codes".into()
                }
                1 => {
                    let mut bits = [0u8; 16];
                    bits[14] = 200;
                    bits[15] = rng.range(57, 255) as u8;
                    let v = rng.bytes(200 + bits[15] as usize);
                    s.insert(at, dht_seg(class, id, &bits, &v));
                    "Huffman table of more than 256 codes".into()
                }
                _ => {
                    let (bits, m) = oversubscribed(rng);
                    let v: Vec<u8> = (0..m).map(|i| i as u8).collect();
                    s.insert(at, dht_seg(class, id, &bits, &v));
                    format!("oversubscribed Huffman table {bits:?}")
                }
            }
        }
        36 => {
            let i = s.find(Kind::Dht)[0];
            s.0.remove(i);
            "missing Huffman table".into()
        }
        37 => {
            for i in s.find(Kind::Dht).into_iter().rev() {
                s.0.remove(i);
            }
            "no Huffman tables".into()
        }
        38 => {
            let i = pick_seg(rng, s, Kind::Sos)?;
            let d = defined(s, i);
            let x = &s.0[i].data;
            let q = x.len() - 3;
            let class = if dct && rng.flip() { 1 } else { 0 };
            let needed = match p {
                P::Prog => {
                    if class == 0 {
                        x[q] == 0 && x[q + 2] >> 4 == 0
                    } else {
                        x[q] > 0
                    }
                }
                P::Loss => class == 0,
                _ => true,
            };
            let top = if p == P::Base { 2 } else { 4 };
            let free: Vec<usize> = (0..top).filter(|&j| !d[class][j]).collect();
            if !needed || free.is_empty() {
                return None;
            }
            let j = *rng.pick(&free) as u8;
            let m = x[4] as usize;
            let b = &mut s.0[i].data[6 + 2 * rng.below(m)];
            *b = if class == 0 { (*b & 0x0F) | j << 4 } else { (*b & 0xF0) | j };
            format!("scan with Huffman table {j} of class {class}, never defined")
        }
        39 | 40 => {
            // code bits that no table contains: all ones
            let c: Vec<usize> = s
                .find(Kind::Sos)
                .into_iter()
                .filter(|&i| {
                    let d = &s.0[i].data;
                    !(p == P::Prog && d[d.len() - 3] == 0 && d[d.len() - 1] >> 4 > 0)
                })
                .collect();
            let i = *rng.pick(&c) + 1;
            let bad = if rng.chance(1, 3) { ones() } else { unassigned(rng, s, i - 1, p) };
            if k == 39 || s.0[i].rst.is_empty() {
                s.0[i].data = bad;
                "undecodable first code".into()
            } else {
                // behind a restart marker, where decoding starts afresh
                let r = rng.below(s.0[i].rst.len());
                let at = s.0[i].rst[r] + 2;
                s.0[i].data.truncate(at);
                s.0[i].data.extend(bad);
                format!("undecodable code behind restart {r}")
            }
        }
        41 => {
            // a DC difference category that does not exist
            let sos = s.find(Kind::Sos);
            let c: Vec<usize> = sos
                .into_iter()
                .filter(|&i| {
                    let d = &s.0[i].data;
                    p != P::Prog || (d[d.len() - 3] == 0 && d[d.len() - 1] >> 4 == 0)
                })
                .collect();
            let i = *rng.pick(&c);
            let slot = s.0[i].data[6] >> 4;
            let bad = if dct { rng.range(12, 255) } else { rng.range(17, 255) } as u8;
            let mut bits = [0u8; 16];
            let l = rng.range(1, 16);
            bits[l - 1] = 1;
            s.insert(i, dht_seg(0, slot, &bits, &[bad]));
            // the only code is all zeros
            s.0[i + 2].data = vec![0; 16];
            format!("DC category {bad}")
        }
        42 => {
            // refinement with a magnitude category above 1
            if p != P::Prog {
                return None;
            }
            let c: Vec<usize> = s
                .find(Kind::Sos)
                .into_iter()
                .filter(|&i| {
                    let d = &s.0[i].data;
                    d[d.len() - 3] > 0 && d[d.len() - 1] >> 4 > 0
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *rng.pick(&c);
            let slot = s.0[i].data[6] & 15;
            let bad = (rng.below(16) << 4 | rng.range(2, 15)) as u8;
            let mut bits = [0u8; 16];
            bits[rng.below(8)] = 1;
            s.insert(i, dht_seg(1, slot, &bits, &[bad]));
            s.0[i + 2].data = vec![0; 16];
            format!("refinement with symbol {bad:#04x}")
        }
        43..=46 => {
            let c: Vec<usize> = s.find(Kind::Ecs).into_iter().filter(|&i| !s.0[i].rst.is_empty()).collect();
            if c.is_empty() {
                return None;
            }
            let i = *rng.pick(&c);
            let r = rng.below(s.0[i].rst.len());
            let at = s.0[i].rst[r];
            let d = &mut s.0[i].data;
            match k {
                43 => {
                    d.drain(at..at + 2);
                    format!("restart marker {r} missing")
                }
                44 => {
                    let o = d[at + 1];
                    d[at + 1] = loop {
                        let x = 0xD0 + rng.below(8) as u8;
                        if x != o {
                            break x;
                        }
                    };
                    format!("restart marker {r} is {:#x} instead of {o:#x}", d[at + 1])
                }
                45 => {
                    d[at + 1] = *rng.pick(&[0xD9u8, 0xDA, 0xC4, 0xFE, 0xE0, 0xDB, 0xDD, 0xC0, 0xD8, 0x01]);
                    format!("marker {:#x} where a restart marker is due", d[at + 1])
                }
                _ => {
                    if rng.flip() {
                        d.truncate(at);
                        format!("scan ends where restart marker {r} is due")
                    } else {
                        // too many
                        let x = [0xFF, d[at + 1]];
                        d.splice(at..at, x);
                        if r + 1 == s.0[i].rst.len() {
                            return None;
                        }
                        format!("restart marker {r} twice")
                    }
                }
            }
        }
        47 => {
            // data that goes on where a restart marker is due
            let i = s.find(Kind::Ecs)[0];
            if s.0[i].data.len() < 30 || !s.0[i].rst.is_empty() || pic.frame.is_none() {
                return None;
            }
            let f = pic.frame.as_ref().unwrap();
            let m = &pic.opts.as_ref().unwrap().scans[0];
            let mcus = if m.comps.len() > 1 { f.mcux * f.mcuy } else { f.comps[m.comps[0]].nbw * f.comps[m.comps[0]].nbh };
            if mcus < 3 {
                return None;
            }
            let r = rng.range(1, mcus - 1) as u16;
            s.insert(i - 1, Seg::seg(Kind::Dri, 0xDD, &r.to_be_bytes()));
            format!("no restart markers at an interval of {r} in {mcus} MCUs")
        }
        48 => {
            let i = s.find(Kind::Ecs)[0];
            // FF FF 00: a fill byte must be followed by a marker
            let d = &mut s.0[i].data;
            d.truncate(0);
            d.extend_from_slice(&[0xFF, 0xFF, 0x00, 1, 2, 3, 4, 5, 6, 7, 8]);
            "fill byte before a stuffed byte in a scan".into()
        }
        49 => {
            let mut b = b"Adobe\0".to_vec();
            b.extend_from_slice(&[100, 0, 0, 0, 0, rng.range(3, 255) as u8]);
            let at = rng.range(1, sof);
            s.insert(at, Seg::app(14, &b));
            "undefined Adobe transform".into()
        }
        50 => {
            // the whole scan is gone, its header is followed by the end
            let sos = s.find(Kind::Sos);
            let i = sos[0];
            let has_code = {
                let d = &s.0[i].data;
                !(p == P::Prog && d[d.len() - 1] >> 4 > 0)
            };
            if !has_code {
                return None;
            }
            // an empty scan reads as zero bits; make them undecodable: tables without the zero code do not exist,
            // so demand a restart marker instead
            let r = 1u16;
            s.insert(i, Seg::seg(Kind::Dri, 0xDD, &r.to_be_bytes()));
            s.0[i + 2].data.clear();
            let total = match (&pic.frame, &pic.opts) {
                (Some(f), Some(o)) => {
                    let m = &o.scans[0];
                    if m.comps.len() > 1 { f.mcux * f.mcuy } else { f.comps[m.comps[0]].nbw * f.comps[m.comps[0]].nbh }
                }
                _ => {
                    let d = &s.0[s.find(Kind::Sof)[0]].data;
                    (d[5] as usize * 256 + d[6] as usize) * (d[7] as usize * 256 + d[8] as usize)
                }
            };
            if total < 2 {
                return None;
            }
            "empty scan where restart markers are due".into()
        }
        _ => {
            // override that does not fit
            return None;
        }
    })
}

/// Break one rule of a valid stream.
fn broken(rng: &mut Rng, pic: &mut Pic) -> (usize, String) {
    loop {
        let k = rng.below(RULES - 1);
        let mut q = Pic { s: pic.s.clone(), p: pic.p, n: pic.n, frame: pic.frame.clone(), opts: pic.opts.clone() };
        if let Some(w) = violate(rng, &mut q, k) {
            *pic = q;
            break (k, w);
        }
    }
}

/// A stream that breaks a rule or uses an unsupported feature.
pub fn unacceptable(rng: &mut Rng) -> Stream {
    let mut pic = plain(rng, 30);
    if rng.flip() {
        broken(rng, &mut pic);
    } else {
        unsupported(rng, &mut pic);
    }
    pic.s
}

pub fn c18(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut pic = plain(rng, 60);
    let before = pic.s.bytes();
    let (k, what) = broken(rng, &mut pic);
    let b = pic.s.bytes();
    if b == before {
        return Ok(());
    }
    // the unharmed stream decodes
    if rng.chance(1, 4) {
        let d = mon::decode(&before);
        if !d.out.is_ok() {
            return fail(format!("the valid stream does not decode: {}", d.out.short()), &before);
        }
    }
    cx.eval();
    let req = Req {
        info_first: rng.chance(1, 3),
        scale: if rng.chance(1, 6) { Some((rng.range(0, 60) as u16, rng.range(0, 60) as u16)) } else { None },
        ..Default::default()
    };
    let mut r = MonReader::new(&b);
    if rng.chance(1, 3) {
        r.chunk = Chunk::One
    }
    let d = mon::decode_from(&mut r, &req);
    if !matches!(d.out, Out::Format(_)) {
        return fail(format!("rule {k}, {what} ({:?}, {} components): {}", pic.p, pic.n, d.out.short()), &b);
    }
    // what is wrong in or before the frame header is found by whoever reads only that far
    if matches!(k, 0 | 1 | 3 | 12 | 17..=23) {
        let o = mon::guard(|| {
            let mut dec = Decoder::new(MonReader::new(&b));
            Out::of(dec.read_info().map(|_| vec![]))
        })
        .unwrap_or_else(Out::Panic);
        if !matches!(o, Out::Format(_)) {
            return fail(format!("rule {k}, {what} ({:?}, {} components): reading the header alone: {}", pic.p, pic.n, o.short()), &b);
        }
        cx.count("header alone");
    }
    cx.count(format!("rule {k:02}"));
    cx.count(format!("process:{:?}", pic.p));
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{what} -> {}", d.out.short()));
    Ok(())
}

struct Feature {
    want: Vec<UnsupportedFeature>,
    header: bool,
    over: Option<ColorTransform>,
    what: String,
}

/// Make a valid stream use a feature that is not supported.
fn unsupported(rng: &mut Rng, pic: &mut Pic) -> Option<Feature> {
    use UnsupportedFeature as U;
    let s = &mut pic.s;
    let sof = s.find(Kind::Sof)[0];
    let ecs1 = s.find(Kind::Ecs)[0];
    let mut want: Vec<U> = vec![];
    // the frame header shows it (reading metadata reports it, too)
    let mut header = true;
    let mut over = None;
    let what;
    match rng.below(16) {
        0 => {
            let m = if pic.p == P::Loss { 0xC7 } else { *rng.pick(&[0xC5u8, 0xC6, 0xC7]) };
            s.0[sof].data[1] = m;
            if m == 0xC7 && pic.p != P::Loss {
                for c in 0..pic.n {
                    s.0[sof].data[12 + 3 * c] = 0
                }
            }
            want.push(U::Hierarchical);
            what = format!("differential frame {m:#x}");
        }
        1 => {
            let m = *rng.pick(&[0xC9u8, 0xCA, 0xCB]);
            s.0[sof].data[1] = m;
            if pic.p != P::Loss {
                for c in 0..pic.n {
                    s.0[sof].data[12 + 3 * c] = 0
                }
            } else {
                s.0[sof].data[1] = 0xCB
            }
            want.push(U::ArithmeticEntropyCoding);
            what = format!("arithmetic frame {:#x}", s.0[sof].data[1]);
        }
        2 => {
            let m = *rng.pick(&[0xCDu8, 0xCE, 0xCF]);
            s.0[sof].data[1] = if pic.p == P::Loss { 0xCF } else { m };
            if m == 0xCF {
                for c in 0..pic.n {
                    s.0[sof].data[12 + 3 * c] = 0
                }
            }
            // both differential and arithmetic: either is true
            want.extend([U::Hierarchical, U::ArithmeticEntropyCoding]);
            what = "differential arithmetic frame".to_string();
        }
        3 => {
            let at = rng.range(1, sof);
            let mut b = s.0[sof].data[4..].to_vec();
            if rng.flip() {
                b[0] = 8
            }
            let seg = if rng.flip() { Seg::seg(Kind::Raw, 0xDE, &b) } else { Seg::seg(Kind::Raw, 0xDF, &[0x11]) };
            s.insert(at, seg);
            want.push(U::Hierarchical);
            what = "hierarchical marker before the frame".to_string();
        }
        4 => {
            let late = rng.flip();
            let at = if late { s.0.len() - 1 } else { rng.range(sof + 1, ecs1 - 1) };
            let x = match rng.below(3) {
                0 => Seg::seg(Kind::Raw, 0xDF, &[0x11]),
                _ => s.0[sof].clone(),
            };
            s.insert(at, x);
            want.push(U::Hierarchical);
            header = false;
            what = "second frame".to_string();
        }
        5 => {
            let at = rng.range(1, sof);
            let after = rng.flip();
            let at = if after { rng.range(sof + 1, ecs1 - 1) } else { at };
            s.insert(at, Seg::seg(Kind::Raw, 0xCC, &[0x00, 0x10]));
            want.push(U::ArithmeticEntropyCoding);
            header = !after;
            what = "arithmetic conditioning".to_string();
        }
        6 | 7 => {
            if pic.p == P::Loss {
                return None;
            }
            let d = &mut s.0[sof].data;
            d[4] = 12;
            if pic.p == P::Base {
                d[1] = 0xC1
            }
            want.push(U::SamplePrecision(12));
            what = "12-bit samples".to_string();
        }
        8 | 9 => {
            let prog = s.0[sof].data[1] == 0xC2;
            let k = match rng.below(3) {
                0 => 2,
                1 if !prog => rng.range(5, 10),
                2 if !prog => rng.range(5, 255),
                _ => 2,
            };
            let d = &mut s.0[sof].data;
            d.truncate(10);
            d[9] = k as u8;
            set_len(d, 8 + 3 * k);
            for i in 0..k {
                d.extend_from_slice(&[i as u8, 0x11, 0]);
            }
            want.push(U::ComponentCount(k as u8));
            what = format!("{k} components");
        }
        10 => {
            let d = &mut s.0[sof].data;
            d[5] = 0;
            d[6] = 0;
            want.push(U::DNL);
            what = "height defined later".to_string();
        }
        11 => {
            let h = [s.0[sof].data[5], s.0[sof].data[6]];
            s.insert(ecs1 + 1, Seg::seg(Kind::Raw, 0xDC, &h));
            want.push(U::DNL);
            header = false;
            what = "number of lines defined after the first scan".to_string();
        }
        12 | 13 => {
            if pic.n < 3 || pic.p == P::Loss {
                return None;
            }
            let horiz = rng.flip();
            let mut f: Vec<(usize, usize)> = vec![(1, 1); pic.n];
            let (a, b) = *rng.pick(&[(3, 2), (4, 3)]);
            let other = rng.range(1, 2);
            for x in f.iter_mut() {
                *x = if horiz { (*rng.pick(&[a, 1, b]), other) } else { (other, *rng.pick(&[a, 1, b])) };
            }
            let (i, j) = (rng.below(pic.n), rng.below(pic.n));
            if i == j {
                return None;
            }
            f[i] = if horiz { (a, other) } else { (other, a) };
            f[j] = if horiz { (b, other) } else { (other, b) };
            let d = &mut s.0[sof].data;
            for c in 0..pic.n {
                d[11 + 3 * c] = (f[c].0 << 4 | f[c].1) as u8;
            }
            // an axis of one pixel needs no upsampling
            if (d[5], d[6]) == (0, 1) {
                d[6] = 2
            }
            if (d[7], d[8]) == (0, 1) {
                d[8] = 2
            }
            want.push(U::NonIntegerSubsamplingRatio);
            what = format!("factors {f:?}");
        }
        14 => {
            if pic.p != P::Loss || pic.n < 3 {
                return None;
            }
            let c = rng.below(pic.n);
            s.0[sof].data[11 + 3 * c] = *rng.pick(&[0x21u8, 0x12, 0x22, 0x41, 0x14]);
            want.push(U::SubsamplingRatio);
            what = format!("lossless component {c} with factors {:#04x}", s.0[sof].data[11 + 3 * c]);
        }
        _ => {
            if pic.p == P::Loss || pic.n < 3 {
                return None;
            }
            header = false;
            let ycc = rng.flip();
            let t = if ycc { ColorTransform::JcsBgYcc } else { ColorTransform::JcsBgRgb };
            if pic.n == 3 && rng.flip() {
                let ids = if ycc { [1, 34, 35] } else { [114, 103, 98] };
                let old: Vec<u8> = (0..3).map(|c| s.0[sof].data[10 + 3 * c]).collect();
                for c in 0..3 {
                    s.0[sof].data[10 + 3 * c] = ids[c]
                }
                for i in s.find(Kind::Sos) {
                    for c in 0..s.0[i].data[4] as usize {
                        let k = old.iter().position(|o| *o == s.0[i].data[5 + 2 * c]).unwrap();
                        s.0[i].data[5 + 2 * c] = ids[k];
                    }
                }
                what = format!("identifiers of {t:?}");
            } else {
                over = Some(t);
                what = format!("override {t:?}");
            }
            want.push(U::ColorTransform(t));
        }
    }
    Some(Feature { want, header, over, what })
}

pub fn c19(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut pic = plain(rng, 40);
    let Some(Feature { want, header, over, what }) = unsupported(rng, &mut pic) else { return Ok(()) };
    let b = pic.s.bytes();
    cx.eval();
    let req = Req {
        transform: over,
        info_first: rng.chance(1, 3),
        scale: if rng.chance(1, 6) { Some((rng.range(0, 40) as u16, rng.range(0, 40) as u16)) } else { None },
        ..Default::default()
    };
    let mut r = MonReader::new(&b);
    if rng.chance(1, 6) {
        r.chunk = Chunk::One
    }
    let d = mon::decode_from(&mut r, &req);
    let ok = |o: &Out| matches!(o, Out::Unsup(f) if want.contains(f));
    if !ok(&d.out) {
        return fail(format!("{what} ({:?}, {} components, metadata first {}, scale {:?}): {} instead of {want:?}", pic.p, pic.n, req.info_first, req.scale, d.out.short()), &b);
    }
    if header {
        let mut dec = Decoder::new(&b[..]);
        let (o, info) = match mon::guard(|| {
            let o = Out::of(dec.read_info().map(|_| vec![]));
            (o, dec.info())
        }) {
            Ok(x) => x,
            Err(p) => (Out::Panic(p), None),
        };
        if !ok(&o) || info.is_some() {
            return fail(format!("{what} ({:?}): reading metadata gives {} instead of {want:?}, info {info:?}", pic.p, o.short()), &b);
        }
        let mut dec = Decoder::new(&b[..]);
        let o = mon::guard(|| Out::of(dec.scale(10, 10).map(|_| vec![]))).unwrap_or_else(Out::Panic);
        if !ok(&o) {
            return fail(format!("{what} ({:?}): scaling gives {} instead of {want:?}", pic.p, o.short()), &b);
        }
        cx.count("metadata read");
    }
    cx.count(format!("feature:{}", format!("{:?}", want[0]).split('(').next().unwrap()));
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{what} -> {}", d.out.short()));
    Ok(())
}

fn stray(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(40) {
        0 => rng.range(1, 100_000),
        1 => rng.range(1, 3000),
        2..=14 => rng.range(1, 3),
        15..=27 => rng.range(1, 12),
        _ => rng.range(1, 60),
    };
    let mut v = vec![];
    let plain = rng.flip();
    for _ in 0..n {
        if !plain && rng.chance(1, 6) {
            v.extend_from_slice(&[0xFF, 0x00])
        } else {
            v.push(rng.below(255) as u8)
        }
    }
    v
}

pub fn c21(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let mut pic = plain(rng, 80);
    let mut extra_front: Vec<Seg> = vec![];
    if rng.chance(1, 4) {
        extra_front.push(crate::checks::image::jfif_seg(rng));
    }
    if rng.chance(1, 4) {
        let t = rng.below(3) as u8;
        if !(t == 1 && pic.n == 4) && !(t == 2 && pic.n == 3) {
            extra_front.push(crate::checks::image::adobe_seg(rng, t));
        }
    }
    let mut clean = pic.s.clone();
    for x in extra_front.iter().rev() {
        clean.insert(1, x.clone());
    }
    let req = Req {
        scale: if rng.chance(1, 5) { Some((rng.range(0, 60) as u16, rng.range(0, 60) as u16)) } else { None },
        ..Default::default()
    };
    let cb = clean.bytes();
    let a = mon::decode_from(&cb[..], &req);
    if !a.out.is_ok() {
        return fail(format!("the regular stream: {}", a.out.short()), &cb);
    }
    let mut what: Vec<String> = vec![];
    // recode with other padding, wide tables, omitted tables
    if let (Some(f), Some(o)) = (&pic.frame, &pic.opts) {
        let mut o = o.clone();
        let mut re = false;
        if rng.chance(1, 3) {
            o.pad = if rng.flip() { 0 } else { 1 };
            re = true;
            what.push(format!("padding {}", o.pad));
        }
        if rng.chance(1, 4) {
            o.q16 = !o.q16;
            re = true;
            what.push("table precision".into());
        }
        if o.proc_ != Proc::Progressive && rng.chance(1, 3) {
            o.omit_std = true;
            o.early_tables = false;
            re = true;
            what.push("omitted standard tables".into());
            let mut body = b"AVI1".to_vec();
            let n = rng.range(1, 12);
            body.extend(vec![0; n]);
            extra_front.push(Seg::app(0, &body));
        }
        if re {
            pic.s = enc::encode(f, &o);
        }
    }
    let s = &mut pic.s;
    // tables for colour may stand anywhere before the frame; JFIF anywhere among the headers
    for x in extra_front {
        let sof = s.find(Kind::Sof)[0];
        let at = if rng.flip() { 1 } else { rng.range(1, sof) };
        s.insert(at, x);
    }
    let mut finals: Vec<usize> = vec![];
    let kinds = if what.is_empty() { rng.range(1, 4) } else { rng.below(4) };
    for _ in 0..kinds {
        match rng.below(9) {
            8 => {
                // only says what to do when tables are missing
                let at = place(rng, s);
                let n = rng.range(1, 12);
                let mut body = b"AVI1".to_vec();
                body.extend(rng.bytes(n));
                s.insert(at, Seg::app(0, &body));
                what.push("AVI1 segment".into());
            }
            0 => {
                // fill bytes
                for _ in 0..rng.range(1, 4) {
                    let at = place(rng, s);
                    let n = if rng.chance(1, 5) { if rng.chance(1, 10) { rng.range(300, 100_000) } else { rng.range(10, 300) } } else { rng.range(1, 5) };
                    // (stray bytes behind a fill byte would read as a marker)
                    if s.0[at].data[0] == 0xFF && s.0[at].data[1] != 0 {
                        s.0[at].data.splice(0..0, vec![0xFF; n]);
                    }
                }
                what.push("fill bytes".into());
            }
            1 => {
                // fill bytes before restart markers
                let c: Vec<usize> = s.find(Kind::Ecs).into_iter().filter(|&i| !s.0[i].rst.is_empty()).collect();
                if !c.is_empty() {
                    let i = *rng.pick(&c);
                    let r = *rng.pick(&s.0[i].rst.clone());
                    let n = rng.range(1, 12);
                    s.0[i].data.splice(r..r, vec![0xFF; n]);
                    for x in s.0[i].rst.iter_mut() {
                        if *x >= r {
                            *x += n
                        }
                    }
                    what.push("fill bytes before a restart marker".into());
                }
            }
            2 => {
                let at = place_apart(rng, s);
                if s.0[at].data[0] == 0xFF {
                    let v = stray(rng);
                    what.push(format!("{} stray bytes between segments", v.len()));
                    s.insert(at, Seg::new(Kind::Raw, v));
                }
            }
            3 => {
                let at = place(rng, s);
                let n = if rng.chance(1, 10) { rng.range(5000, 65533) } else { rng.below(80) };
                let b = rng.bytes(n);
                let seg = match rng.below(3) {
                    0 => Seg::seg(Kind::Com, 0xFE, &b),
                    1 => {
                        let m = *rng.pick(&[3u8, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15]);
                        Seg::app(m, &b)
                    }
                    _ => {
                        let m = *rng.pick(&[0u8, 1, 2, 13, 14]);
                        let mut v = b"Unknown".to_vec();
                        v.extend(&b[..b.len().min(60_000)]);
                        if rng.chance(1, 4) {
                            v.truncate(rng.below(8));
                        }
                        Seg::app(m, &v)
                    }
                };
                what.push(format!("segment {:#x}", seg.data[1]));
                s.insert(at, seg);
            }
            4 => {
                let i = *rng.pick(&s.find(Kind::Ecs));
                let no = s.find(Kind::Ecs).iter().position(|&x| x == i).unwrap();
                if finals.contains(&no) {
                    continue;
                }
                finals.push(no);
                let n = if rng.chance(1, 4) { rng.below(8) } else { s.0[i].rst.len() % 8 };
                s.0[i].data.extend_from_slice(&[0xFF, 0xD0 + n as u8]);
                what.push("final restart marker".into());
            }
            5 => {
                let i = *rng.pick(&s.find(Kind::Ecs));
                let v = stray(rng);
                what.push(format!("{} stray bytes after the data of a scan", v.len()));
                s.0[i].data.extend(v);
            }
            6 => {
                let at = place(rng, s);
                let seg = if rng.flip() { Seg::seg(Kind::Dqt, 0xDB, &[]) } else { Seg::seg(Kind::Dht, 0xC4, &[]) };
                what.push("empty table segment".into());
                s.insert(at, seg);
            }
            _ => {
                if matches!(pic.p, P::Base | P::Ext) {
                    let i = *rng.pick(&s.find(Kind::Sos));
                    let d = &mut s.0[i].data;
                    let k = d.iter().rposition(|&x| x == 63);
                    let n = d.len();
                    if k == Some(n - 2) {
                        d[n - 2] = 0;
                        what.push("sequential scan with end of selection 0".into());
                    }
                }
            }
        }
    }
    let b = s.bytes();
    cx.eval();
    let d = mon::decode_from(&b[..], &req);
    if d.out != a.out {
        return fail(format!("{what:?} ({:?}, {} components): {} instead of {}", pic.p, pic.n, d.out.short(), a.out.short()), &b);
    }
    if d.info != a.info || d.scaled != a.scaled || d.exif != a.exif || d.xmp != a.xmp || d.icc != a.icc {
        return fail(format!("{what:?}: information or metadata changed"), &b);
    }
    for w in &what {
        let k: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
        cx.count(k.trim());
    }
    cx.nontrivial(hash(&b));
    cx.sample(|| format!("{:?} {} bytes: {what:?}", pic.p, b.len()));
    Ok(())
}

/// The coefficients an unfinished progressive stream has delivered.
pub fn received(f: &Frame, scans: &[Scan]) -> (Frame, usize) {
    const UNSENT: usize = 99;
    let mut st = vec![[UNSENT; 64]; f.comps.len()];
    for s in scans {
        for &c in &s.comps {
            for k in s.ss..=s.se {
                st[c][k] = s.al
            }
        }
    }
    let mut g = f.clone();
    let mut unfinished = 0;
    for (c, st) in g.comps.iter_mut().zip(&st) {
        if st.iter().any(|&x| x != 0) {
            unfinished += 1
        }
        for b in &mut c.coefs {
            for k in 0..64 {
                let v = &mut b[ZZ[k] as usize];
                if st[k] == UNSENT {
                    *v = 0
                } else if k == 0 {
                    *v = *v >> st[k] << st[k]
                } else {
                    let m = v.unsigned_abs() >> st[k] << st[k];
                    *v = if *v < 0 { -(m as i16) } else { m as i16 }
                }
            }
        }
    }
    (g, unfinished)
}

pub fn c22(cx: &mut Cx, rng: &mut Rng) -> Result<(), Fail> {
    let n = gen::ncomp(rng);
    let max = if rng.chance(1, 20) { 1500 } else { 120 };
    let mut f = if rng.chance(1, 300) { super::image::gen_extreme(rng, n) } else { gen::frame(rng, n, max) };
    if rng.chance(1, 3) {
        gen::fill_encoder(rng, &mut f)
    } else {
        gen::fill_any(rng, &mut f)
    }
    let mut o = gen::opts_for(rng, &f, Proc::Progressive);
    let total = o.scans.len();
    if rng.chance(3, 4) {
        let k = rng.range(1, total);
        o.scans.truncate(k);
    } else {
        // a component may get all its scans while another gets few
        let c = rng.below(n);
        let k = rng.range(1, total);
        let mut i = 0;
        o.scans.retain(|s| {
            i += 1;
            i <= k || (s.comps.len() == 1 && s.comps[0] == c)
        });
        // what is kept of the others must still be a legal sequence for the chosen component
        let mut st = [99usize; 64];
        let mut ok = true;
        for s in &o.scans {
            if s.comps.contains(&c) {
                for k in s.ss..=s.se {
                    if (s.ah == 0 && st[k] != 99) || (s.ah > 0 && st[k] != s.ah) || (k > 0 && st[0] == 99) {
                        ok = false
                    }
                    st[k] = s.al
                }
            }
        }
        if !ok {
            o.scans.truncate(k);
        }
    }
    let (g, unfinished) = received(&f, &o.scans);
    if g.comps.iter().any(|c| c.coefs.iter().any(|b| b[0] < -1024)) {
        // a DC value of so few bits that no sequential image can hold it
        cx.count("beyond the sequential range");
        return Ok(());
    }
    let b = enc::encode(&f, &o).bytes();
    let want = enc::encode(&g, &Opts::canonical(&g)).bytes();
    let req = Req {
        scale: if rng.chance(1, 4) { Some((rng.range(0, 80) as u16, rng.range(0, 80) as u16)) } else { None },
        info_first: rng.flip(),
        ..Default::default()
    };
    let d = mon::decode_from(&b[..], &req);
    let w = mon::decode_from(&want[..], &req);
    cx.eval();
    let what = format!(
        "{} of {total} scans, {unfinished} of {n} components unfinished, {}",
        o.scans.len(),
        crate::checks::image::describe(&f, &o)
    );
    let wp = match w.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("the sequential image: {e}"), &want),
    };
    let p = match d.pixels() {
        Ok(p) => p,
        Err(e) => return fail(format!("{e}; {what}"), &b),
    };
    if p != wp {
        let k = p.iter().zip(wp).position(|(x, y)| x != y).unwrap_or(p.len().min(wp.len()));
        return fail(format!("byte {k} of {} differs; {what}; scans {:?}", wp.len(), o.scans), &b);
    }
    cx.count(format!("unfinished components:{unfinished} of {n}"));
    if f.w > 128 {
        cx.count("parallel path (width > 128)");
    }
    if req.scale.is_some() {
        cx.count("scaled");
    }
    cx.nontrivial(mix(hash(&b)));
    cx.sample(|| what);
    Ok(())
}

