//! Hostile streams: mutants of valid ones, of the repository's own test images, and noise.
use crate::enc;
use crate::gen;
use crate::lossless;
use crate::model::*;
use crate::rng::Rng;
use crate::Cx;
use std::path::Path;

/// JPEG files of the repository (inputs only; read in a fixed order).
pub fn corpus() -> Vec<Vec<u8>> {
    let mut files = vec![];
    let mut dirs = vec![Path::new("/repo/tests").to_path_buf(), Path::new("/repo/fuzz").to_path_buf()];
    while let Some(d) = dirs.pop() {
        let Ok(r) = std::fs::read_dir(&d) else { continue };
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p)
            } else if matches!(p.extension().and_then(|x| x.to_str()), Some("jpg" | "jpeg" | "JPG")) {
                files.push(p)
            }
        }
    }
    files.sort();
    files.iter().filter_map(|p| std::fs::read(p).ok()).filter(|b| b.len() < 400_000).collect()
}

pub fn is_sof(m: u8) -> bool {
    (0xC0..=0xCF).contains(&m) && ![0xC4, 0xC8, 0xCC].contains(&m)
}

/// Every place that could be read as a frame header gets at most `max` pixels.
pub fn clamp_dims(b: &mut [u8], max: usize) {
    let mut i = 0;
    while i + 9 < b.len() {
        if b[i] == 0xFF && is_sof(b[i + 1]) {
            let w = u16::from_be_bytes([b[i + 7], b[i + 8]]) as usize;
            let h = u16::from_be_bytes([b[i + 5], b[i + 6]]) as usize;
            if w * h > max {
                if w > max {
                    b[i + 7] = 0;
                }
                let w = u16::from_be_bytes([b[i + 7], b[i + 8]]) as usize;
                let h = (max / w.max(1)).clamp(1, h) as u16;
                b[i + 5..i + 7].copy_from_slice(&h.to_be_bytes());
            }
        }
        i += 1;
    }
}

/// A small valid stream of any supported kind.
pub fn valid(rng: &mut Rng, max_blocks: usize) -> Stream {
    let n = gen::ncomp(rng);
    if rng.chance(1, 5) {
        let m = lossless::random(rng, n, max_blocks * 20);
        return m.encode();
    }
    let mut f = gen::frame(rng, n, max_blocks);
    match rng.below(3) {
        0 => gen::fill_any(rng, &mut f),
        1 => gen::fill_noise_small(rng, &mut f),
        _ => gen::fill_encoder(rng, &mut f),
    }
    let o = gen::opts(rng, &f);
    let mut s = enc::encode(&f, &o);
    decorate(rng, &mut s);
    s
}

/// The number of an ICC chunk, right or wrong, when there are `n`.
fn icc_number(rng: &mut Rng, n: usize) -> u8 {
    match rng.below(4) {
        0 => *rng.pick(&[0u8, 1, 2, 127, 128, 254, 255]),
        1 => rng.byte(),
        2 => (n + rng.below(2)).min(255) as u8,
        _ => rng.range(1, n) as u8,
    }
}

/// Put metadata segments into a stream.
pub fn decorate(rng: &mut Rng, s: &mut Stream) {
    while rng.chance(1, 3) {
        let at = rng.range(1, 2.min(s.0.len() - 1));
        let n = match rng.below(30) {
            0 => rng.below(4000),
            1 => 65_500 + rng.below(34),
            _ => rng.below(60),
        };
        let mut text = |rng: &mut Rng, m: u8, sig: &[u8]| {
            // sometimes the identifier is all there is, or not even that
            let k = if rng.chance(1, 6) { rng.below(sig.len() + 1) } else { sig.len() };
            let mut b = sig[..k].to_vec();
            if k == sig.len() || rng.flip() {
                let n = n.min(65_533 - b.len());
                b.extend(rng.bytes(n));
            }
            Seg::app(m, &b)
        };
        let seg = match rng.below(8) {
            0 => crate::checks::image::jfif_seg(rng),
            1 => {
                let t = rng.below(3) as u8;
                crate::checks::image::adobe_seg(rng, t)
            }
            2 => text(rng, 1, b"Exif\0\0"),
            3 => text(rng, 1, b"http://ns.adobe.com/xap/1.0/\0"),
            4 => {
                // chunks whose declared count is mostly that of the chunks, so that they get looked at
                let k = match rng.below(8) {
                    0 => rng.range(1, 40),
                    1 => *rng.pick(&[254, 255, 256, 257]),
                    _ => rng.range(1, 3),
                };
                let odd = rng.flip();
                let count = if rng.chance(1, 8) { rng.byte() } else { k.min(255) as u8 };
                for i in 0..k {
                    let mut b = b"ICC_PROFILE\0".to_vec();
                    b.push(if odd && (k < 4 || rng.chance(1, 8)) { icc_number(rng, k) } else { (i + 1).min(255) as u8 });
                    b.push(count);
                    let n = if k > 3 { rng.below(4) } else { n.min(60_000) };
                    b.extend(rng.bytes(n));
                    s.insert(at, Seg::app(2, &b));
                }
                continue;
            }
            5 => Seg::app(0, b"AVI1\0\0\0\0\0\0\0\0"),
            6 => {
                let b = rng.bytes(n);
                Seg::seg(Kind::Com, 0xFE, &b)
            }
            _ => text(rng, 13, b"Photoshop 3.0\0"),
        };
        s.insert(at, seg);
    }
}

/// A valid stream with very many small segments (or a long stretch of bytes) between its parts.
pub fn flood(rng: &mut Rng, max: usize) -> (Vec<u8>, &'static str) {
    let s = valid(rng, 60);
    let n = if rng.flip() { rng.range(1, max.max(1)) } else { rng.range(1, (max / 20).max(1)) };
    let same = rng.flip();
    let kind = rng.below(14);
    let small = |rng: &mut Rng| rng.below(12);
    let one = |rng: &mut Rng| -> Seg {
        match kind {
            0 => {
                let mut b = vec![(rng.below(2) << 4 | rng.below(2)) as u8];
                let mut bits = [0u8; 16];
                bits[rng.range(0, 15)] = 1;
                b.extend(bits);
                b.push(rng.below(12) as u8);
                Seg::seg(Kind::Dht, 0xC4, &b)
            }
            1 => {
                let mut b = vec![rng.below(4) as u8];
                b.extend((0..64).map(|i| 1 + (i % 250) as u8));
                Seg::seg(Kind::Dqt, 0xDB, &b)
            }
            2 => Seg::seg(Kind::Dri, 0xDD, &[0, 0]),
            3 => {
                let k = small(rng);
                Seg::seg(Kind::Com, 0xFE, &rng.bytes(k))
            }
            4 => {
                let mut b = b"Exif\0\0".to_vec();
                let k = small(rng);
                b.extend(rng.bytes(k));
                Seg::app(1, &b)
            }
            5 => {
                let mut b = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
                let k = small(rng);
                b.extend(rng.bytes(k));
                Seg::app(1, &b)
            }
            6 => {
                let mut b = b"ICC_PROFILE\0".to_vec();
                b.push(rng.byte());
                b.push(rng.byte());
                let k = small(rng);
                b.extend(rng.bytes(k));
                Seg::app(2, &b)
            }
            7 => {
                let mut b = b"Photoshop 3.0\0".to_vec();
                let k = small(rng);
                b.extend(rng.bytes(k));
                Seg::app(13, &b)
            }
            8 => {
                let m = rng.below(16) as u8;
                let k = small(rng);
                Seg::app(m, &rng.bytes(k))
            }
            9 => Seg::new(Kind::Raw, vec![0xFF; 1 + rng.below(3)]),
            10 => Seg::new(Kind::Raw, vec![rng.below(255) as u8; 1 + rng.below(5)]),
            12 => Seg::new(Kind::Raw, [0xFF, 0].repeat(1 + rng.below(60))),
            13 => Seg::new(Kind::Raw, match rng.below(4) {
                0 => vec![0xFF, 0],
                1 => vec![0xFF; 1 + rng.below(3)],
                2 => vec![0],
                _ => vec![rng.below(255) as u8, 0xFF, 0],
            }),
            _ => {
                if rng.flip() {
                    Seg::seg(Kind::Dqt, 0xDB, &[])
                } else {
                    Seg::seg(Kind::Dht, 0xC4, &[])
                }
            }
        }
    };
    // (in front of a segment that is not the data of a scan)
    let c: Vec<usize> = (1..s.0.len()).filter(|&i| s.0[i].kind != Kind::Ecs).collect();
    let at = *rng.pick(&c);
    let mut out = vec![];
    for x in &s.0[..at] {
        out.extend_from_slice(&x.data);
    }
    let first = one(rng);
    for _ in 0..n {
        if same {
            out.extend_from_slice(&first.data);
        } else {
            out.extend_from_slice(&one(rng).data);
        }
    }
    for x in &s.0[at..] {
        out.extend_from_slice(&x.data);
    }
    let what = ["DHT", "DQT", "DRI", "COM", "Exif", "XMP", "ICC", "Photoshop", "APPn", "fill bytes", "stray bytes", "empty tables", "stuffed bytes", "stray, stuffed and fill bytes"][kind];
    (out, what)
}

fn header_segs(s: &Stream) -> Vec<usize> {
    (0..s.0.len()).filter(|&i| s.0[i].kind != Kind::Ecs && s.0[i].data.len() > 4).collect()
}

fn interesting(rng: &mut Rng) -> u8 {
    *rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, 0x1F, 0x3F, 0x40, 0x44, 0x7F, 0x80, 0xC0, 0xD0, 0xD8, 0xD9, 0xDA, 0xE0, 0xF0, 0xFE, 0xFF])
}

pub fn mutate_stream(rng: &mut Rng, s: &mut Stream) {
    if s.0.is_empty() {
        return;
    }
    match rng.below(16) {
        0 => {
            let i = rng.below(s.0.len());
            s.0.remove(i);
        }
        1 => {
            let i = rng.below(s.0.len());
            let x = s.0[i].clone();
            let j = rng.range(0, s.0.len());
            s.insert(j, x);
        }
        2 => {
            let (i, j) = (rng.below(s.0.len()), rng.below(s.0.len()));
            s.0.swap(i, j);
        }
        3..=6 => {
            // one byte of a header
            let h = header_segs(s);
            if let Some(&i) = h.get(rng.below(h.len().max(1))) {
                let d = &mut s.0[i].data;
                let k = rng.range(1, d.len() - 1);
                d[k] = match rng.below(4) {
                    0 => rng.byte(),
                    1 => d[k].wrapping_add(1),
                    2 => d[k] ^ (1 << rng.below(8)),
                    _ => interesting(rng),
                };
            }
        }
        7 => {
            // dimensions and sampling of the frame header
            for i in s.find(Kind::Sof) {
                let d = &mut s.0[i].data;
                if d.len() < 13 {
                    continue;
                }
                match rng.below(4) {
                    0 => {
                        let v = dimension(rng);
                        d[5..7].copy_from_slice(&v.to_be_bytes())
                    }
                    1 => {
                        let v = dimension(rng);
                        d[7..9].copy_from_slice(&v.to_be_bytes())
                    }
                    2 => {
                        let n = (d.len() - 10) / 3;
                        let c = rng.below(n.max(1));
                        if 11 + 3 * c < d.len() {
                            d[11 + 3 * c] = (rng.range(1, 4) << 4 | rng.range(1, 4)) as u8
                        }
                    }
                    _ => d[1] = *rng.pick(&[0xC0, 0xC1, 0xC2, 0xC3]),
                }
            }
        }
        8 => {
            // parameters of a scan header
            let h = s.find(Kind::Sos);
            if let Some(&i) = h.get(rng.below(h.len().max(1))) {
                let d = &mut s.0[i].data;
                let n = d.len();
                let k = rng.below(3);
                if n >= 8 {
                    d[n - 1 - k] = match rng.below(3) {
                        0 => rng.byte(),
                        1 => (rng.below(14) << 4 | rng.below(14)) as u8,
                        _ => *rng.pick(&[0, 1, 0x10, 0x21, 63, 64, 0xFF, 5]),
                    }
                }
            }
        }
        9 => {
            let v = match rng.below(3) {
                0 => 1,
                1 => rng.range(0, 20) as u16,
                _ => rng.u64() as u16,
            };
            let at = rng.range(1, s.0.len());
            s.insert(at, Seg::seg(Kind::Dri, 0xDD, &v.to_be_bytes()));
        }
        10 | 11 => {
            // entropy-coded data
            let h = s.find(Kind::Ecs);
            if let Some(&i) = h.get(rng.below(h.len().max(1))) {
                let d = &mut s.0[i].data;
                for _ in 0..rng.range(1, 8) {
                    if d.is_empty() {
                        break;
                    }
                    let k = rng.below(d.len());
                    match rng.below(5) {
                        0 => d[k] = 0xFF,
                        1 => d[k] ^= 1 << rng.below(8),
                        2 => {
                            d.remove(k);
                        }
                        3 => d.insert(k, interesting(rng)),
                        _ => d[k] = rng.byte(),
                    }
                }
            }
        }
        12 => {
            let h = s.find(Kind::Ecs);
            if let Some(&i) = h.get(rng.below(h.len().max(1))) {
                let d = &mut s.0[i].data;
                let k = rng.below(d.len().max(1)).min(d.len());
                if rng.flip() {
                    d.truncate(k)
                } else {
                    let n = rng.range(1, 400);
                    *d = rng.bytes(n);
                    if rng.flip() {
                        for x in d.iter_mut() {
                            if *x == 0xFF {
                                *x = 0xFE
                            }
                        }
                    }
                }
            }
        }
        13 => {
            // a random Huffman table
            let mut bits = [0u8; 16];
            let mut n = 0usize;
            for b in bits.iter_mut() {
                *b = match rng.below(4) {
                    0 => rng.below(4) as u8,
                    1 if rng.chance(1, 6) => rng.byte(),
                    _ => rng.below(2) as u8,
                };
                n += *b as usize;
            }
            let mut b = vec![(rng.below(2) << 4 | rng.below(4)) as u8];
            b.extend_from_slice(&bits);
            for _ in 0..n {
                b.push(if rng.chance(1, 3) { rng.byte() } else { rng.below(12) as u8 })
            }
            let at = rng.range(1, s.0.len());
            s.insert(at, Seg::seg(Kind::Dht, 0xC4, &b));
        }
        14 => {
            let at = rng.range(1, s.0.len());
            let m = match rng.below(3) {
                0 => rng.range(0xC0, 0xFE) as u8,
                1 => rng.range(0xD0, 0xDF) as u8,
                _ => rng.byte(),
            };
            let n = rng.below(20);
            let b = rng.bytes(n);
            s.insert(at, if rng.flip() { Seg::seg(Kind::Raw, m, &b) } else { Seg::new(Kind::Raw, vec![0xFF, m]) });
        }
        _ => decorate(rng, s),
    }
}

fn dimension(rng: &mut Rng) -> u16 {
    match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => 65535 - rng.below(16) as u16,
        3 => rng.range(1, 300) as u16,
        4 => rng.range(1, 5000) as u16,
        _ => rng.u64() as u16,
    }
}

pub fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    match rng.below(7) {
        0 => {
            let k = rng.below(b.len());
            b.truncate(k)
        }
        1 => {
            let k = rng.below(b.len());
            b[k] = interesting(rng)
        }
        2 => {
            let k = rng.below(b.len());
            b[k] ^= 1 << rng.below(8)
        }
        3 => {
            let k = rng.range(0, b.len());
            let n = rng.range(1, 8);
            let x = rng.bytes(n);
            b.splice(k..k, x);
        }
        4 => {
            let k = rng.below(b.len());
            let n = rng.range(1, 16).min(b.len() - k);
            b.drain(k..k + n);
        }
        5 => {
            let (i, j) = (rng.below(b.len()), rng.below(b.len()));
            let n = rng.range(1, 64).min(b.len() - i.max(j));
            let x = b[i..i + n].to_vec();
            b[j..j + n].copy_from_slice(&x);
        }
        _ => {
            // a marker in the middle
            let k = rng.below(b.len());
            let m = rng.range(0xC0, 0xFE) as u8;
            b.splice(k..k, [0xFF, m]);
        }
    }
}

/// A hostile byte string of at most `max` declared pixels.
pub fn hostile(cx: &mut Cx, rng: &mut Rng, max: usize) -> Vec<u8> {
    if cx.store.corpus.is_none() {
        cx.store.corpus = Some(corpus());
    }
    let corpus = cx.store.corpus.as_ref().unwrap();
    let mut b = match rng.below(20) {
        0 => {
            let n = rng.below(200);
            let mut b = vec![0xFF, 0xD8];
            b.extend(rng.bytes(n));
            b
        }
        1 | 2 if !corpus.is_empty() => {
            let mut b = rng.pick(corpus).clone();
            for _ in 0..rng.below(4) {
                mutate_bytes(rng, &mut b);
            }
            b
        }
        3 | 4 => {
            let mut s = crate::checks::rules::unacceptable(rng);
            if rng.chance(1, 3) {
                mutate_stream(rng, &mut s);
            }
            let mut b = s.bytes();
            if rng.chance(1, 4) {
                mutate_bytes(rng, &mut b);
            }
            b
        }
        5..=8 => {
            let mut b = valid(rng, 60).bytes();
            for _ in 0..rng.range(1, 4) {
                mutate_bytes(rng, &mut b);
            }
            b
        }
        _ => {
            let mut s = valid(rng, 60);
            for _ in 0..rng.range(1, 5) {
                mutate_stream(rng, &mut s);
            }
            let mut b = s.bytes();
            if rng.chance(1, 6) {
                mutate_bytes(rng, &mut b);
            }
            b
        }
    };
    clamp_dims(&mut b, max);
    b
}
