//! Lossless (SOF3) coder, written from T.81 Annex H.
use crate::enc::{cat, emit, mag_bits, Tok};
use crate::huff::{self, Enc, Spec, Style};
use crate::model::*;
use crate::refs::predict;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct LScan {
    pub comps: Vec<usize>,
    pub sel: u8,
    pub pt: u8,
    /// restart interval in rows; 0: none
    pub rows: usize,
}

#[derive(Clone, Debug)]
pub struct LImage {
    pub w: usize,
    pub h: usize,
    pub precision: u8,
    pub ids: Vec<u8>,
    pub fac: (usize, usize),
    /// per component, row major, multiples of 2^pt of their scan
    pub samples: Vec<Vec<u16>>,
    pub scans: Vec<LScan>,
    pub style: Style,
    pub mixed_styles: bool,
    pub seed: u64,
}

impl LImage {
    pub fn differences(&self, s: &LScan, ci: usize) -> Vec<i32> {
        let x = &self.samples[ci];
        let (w, h) = (self.w, self.h);
        let at = |y: usize, c: usize| (x[y * w + c] >> s.pt) as i32;
        let mut out = Vec::with_capacity(w * h);
        for y in 0..h {
            let first_line = y == 0 || (s.rows > 0 && y % s.rows == 0);
            for c in 0..w {
                let p = if first_line {
                    if c == 0 {
                        1 << (self.precision - s.pt - 1)
                    } else {
                        at(y, c - 1)
                    }
                } else if c == 0 {
                    at(y - 1, 0)
                } else {
                    predict(s.sel, at(y, c - 1), at(y - 1, c), at(y - 1, c - 1))
                };
                let d = (at(y, c) - p) & 0xFFFF;
                out.push(if d > 32768 { d - 65536 } else { d });
            }
        }
        out
    }

    pub fn encode(&self) -> Stream {
        let mut rng = Rng::new(self.seed);
        let mut segs = vec![Seg::new(Kind::Soi, vec![0xFF, 0xD8])];
        let mut b = vec![
            self.precision,
            (self.h >> 8) as u8,
            self.h as u8,
            (self.w >> 8) as u8,
            self.w as u8,
            self.ids.len() as u8,
        ];
        for &id in &self.ids {
            b.extend_from_slice(&[id, (self.fac.0 << 4 | self.fac.1) as u8, 0]);
        }
        segs.push(Seg::seg(Kind::Sof, 0xC3, &b));
        let mut cur: [Option<Spec>; 4] = Default::default();
        let mut interval = 0;
        for s in &self.scans {
            let slots: Vec<u8> = s.comps.iter().map(|_| rng.below(4) as u8).collect();
            let diffs: Vec<Vec<i32>> = s.comps.iter().map(|&c| self.differences(s, c)).collect();
            let mut toks = vec![];
            let n = self.w * self.h;
            for i in 0..n {
                if s.rows > 0 && i > 0 && i % (s.rows * self.w) == 0 {
                    toks.push(Tok::Restart);
                }
                for (k, d) in diffs.iter().enumerate() {
                    let d = d[i];
                    if d == 32768 {
                        toks.push(Tok::S(0, slots[k], 16, 0, 0));
                    } else {
                        let c = cat(d);
                        toks.push(Tok::S(0, slots[k], c, mag_bits(d, c), c));
                    }
                }
            }
            let mut freq = [[0u32; 256]; 4];
            for t in &toks {
                if let Tok::S(_, sl, sym, _, _) = *t {
                    freq[sl as usize][sym as usize] += 1;
                }
            }
            let mut bodies = vec![];
            for sl in 0..4 {
                if !slots.iter().any(|&x| x as usize == sl) {
                    continue;
                }
                if let Some(t) = &cur[sl] {
                    if t.covers(&freq[sl]) && rng.flip() {
                        continue;
                    }
                }
                let style = if self.mixed_styles { *rng.pick(&huff::STYLES) } else { self.style };
                let sp = huff::build(&freq[sl], true, style, &mut rng);
                bodies.push(sp.body(0, sl as u8));
                cur[sl] = Some(sp);
            }
            for b in bodies {
                segs.push(Seg::seg(Kind::Dht, 0xC4, &b));
            }
            let r = s.rows * self.w;
            if r != interval {
                let dri = Seg::seg(Kind::Dri, 0xDD, &(r as u16).to_be_bytes());
                if interval == 0 && segs.iter().all(|s| s.kind != Kind::Sos) && rng.chance(1, 3) {
                    // anywhere among the headers, in front of the frame header too
                    let at = rng.range(1, segs.len());
                    segs.insert(at, dri);
                } else {
                    segs.push(dri);
                }
                interval = r;
            }
            let mut b = vec![s.comps.len() as u8];
            for (k, &c) in s.comps.iter().enumerate() {
                b.extend_from_slice(&[self.ids[c], slots[k] << 4]);
            }
            b.extend_from_slice(&[s.sel, 0, s.pt]);
            segs.push(Seg::seg(Kind::Sos, 0xDA, &b));
            let mut enc: [[Option<Enc>; 4]; 2] = Default::default();
            for sl in 0..4 {
                enc[0][sl] = cur[sl].as_ref().map(|t| t.enc());
            }
            segs.push(emit(&toks, &enc, 0xFF, &mut rng));
        }
        segs.push(Seg::new(Kind::Eoi, vec![0xFF, 0xD9]));
        Stream(segs)
    }

    /// The bytes decoding has to return.
    pub fn expected(&self) -> Vec<u8> {
        let n = self.w * self.h;
        let mut out = vec![];
        for i in 0..n {
            for c in &self.samples {
                if self.precision <= 8 {
                    out.push(c[i] as u8)
                } else {
                    out.extend_from_slice(&c[i].to_ne_bytes())
                }
            }
        }
        out
    }
}

pub fn random(rng: &mut Rng, n: usize, max_px: usize) -> LImage {
    let (mut w, mut h) = (crate::gen::dim(rng, 400), crate::gen::dim(rng, 400));
    if rng.chance(1, 8) {
        w = rng.range(100, 400);
    }
    if max_px >= 100_000 {
        // beyond what 16 bits count, or a line of the greatest length
        (w, h) = match rng.below(4) {
            0 => (rng.range(200, 700), rng.range(200, 700)),
            1 => (rng.range(40_000, 65_535), rng.range(1, 3)),
            2 => (rng.range(1, 3), rng.range(40_000, 65_535)),
            _ => (65_535, 1),
        };
    }
    let mut max_px = max_px;
    if !cfg!(miri) && max_px >= 2000 && rng.chance(1, 200) {
        (w, h) = (crate::gen::long_side(rng), rng.range(1, 9));
        if rng.flip() {
            (w, h) = (h, w)
        }
        max_px = max_px.max(150_000);
    }
    while w * h * n > max_px {
        if w > h {
            w = (w + 1) / 2
        } else {
            h = (h + 1) / 2
        }
    }
    let precision = match rng.below(4) {
        0 => 8,
        1 => 16,
        2 => rng.range(2, 8) as u8,
        _ => rng.range(2, 16) as u8,
    };
    random_with(rng, n, w, h, precision)
}

pub fn random_with(rng: &mut Rng, n: usize, w: usize, h: usize, precision: u8) -> LImage {
    let mut groups: Vec<Vec<usize>> = vec![];
    if rng.flip() {
        groups.push((0..n).collect());
    } else {
        for i in 0..n {
            let k = rng.below(groups.len() + 1);
            if k < groups.len() {
                groups[k].push(i)
            } else {
                groups.push(vec![i])
            }
        }
        rng.shuffle(&mut groups);
    }
    let mut samples = vec![vec![0u16; w * h]; n];
    let mut scans = vec![];
    for g in groups {
        let pt = match rng.below(4) {
            0 | 1 => 0,
            2 => rng.below(precision as usize) as u8,
            _ => rng.below(3.min(precision as usize)) as u8,
        };
        let sel = rng.range(1, 7) as u8;
        let rows = match rng.below(3) {
            0 => rng.range(1, h.min(9)),
            1 => rng.range(1, h + 1),
            _ => 0,
        };
        let rows = if rows * w > 65535 { 0 } else { rows };
        let kind = rng.below(6);
        let top = (1u32 << precision) - 1;
        for &c in &g {
            let (a, bx, by) = (rng.below(top as usize + 1) as f64, rng.f64() * 9.0 - 4.0, rng.f64() * 9.0 - 4.0);
            let spread = rng.range(1, 20) as i64;
            for y in 0..h {
                for x in 0..w {
                    let v = match kind {
                        0 | 5 => (rng.u64() as u32) & top,
                        1 => (a + bx * x as f64 + by * y as f64).clamp(0.0, top as f64) as u32,
                        2 => {
                            if rng.flip() {
                                top
                            } else {
                                0
                            }
                        }
                        3 => (a as i64 + rng.irange(-spread, spread)).clamp(0, top as i64) as u32,
                        _ => (x as u32 * 3 + y as u32 * 5) & top,
                    };
                    samples[c][y * w + x] = ((v as u16) >> pt) << pt;
                }
            }
        }
        scans.push(LScan { comps: g, sel, pt, rows });
    }
    LImage {
        w,
        h,
        precision,
        ids: crate::gen::ids(rng, n),
        fac: (1, 1),
        samples,
        scans,
        style: *rng.pick(&huff::STYLES),
        mixed_styles: rng.chance(1, 3),
        seed: rng.u64(),
    }
}
