//! Reference models, written from the standards in real arithmetic.
use crate::model::*;

/// cos((2x+1) u pi / 2N)
fn cosn(n: usize, x: usize, u: usize) -> f64 {
    ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / (2 * n) as f64).cos()
}

pub struct Idct {
    n: usize,
    /// [x][u] with the c(u) factor folded in
    t: Vec<f64>,
}

impl Idct {
    /// N-point inverse transform of the N x N low-frequency coefficients, scaled like the 8-point one.
    pub fn new(n: usize) -> Idct {
        let mut t = vec![0.0; n * n];
        for x in 0..n {
            for u in 0..n {
                let c = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
                t[x * n + u] = 0.5 * c * cosn(n, x, u);
            }
        }
        Idct { n, t }
    }
    /// `f`: dequantised coefficients, natural order, 8 wide. Unclamped samples, +128.
    pub fn block(&self, f: &[f64; 64], out: &mut [f64]) {
        let n = self.n;
        let mut tmp = [0.0f64; 64];
        for y in 0..n {
            for u in 0..n {
                let mut s = 0.0;
                for v in 0..n {
                    s += self.t[y * n + v] * f[v * 8 + u];
                }
                tmp[y * n + u] = s;
            }
        }
        for y in 0..n {
            for x in 0..n {
                let mut s = 0.0;
                for u in 0..n {
                    s += self.t[x * n + u] * tmp[y * n + u];
                }
                out[y * n + x] = s + 128.0;
            }
        }
    }
    /// The inverse of `block`: the corner coefficients of an n x n picture.
    pub fn forward(&self, s: &[f64], f: &mut [f64; 64]) {
        let n = self.n;
        let g = (8.0 / n as f64).powi(2);
        for v in 0..n {
            for u in 0..n {
                let mut a = 0.0;
                for y in 0..n {
                    for x in 0..n {
                        a += self.t[y * n + v] * self.t[x * n + u] * (s[y * n + x] - 128.0);
                    }
                }
                f[v * 8 + u] = a * g;
            }
        }
    }
}

/// Forward 8x8 DCT of samples (level shifted by 128), natural order.
pub fn fdct(s: &[f64; 64]) -> [f64; 64] {
    thread_local!(static T: [f64; 64] = {
        let mut t = [0.0; 64];
        for u in 0..8 {
            for x in 0..8 {
                let c = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
                t[u * 8 + x] = 0.5 * c * cosn(8, x, u);
            }
        }
        t
    });
    T.with(|t| {
        let mut tmp = [0.0; 64];
        let mut out = [0.0; 64];
        for y in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for x in 0..8 {
                    a += t[u * 8 + x] * (s[y * 8 + x] - 128.0);
                }
                tmp[y * 8 + u] = a;
            }
        }
        for v in 0..8 {
            for u in 0..8 {
                let mut a = 0.0;
                for y in 0..8 {
                    a += t[v * 8 + y] * tmp[y * 8 + u];
                }
                out[v * 8 + u] = a;
            }
        }
        out
    })
}

pub fn dequant(b: &Block, q: &[u16; 64]) -> [f64; 64] {
    let mut f = [0.0; 64];
    for i in 0..64 {
        f[i] = b[i] as f64 * q[i] as f64;
    }
    f
}

/// Ideal plane of component `i` at scale n/8 (n = 8, 4, 2, 1), cropped to its size. Unclamped.
pub fn plane(f: &Frame, i: usize, n: usize) -> (usize, usize, Vec<f64>) {
    let c = &f.comps[i];
    let id = Idct::new(n);
    let (w, h) = (cdiv(f.w * c.h * n, f.hmax * 8), cdiv(f.h * c.v * n, f.vmax * 8));
    let mut out = vec![0.0; w * h];
    let mut blk = [0.0; 64];
    let q = f.q[c.tq].as_ref().unwrap();
    for by in 0..cdiv(h, n) {
        for bx in 0..cdiv(w, n) {
            id.block(&dequant(&c.coefs[by * c.bw + bx], q), &mut blk);
            for y in 0..n.min(h - by * n) {
                for x in 0..n.min(w - bx * n) {
                    out[(by * n + y) * w + bx * n + x] = blk[y * n + x];
                }
            }
        }
    }
    (w, h, out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Up {
    Copy,
    H2,
    V2,
    H2V2,
    Rep,
    No,
}

/// The filter the documentation prescribes for a component.
pub fn up_kind(h: usize, v: usize, hmax: usize, vmax: usize, ow: usize, oh: usize) -> Up {
    let h1 = h == hmax || ow == 1;
    let v1 = v == vmax || oh == 1;
    let (h2, v2) = (2 * h == hmax, 2 * v == vmax);
    if h1 && v1 {
        Up::Copy
    } else if h2 && v1 {
        Up::H2
    } else if h1 && v2 {
        Up::V2
    } else if h2 && v2 {
        Up::H2V2
    } else if hmax % h != 0 || vmax % v != 0 {
        Up::No
    } else {
        Up::Rep
    }
}

/// Ideal upsampled plane (real values).
pub fn upsample(p: &[u8], cw: usize, ch: usize, kind: Up, fx: usize, fy: usize, ow: usize, oh: usize) -> Vec<f64> {
    let at = |x: isize, y: isize| -> f64 {
        let x = x.clamp(0, cw as isize - 1) as usize;
        let y = y.clamp(0, ch as isize - 1) as usize;
        p[y * cw + x] as f64
    };
    let mut out = Vec::with_capacity(ow * oh);
    for y in 0..oh as isize {
        for x in 0..ow as isize {
            // nearest sample and its other neighbour on the side of this output pixel
            let (nx, fxn) = (x / 2, if x % 2 == 0 { x / 2 - 1 } else { x / 2 + 1 });
            let (ny, fyn) = (y / 2, if y % 2 == 0 { y / 2 - 1 } else { y / 2 + 1 });
            out.push(match kind {
                Up::Copy => at(x, y),
                Up::H2 => (3.0 * at(nx, y) + at(fxn, y)) / 4.0,
                Up::V2 => (3.0 * at(x, ny) + at(x, fyn)) / 4.0,
                Up::H2V2 => {
                    (9.0 * at(nx, ny) + 3.0 * at(fxn, ny) + 3.0 * at(nx, fyn) + at(fxn, fyn)) / 16.0
                }
                Up::Rep => at(x / fx as isize, y / fy as isize),
                Up::No => 0.0,
            });
        }
    }
    out
}

pub fn ycc(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (cb, cr) = (cb - 128.0, cr - 128.0);
    [y + 1.402 * cr, y - 0.344136286 * cb - 0.714136286 * cr, y + 1.772 * cb]
}

/// Distance of a sample from an ideal value that may lie beyond the range: the ends stand for all that is beyond them.
pub fn off(px: u8, ideal: f64) -> f64 {
    match px {
        0 => ideal.max(0.0),
        255 => (255.0 - ideal).max(0.0),
        p => (p as f64 - ideal).abs(),
    }
}

pub fn clamp8(x: f64) -> f64 {
    x.clamp(0.0, 255.0)
}

/// T.81 H.1.2: predictor from reconstructed, point-transformed neighbours.
pub fn predict(sel: u8, ra: i32, rb: i32, rc: i32) -> i32 {
    match sel {
        0 => 0,
        1 => ra,
        2 => rb,
        3 => rc,
        4 => ra + rb - rc,
        5 => ra + ((rb - rc) >> 1),
        6 => rb + ((ra - rc) >> 1),
        _ => (ra + rb) >> 1,
    }
}
