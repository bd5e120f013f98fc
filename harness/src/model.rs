//! DCT image model: geometry and quantised coefficients, independent of how they are coded.

#[rustfmt::skip]
pub const ZZ: [u8; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

pub type Block = [i16; 64];

#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: usize,
    /// size in samples
    pub cw: usize,
    pub ch: usize,
    /// size in blocks, as coded in a scan of its own
    pub nbw: usize,
    pub nbh: usize,
    /// size in blocks, padded to whole MCUs
    pub bw: usize,
    pub bh: usize,
    /// natural order, row major over bw x bh
    pub coefs: Vec<Block>,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub w: usize,
    pub h: usize,
    pub hmax: usize,
    pub vmax: usize,
    pub mcux: usize,
    pub mcuy: usize,
    pub comps: Vec<Comp>,
    /// natural order
    pub q: [Option<[u16; 64]>; 4],
}

pub fn cdiv(a: usize, b: usize) -> usize {
    (a + b - 1) / b
}

impl Frame {
    pub fn new(w: usize, h: usize, comps: &[(u8, usize, usize, usize)]) -> Frame {
        let hmax = comps.iter().map(|c| c.1).max().unwrap();
        let vmax = comps.iter().map(|c| c.2).max().unwrap();
        let mcux = cdiv(w, 8 * hmax);
        let mcuy = cdiv(h, 8 * vmax);
        let comps = comps
            .iter()
            .map(|&(id, ch, cv, tq)| {
                let cw_ = cdiv(w * ch, hmax);
                let ch_ = cdiv(h * cv, vmax);
                Comp {
                    id,
                    h: ch,
                    v: cv,
                    tq,
                    cw: cw_,
                    ch: ch_,
                    nbw: cdiv(cw_, 8),
                    nbh: cdiv(ch_, 8),
                    bw: mcux * ch,
                    bh: mcuy * cv,
                    coefs: vec![[0; 64]; mcux * ch * mcuy * cv],
                }
            })
            .collect();
        Frame { w, h, hmax, vmax, mcux, mcuy, comps, q: [None; 4] }
    }
    pub fn blocks(&self) -> usize {
        self.comps.iter().map(|c| c.bw * c.bh).sum()
    }
    /// A one-component frame that carries component `i` as a picture of its own.
    pub fn extract(&self, i: usize) -> Frame {
        let c = &self.comps[i];
        let mut f = Frame::new(c.cw, c.ch, &[(1, 1, 1, c.tq)]);
        f.q = self.q;
        let o = &mut f.comps[0];
        for y in 0..o.bh {
            for x in 0..o.bw {
                o.coefs[y * o.bw + x] = c.coefs[y * c.bw + x];
            }
        }
        f
    }
}

/// How a frame is coded.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Proc {
    Baseline,
    Extended,
    Progressive,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: usize,
    pub al: usize,
    /// restart interval in MCUs of this scan; 0: none
    pub restart: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Soi,
    App(u8),
    Com,
    Dqt,
    Sof,
    Dht,
    Dri,
    Sos,
    Ecs,
    Eoi,
    Raw,
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub kind: Kind,
    /// everything, marker included
    pub data: Vec<u8>,
    /// Ecs only: offsets of RST markers
    pub rst: Vec<usize>,
}

impl Seg {
    pub fn new(kind: Kind, data: Vec<u8>) -> Seg {
        Seg { kind, data, rst: vec![] }
    }
    /// A marker segment with its length field.
    pub fn seg(kind: Kind, marker: u8, body: &[u8]) -> Seg {
        let n = body.len() + 2;
        let mut d = vec![0xFF, marker, (n >> 8) as u8, n as u8];
        d.extend_from_slice(body);
        Seg::new(kind, d)
    }
    pub fn app(n: u8, body: &[u8]) -> Seg {
        Seg::seg(Kind::App(n), 0xE0 + n, body)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stream(pub Vec<Seg>);

impl Stream {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.0.iter().map(|s| s.data.len()).sum());
        for s in &self.0 {
            v.extend_from_slice(&s.data);
        }
        v
    }
    pub fn find(&self, k: Kind) -> Vec<usize> {
        (0..self.0.len()).filter(|&i| self.0[i].kind == k).collect()
    }
    pub fn insert(&mut self, at: usize, s: Seg) {
        self.0.insert(at, s);
    }
    /// Byte offset of segment `i`.
    pub fn offset(&self, i: usize) -> usize {
        self.0[..i].iter().map(|s| s.data.len()).sum()
    }
    /// Offset just past the frame header.
    pub fn sof_end(&self) -> usize {
        let i = self.find(Kind::Sof)[0];
        self.offset(i + 1)
    }
}
