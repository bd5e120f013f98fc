//! Huffman coder for DCT frames: sequential and progressive, any scan script.
use crate::huff::{self, Enc, Spec, Style};
use crate::model::*;
use crate::rng::Rng;

pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitW {
    pub fn new() -> BitW {
        BitW { out: vec![], acc: 0, n: 0 }
    }
    pub fn put(&mut self, v: u32, n: u32) {
        if n == 0 {
            return;
        }
        self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1));
        self.n += n;
        while self.n >= 8 {
            let b = (self.acc >> (self.n - 8)) as u8;
            self.out.push(b);
            if b == 0xFF {
                self.out.push(0);
            }
            self.n -= 8;
        }
        self.acc &= (1 << self.n) - 1;
    }
    /// Pad to a byte boundary with the low bits of `pad`.
    pub fn align(&mut self, pad: u8) {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put(pad as u32, k);
        }
    }
    pub fn marker(&mut self, m: u8) {
        self.out.push(0xFF);
        self.out.push(m);
    }
}

/// One entropy-coded element: a symbol of a table (or none) followed by raw bits.
#[derive(Clone, Copy, Debug)]
pub enum Tok {
    /// class (0 DC, 1 AC), table slot, symbol, bits, count
    S(u8, u8, u8, u32, u8),
    Bits(u32, u8),
    Restart,
}

pub fn cat(v: i32) -> u8 {
    (32 - v.unsigned_abs().leading_zeros()) as u8
}
pub fn mag_bits(v: i32, n: u8) -> u32 {
    if v < 0 {
        (v - 1) as u32 & ((1u32 << n) - 1)
    } else {
        v as u32
    }
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub proc_: Proc,
    pub scans: Vec<Scan>,
    pub style: Style,
    /// fixed style for every table, or a random one per table
    pub mixed_styles: bool,
    /// write quantisation tables with 16-bit elements even when 8 suffice
    pub q16: bool,
    /// value of padding bits before markers: 0xFF ones (standard), 0 zeros, 1 random
    pub pad: u8,
    /// longest EOB run emitted
    pub max_eobrun: u32,
    /// several tables per DHT / DQT segment
    pub group: bool,
    /// scan tables stated before the frame header where possible
    pub early_tables: bool,
    /// omit DHT segments for tables equal to the standard ones (motion JPEG)
    pub omit_std: bool,
    /// quantisation tables written before the scan that needs them, over ones no longer needed (sequential)
    pub late_q: bool,
    pub seed: u64,
}

impl Opts {
    pub fn simple(f: &Frame) -> Opts {
        Opts {
            proc_: Proc::Baseline,
            scans: vec![Scan { comps: (0..f.comps.len()).collect(), ss: 0, se: 63, ah: 0, al: 0, restart: 0 }],
            style: Style::Optimal,
            mixed_styles: false,
            q16: false,
            pad: 0xFF,
            max_eobrun: 0x7FFF,
            group: true,
            early_tables: false,
            omit_std: false,
            late_q: false,
            seed: 1,
        }
    }
    /// The canonical sequential coding with one component per scan (always legal).
    pub fn canonical(f: &Frame) -> Opts {
        let mut o = Opts::simple(f);
        o.scans = (0..f.comps.len()).map(|i| Scan { comps: vec![i], ss: 0, se: 63, ah: 0, al: 0, restart: 0 }).collect();
        o
    }
}

struct Prog {
    eobrun: u32,
    pend: Vec<u8>,
}

fn flush_eob(p: &mut Prog, ta: u8, toks: &mut Vec<Tok>) {
    if p.eobrun > 0 {
        let n = 31 - p.eobrun.leading_zeros();
        toks.push(Tok::S(1, ta, (n << 4) as u8, p.eobrun & ((1 << n) - 1), n as u8));
        p.eobrun = 0;
        push_bits(&mut p.pend, toks);
    }
}
fn push_bits(b: &mut Vec<u8>, toks: &mut Vec<Tok>) {
    for &x in b.iter() {
        toks.push(Tok::Bits(x as u32, 1));
    }
    b.clear();
}

fn seq_block(c: &Block, dc: Option<i32>, td: u8, ta: u8, toks: &mut Vec<Tok>) {
    let diff = dc.unwrap();
    let n = cat(diff);
    toks.push(Tok::S(0, td, n, mag_bits(diff, n), n));
    let mut r = 0u8;
    for k in 1..64 {
        let v = c[ZZ[k] as usize] as i32;
        if v == 0 {
            r += 1;
            continue;
        }
        while r > 15 {
            toks.push(Tok::S(1, ta, 0xF0, 0, 0));
            r -= 16;
        }
        let n = cat(v);
        toks.push(Tok::S(1, ta, r << 4 | n, mag_bits(v, n), n));
        r = 0;
    }
    if r > 0 {
        toks.push(Tok::S(1, ta, 0, 0, 0));
    }
}

fn ac_first(c: &Block, s: &Scan, ta: u8, max: u32, p: &mut Prog, toks: &mut Vec<Tok>) {
    let mut r = 0u8;
    for k in s.ss..=s.se {
        let c = c[ZZ[k] as usize] as i32;
        let v = if c < 0 { -((-c) >> s.al) } else { c >> s.al };
        if v == 0 {
            r += 1;
            continue;
        }
        flush_eob(p, ta, toks);
        while r > 15 {
            toks.push(Tok::S(1, ta, 0xF0, 0, 0));
            r -= 16;
        }
        let n = cat(v);
        toks.push(Tok::S(1, ta, r << 4 | n, mag_bits(v, n), n));
        r = 0;
    }
    if r > 0 {
        p.eobrun += 1;
        if p.eobrun >= max {
            flush_eob(p, ta, toks);
        }
    }
}

fn ac_refine(c: &Block, s: &Scan, ta: u8, max: u32, p: &mut Prog, toks: &mut Vec<Tok>) {
    let abs = |k: usize| (c[ZZ[k] as usize] as i32).abs() >> s.al;
    let eob = (s.ss..=s.se).rev().find(|&k| abs(k) == 1).unwrap_or(0);
    let mut r = 0u32;
    let mut br: Vec<u8> = vec![];
    for k in s.ss..=s.se {
        let t = abs(k);
        if t == 0 {
            r += 1;
            continue;
        }
        while r > 15 && k <= eob {
            flush_eob(p, ta, toks);
            toks.push(Tok::S(1, ta, 0xF0, 0, 0));
            push_bits(&mut br, toks);
            r -= 16;
        }
        if t > 1 {
            br.push((t & 1) as u8);
            continue;
        }
        flush_eob(p, ta, toks);
        let sign = (c[ZZ[k] as usize] > 0) as u32;
        toks.push(Tok::S(1, ta, (r << 4) as u8 | 1, sign, 1));
        push_bits(&mut br, toks);
        r = 0;
    }
    if r > 0 || !br.is_empty() {
        p.eobrun += 1;
        p.pend.extend(br);
        if p.eobrun >= max {
            flush_eob(p, ta, toks);
        }
    }
}

/// Tokens of one scan. `slots`: (dc table, ac table) per scan component.
pub fn scan_tokens(f: &Frame, proc_: Proc, s: &Scan, slots: &[(u8, u8)], max_eobrun: u32) -> Vec<Tok> {
    let mut toks = vec![];
    let mut pred = [0i32; 4];
    let mut p = Prog { eobrun: 0, pend: vec![] };
    let inter = s.comps.len() > 1;
    let (mx, my) = if inter { (f.mcux, f.mcuy) } else { (f.comps[s.comps[0]].nbw, f.comps[s.comps[0]].nbh) };
    let mut left = s.restart;
    for y in 0..my {
        for x in 0..mx {
            if s.restart > 0 {
                if left == 0 {
                    flush_eob(&mut p, slots[0].1, &mut toks);
                    toks.push(Tok::Restart);
                    pred = [0; 4];
                    left = s.restart;
                }
                left -= 1;
            }
            for (i, &ci) in s.comps.iter().enumerate() {
                let c = &f.comps[ci];
                let (nh, nv) = if inter { (c.h, c.v) } else { (1, 1) };
                for v in 0..nv {
                    for h in 0..nh {
                        let b = &c.coefs[(y * nv + v) * c.bw + x * nh + h];
                        let (td, ta) = slots[i];
                        if proc_ != Proc::Progressive {
                            let d = b[0] as i32 - pred[i];
                            pred[i] = b[0] as i32;
                            seq_block(b, Some(d), td, ta, &mut toks);
                        } else if s.ss == 0 {
                            if s.ah == 0 {
                                let v = (b[0] >> s.al) as i32;
                                let d = v - pred[i];
                                pred[i] = v;
                                let n = cat(d);
                                toks.push(Tok::S(0, td, n, mag_bits(d, n), n));
                            } else {
                                toks.push(Tok::Bits((b[0] >> s.al) as u32 & 1, 1));
                            }
                        } else if s.ah == 0 {
                            ac_first(b, s, ta, max_eobrun, &mut p, &mut toks);
                        } else {
                            ac_refine(b, s, ta, max_eobrun, &mut p, &mut toks);
                        }
                    }
                }
            }
        }
    }
    flush_eob(&mut p, slots.first().map_or(0, |s| s.1), &mut toks);
    toks
}

/// Emit tokens with the given tables ([class][slot]).
pub fn emit(toks: &[Tok], tabs: &[[Option<Enc>; 4]; 2], pad: u8, rng: &mut Rng) -> Seg {
    let mut w = BitW::new();
    let mut rst = vec![];
    let mut n = 0u8;
    let padv = |rng: &mut Rng| match pad {
        0xFF => 0xFF,
        0 => 0,
        _ => rng.byte(),
    };
    for t in toks {
        match *t {
            Tok::S(c, s, sym, bits, nb) => {
                let e = tabs[c as usize][s as usize].as_ref().unwrap();
                debug_assert!(e.len[sym as usize] > 0);
                w.put(e.code[sym as usize], e.len[sym as usize] as u32);
                w.put(bits, nb as u32);
            }
            Tok::Bits(b, nb) => w.put(b, nb as u32),
            Tok::Restart => {
                w.align(padv(rng));
                rst.push(w.out.len());
                w.marker(0xD0 + n);
                n = (n + 1) % 8;
            }
        }
    }
    w.align(padv(rng));
    let mut s = Seg::new(Kind::Ecs, w.out);
    s.rst = rst;
    s
}

pub fn sof_seg(f: &Frame, marker: u8, precision: u8) -> Seg {
    let mut b = vec![precision, (f.h >> 8) as u8, f.h as u8, (f.w >> 8) as u8, f.w as u8, f.comps.len() as u8];
    for c in &f.comps {
        b.extend_from_slice(&[c.id, (c.h << 4 | c.v) as u8, c.tq as u8]);
    }
    Seg::seg(Kind::Sof, marker, &b)
}

pub fn dqt_body(id: usize, q: &[u16; 64], q16: bool) -> Vec<u8> {
    let wide = q16 || q.iter().any(|&x| x > 255);
    let mut b = vec![(wide as u8) << 4 | id as u8];
    for k in 0..64 {
        let v = q[ZZ[k] as usize];
        if wide {
            b.push((v >> 8) as u8);
        }
        b.push(v as u8);
    }
    b
}

fn push_grouped(out: &mut Vec<Seg>, kind: Kind, marker: u8, bodies: Vec<Vec<u8>>, group: bool) {
    if bodies.is_empty() {
        return;
    }
    if group {
        out.push(Seg::seg(kind, marker, &bodies.concat()));
    } else {
        for b in bodies {
            out.push(Seg::seg(kind, marker, &b));
        }
    }
}

pub fn sos_seg(f: &Frame, s: &Scan, slots: &[(u8, u8)]) -> Seg {
    let mut b = vec![s.comps.len() as u8];
    for (i, &c) in s.comps.iter().enumerate() {
        b.extend_from_slice(&[f.comps[c].id, slots[i].0 << 4 | slots[i].1]);
    }
    b.extend_from_slice(&[s.ss as u8, s.se as u8, (s.ah << 4 | s.al) as u8]);
    Seg::seg(Kind::Sos, 0xDA, &b)
}

/// Table slots for the components: those of one scan differ when their tables do.
fn late_tables(f: &Frame, o: &Opts, rng: &mut Rng) -> Option<Vec<usize>> {
    if o.proc_ == Proc::Progressive {
        return None;
    }
    for _ in 0..20 {
        let l: Vec<usize> = f.comps.iter().map(|_| rng.below(4)).collect();
        let clash = o.scans.iter().any(|s| {
            s.comps.iter().any(|&a| s.comps.iter().any(|&b| l[a] == l[b] && f.comps[a].tq != f.comps[b].tq))
        });
        if !clash {
            return Some(l);
        }
    }
    None
}

/// Complete stream: SOI, DQT, SOF, per scan (DHT, DRI, SOS, data), EOI.
pub fn encode(f: &Frame, o: &Opts) -> Stream {
    let mut rng = Rng::new(o.seed);
    let mut segs = vec![Seg::new(Kind::Soi, vec![0xFF, 0xD8])];
    let mut qb = vec![];
    for i in 0..4 {
        if let Some(q) = &f.q[i] {
            if f.comps.iter().any(|c| c.tq == i) {
                qb.push(dqt_body(i, q, o.q16));
            }
        }
    }
    let late = if o.late_q { late_tables(f, o, &mut rng) } else { None };
    if late.is_none() {
        push_grouped(&mut segs, Kind::Dqt, 0xDB, qb, o.group);
    }
    let sof = match o.proc_ {
        Proc::Baseline => 0xC0,
        Proc::Extended => 0xC1,
        Proc::Progressive => 0xC2,
    };
    let sof_at = segs.len();
    let mut seg = sof_seg(f, sof, 8);
    if let Some(l) = &late {
        for (i, t) in l.iter().enumerate() {
            seg.data[12 + 3 * i] = *t as u8;
        }
    }
    segs.push(seg);
    let nslots = if o.proc_ == Proc::Baseline { 2 } else { 4 };
    let mut cur: [[Option<Spec>; 4]; 2] = Default::default();
    let mut interval = 0u16;
    for (si, s) in o.scans.iter().enumerate() {
        if let Some(l) = &late {
            let mut b = vec![];
            if rng.chance(1, 3) {
                // a table nobody uses
                let t = rng.below(4);
                b.push(dqt_body(t, &crate::gen::qtable(&mut rng), o.q16));
            }
            for &c in &s.comps {
                if let Some(q) = &f.q[f.comps[c].tq] {
                    b.push(dqt_body(l[c], q, o.q16));
                }
            }
            push_grouped(&mut segs, Kind::Dqt, 0xDB, b, o.group);
        }
        let same = rng.chance(1, 3);
        let base = (rng.below(nslots) as u8, rng.below(nslots) as u8);
        let needs_dc = s.ss == 0 && s.ah == 0;
        let slots: Vec<(u8, u8)> = s
            .comps
            .iter()
            .enumerate()
            .map(|(i, _)| {
                if same {
                    base
                } else if o.style == Style::Std && !o.mixed_styles {
                    ((i > 0) as u8, (i > 0) as u8)
                } else {
                    (rng.below(nslots) as u8, rng.below(nslots) as u8)
                }
            })
            .collect();
        let toks = scan_tokens(f, o.proc_, s, &slots, o.max_eobrun.max(1));
        let mut freq = [[[0u32; 256]; 4]; 2];
        for t in &toks {
            if let Tok::S(c, sl, sym, _, _) = *t {
                freq[c as usize][sl as usize][sym as usize] += 1;
            }
        }
        let mut bodies = vec![];
        for class in 0..2usize {
            for sl in 0..4usize {
                let used = slots.iter().any(|x| if class == 0 { x.0 } else { x.1 } as usize == sl);
                let wanted = if class == 0 { needs_dc } else { s.se > 0 };
                if !used || !wanted {
                    continue;
                }
                let fr = &freq[class][sl];
                // keep the current table when it serves (sometimes)
                if let Some(t) = &cur[class][sl] {
                    if t.covers(fr) && rng.chance(1, 2) {
                        continue;
                    }
                }
                let style = if o.mixed_styles { *rng.pick(&huff::STYLES) } else { o.style };
                let mut sp = huff::build(fr, class == 0, style, &mut rng);
                if o.omit_std {
                    sp = huff::std_table(class == 0, sl.min(1));
                    if cur[class][sl].is_none() && sl < 2 {
                        cur[class][sl] = Some(sp);
                        continue;
                    }
                }
                if cur[class][sl].as_ref() != Some(&sp) {
                    bodies.push(sp.body(class as u8, sl as u8));
                    cur[class][sl] = Some(sp);
                }
            }
        }
        if si == 0 && o.early_tables {
            let mut t = vec![];
            push_grouped(&mut t, Kind::Dht, 0xC4, bodies, o.group);
            for (k, x) in t.into_iter().enumerate() {
                segs.insert(sof_at + k, x);
            }
        } else {
            push_grouped(&mut segs, Kind::Dht, 0xC4, bodies, o.group);
        }
        if s.restart != interval {
            let dri = Seg::seg(Kind::Dri, 0xDD, &s.restart.to_be_bytes());
            if si == 0 && rng.chance(1, 3) {
                // anywhere among the headers, in front of the frame header too
                let at = rng.range(1, segs.len());
                segs.insert(at, dri);
            } else {
                segs.push(dri);
            }
            interval = s.restart;
        }
        segs.push(sos_seg(f, s, &slots));
        let mut enc: [[Option<Enc>; 4]; 2] = Default::default();
        for c in 0..2 {
            for sl in 0..4 {
                enc[c][sl] = cur[c][sl].as_ref().map(|t| t.enc());
            }
        }
        segs.push(emit(&toks, &enc, o.pad, &mut rng));
    }
    segs.push(Seg::new(Kind::Eoi, vec![0xFF, 0xD9]));
    Stream(segs)
}
