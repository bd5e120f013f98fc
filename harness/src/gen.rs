//! Random generation of frames, coefficients and codings.
use crate::enc::Opts;
use crate::huff::{Style, STYLES};
use crate::model::*;
use crate::refs;
use crate::rng::Rng;

pub fn qtable(rng: &mut Rng) -> [u16; 64] {
    let mut q = [1u16; 64];
    match rng.below(7) {
        0 => {}
        1 => q = [rng.range(1, 255) as u16; 64],
        2 => {
            for x in &mut q {
                *x = rng.range(1, 255) as u16
            }
        }
        3 => {
            let s = rng.range(1, 12);
            for (i, x) in q.iter_mut().enumerate() {
                *x = (1 + s * (i % 8 + i / 8)) as u16
            }
        }
        4 => {
            for x in &mut q {
                *x = rng.range(1, 2000) as u16
            }
        }
        5 => {
            // one odd element among small ones: catches misplaced table entries
            q = [rng.range(1, 8) as u16; 64];
            q[rng.below(64)] = rng.range(9, 255) as u16;
        }
        _ => {
            for x in &mut q {
                *x = rng.range(1, 16) as u16
            }
        }
    }
    if rng.chance(1, 20) {
        q[rng.below(64)] = 65535;
    }
    q
}

/// Samples of a block as an encoder could see them.
pub fn sample_block(rng: &mut Rng, kind: usize) -> [f64; 64] {
    let mut s = [0.0; 64];
    match kind {
        0 => {
            for x in &mut s {
                *x = rng.byte() as f64
            }
        }
        1 => {
            let v = rng.byte() as f64;
            s = [v; 64];
        }
        2 => {
            let (a, bx, by) = (rng.byte() as f64, rng.f64() * 40.0 - 20.0, rng.f64() * 40.0 - 20.0);
            for i in 0..64 {
                s[i] = (a + bx * (i % 8) as f64 + by * (i / 8) as f64).round().clamp(0.0, 255.0)
            }
        }
        3 => {
            let k = rng.u64();
            for i in 0..64 {
                s[i] = if k >> i & 1 == 1 { 255.0 } else { 0.0 }
            }
        }
        4 => {
            // stripes and checkers of full contrast
            let (px, py, o) = (rng.range(1, 4), rng.range(1, 4), rng.below(2));
            let m = rng.below(3);
            for i in 0..64 {
                let (x, y) = (i % 8 / px, i / 8 / py);
                let b = match m {
                    0 => x % 2,
                    1 => y % 2,
                    _ => (x + y) % 2,
                };
                s[i] = if b == o { 255.0 } else { 0.0 }
            }
        }
        5 => {
            // one basis function
            let (u, v, a) = (rng.below(8), rng.below(8), 127.0 * rng.f64());
            for i in 0..64 {
                let (x, y) = ((i % 8) as f64, (i / 8) as f64);
                let p = std::f64::consts::PI / 16.0;
                s[i] = (128.0 + a * ((2.0 * x + 1.0) * u as f64 * p).cos() * ((2.0 * y + 1.0) * v as f64 * p).cos()).round()
            }
        }
        6 => {
            let (a, d) = (rng.byte() as f64, rng.range(1, 30) as f64);
            for x in &mut s {
                *x = (a + (rng.f64() - 0.5) * 2.0 * d).round().clamp(0.0, 255.0)
            }
        }
        _ => {
            // impulse
            s = [rng.byte() as f64; 64];
            s[rng.below(64)] = rng.byte() as f64;
        }
    }
    s
}

pub fn quantise(f: &[f64; 64], q: &[u16; 64]) -> Block {
    let mut b = [0i16; 64];
    for i in 0..64 {
        let lim = if i == 0 { 1024.0 } else { 1023.0 };
        let x = f[i] / q[i] as f64;
        // a coarse 16-bit table entry must not push the value far beyond the range of 8-bit pictures
        let x = if q[i] > 255 { x.trunc() } else { x.round() };
        b[i] = x.clamp(-lim, 1023.0) as i16;
    }
    b
}

/// Coefficients an 8-bit encoder produces.
pub fn fill_encoder(rng: &mut Rng, f: &mut Frame) {
    let mode = rng.below(10);
    for c in &mut f.comps {
        let q = f.q[c.tq].unwrap();
        for b in &mut c.coefs {
            let k = if mode < 8 { mode } else { rng.below(8) };
            *b = quantise(&refs::fdct(&sample_block(rng, k)), &q);
        }
    }
}

/// Coefficients whose n x n low-frequency corner is the transform of an n x n picture (n = 1, 2, 4);
/// what lies beyond the corner is empty or arbitrary.
pub fn fill_low(rng: &mut Rng, f: &mut Frame, n: usize) {
    let id = refs::Idct::new(n);
    let mode = rng.below(9);
    let beyond = rng.below(3);
    for c in &mut f.comps {
        let q = f.q[c.tq].unwrap();
        for b in &mut c.coefs {
            let k = if mode < 8 { mode } else { rng.below(8) };
            let s = sample_block(rng, k);
            let mut small = [0.0; 16];
            // a window of the 8 x 8 pattern
            let (ox, oy) = (rng.below(9 - n), rng.below(9 - n));
            for i in 0..n * n {
                small[i] = s[(oy + i / n) * 8 + ox + i % n];
            }
            let mut z = [0.0; 64];
            id.forward(&small, &mut z);
            *b = quantise(&z, &q);
            for i in 0..64 {
                if i % 8 >= n || i / 8 >= n {
                    b[i] = match beyond {
                        0 => 0,
                        1 if rng.chance(1, 8) => rng.irange(-1023, 1023) as i16,
                        2 => rng.irange(-3, 3) as i16,
                        _ => 0,
                    };
                }
            }
        }
    }
}

/// Arbitrary codable coefficients (not necessarily of a picture).
pub fn fill_any(rng: &mut Rng, f: &mut Frame) {
    let mode = rng.below(7);
    for c in &mut f.comps {
        let n = c.coefs.len();
        let mut i = 0;
        while i < n {
            let b = &mut c.coefs[i];
            let m = if mode == 5 { *rng.pick(&[0, 1, 2, 3, 4, 6]) } else { mode };
            match m {
                0 => {
                    for x in b.iter_mut() {
                        *x = rng.irange(-1023, 1023) as i16
                    }
                }
                1 => {
                    b[0] = rng.irange(-500, 500) as i16;
                    for _ in 0..rng.below(6) {
                        let mag = 1 << rng.below(10);
                        b[rng.below(64)] = rng.irange(-mag, mag) as i16
                    }
                }
                2 => {
                    // mostly empty blocks: long EOB runs
                    if rng.chance(1, 20) {
                        b[rng.below(64)] = rng.irange(-7, 7) as i16
                    }
                }
                3 => {
                    for x in b.iter_mut() {
                        *x = rng.irange(-1, 1) as i16
                    }
                }
                6 => {
                    // every run and magnitude category alike
                    b[0] = rng.irange(-1023, 1023) as i16;
                    let mut k = 0;
                    while rng.chance(9, 10) {
                        k += 1 + rng.below(16);
                        if k > 63 {
                            break;
                        }
                        let s = rng.range(1, 10);
                        let v = rng.irange(1 << (s - 1), (1 << s) - 1) as i16;
                        b[ZZ[k] as usize] = if rng.flip() { v } else { -v };
                    }
                }
                _ => {
                    b[0] = rng.irange(-1023, 1023) as i16;
                    let last = rng.below(64);
                    for k in 1..=last {
                        if rng.chance(1, 3) {
                            b[ZZ[k] as usize] = rng.irange(-31, 31) as i16
                        }
                    }
                    // runs of 16 zeros and more
                    if rng.chance(1, 3) {
                        b[63] = if rng.flip() { 1 } else { -1 };
                    }
                }
            }
            i += 1;
        }
    }
    // extreme DC swings
    if rng.chance(1, 6) {
        for c in &mut f.comps {
            for b in &mut c.coefs {
                b[0] = if rng.flip() { 1023 } else { -1024 };
            }
        }
    }
}

/// A picture of more blocks than 14 or 16 bits can count, nearly all of them empty.
pub fn desert(rng: &mut Rng, n: usize) -> Frame {
    let id = ids(rng, n);
    let fac = if rng.flip() { vec![(1, 1); n] } else { factors(rng, n) };
    let blocks = match rng.below(4) {
        0 => rng.range(65_530, 65_600),
        1 => rng.range(66_000, 90_000),
        2 => rng.range(32_760, 33_000),
        _ => rng.range(16_300, 40_000),
    };
    // of the largest component
    let (hm, vm) = (fac.iter().map(|f| f.0).max().unwrap(), fac.iter().map(|f| f.1).max().unwrap());
    let k = (0..n).map(|i| fac[i].0 * fac[i].1).max().unwrap();
    let mcus = cdiv(blocks, k);
    let mx = match rng.below(3) {
        0 => rng.range(1, 8.min(mcus)),
        1 => ((mcus as f64).sqrt() as usize).max(1),
        _ => rng.range(1, mcus.min(1000)),
    };
    let my = cdiv(mcus, mx);
    let w = (mx * 8 * hm).saturating_sub(rng.below(3)).clamp(1, 65535);
    let h = (my * 8 * vm).saturating_sub(rng.below(3)).clamp(1, 65535);
    let mut f = frame_with(rng, w, h, &id, &fac);
    f.q.iter_mut().flatten().for_each(|q| q.iter_mut().for_each(|q| *q = (*q).min(60)));
    for c in &mut f.comps {
        let n = c.coefs.len();
        for _ in 0..rng.below(12) {
            // near the end, too
            let i = if rng.chance(1, 3) { n - 1 - rng.below(n.min(300)) } else { rng.below(n) };
            let k = rng.below(4);
            c.coefs[i][ZZ[if rng.flip() { k } else { rng.below(64) }] as usize] = rng.irange(-15, 15) as i16;
        }
        if rng.chance(1, 3) {
            // a field whose ends differ
            for (i, b) in c.coefs.iter_mut().enumerate() {
                b[0] = (i * 16 / n) as i16 - 8;
            }
        }
    }
    f
}

pub fn fill_noise_small(rng: &mut Rng, f: &mut Frame) {
    for c in &mut f.comps {
        let q = f.q[c.tq].unwrap()[0] as i64;
        let lim = (1000 / q).max(1);
        for b in &mut c.coefs {
            b[0] = rng.irange(-lim, lim) as i16;
            for _ in 0..rng.below(4) {
                b[ZZ[rng.range(1, 12)] as usize] = rng.irange(-3, 3) as i16;
            }
        }
    }
}

/// A length in pixels, biased to edges of blocks and MCUs.
pub fn dim(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(10) {
        0 => rng.range(1, 4),
        1..=3 => rng.range(1, 17),
        4..=6 => (rng.range(1, 6) * 8 + rng.range(0, 2)).saturating_sub(1).max(1),
        7 => rng.range(1, 40),
        8 => rng.range(1, 100),
        _ => rng.range(1, 160),
    };
    n.min(max)
}

/// A side of unusual length, of any magnitude.
pub fn long_side(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => 65_535 - rng.below(16),
        // around powers of two
        1 => ((1usize << rng.range(9, 15)) as i64 + rng.irange(-9, 9)) as usize,
        // evenly over the magnitudes
        _ => (500.0 * 131.07f64.powf(rng.f64())) as usize,
    }
}

/// Width beyond the decoder's parallelism threshold, small height.
pub fn wide(rng: &mut Rng) -> (usize, usize) {
    let w = match rng.below(4) {
        0 => 129,
        1 => rng.range(129, 144),
        2 => rng.range(129, 300),
        _ => rng.range(16, 32) * 16 + rng.below(3),
    };
    (w, rng.range(1, 40))
}

pub fn ids(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(4) {
        0 | 1 => (1..=n as u8).collect(),
        2 => (0..n as u8).collect(),
        _ => {
            let mut v: Vec<u8> = vec![];
            while v.len() < n {
                let b = rng.byte();
                // avoid the identifiers that name a colour model
                if !v.contains(&b) && !(v.is_empty() && [1, 82, 114].contains(&b)) {
                    v.push(b)
                }
            }
            v
        }
    }
}

/// Sampling factors with integer ratios.
pub fn factors(rng: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    if n == 1 {
        return vec![if rng.flip() { (1, 1) } else { (rng.range(1, 4), rng.range(1, 4)) }];
    }
    match rng.below(12) {
        0 | 1 => vec![(1, 1); n],
        2 => {
            let mut v = vec![(1, 1); n];
            v[0] = (2, 1);
            if n == 4 {
                v[3] = (2, 1)
            }
            v
        }
        3 => {
            let mut v = vec![(1, 1); n];
            v[0] = (2, 2);
            if n == 4 && rng.flip() {
                v[3] = (2, 2)
            }
            v
        }
        4 => {
            let mut v = vec![(1, 1); n];
            v[0] = (1, 2);
            v
        }
        5 => {
            let mut v = vec![(1, 1); n];
            v[rng.below(n)] = (*rng.pick(&[2, 3, 4]), *rng.pick(&[1, 2, 3, 4]));
            v
        }
        _ => {
            let hs: &[usize] = match rng.below(4) {
                0 => &[1, 2],
                1 => &[1, 3],
                2 => &[1, 2, 4],
                _ => &[2, 4],
            };
            let vs: &[usize] = match rng.below(4) {
                0 => &[1, 2],
                1 => &[1, 3],
                2 => &[1, 2, 4],
                _ => &[2, 4],
            };
            (0..n).map(|_| (*rng.pick(hs), *rng.pick(vs))).collect()
        }
    }
}

pub fn frame_with(rng: &mut Rng, w: usize, h: usize, ids: &[u8], fac: &[(usize, usize)]) -> Frame {
    let comps: Vec<(u8, usize, usize, usize)> =
        ids.iter().zip(fac).map(|(&i, &(h, v))| (i, h, v, rng.below(4))).collect();
    let mut f = Frame::new(w, h, &comps);
    for c in &comps {
        if f.q[c.3].is_none() {
            f.q[c.3] = Some(qtable(rng));
        }
    }
    f
}

/// Keep the picture small enough: halve the larger side until the block count fits.
pub fn frame(rng: &mut Rng, n: usize, max_blocks: usize) -> Frame {
    let id = ids(rng, n);
    let fac = factors(rng, n);
    let (mut w, mut h) = if rng.chance(1, 5) { wide(rng) } else { (dim(rng, 4000), dim(rng, 4000)) };
    loop {
        let f = Frame::new(w, h, &id.iter().zip(&fac).map(|(&i, &(a, b))| (i, a, b, 0)).collect::<Vec<_>>());
        if f.blocks() <= max_blocks || (w <= 8 && h <= 8) {
            break;
        }
        if w > h || h <= 8 {
            if w > 128 && h > 8 {
                h = (h + 1) / 2
            } else {
                w = (w + 1) / 2
            }
        } else {
            h = (h + 1) / 2
        }
    }
    frame_with(rng, w, h, &id, &fac)
}

pub fn ncomp(rng: &mut Rng) -> usize {
    *rng.pick(&[1, 1, 3, 3, 3, 4])
}

fn mcus(f: &Frame, comps: &[usize]) -> usize {
    if comps.len() > 1 {
        f.mcux * f.mcuy
    } else {
        f.comps[comps[0]].nbw * f.comps[comps[0]].nbh
    }
}

pub fn restart(rng: &mut Rng, f: &Frame, comps: &[usize]) -> u16 {
    let n = mcus(f, comps);
    match rng.below(4) {
        0 | 1 => 0,
        2 => rng.range(1, 12.min(n.max(1))) as u16,
        _ => rng.range(1, (n + 2).min(65535)) as u16,
    }
}

/// Random partition of the components into scans, legal for interleaving.
pub fn groups(rng: &mut Rng, f: &Frame) -> Vec<Vec<usize>> {
    let n = f.comps.len();
    let fits = |g: &[usize]| g.len() == 1 || g.iter().map(|&i| f.comps[i].h * f.comps[i].v).sum::<usize>() <= 10;
    let all: Vec<usize> = (0..n).collect();
    if rng.flip() && fits(&all) {
        return vec![all];
    }
    let mut gs: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        let k = rng.below(gs.len() + 1);
        if k < gs.len() {
            let mut g = gs[k].clone();
            g.push(i);
            if fits(&g) {
                gs[k] = g;
                continue;
            }
        }
        gs.push(vec![i]);
    }
    rng.shuffle(&mut gs);
    gs
}

pub fn seq_scans(rng: &mut Rng, f: &Frame) -> Vec<Scan> {
    groups(rng, f)
        .into_iter()
        .map(|g| Scan { restart: restart(rng, f, &g), comps: g, ss: 0, se: 63, ah: 0, al: 0 })
        .collect()
}

/// A complete, random progressive script: every coefficient is refined to bit 0.
pub fn prog_scans(rng: &mut Rng, f: &Frame) -> Vec<Scan> {
    const UNSENT: usize = 99;
    let n = f.comps.len();
    let mut st = vec![[UNSENT; 64]; n];
    let mut out = vec![];
    let max_al = *rng.pick(&[0, 1, 2, 3, 5, 0, 1, 2, 3, 10, 13]);
    let coarse = rng.range(1, 3);
    // occasionally a script of a usual encoder: interleaved DC first
    loop {
        // what can be sent next
        let mut open_dc: Vec<usize> = (0..n).filter(|&i| st[i][0] != 0).collect();
        let open_ac: Vec<usize> = (0..n).filter(|&i| st[i][0] != UNSENT && st[i][1..].iter().any(|&s| s != 0)).collect();
        if open_dc.is_empty() && open_ac.is_empty() {
            break;
        }
        if open_ac.is_empty() || (!open_dc.is_empty() && rng.chance(1, 2)) {
            // DC of one or several components in the same state
            let first = *rng.pick(&open_dc);
            let s = st[first][0];
            open_dc.retain(|&i| st[i][0] == s);
            let mut g: Vec<usize> = if rng.chance(2, 3) {
                open_dc
            } else {
                let mut g: Vec<usize> = open_dc.into_iter().filter(|_| rng.flip()).collect();
                if !g.contains(&first) {
                    g.push(first)
                }
                g
            };
            g.sort();
            if g.len() > 1 && g.iter().map(|&i| f.comps[i].h * f.comps[i].v).sum::<usize>() > 10 {
                g = vec![first];
            }
            let (ah, al) = if s == UNSENT { (0, rng.below(max_al + 1)) } else { (s, s - 1) };
            for &i in &g {
                st[i][0] = al;
            }
            out.push(Scan { restart: restart(rng, f, &g), comps: g, ss: 0, se: 0, ah, al });
        } else {
            let i = *rng.pick(&open_ac);
            // a run of coefficients in the same unfinished state
            let starts: Vec<usize> = (1..64).filter(|&k| st[i][k] != 0 && (k == 1 || st[i][k - 1] != st[i][k])).collect();
            let a = *rng.pick(&starts);
            let s = st[i][a];
            let mut b = a;
            while b < 63 && st[i][b + 1] == s {
                b += 1;
            }
            let se = if rng.chance(coarse, 4) { b } else { rng.range(a, b) };
            let (ah, al) = if s == UNSENT { (0, rng.below(max_al + 1)) } else { (s, s - 1) };
            for k in a..=se {
                st[i][k] = al;
            }
            let g = vec![i];
            out.push(Scan { restart: restart(rng, f, &g), comps: g, ss: a, se, ah, al });
        }
        if out.len() > 60 {
            // finish quickly: send what is left in whole bands
            for i in 0..n {
                if st[i][0] == UNSENT {
                    st[i][0] = 0;
                    out.push(Scan { comps: vec![i], ss: 0, se: 0, ah: 0, al: 0, restart: 0 });
                }
                while st[i][0] > 0 {
                    let s = st[i][0];
                    out.push(Scan { comps: vec![i], ss: 0, se: 0, ah: s, al: s - 1, restart: 0 });
                    st[i][0] -= 1;
                }
                let mut k = 1;
                while k < 64 {
                    let s = st[i][k];
                    let mut e = k;
                    while e < 63 && st[i][e + 1] == s {
                        e += 1;
                    }
                    if s != 0 {
                        if s == UNSENT {
                            out.push(Scan { comps: vec![i], ss: k, se: e, ah: 0, al: 0, restart: 0 });
                        } else {
                            for t in (0..s).rev() {
                                out.push(Scan { comps: vec![i], ss: k, se: e, ah: t + 1, al: t, restart: 0 });
                            }
                        }
                        for x in k..=e {
                            st[i][x] = 0;
                        }
                    }
                    k = e + 1;
                }
            }
            break;
        }
    }
    out
}

pub fn opts(rng: &mut Rng, f: &Frame) -> Opts {
    let proc_ = *rng.pick(&[Proc::Baseline, Proc::Extended, Proc::Progressive, Proc::Progressive]);
    opts_for(rng, f, proc_)
}

pub fn opts_for(rng: &mut Rng, f: &Frame, proc_: Proc) -> Opts {
    let scans = if proc_ == Proc::Progressive { prog_scans(rng, f) } else { seq_scans(rng, f) };
    Opts {
        proc_,
        scans,
        style: *rng.pick(&STYLES),
        mixed_styles: rng.chance(1, 3),
        q16: rng.chance(1, 8),
        pad: 0xFF,
        max_eobrun: *rng.pick(&[1, 2, 3, 7, 100, 0x7FFF]),
        group: rng.flip(),
        early_tables: rng.chance(1, 4),
        omit_std: false,
        late_q: rng.chance(1, 5),
        seed: rng.u64(),
    }
}

pub fn style_of(o: &Opts) -> Style {
    o.style
}
