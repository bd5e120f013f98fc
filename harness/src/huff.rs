//! Huffman tables, encoder side.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub bits: [u8; 16],
    pub vals: Vec<u8>,
}

#[derive(Clone)]
pub struct Enc {
    pub code: [u32; 256],
    pub len: [u8; 256],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Std,
    Optimal,
    Flat,
    Deep,
    Random,
    /// the code lengths of a standard table, its symbols in another order
    Permuted,
}
pub const STYLES: [Style; 6] = [Style::Std, Style::Optimal, Style::Flat, Style::Deep, Style::Random, Style::Permuted];

impl Spec {
    pub fn enc(&self) -> Enc {
        let mut e = Enc { code: [0; 256], len: [0; 256] };
        let mut code = 0u32;
        let mut k = 0;
        for l in 0..16 {
            for _ in 0..self.bits[l] {
                let v = self.vals[k] as usize;
                e.code[v] = code;
                e.len[v] = l as u8 + 1;
                code += 1;
                k += 1;
            }
            code <<= 1;
        }
        e
    }
    pub fn covers(&self, freq: &[u32; 256]) -> bool {
        let e = self.enc();
        (0..256).all(|i| freq[i] == 0 || e.len[i] > 0)
    }
    /// Body of a DHT segment for this table (class/id byte, counts, values).
    pub fn body(&self, class: u8, id: u8) -> Vec<u8> {
        let mut v = vec![class << 4 | id];
        v.extend_from_slice(&self.bits);
        v.extend_from_slice(&self.vals);
        v
    }
}

/// Code lengths at most 16 with the all-ones code unused (T.81 K.2).
fn from_weights(weights: &[(u8, u64)]) -> Spec {
    // plain Huffman over the symbols plus one reserved symbol of least weight
    let n = weights.len();
    let mut nodes: Vec<(u64, Vec<usize>)> = weights.iter().enumerate().map(|(i, w)| (w.1.max(1) * 4, vec![i])).collect();
    nodes.push((1, vec![n]));
    let mut depth = vec![0usize; n + 1];
    while nodes.len() > 1 {
        nodes.sort_by(|a, b| b.0.cmp(&a.0));
        let a = nodes.pop().unwrap();
        let mut b = nodes.pop().unwrap();
        for &i in a.1.iter().chain(b.1.iter()) {
            depth[i] += 1;
        }
        b.0 += a.0;
        b.1.extend(a.1);
        nodes.push(b);
    }
    let maxd = *depth.iter().max().unwrap();
    let mut bits = vec![0i32; maxd.max(16) + 2];
    for &d in &depth {
        bits[d] += 1;
    }
    // T.81 Figure K.3
    let mut i = maxd.max(16);
    while i > 16 {
        while bits[i] > 0 {
            let mut j = i - 2;
            while bits[j] == 0 {
                j -= 1;
            }
            bits[i] -= 2;
            bits[i - 1] += 1;
            bits[j + 1] += 2;
            bits[j] -= 1;
        }
        i -= 1;
    }
    // drop the reserved symbol: the longest code
    let mut l = 16;
    while bits[l] == 0 {
        l -= 1;
    }
    bits[l] -= 1;
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&i| depth[i]);
    let mut out = [0u8; 16];
    for l in 1..=16 {
        out[l - 1] = bits[l] as u8;
    }
    Spec { bits: out, vals: order.iter().map(|&i| weights[i].0).collect() }
}

pub fn build(freq: &[u32; 256], dc: bool, style: Style, rng: &mut Rng) -> Spec {
    let mut used: Vec<u8> = (0..256).filter(|&i| freq[i] > 0).map(|i| i as u8).collect();
    if style == Style::Std {
        let order = if rng.flip() { [0, 1] } else { [1, 0] };
        for i in order {
            let s = std_table(dc, i);
            if s.covers(freq) {
                return s;
            }
        }
    }
    if style == Style::Permuted {
        let mut s = std_table(dc, rng.below(2));
        if used.len() <= s.vals.len() {
            let mut v = used;
            rng.shuffle(&mut s.vals);
            for x in &s.vals {
                if v.len() < s.vals.len() && !v.contains(x) {
                    v.push(*x);
                }
            }
            rng.shuffle(&mut v);
            s.vals = v;
            return s;
        }
    }
    // a few symbols that never occur
    if used.is_empty() || (style != Style::Optimal && rng.chance(1, 2)) {
        let extra = if rng.chance(1, 6) { 60 } else { 4 };
        for _ in 0..rng.range(1, extra) {
            let s = if dc { rng.below(12) as u8 } else { rng.byte() };
            if !used.contains(&s) {
                used.push(s);
            }
        }
    }
    if !dc && style != Style::Optimal && rng.chance(1, 40) {
        // every code there can be
        used = (0..=255).collect();
    }
    match style {
        Style::Std | Style::Optimal => {
            from_weights(&used.iter().map(|&s| (s, freq[s as usize] as u64)).collect::<Vec<_>>())
        }
        Style::Flat => {
            rng.shuffle(&mut used);
            let mut l = 1;
            while (1usize << l) - 1 < used.len() {
                l += 1;
            }
            l += rng.below(17 - l).min(if rng.chance(1, 4) { 16 } else { 1 });
            let mut bits = [0u8; 16];
            if used.len() < 256 {
                bits[l - 1] = used.len() as u8;
            } else {
                // 256 codes of one length do not fit the count byte
                l = l.max(9).min(15);
                bits[l - 1] = 128;
                bits[l] = 128;
            }
            Spec { bits, vals: used }
        }
        Style::Deep => {
            // strongly skewed weights, unrelated to the frequencies: code lengths up to 16
            rng.shuffle(&mut used);
            let step = rng.range(1, 3) as u32;
            let top = (used.len() as u32 * step).min(40);
            let w: Vec<(u8, u64)> =
                used.iter().enumerate().map(|(i, &s)| (s, 1u64 << top.saturating_sub(i as u32 * step))).collect();
            from_weights(&w)
        }
        Style::Random | Style::Permuted => {
            let w: Vec<(u8, u64)> = used.iter().map(|&s| (s, 1 + rng.u64() % 1000)).collect();
            from_weights(&w)
        }
    }
}

/// Tables K.3 to K.6 of T.81, generated from their published contents.
pub fn std_table(dc: bool, chroma: usize) -> Spec {
    if dc {
        let bits = if chroma == 0 {
            [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]
        } else {
            [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0]
        };
        return Spec { bits, vals: (0..12).collect() };
    }
    let (bits, hex): ([u8; 16], &str) = if chroma == 0 {
        (
            [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
            "0102030004110512213141061351610722711432 8191a1082342b1c11552d1f02433627282090a161718191a25262728292a3435363738393a434445464748494a535455565758595a636465666768696a737475767778797a838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae1e2e3e4e5e6e7e8e9eaf1f2f3f4f5f6f7f8f9fa",
        )
    } else {
        (
            [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
            "0001020311040521310612415107617113223281 08144291a1b1c109233352f0156272d10a162434e125f11718191a262728292a35363738393a434445464748494a535455565758595a636465666768696a737475767778797a82838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae2e3e4e5e6e7e8e9eaf2f3f4f5f6f7f8f9fa",
        )
    };
    let h: Vec<u8> = hex.bytes().filter(|b| *b != b' ').collect();
    let vals = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    Spec { bits, vals }
}
