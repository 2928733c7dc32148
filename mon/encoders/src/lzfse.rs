//! LZFSE streams: uncompressed, LZVN and finite state entropy coded blocks.
use crate::{Limits, Tok};
use mon_common::Rng;

pub const LIMITS: Limits = Limits { max_dist: 262_139, min_len: 1, max_len: 2359 };

const L_EXTRA: [usize; 20] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 5, 8];
const M_EXTRA: [usize; 20] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 5, 8, 11];

/// (symbol, extra value, extra bits)
fn value(extra: &[usize], v: usize) -> (usize, u32, usize) {
    let mut base = 0;
    for (s, e) in extra.iter().enumerate() {
        if v < base + (1 << e) {
            return (s, (v - base) as u32, *e);
        }
        base += 1 << e;
    }
    panic!("value {v} out of range");
}

fn d_extra() -> Vec<usize> {
    (0..64).map(|s| s / 4).collect()
}

/// A finite state entropy code: for every symbol, the states that decode to it.
struct Fse {
    states: usize,
    first: Vec<usize>,
    freq: Vec<usize>,
}

impl Fse {
    fn new(freq: &[usize], states: usize) -> Self {
        let mut first = Vec::new();
        let mut n = 0;
        for f in freq {
            first.push(n);
            n += f;
        }
        assert_eq!(n, states);
        Fse { states, first, freq: freq.to_vec() }
    }
    /// State before `next` that decodes to the symbol, with the bits read on the way.
    fn back(&self, symbol: usize, next: usize) -> (usize, u32, usize) {
        let f = self.freq[symbol];
        assert!(f > 0);
        for w in 0..f {
            let mut k = 0;
            while ((f + w) << k) < self.states {
                k += 1;
            }
            let low = ((f + w) << k) - self.states;
            if next >= low && next < low + (1 << k) {
                return (self.first[symbol] + w, (next - low) as u32, k);
            }
        }
        unreachable!()
    }
}

/// Random frequencies with sum n; at least 1 for used symbols.
fn frequencies(rng: &mut Rng, count: &[usize], n: usize) -> Vec<usize> {
    let mut members: Vec<usize> = (0..count.len()).filter(|&i| count[i] > 0).collect();
    if members.is_empty() || rng.chance(1, 4) {
        for i in 0..count.len() {
            if count[i] == 0 && members.len() < n && rng.chance(1, 6) {
                members.push(i);
            }
        }
        if members.is_empty() {
            members.push(rng.usize(0, count.len() - 1));
        }
    }
    let mut f = vec![0usize; count.len()];
    for m in &members {
        f[*m] = 1;
    }
    let mut left = n - members.len();
    let total: usize = members.iter().map(|m| count[*m] + 1).sum();
    let proportional = rng.chance(1, 2);
    for m in &members {
        let share = if proportional { (n - members.len()) * (count[*m] + 1) / total } else { 0 };
        f[*m] += share;
        left -= share;
    }
    while left > 0 {
        let m = *rng.pick(&members);
        let a = if rng.chance(1, 3) { left } else { rng.usize(1, left) };
        f[m] += a;
        left -= a;
    }
    f
}

fn put_frequency(w: &mut crate::bits::Lsb, f: usize) {
    match f {
        0 => w.put(0b00, 2),
        1 => w.put(0b10, 2),
        2 => w.put(0b001, 3),
        3 => w.put(0b101, 3),
        4..=7 => {
            w.put(0b011, 3);
            w.put((f - 4) as u32, 2);
        }
        8..=23 => {
            w.put(0b0111, 4);
            w.put((f - 8) as u32, 4);
        }
        _ => {
            w.put(0b1111, 4);
            w.put((f - 24) as u32, 10);
        }
    }
}

/// Bits in the order of reading; the data is read from its end.
struct Reverse {
    bits: Vec<u8>,
}

impl Reverse {
    fn finish(self, rng: &mut Rng) -> (Vec<u8>, i32) {
        let pad = (8 - self.bits.len() % 8) % 8;
        let mut all = vec![0u8; pad];
        if pad > 0 && rng.chance(1, 4) {
            for b in all.iter_mut() {
                *b = rng.below(2) as u8;
            }
        }
        all.extend(self.bits);
        let mut data: Vec<u8> = all.chunks(8).map(|c| c.iter().fold(0, |a, b| (a << 1) | b)).collect();
        data.reverse();
        (data, -(pad as i32))
    }
}

/// Collects (value, bits) pairs, last read first.
fn reading_order(mut items: Vec<(u32, usize)>) -> Reverse {
    items.reverse();
    let mut bits = Vec::new();
    for (v, n) in items {
        for i in (0..n).rev() {
            bits.push(((v >> i) & 1) as u8);
        }
    }
    Reverse { bits }
}

#[derive(Default, Debug, Clone)]
pub struct Used {
    pub fse_blocks: u64,
    pub lzvn_blocks: u64,
    pub raw_blocks: u64,
    pub triples: u64,
    pub same_distance: u64,
}

/// Encodes L, M, D triples and literals as one compressed block. `v1` writes the uncompressed header.
fn fse_block(rng: &mut Rng, lits: &[u8], lmd: &[(usize, usize, usize)], size: usize, v1: bool) -> Vec<u8> {
    let mut lits = lits.to_vec();
    while lits.len() % 4 != 0 {
        lits.push(0);
    }
    let de = d_extra();
    let (mut lc, mut mc, mut dc, mut cc) = (vec![0; 20], vec![0; 20], vec![0; 64], vec![0; 256]);
    for (l, m, d) in lmd {
        lc[value(&L_EXTRA, *l).0] += 1;
        mc[value(&M_EXTRA, *m).0] += 1;
        dc[value(&de, *d).0] += 1;
    }
    for b in &lits {
        cc[*b as usize] += 1;
    }
    let lf = frequencies(rng, &lc, 64);
    let mf = frequencies(rng, &mc, 64);
    let df = frequencies(rng, &dc, 256);
    let cf = frequencies(rng, &cc, 1024);
    let (le, me, dee, ce) = (Fse::new(&lf, 64), Fse::new(&mf, 64), Fse::new(&df, 256), Fse::new(&cf, 1024));

    let mut states = [0usize; 4];
    for s in states.iter_mut() {
        *s = rng.usize(0, 1023);
    }
    let mut items = Vec::new();
    for i in (0..lits.len()).rev() {
        let (s, v, n) = ce.back(lits[i] as usize, states[i % 4]);
        states[i % 4] = s;
        items.push((v, n));
    }
    let (lit_data, lit_bits) = reading_order(items).finish(rng);

    let (mut ls, mut ms, mut ds) = (rng.usize(0, 63), rng.usize(0, 63), rng.usize(0, 255));
    let mut items = Vec::new();
    for (l, m, d) in lmd.iter().rev() {
        let (sym, x, xn) = value(&de, *d);
        let (s, v, n) = dee.back(sym, ds);
        ds = s;
        items.push((x, xn));
        items.push((v, n));
        let (sym, x, xn) = value(&M_EXTRA, *m);
        let (s, v, n) = me.back(sym, ms);
        ms = s;
        items.push((x, xn));
        items.push((v, n));
        let (sym, x, xn) = value(&L_EXTRA, *l);
        let (s, v, n) = le.back(sym, ls);
        ls = s;
        items.push((x, xn));
        items.push((v, n));
    }
    let (lmd_data, lmd_bits) = reading_order(items).finish(rng);

    let mut out = Vec::new();
    let freqs: Vec<usize> = lf.into_iter().chain(mf).chain(df).chain(cf).collect();
    if v1 {
        out.extend_from_slice(b"bvx1");
        out.extend_from_slice(&(size as u32).to_le_bytes());
        out.extend_from_slice(&((lit_data.len() + lmd_data.len()) as u32).to_le_bytes());
        out.extend_from_slice(&(lits.len() as u32).to_le_bytes());
        out.extend_from_slice(&(lmd.len() as u32).to_le_bytes());
        out.extend_from_slice(&(lit_data.len() as u32).to_le_bytes());
        out.extend_from_slice(&(lmd_data.len() as u32).to_le_bytes());
        out.extend_from_slice(&lit_bits.to_le_bytes());
        for s in states {
            out.extend_from_slice(&(s as u16).to_le_bytes());
        }
        out.extend_from_slice(&lmd_bits.to_le_bytes());
        for s in [ls, ms, ds] {
            out.extend_from_slice(&(s as u16).to_le_bytes());
        }
        for f in freqs {
            out.extend_from_slice(&(f as u16).to_le_bytes());
        }
    } else {
        let mut w = crate::bits::Lsb::default();
        for f in freqs {
            put_frequency(&mut w, f);
        }
        w.align(0);
        let p0 = lits.len() as u64
            | (lit_data.len() as u64) << 20
            | (lmd.len() as u64) << 40
            | ((lit_bits + 7) as u64) << 60;
        let p1 = states[0] as u64
            | (states[1] as u64) << 10
            | (states[2] as u64) << 20
            | (states[3] as u64) << 30
            | (lmd_data.len() as u64) << 40
            | ((lmd_bits + 7) as u64) << 60;
        let p2 = (32 + w.data.len()) as u64 | (ls as u64) << 32 | (ms as u64) << 42 | (ds as u64) << 52;
        out.extend_from_slice(b"bvx2");
        out.extend_from_slice(&(size as u32).to_le_bytes());
        for p in [p0, p1, p2] {
            out.extend_from_slice(&p.to_le_bytes());
        }
        out.extend_from_slice(&w.data);
    }
    out.extend_from_slice(&lit_data);
    out.extend_from_slice(&lmd_data);
    out
}

/// Encodes tokens as a stream of blocks of the allowed kinds.
pub fn encode(rng: &mut Rng, toks: &[Tok], out: &[u8], kinds: &[u64]) -> (Vec<u8>, Used) {
    let mut v = Vec::new();
    let mut used = Used::default();
    let mut ti = 0;
    let mut oi = 0;
    let mean = *rng.pick(&[20usize, 500, 9000]);
    while ti < toks.len() {
        let n = rng.usize(1, mean).min(toks.len() - ti);
        let part = &toks[ti..ti + n];
        let size: usize = part.iter().map(|t| if let Tok::Match { len, .. } = t { *len } else { 1 }).sum();
        match *rng.pick(kinds) {
            0 => {
                used.raw_blocks += 1;
                v.extend_from_slice(b"bvx-");
                v.extend_from_slice(&(size as u32).to_le_bytes());
                v.extend_from_slice(&out[oi..oi + size]);
            }
            1 => {
                // LZVN blocks refer to data of the block only
                used.lzvn_blocks += 1;
                let toks = crate::greedy(&out[oi..oi + size], crate::lz::LZVN);
                let (body, _) = crate::lz::lzvn(rng, &toks, true);
                v.extend_from_slice(b"bvxn");
                v.extend_from_slice(&(size as u32).to_le_bytes());
                v.extend_from_slice(&(body.len() as u32).to_le_bytes());
                v.extend_from_slice(&body);
            }
            kind => {
                used.fse_blocks += 1;
                let mut lits = Vec::new();
                let mut lmd: Vec<(usize, usize, usize)> = Vec::new();
                let mut run = 0;
                let mut prev = 0;
                for t in part {
                    match *t {
                        Tok::Lit(b) => {
                            lits.push(b);
                            run += 1;
                            if run == 315 {
                                // literals only: a match of no bytes
                                lmd.push((run, 0, if prev == 0 { 1 } else { 0 }));
                                if prev == 0 { prev = 1 }
                                run = 0;
                            }
                        }
                        Tok::Match { dist, len } => {
                            let d = if dist == prev && rng.chance(3, 4) {
                                used.same_distance += 1;
                                0
                            } else {
                                dist
                            };
                            lmd.push((run, len, d));
                            prev = dist;
                            run = 0;
                        }
                    }
                }
                if run > 0 {
                    lmd.push((run, 0, if prev == 0 { 1 } else { 0 }));
                }
                used.triples += lmd.len() as u64;
                v.extend(fse_block(rng, &lits, &lmd, size, kind == 3));
            }
        }
        ti += n;
        oi += size;
    }
    v.extend_from_slice(b"bvx$");
    (v, used)
}
