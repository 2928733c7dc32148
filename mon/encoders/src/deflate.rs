//! DEFLATE (RFC 1951) and zlib (RFC 1950).
use crate::bits::Lsb;
use crate::{Limits, Tok, alphabet_sizes, canonical};
use mon_common::Rng;

pub const LIMITS: Limits = Limits { max_dist: 32768, min_len: 3, max_len: 258 };

const LEN_EXTRA: [usize; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

/// (symbol, extra bits, extra value)
fn len_symbol(len: usize) -> (usize, usize, u32) {
    if len == 258 {
        return (285, 0, 0);
    }
    let mut base = 3;
    for (i, e) in LEN_EXTRA.iter().enumerate() {
        if len < base + (1 << e) {
            return (257 + i, *e, (len - base) as u32);
        }
        base += 1 << e;
    }
    unreachable!()
}

fn dist_symbol(dist: usize) -> (usize, usize, u32) {
    let mut base = 1;
    for s in 0..30 {
        let e = if s < 4 { 0 } else { s / 2 - 1 };
        if dist < base + (1 << e) {
            return (s, e, (dist - base) as u32);
        }
        base += 1 << e;
    }
    unreachable!()
}

fn fixed_sizes() -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![8u8; 288];
    l[144..256].fill(9);
    l[256..280].fill(7);
    (l, vec![5u8; 32])
}

fn body(w: &mut Lsb, toks: &[Tok], lit: &[u8], dist: &[u8]) {
    let lc = canonical(lit);
    let dc = canonical(dist);
    for t in toks {
        match *t {
            Tok::Lit(b) => w.code(lc[b as usize]),
            Tok::Match { dist, len } => {
                let (s, e, v) = len_symbol(len);
                w.code(lc[s]);
                w.put(v, e);
                let (s, e, v) = dist_symbol(dist);
                w.code(dc[s]);
                w.put(v, e);
            }
        }
    }
    w.code(lc[256]);
}

/// What the encoder made use of.
#[derive(Default, Debug, Clone)]
pub struct Used {
    pub stored: u64,
    pub fixed: u64,
    pub dynamic: u64,
    pub no_distances: u64,
    pub one_distance: u64,
    pub repeats: u64,
    pub crossing: u64,
}

fn dynamic(rng: &mut Rng, w: &mut Lsb, toks: &[Tok], used: &mut Used) {
    let mut lu = vec![false; 286];
    let mut du = vec![false; 30];
    lu[256] = true;
    for t in toks {
        match *t {
            Tok::Lit(b) => lu[b as usize] = true,
            Tok::Match { dist, len } => {
                lu[len_symbol(len).0] = true;
                du[dist_symbol(dist).0] = true;
            }
        }
    }
    let lit = alphabet_sizes(rng, &lu, 15);
    let nd = du.iter().filter(|x| **x).count();
    let dist: Vec<u8> = if nd == 0 && rng.chance(2, 3) {
        used.no_distances += 1;
        if rng.chance(1, 2) {
            vec![0; 30]
        } else {
            // a single unused code
            let mut v = vec![0; 30];
            v[rng.usize(0, 29)] = 1;
            v
        }
    } else if nd == 1 && rng.chance(1, 2) {
        used.one_distance += 1;
        du.iter().map(|u| *u as u8).collect()
    } else {
        alphabet_sizes(rng, &du, 15)
    };
    let top = |v: &[u8], min: usize| v.iter().rposition(|x| *x != 0).map(|p| p + 1).unwrap_or(0).max(min);
    let mut hlit = top(&lit, 257);
    let mut hdist = top(&dist, 1);
    if rng.chance(1, 4) {
        hlit = rng.usize(hlit, 286);
    }
    if rng.chance(1, 4) {
        hdist = rng.usize(hdist, 30);
    }
    let mut all = lit[..hlit].to_vec();
    all.extend_from_slice(&dist[..hdist]);
    // (symbol, extra bits, value)
    let mut cl: Vec<(usize, usize, u32)> = Vec::new();
    let mut i = 0;
    let use_repeat = rng.below(101);
    while i < all.len() {
        let v = all[i];
        let mut run = 1;
        while i + run < all.len() && all[i + run] == v {
            run += 1;
        }
        let mut step = 1;
        if v == 0 && run >= 3 && rng.chance(use_repeat, 100) {
            if run >= 11 && rng.chance(4, 5) {
                step = run.min(138);
                if rng.chance(1, 8) {
                    step = rng.usize(11, step);
                }
                cl.push((18, 7, (step - 11) as u32));
            } else {
                step = rng.usize(3, run.min(10));
                cl.push((17, 3, (step - 3) as u32));
            }
            used.repeats += 1;
        } else if i > 0 && all[i - 1] == v && run >= 3 && rng.chance(use_repeat, 100) {
            step = rng.usize(3, run.min(6));
            cl.push((16, 2, (step - 3) as u32));
            used.repeats += 1;
        } else {
            cl.push((v as usize, 0, 0));
        }
        if i < hlit && i + step > hlit {
            used.crossing += 1;
        }
        i += step;
    }
    let mut cu = vec![false; 19];
    for (s, _, _) in &cl {
        cu[*s] = true;
    }
    let cs = alphabet_sizes(rng, &cu, 7);
    let cc = canonical(&cs);
    let mut hclen = 19;
    while hclen > 4 && cs[ORDER[hclen - 1]] == 0 {
        hclen -= 1;
    }
    w.put((hlit - 257) as u32, 5);
    w.put((hdist - 1) as u32, 5);
    w.put((hclen - 4) as u32, 4);
    for o in ORDER.iter().take(hclen) {
        w.put(cs[*o] as u32, 3);
    }
    for (s, e, v) in cl {
        w.code(cc[s]);
        w.put(v, e);
    }
    body(w, toks, &lit, &dist);
}

/// Encodes tokens as a DEFLATE stream of blocks of random kinds.
pub fn encode(rng: &mut Rng, toks: &[Tok], out: &[u8]) -> (Vec<u8>, Used) {
    let mut w = Lsb::default();
    let mut used = Used::default();
    let mut ti = 0;
    let mut oi = 0;
    let mean = *rng.pick(&[3usize, 40, 400, 5000, usize::MAX / 4]);
    let kinds = rng.below(6);
    loop {
        let n = if rng.chance(1, 30) { 0 } else { rng.usize(1, mean.min(toks.len() * 2 + 1)).min(toks.len() - ti) };
        let part = &toks[ti..ti + n];
        let size: usize = part.iter().map(|t| if let Tok::Match { len, .. } = t { *len } else { 1 }).sum();
        let last = ti + n == toks.len() && (used.stored + used.fixed + used.dynamic > 200 || rng.chance(3, 4));
        let mut kind = match kinds {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => rng.below(3),
        };
        if kind == 0 && size > 65535 {
            kind = 1 + rng.below(2);
        }
        w.put(last as u32, 1);
        w.put(kind as u32, 2);
        match kind {
            0 => {
                used.stored += 1;
                let fill = rng.next() as u32;
                w.align(fill);
                w.put(size as u32, 16);
                w.put(!(size as u32) & 0xffff, 16);
                for b in &out[oi..oi + size] {
                    w.put(*b as u32, 8);
                }
            }
            1 => {
                used.fixed += 1;
                let (l, d) = fixed_sizes();
                body(&mut w, part, &l, &d);
            }
            _ => {
                used.dynamic += 1;
                dynamic(rng, &mut w, part, &mut used);
            }
        }
        ti += n;
        oi += size;
        if last {
            break;
        }
    }
    w.align(0);
    (w.data, used)
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u64, 0u64);
    for x in data {
        a = (a + *x as u64) % 65521;
        b = (b + a) % 65521;
    }
    ((b << 16) | a) as u32
}

/// Wraps a DEFLATE stream as zlib data.
pub fn zlib(rng: &mut Rng, window: usize, deflate: &[u8], out: &[u8]) -> Vec<u8> {
    let mut cinfo = 0;
    while (256usize << cinfo) < window {
        cinfo += 1;
    }
    let cmf = ((cinfo as u16) << 4) | 8;
    let level = rng.below(4) as u16;
    let mut flg = level << 6;
    flg += (31 - ((cmf << 8) + flg) % 31) % 31;
    let mut v = vec![cmf as u8, flg as u8];
    v.extend_from_slice(deflate);
    v.extend_from_slice(&adler32(out).to_be_bytes());
    v
}
