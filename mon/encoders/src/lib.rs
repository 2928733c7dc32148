//! Independent encoders of the compression formats, written from the format descriptions. They
//! take sequences of literals and matches (not only those a real compressor would choose), so
//! that the decoders see every construct the formats allow.
pub mod bits;
pub mod bzip2;
pub mod deflate;
pub mod lz;
pub mod lzfse;
pub mod lzx;

use mon_common::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Lit(u8),
    Match { dist: usize, len: usize },
}

/// Limits of the matches of a format.
#[derive(Clone, Copy)]
pub struct Limits {
    pub max_dist: usize,
    pub min_len: usize,
    pub max_len: usize,
}

/// Data of about n bytes as literals and matches.
pub fn tokens(rng: &mut Rng, n: usize, l: Limits) -> (Vec<Tok>, Vec<u8>) {
    let mut out: Vec<u8> = Vec::with_capacity(n);
    let mut toks = Vec::new();
    let alphabet = *rng.pick(&[256u64, 256, 64, 4, 2, 1]);
    let base = rng.byte();
    let match_rate = *rng.pick(&[0u64, 1, 5, 20, 60, 95]);
    let long = *rng.pick(&[0u64, 10, 50]);
    let far = *rng.pick(&[0u64, 20, 80]);
    while out.len() < n {
        let left = n - out.len();
        if !out.is_empty() && left >= l.min_len && rng.chance(match_rate, 100) {
            let reach = out.len().min(l.max_dist);
            let dist = if rng.chance(1, 12) {
                reach
            } else if rng.chance(far, 100) {
                rng.usize(1, reach)
            } else if rng.chance(1, 3) {
                // around powers of two
                let p = 1usize << rng.below(19);
                rng.usize(p.saturating_sub(2).max(1), p + 2).min(reach)
            } else {
                rng.usize(1, reach.min(40))
            };
            let top = l.max_len.min(left);
            let len = if rng.chance(1, 15) {
                top
            } else if rng.chance(long, 100) {
                rng.usize(l.min_len, top)
            } else {
                rng.usize(l.min_len, top.min(l.min_len + 12))
            };
            toks.push(Tok::Match { dist, len });
            for _ in 0..len {
                out.push(out[out.len() - dist]);
            }
        } else {
            let b = base.wrapping_add((rng.below(alphabet) as u8).wrapping_mul(37));
            toks.push(Tok::Lit(b));
            out.push(b);
        }
    }
    (toks, out)
}

/// Output of a token sequence.
pub fn expand(toks: &[Tok]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    for t in toks {
        match *t {
            Tok::Lit(b) => out.push(b),
            Tok::Match { dist, len } => {
                for _ in 0..len {
                    out.push(out[out.len() - dist]);
                }
            }
        }
    }
    out
}

/// Greedy tokens of given data: enough compression to put known content into images.
pub fn greedy(data: &[u8], l: Limits) -> Vec<Tok> {
    let mut toks = Vec::new();
    let mut table: std::collections::HashMap<[u8; 4], usize> = std::collections::HashMap::new();
    let mut i = 0;
    while i < data.len() {
        let mut done = false;
        if i + 4 <= data.len() {
            let key: [u8; 4] = data[i..i + 4].try_into().unwrap();
            if let Some(&j) = table.get(&key) {
                let dist = i - j;
                let mut len = 0;
                while len < l.max_len && i + len < data.len() && data[j + len] == data[i + len] {
                    len += 1;
                }
                if dist <= l.max_dist && len >= l.min_len.max(4) {
                    toks.push(Tok::Match { dist, len });
                    for k in (i..i + len).step_by(3) {
                        if k + 4 <= data.len() {
                            table.insert(data[k..k + 4].try_into().unwrap(), k);
                        }
                    }
                    i += len;
                    done = true;
                }
            }
            if !done {
                table.insert(key, i);
            }
        }
        if !done {
            toks.push(Tok::Lit(data[i]));
            i += 1;
        }
    }
    toks
}

/// Random code sizes of a complete prefix code of n codes (n >= 2) of at most max bits.
pub fn complete_code_sizes(rng: &mut Rng, n: usize, max: usize) -> Vec<u8> {
    assert!(n >= 2 && n <= 1 << max);
    let skew = *rng.pick(&[0u64, 50, 95]);
    let mut leaves: Vec<u8> = vec![0];
    // leaves that can be split further are kept first
    let mut full: Vec<u8> = Vec::new();
    while leaves.len() + full.len() < n {
        let i = if rng.chance(skew, 100) { leaves.len() - 1 } else { rng.usize(0, leaves.len() - 1) };
        let d = leaves.swap_remove(i) + 1;
        for _ in 0..2 {
            if (d as usize) < max { leaves.push(d) } else { full.push(d) }
        }
        // Enough room must be left: a complete tree of the open leaves always suffices for n <= 2^max
        // only if splits are not exhausted.
        if leaves.is_empty() && full.len() < n {
            return balanced(n);
        }
    }
    leaves.extend(full);
    rng.shuffle(&mut leaves);
    leaves
}

fn balanced(n: usize) -> Vec<u8> {
    let mut k = 0;
    while (1usize << k) < n {
        k += 1;
    }
    let short = (1usize << k) - n;
    let mut v = vec![(k - 1) as u8; short];
    v.extend(vec![k as u8; n - short]);
    v
}

/// Canonical codes of code sizes, as (code, size).
pub fn canonical(sizes: &[u8]) -> Vec<(u32, usize)> {
    let mut out = vec![(0u32, 0usize); sizes.len()];
    let mut code = 0u32;
    for size in 1..=32u8 {
        for (s, &l) in sizes.iter().enumerate() {
            if l == size {
                out[s] = (code, size as usize);
                code += 1;
            }
        }
        code = code.wrapping_shl(1);
    }
    out
}

/// Code sizes of an alphabet in which the symbols of `used` (and some others) have codes that
/// together are complete.
pub fn alphabet_sizes(rng: &mut Rng, used: &[bool], max: usize) -> Vec<u8> {
    let n = used.len();
    let mut members: Vec<usize> = (0..n).filter(|&i| used[i]).collect();
    let spare: Vec<usize> = (0..n).filter(|&i| !used[i]).collect();
    let room = (1usize << max) - members.len();
    let mut extra = if rng.chance(1, 3) { 0 } else { rng.usize(0, spare.len().min(room)) };
    if members.len() + extra < 2 {
        extra = 2 - members.len();
    }
    let mut spare = spare;
    rng.shuffle(&mut spare);
    members.extend(spare.into_iter().take(extra));
    let sizes = complete_code_sizes(rng, members.len(), max);
    let mut out = vec![0u8; n];
    for (m, s) in members.into_iter().zip(sizes) {
        out[m] = s;
    }
    out
}
