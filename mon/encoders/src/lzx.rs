//! LZX as used by WIM: chunks of 32768 bytes, x86 call translation.
use crate::bits::Words;
use crate::{Limits, Tok, alphabet_sizes, canonical};
use mon_common::Rng;

pub const LIMITS: Limits = Limits { max_dist: 32765, min_len: 2, max_len: 257 };

#[derive(Default, Debug, Clone)]
pub struct Used {
    pub verbatim: u64,
    pub aligned: u64,
    pub raw: u64,
    pub recent: u64,
    pub translated: u64,
    pub no_lengths: u64,
    pub word_aligned_raw: u64,
}

fn footer_bits(slot: usize) -> usize {
    if slot < 4 { 0 } else { slot / 2 - 1 }
}

/// (slot, extra bits, extra value) of a distance that is not a recent one; distances are stored with 2 added.
fn slot(dist: usize) -> (usize, usize, u32) {
    let v = dist + 2;
    let mut base = 0;
    for s in 0..30 {
        let n = footer_bits(s);
        if v < base + (1 << n) {
            return (s, n, (v - base) as u32);
        }
        base += 1 << n;
    }
    panic!("distance {dist}");
}

/// Undoes the translation of x86 call instructions: absolute to relative addresses.
pub fn untranslate(data: &mut [u8]) -> u64 {
    let mut n = 0;
    if data.len() <= 10 {
        return 0;
    }
    let mut i = 0;
    while i < data.len() - 10 {
        if data[i] != 0xe8 {
            i += 1;
            continue;
        }
        let a = i32::from_le_bytes(data[i + 1..i + 5].try_into().unwrap());
        if a >= -(i as i32) && a < 12_000_000 {
            let r = if a >= 0 { a - i as i32 } else { a + 12_000_000 };
            data[i + 1..i + 5].copy_from_slice(&r.to_le_bytes());
            n += 1;
        }
        i += 5;
    }
    n
}

fn sizes_with_pretree(rng: &mut Rng, w: &mut Words, old: &mut [u8], new: &[u8]) {
    // (symbol, extra bits, value, following delta symbol)
    let mut syms: Vec<(usize, usize, u32, Option<usize>)> = Vec::new();
    let delta = |o: u8, n: u8| ((o as i32 - n as i32 + 17) % 17) as usize;
    let use_runs = rng.below(101);
    let mut i = 0;
    while i < new.len() {
        let mut run = 1;
        while i + run < new.len() && new[i + run] == new[i] {
            run += 1;
        }
        if new[i] == 0 && run >= 20 && rng.chance(use_runs, 100) {
            let n = rng.usize(20, run.min(51));
            syms.push((18, 5, (n - 20) as u32, None));
            i += n;
        } else if new[i] == 0 && run >= 4 && rng.chance(use_runs, 100) {
            let n = rng.usize(4, run.min(19));
            syms.push((17, 4, (n - 4) as u32, None));
            i += n;
        } else if run >= 4 && rng.chance(use_runs, 100) {
            let n = rng.usize(4, run.min(5));
            syms.push((19, 1, (n - 4) as u32, Some(delta(old[i], new[i]))));
            i += n;
        } else {
            syms.push((delta(old[i], new[i]), 0, 0, None));
            i += 1;
        }
    }
    let mut used = vec![false; 20];
    for (s, _, _, d) in &syms {
        used[*s] = true;
        if let Some(d) = d {
            used[*d] = true;
        }
    }
    let sizes = alphabet_sizes(rng, &used, 15);
    let codes = canonical(&sizes);
    for s in &sizes {
        w.put(*s as u32, 4);
    }
    for (s, n, v, d) in syms {
        w.code(codes[s]);
        w.put(v, n);
        if let Some(d) = d {
            w.code(codes[d]);
        }
    }
    old.copy_from_slice(new);
}

/// Encodes one chunk; `out` is the (translated) data of the tokens.
pub fn encode(rng: &mut Rng, toks: &[Tok], out: &[u8], kinds: &[u64], no_lengths: bool) -> (Vec<u8>, Used) {
    let mut w = Words::default();
    let mut used = Used::default();
    let mut main_old = vec![0u8; 496];
    let mut len_old = vec![0u8; 249];
    let mut recent = [1usize; 3];
    let mut ti = 0;
    let mut oi = 0;
    let mean = *rng.pick(&[60usize, 1000, 40000, 40000]);
    while ti < toks.len() {
        let n = rng.usize(1, mean).min(toks.len() - ti);
        let part = &toks[ti..ti + n];
        let size: usize = part.iter().map(|t| if let Tok::Match { len, .. } = t { *len } else { 1 }).sum();
        let mut kind = *rng.pick(kinds);
        if kind == 3 && w.free() == 0 && size == 0 {
            kind = 1;
        }
        w.put(kind as u32, 3);
        if size == 32768 && rng.chance(4, 5) {
            w.put(1, 1);
        } else {
            w.put(0, 1);
            w.put(size as u32, 16);
        }
        if kind == 3 {
            used.raw += 1;
            // padding to a word boundary, 1 to 16 bits
            let free = w.free();
            if free == 0 {
                used.word_aligned_raw += 1;
                w.put(0, 16);
            } else {
                w.put(0, free);
            }
            for r in recent.iter_mut() {
                if rng.chance(1, 3) {
                    *r = rng.usize(1, 30000);
                }
                w.data.extend_from_slice(&(*r as u32).to_le_bytes());
            }
            w.data.extend_from_slice(&out[oi..oi + size]);
            if size % 2 == 1 && ti + n < toks.len() {
                w.data.push(0);
            }
            ti += n;
            oi += size;
            continue;
        }
        // (main symbol, length symbol, extra bits, value, aligned symbol)
        let mut items: Vec<(usize, Option<usize>, usize, u32, Option<usize>)> = Vec::new();
        for t in part {
            match *t {
                Tok::Lit(b) => items.push((b as usize, None, 0, 0, None)),
                Tok::Match { dist, len } => {
                    let (lh, ls) = if len - 2 < 7 { (len - 2, None) } else { (7, Some(len - 9)) };
                    let r = recent.iter().position(|x| *x == dist);
                    match r {
                        Some(r) if rng.chance(9, 10) => {
                            used.recent += 1;
                            recent.swap(0, r);
                            items.push((256 + r * 8 + lh, ls, 0, 0, None));
                        }
                        _ => {
                            recent = [dist, recent[0], recent[1]];
                            let (s, n, v) = slot(dist);
                            if kind == 2 && n >= 3 {
                                items.push((256 + s * 8 + lh, ls, n - 3, v >> 3, Some((v & 7) as usize)));
                            } else {
                                items.push((256 + s * 8 + lh, ls, n, v, None));
                            }
                        }
                    }
                }
            }
        }
        let mut mu = vec![false; 496];
        let mut lu = vec![false; 249];
        let mut au = vec![false; 8];
        for (m, l, _, _, a) in &items {
            mu[*m] = true;
            if let Some(l) = l {
                lu[*l] = true;
            }
            if let Some(a) = a {
                au[*a] = true;
            }
        }
        let ms = alphabet_sizes(rng, &mu, 16);
        let ls = if no_lengths && lu.iter().all(|x| !x) {
            used.no_lengths += 1;
            vec![0; 249]
        } else {
            alphabet_sizes(rng, &lu, 16)
        };
        let mut aligned = Vec::new();
        if kind == 2 {
            used.aligned += 1;
            let sizes = alphabet_sizes(rng, &au, 7);
            for s in &sizes {
                w.put(*s as u32, 3);
            }
            aligned = canonical(&sizes);
        } else {
            used.verbatim += 1;
        }
        sizes_with_pretree(rng, &mut w, &mut main_old[..256], &ms[..256]);
        sizes_with_pretree(rng, &mut w, &mut main_old[256..], &ms[256..]);
        sizes_with_pretree(rng, &mut w, &mut len_old, &ls);
        let (mc, lc) = (canonical(&ms), canonical(&ls));
        for (m, l, n, v, a) in items {
            w.code(mc[m]);
            if let Some(l) = l {
                w.code(lc[l]);
            }
            w.put(v, n);
            if let Some(a) = a {
                w.code(aligned[a]);
            }
        }
        ti += n;
        oi += size;
    }
    let free = w.free();
    w.put(0, free);
    (w.data, used)
}
