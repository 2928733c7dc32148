//! bzip2.
use crate::bits::Msb;
use crate::canonical;
use mon_common::Rng;

fn crc(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in data {
        c ^= (*b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    !c
}

/// Run-length encoding: four equal bytes are followed by a count of further ones. At most `limit`
/// encoded bytes; returns the encoded bytes and the number of bytes consumed.
fn rle1(data: &[u8], limit: usize) -> (Vec<u8>, usize) {
    let mut out = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let b = data[i];
        let mut run = 1;
        while run < 259 && i + run < data.len() && data[i + run] == b {
            run += 1;
        }
        let need = if run >= 4 { 5 } else { run };
        if out.len() + need > limit {
            if run < 4 && out.is_empty() {
                run = limit;
            } else {
                break;
            }
        }
        if run >= 4 {
            out.extend_from_slice(&[b, b, b, b, (run - 4) as u8]);
        } else {
            out.extend(std::iter::repeat_n(b, run));
        }
        i += run;
    }
    (out, i)
}

/// Sorted rotations: last column and index of the original.
fn bwt(data: &[u8]) -> (Vec<u8>, usize) {
    let n = data.len();
    // prefix doubling over cyclic rotations
    let mut rank: Vec<u32> = data.iter().map(|b| *b as u32).collect();
    let mut sa: Vec<u32> = (0..n as u32).collect();
    let mut k = 1;
    sa.sort_by_key(|&i| rank[i as usize]);
    loop {
        let key = |i: u32| (rank[i as usize], rank[(i as usize + k) % n]);
        sa.sort_by_key(|&i| key(i));
        let mut next = vec![0u32; n];
        for j in 1..n {
            next[sa[j] as usize] = next[sa[j - 1] as usize] + (key(sa[j]) != key(sa[j - 1])) as u32;
        }
        let done = next[sa[n - 1] as usize] as usize == n - 1;
        rank = next;
        k *= 2;
        if done || k >= 2 * n {
            break;
        }
    }
    let last = sa.iter().map(|&i| data[(i as usize + n - 1) % n]).collect();
    let origin = sa.iter().position(|&i| i == 0).unwrap();
    (last, origin)
}

/// Code sizes by a Huffman construction from random weights, at most 17 (20) bits.
fn table(rng: &mut Rng, n: usize, weights: &[u64]) -> Vec<u8> {
    let _ = weights;
    let max = *rng.pick(&[17usize, 20, 20, 12]);
    crate::complete_code_sizes(rng, n, max)
}

#[derive(Default, Debug, Clone)]
pub struct Used {
    pub blocks: u64,
    pub trees: u64,
    pub selectors: u64,
    pub symbols: u64,
    pub longest_code: u64,
}

pub fn encode(rng: &mut Rng, level: u8, data: &[u8], block_limit: usize) -> (Vec<u8>, Used) {
    let mut w = Msb::default();
    let mut used = Used::default();
    w.put(0x425a68, 24);
    w.put(b'0' as u64 + level as u64, 8);
    let mut combined = 0u32;
    let mut pos = 0;
    while pos < data.len() {
        let limit = block_limit.min(level as usize * 100_000 - 19).max(5);
        let (block, consumed) = rle1(&data[pos..], limit);
        assert!(consumed > 0);
        let c = crc(&data[pos..pos + consumed]);
        combined = combined.rotate_left(1) ^ c;
        pos += consumed;
        used.blocks += 1;
        let (last, origin) = bwt(&block);
        w.put(0x3141_5926_5359, 48);
        w.put(c as u64, 32);
        w.put(0, 1);
        w.put(origin as u64, 24);
        let mut present = [false; 256];
        for b in &block {
            present[*b as usize] = true;
        }
        let mut ranges = 0u64;
        for r in 0..16 {
            ranges = (ranges << 1) | present[r * 16..r * 16 + 16].iter().any(|p| *p) as u64;
        }
        w.put(ranges, 16);
        for r in 0..16 {
            if present[r * 16..r * 16 + 16].iter().any(|p| *p) {
                let m = present[r * 16..r * 16 + 16].iter().fold(0u64, |a, p| (a << 1) | *p as u64);
                w.put(m, 16);
            }
        }
        // move to front, zero runs in bijective base 2
        let mut stack: Vec<u8> = (0..=255u8).filter(|b| present[*b as usize]).collect();
        let eob = stack.len() + 1;
        let mut syms: Vec<u16> = Vec::new();
        let mut zeros = 0usize;
        let flush = |zeros: &mut usize, syms: &mut Vec<u16>| {
            while *zeros > 0 {
                if *zeros & 1 == 1 {
                    syms.push(0);
                    *zeros = (*zeros - 1) / 2;
                } else {
                    syms.push(1);
                    *zeros = (*zeros - 2) / 2;
                }
            }
        };
        for b in &last {
            let p = stack.iter().position(|x| x == b).unwrap();
            if p == 0 {
                zeros += 1;
            } else {
                flush(&mut zeros, &mut syms);
                syms.push((p + 1) as u16);
                let x = stack.remove(p);
                stack.insert(0, x);
            }
        }
        flush(&mut zeros, &mut syms);
        syms.push(eob as u16);
        used.symbols += syms.len() as u64;
        let alphabet = eob + 1;
        let trees = rng.usize(2, 6);
        used.trees += trees as u64;
        let groups = syms.len().div_ceil(50);
        let mut selectors: Vec<usize> = (0..groups).map(|_| rng.usize(0, trees - 1)).collect();
        if rng.chance(1, 4) {
            // more selectors than needed are allowed
            let extra = rng.usize(0, 3);
            selectors.extend((0..extra).map(|_| 0));
        }
        used.selectors += selectors.len() as u64;
        w.put(trees as u64, 3);
        w.put(selectors.len() as u64, 15);
        let mut order: Vec<usize> = (0..trees).collect();
        for s in &selectors {
            let p = order.iter().position(|x| x == s).unwrap();
            for _ in 0..p {
                w.put(1, 1);
            }
            w.put(0, 1);
            let x = order.remove(p);
            order.insert(0, x);
        }
        let mut codes = Vec::new();
        for _ in 0..trees {
            let sizes = table(rng, alphabet, &[]);
            used.longest_code = used.longest_code.max(*sizes.iter().max().unwrap() as u64);
            let mut cur = sizes[0];
            w.put(cur as u64, 5);
            for s in &sizes {
                while cur != *s {
                    if cur < *s {
                        w.put(0b10, 2);
                        cur += 1;
                    } else {
                        w.put(0b11, 2);
                        cur -= 1;
                    }
                }
                w.put(0, 1);
            }
            codes.push(canonical(&sizes));
        }
        for (i, s) in syms.iter().enumerate() {
            w.code(codes[selectors[i / 50]][*s as usize]);
        }
    }
    w.put(0x1772_4538_5090, 48);
    w.put(combined as u64, 32);
    (w.finish(), used)
}
