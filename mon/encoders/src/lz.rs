//! ADC, LZNT1 and LZVN.
use crate::{Limits, Tok};
use mon_common::Rng;

pub const ADC: Limits = Limits { max_dist: 65536, min_len: 3, max_len: 67 };
pub const LZVN: Limits = Limits { max_dist: 65535, min_len: 3, max_len: 10_000 };
pub const LZNT1: Limits = Limits { max_dist: 4096, min_len: 3, max_len: 4096 };

#[derive(Default, Debug, Clone)]
pub struct Used {
    pub literals: u64,
    pub short_matches: u64,
    pub long_matches: u64,
    pub previous: u64,
    pub raw_chunks: u64,
    pub chunks: u64,
}

/// Matches that ADC can store: shorter ones are turned into literals by the caller's data.
pub fn adc(rng: &mut Rng, toks: &[Tok], out: &[u8]) -> (Vec<u8>, Used) {
    let mut v = Vec::new();
    let mut lits: Vec<u8> = Vec::new();
    let mut used = Used::default();
    let most = *rng.pick(&[1usize, 5, 128, 128]);
    let mut pos = 0;
    fn flush(v: &mut Vec<u8>, lits: &mut Vec<u8>, most: usize, used: &mut Used) {
        for c in lits.chunks(most) {
            v.push(0x80 | (c.len() - 1) as u8);
            v.extend_from_slice(c);
            used.literals += 1;
        }
        lits.clear();
    }
    for t in toks {
        match *t {
            Tok::Lit(b) => {
                lits.push(b);
                pos += 1;
            }
            Tok::Match { dist, len } => {
                let short = len <= 18 && dist <= 1024;
                let long = len >= 4;
                if !short && !long {
                    lits.extend_from_slice(&out[pos..pos + len]);
                } else {
                    flush(&mut v, &mut lits, most, &mut used);
                    let d = dist - 1;
                    if short && (!long || rng.chance(3, 4)) {
                        v.push((((len - 3) << 2) | (d >> 8)) as u8);
                        v.push(d as u8);
                        used.short_matches += 1;
                    } else {
                        v.push(0x40 | (len - 4) as u8);
                        v.extend_from_slice(&(d as u16).to_be_bytes());
                        used.long_matches += 1;
                    }
                }
                pos += len;
            }
        }
    }
    flush(&mut v, &mut lits, most, &mut used);
    (v, used)
}

/// LZNT1: chunks of 4096 bytes; the tokens of a chunk are made here.
pub fn lznt1(rng: &mut Rng, n: usize) -> (Vec<u8>, Vec<u8>, Used) {
    let mut v: Vec<u8> = Vec::new();
    let mut all = Vec::new();
    let mut used = Used::default();
    let raw_rate = *rng.pick(&[0u64, 0, 20, 100]);
    while all.len() < n {
        let want = 4096.min(n - all.len());
        used.chunks += 1;
        if rng.chance(raw_rate, 100) {
            let d = rng.data(want);
            v.extend_from_slice(&(0x3000u16 | (want - 1) as u16).to_le_bytes());
            v.extend_from_slice(&d);
            all.extend_from_slice(&d);
            used.raw_chunks += 1;
            continue;
        }
        let (toks, out) = crate::tokens(rng, want, Limits { max_dist: 4096, min_len: 3, max_len: 4096 });
        let body = lznt1_chunk(&toks, &out, &mut used);
        if body.len() > 4096 {
            v.extend_from_slice(&(0x3000u16 | (want - 1) as u16).to_le_bytes());
            v.extend_from_slice(&out);
            used.raw_chunks += 1;
        } else {
            v.extend_from_slice(&(0xb000u16 | (body.len() - 1) as u16).to_le_bytes());
            v.extend_from_slice(&body);
        }
        all.extend_from_slice(&out);
    }
    if rng.chance(1, 2) {
        v.extend_from_slice(&[0, 0]);
        if rng.chance(1, 2) {
            let n = rng.usize(1, 20);
            let extra = rng.bytes(n);
            v.extend_from_slice(&extra);
        }
    }
    (v, all, used)
}

/// Body of a compressed chunk.
pub fn lznt1_chunk(toks: &[Tok], out: &[u8], used: &mut Used) -> Vec<u8> {
    let mut items: Vec<Option<u16>> = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    let mut pos = 0;
    let mut lit = |items: &mut Vec<Option<u16>>, b: u8| {
        items.push(None);
        bytes.push(b);
    };
    for t in toks {
        match *t {
            Tok::Lit(b) => {
                lit(&mut items, b);
                used.literals += 1;
                pos += 1;
            }
            Tok::Match { dist, len } => {
                // bits of the displacement: enough for every position written so far, at least 4
                let mut bits = 4;
                while (1usize << bits) < pos {
                    bits += 1;
                }
                let len_bits = 16 - bits;
                let max_len = (1usize << len_bits) - 1 + 3;
                let mut left = len;
                while left > 0 {
                    // the split of a long match moves the position, and with it the bit count
                    let mut bits = 4;
                    while (1usize << bits) < pos {
                        bits += 1;
                    }
                    let len_bits = 16 - bits;
                    let max_len = max_len.min((1usize << len_bits) - 1 + 3);
                    let take = left.min(max_len);
                    if take < 3 {
                        for i in 0..take {
                            lit(&mut items, out[pos + i]);
                        }
                    } else {
                        items.push(Some((((dist - 1) << len_bits) | (take - 3)) as u16));
                        if take > 18 { used.long_matches += 1 } else { used.short_matches += 1 }
                    }
                    pos += take;
                    left -= take;
                }
            }
        }
    }
    let mut v = Vec::new();
    let mut bi = bytes.into_iter();
    for group in items.chunks(8) {
        let mut flags = 0u8;
        for (i, it) in group.iter().enumerate() {
            if it.is_some() {
                flags |= 1 << i;
            }
        }
        v.push(flags);
        for it in group {
            match it {
                Some(x) => v.extend_from_slice(&x.to_le_bytes()),
                None => v.push(bi.next().unwrap()),
            }
        }
    }
    v
}

/// LZVN with all of its instructions; ends with the end of stream instruction.
pub fn lzvn(rng: &mut Rng, toks: &[Tok], end: bool) -> (Vec<u8>, Used) {
    let mut v: Vec<u8> = Vec::new();
    let mut used = Used::default();
    let mut lits: Vec<u8> = Vec::new();
    let mut prev = 0usize;
    let nops = rng.chance(1, 4);
    let style = rng.below(4);
    fn literals(rng: &mut Rng, v: &mut Vec<u8>, lits: &mut Vec<u8>, keep: usize, used: &mut Used) {
        let mut i = 0;
        while lits.len() - i > keep {
            let left = lits.len() - i;
            let n = if left >= 16 && rng.chance(3, 4) { rng.usize(16, left.min(271)) } else { rng.usize(1, left.min(15)) };
            if n >= 16 {
                v.push(0xe0);
                v.push((n - 16) as u8);
            } else {
                v.push(0xe0 | n as u8);
            }
            v.extend_from_slice(&lits[i..i + n]);
            used.literals += 1;
            i += n;
        }
        lits.drain(..i);
    }
    for t in toks {
        if nops && rng.chance(1, 10) {
            v.push(*rng.pick(&[0x0e, 0x16]));
        }
        match *t {
            Tok::Lit(b) => lits.push(b),
            Tok::Match { dist, len } => {
                literals(rng, &mut v, &mut lits, 3, &mut used);
                let mut left = len;
                let mut first = true;
                while left > 0 {
                    if !first || (dist == prev && lits.is_empty() && rng.chance(1, 2)) {
                        // match with the previous distance and without literals
                        let n = if left >= 16 { left.min(271) } else { left };
                        if n >= 16 {
                            v.push(0xf0);
                            v.push((n - 16) as u8);
                        } else {
                            v.push(0xf0 | n as u8);
                        }
                        used.previous += 1;
                        left -= n;
                        first = false;
                        continue;
                    }
                    first = false;
                    // small and large distances allow only some combinations of literals and match size
                    let l = lits.len();
                    let fits = |m: usize, l: usize| {
                        // opcodes LLMMMDDD below 0x70 or 0x80..0xa0 or 0xc0..0xd0
                        let op = (l << 6) | ((m - 3) << 3);
                        (3..=10).contains(&m) && !(0x70..0x80).contains(&op) && !(0xa0..0xc0).contains(&op) && op < 0xd0
                    };
                    let mut m = left.min(10);
                    while m > 3 && !fits(m, l) {
                        m -= 1;
                    }
                    let op = (l << 6) | ((m - 3) << 3);
                    let medium_ok = dist < 0x4000;
                    let kind = match style {
                        0 => rng.below(4),
                        1 if medium_ok => 1,
                        2 => 2,
                        _ => if dist < 1536 { 0 } else { 2 },
                    };
                    if dist == prev && l > 0 && kind != 1 && rng.chance(1, 2) {
                        v.push((op | 6) as u8);
                        v.append(&mut lits);
                        used.previous += 1;
                        left -= m;
                    } else if kind == 1 && medium_ok {
                        let m = left.min(34);
                        v.push((0xa0 | (l << 3) | ((m - 3) >> 2)) as u8);
                        v.push((((dist & 0x3f) << 2) | ((m - 3) & 3)) as u8);
                        v.push((dist >> 6) as u8);
                        v.append(&mut lits);
                        used.long_matches += 1;
                        left -= m;
                    } else if dist < 1536 && kind != 2 {
                        v.push((op | (dist >> 8)) as u8);
                        v.push(dist as u8);
                        v.append(&mut lits);
                        used.short_matches += 1;
                        left -= m;
                    } else {
                        v.push((op | 7) as u8);
                        v.extend_from_slice(&(dist as u16).to_le_bytes());
                        v.append(&mut lits);
                        used.long_matches += 1;
                        left -= m;
                    }
                    prev = dist;
                }
            }
        }
    }
    literals(rng, &mut v, &mut lits, 0, &mut used);
    if end {
        v.extend_from_slice(&[6, 0, 0, 0, 0, 0, 0, 0]);
    }
    (v, used)
}
