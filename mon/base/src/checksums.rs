//! C02: checksums equal their definitions, however the data is split.

use keramics_checksums::{Adler32Context, Crc32Context, ReversedCrc32Context};
use mon_common::*;

fn adler_ref(initial: u32, data: &[u8]) -> u32 {
    let mut a: u64 = (initial & 0xffff) as u64 % 65521;
    let mut b: u64 = (initial >> 16) as u64 % 65521;
    for d in data {
        a = (a + *d as u64) % 65521;
        b = (b + a) % 65521;
    }
    ((b << 16) | a) as u32
}

/// CRC-32, most significant bit first, bit by bit.
fn crc_msb_ref(poly: u32, initial: u32, data: &[u8]) -> u32 {
    let mut c = initial;
    for d in data {
        c ^= (*d as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ poly } else { c << 1 };
        }
    }
    c
}

/// CRC-32, least significant bit first (reflected polynomial), bit by bit.
fn crc_lsb_ref(poly: u32, initial: u32, data: &[u8]) -> u32 {
    let mut c = initial;
    for d in data {
        c ^= *d as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ poly } else { c >> 1 };
        }
    }
    c
}


fn edge_sizes(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => rng.usize(5500, 5600),
        1 => rng.usize(11090, 11120),
        2 => rng.usize(0, 300),
        3 => 5552 * rng.usize(1, 12) + rng.usize(0, 2),
        _ => rng.size(200_000),
    }
}

/// Feeds the same data through one context in random pieces, with other data before it, and
/// in one call, against the definition.
fn check<C>(
    ctx: &mut Ctx,
    tag: &str,
    context: &mut C,
    update: fn(&mut C, &[u8]),
    finalize: fn(&mut C) -> u32,
    reference: &dyn Fn(&[u8]) -> u32,
) -> CaseResult {
    let rounds = ctx.rng.usize(1, 3);
    for round in 0..rounds {
        let n = edge_sizes(&mut ctx.rng);
        let data = if ctx.rng.chance(1, 4) { vec![0xff; n] } else { ctx.rng.data(n) };
        let chunks = ctx.rng.chunks(n);
        ctx.detail(format!("round {} of {} bytes in pieces {:?}", round, n, &chunks[..chunks.len().min(30)]));
        let mut at = 0;
        no_panic(tag, || {
            for c in chunks.iter() {
                update(context, &data[at..at + c]);
                at += c;
            }
        })?;
        let got = no_panic(tag, || finalize(context))?;
        let want = reference(&data);
        require!(
            got == want,
            &format!("{}:value", tag),
            "{} of {} bytes in {} pieces (use {} of the context): observed {:08x} expected {:08x}",
            tag, n, chunks.len(), round + 1, got, want
        );
        ctx.count("checksum compared");
        ctx.add("bytes checksummed", n as u64);
        if chunks.len() > 1 {
            ctx.count("incremental");
        }
        if round > 0 {
            ctx.count("context reused");
        }
        ctx.distinct(&data);
        ctx.sample(|| format!("{} over {} bytes in {} pieces = {:08x}", tag, n, chunks.len(), want));
    }
    let empty = no_panic(tag, || finalize(context))?;
    require!(empty == reference(&[]), &format!("{}:empty", tag), "{} of nothing: {:08x}", tag, empty);
    Ok(())
}

pub fn adler(ctx: &mut Ctx) -> CaseResult {
    let initial = match ctx.rng.below(6) {
        0 | 1 => 1,
        3 => 0,
        4 => (*ctx.rng.pick(&[0u32, 1, 65520]) << 16) | *ctx.rng.pick(&[0u32, 1, 65520]),
        2 => (ctx.rng.below(65521) as u32) << 16 | ctx.rng.below(65521) as u32,
        _ => (65520u32 << 16) | 65520,
    };
    let mut c = Adler32Context::new(initial);
    check(ctx, "adler32", &mut c, |c, d| c.update(d), |c| c.finalize(), &|d| adler_ref(initial, d))?;
    // A finished checksum continues as the initial value of the next part.
    let n = ctx.rng.usize(0, 6000);
    let a = ctx.rng.data(n);
    let b = ctx.rng.data(n);
    let mut c1 = Adler32Context::new(1);
    c1.update(&a);
    let mut c2 = Adler32Context::new(c1.finalize());
    c2.update(&b);
    let mut ab = a.clone();
    ab.extend_from_slice(&b);
    require_eq!(c2.finalize(), adler_ref(1, &ab), "adler32:chain", "chained over {} + {} bytes", n, n);
    // Either word at the modulus or next to it after the first part.
    let mut data = a;
    let target_a = *ctx.rng.pick(&[0u32, 1, 65520]);
    let target_b = *ctx.rng.pick(&[0u32, 1, 65520]);
    let now = adler_ref(1, &data) & 0xffff;
    let mut missing = (target_a + 65521 - now) % 65521;
    while missing > 0 {
        let step = missing.min(255);
        data.push(step as u8);
        missing -= step;
    }
    let upper = (target_b + 65521 - (adler_ref(1, &data) >> 16)) % 65521;
    let initial = upper << 16 | 1;
    let mut c = Adler32Context::new(initial);
    c.update(&data);
    c.update(&b);
    data.extend_from_slice(&b);
    require_eq!(c.finalize(), adler_ref(initial, &data), "adler32:modulus", "words {} and {} before the last {} bytes", target_a, target_b, b.len());
    let n = data.len() - b.len();
    let mut c = Adler32Context::new(initial);
    c.update(&data[..n]);
    require_eq!(c.finalize(), target_b << 16 | target_a, "adler32:modulus", "words {} and {} after {} bytes", target_a, target_b, n);
    ctx.count("words at the modulus");
    Ok(())
}

pub fn crc(ctx: &mut Ctx) -> CaseResult {
    let initial = match ctx.rng.below(4) {
        0 | 1 => 0,
        2 => *ctx.rng.pick(&[u32::MAX, 1, 0x8000_0000, 0x7fff_ffff]),
        _ => ctx.rng.next() as u32,
    };
    if ctx.rng.chance(1, 2) {
        let poly = *ctx.rng.pick(&[0xedb88320u32, 0x82f63b78, 0xeb31d82e, 0xd5828281]);
        let mut c = ReversedCrc32Context::new(poly, initial);
        check(ctx, "reversed crc32", &mut c, |c, d| c.update(d), |c| c.finalize(), &|d| !crc_lsb_ref(poly, !initial, d))
    } else {
        let poly = *ctx.rng.pick(&[0x04c11db7u32, 0x1edc6f41, 0x741b8cd7, 0x814141ab]);
        let mut c = Crc32Context::new(poly, initial);
        check(ctx, "crc32", &mut c, |c, d| c.update(d), |c| c.finalize(), &|d| !crc_msb_ref(poly, !initial, d))
    }
}

/// Check values every implementation of these checksums publishes.
pub fn published(ctx: &mut Ctx) -> CaseResult {
    let data = b"123456789";
    let mut a = Adler32Context::new(1);
    a.update(data);
    require_eq!(a.finalize(), 0x091e01de, "adler32:published", "Adler-32 check value");
    for (poly, want) in [(0xedb88320u32, 0xcbf43926u32), (0x82f63b78, 0xe3069283)] {
        let mut c = ReversedCrc32Context::new(poly, 0);
        c.update(data);
        require_eq!(c.finalize(), want, "reversed crc32:published", "check value for {:08x}", poly);
    }
    let mut c = Crc32Context::new(0x04c11db7, 0);
    c.update(data);
    require_eq!(c.finalize(), 0xfc891918, "crc32:published", "CRC-32/BZIP2 check value");
    ctx.count("published value");
    Ok(())
}

/// More data than 32 bits count, in one call and in pieces.
pub fn long(ctx: &mut Ctx) -> CaseResult {
    let pieces = ctx.index % 2 == 0;
    let total = if pieces { (1usize << 29) + 7 } else { (1usize << 32) + 5 };
    let block = crate::hashes::long_pattern();
    let which = ctx.index / 2 % 3;
    ctx.detail(format!("checksum {} of {} bytes, {}", which, total, if pieces { "in pieces" } else { "in one call" }));
    // Adler-32 and CRC-32 values of zlib
    let want: [[u32; 2]; 2] = [[0xddfa208d, 0xc77465ba], [0x00e60001, 0xb1c2a1a3]];
    let feed = |update: &mut dyn FnMut(&[u8])| {
        if pieces {
            let mut left = total;
            while left > 0 {
                let n = left.min(block.len());
                update(&block[..n]);
                left -= n;
            }
        } else {
            update(&vec![0u8; total]);
        }
    };
    let (name, got, want) = match which {
        0 => {
            let mut c = Adler32Context::new(1);
            no_panic("adler32", || feed(&mut |d| c.update(d)))?;
            ("adler32", c.finalize(), want[!pieces as usize][0])
        }
        1 => {
            let mut c = ReversedCrc32Context::new(0xedb88320, 0);
            no_panic("reversed crc32", || feed(&mut |d| c.update(d)))?;
            ("reversed crc32", c.finalize(), want[!pieces as usize][1])
        }
        _ => {
            let table: Vec<u32> = (0..=255u8).map(|b| crc_msb_ref(0x04c11db7, 0, &[b])).collect();
            let mut w = u32::MAX;
            feed(&mut |d| {
                for b in d {
                    w = (w << 8) ^ table[((w >> 24) as u8 ^ b) as usize];
                }
            });
            let mut c = Crc32Context::new(0x04c11db7, 0);
            no_panic("crc32", || feed(&mut |d| c.update(d)))?;
            ("crc32", c.finalize(), !w)
        }
    };
    require!(got == want, &format!("{}:value", name), "{} of {} bytes: observed {:08x} expected {:08x}", name, total, got, want);
    ctx.count(if pieces { "long in pieces" } else { "more than 2^32 bytes in one call" });
    ctx.add("bytes checksummed", total as u64);
    ctx.distinct(&got.to_le_bytes());
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        rule: "random data (sizes around the 5552-byte reduction interval and powers of two, all-0xff worst case), random splits into update calls, random initial values and polynomials, reused contexts, data of 2^29 + 7 bytes in pieces and of 2^32 + 5 bytes in one call; oracle: bitwise/bytewise textbook definitions written independently; non-trivial = distinct data",
        assumptions: &["initial values of Adler-32 are themselves valid Adler-32 values"],
        sections: vec![
            Section { name: "published", quick: 8, thorough: 8, run: published },
            Section { name: "adler", quick: 30_000, thorough: 60_000, run: adler },
            Section { name: "crc", quick: 20_000, thorough: 40_000, run: crc },
            Section { name: "long", quick: 6, thorough: 6, run: long },
        ],
        must_observe: &["long in pieces", "more than 2^32 bytes in one call", "checksum compared", "incremental", "context reused", "published value"],
        case_cpu_limit: 100,
    }
}
