//! C03: digests equal their standards, however the message is split.

use keramics_hashes::{
    DigestHashContext, Md5Context, Sha1Context, Sha224Context, Sha256Context, Sha512Context,
};
use mon_common::digests::*;
use mon_common::*;

const NAMES: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

fn context(which: usize) -> Box<dyn DigestHashContext> {
    match which {
        0 => Box::new(Md5Context::new()),
        1 => Box::new(Sha1Context::new()),
        2 => Box::new(Sha224Context::new()),
        3 => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    }
}

fn compare(ctx: &mut Ctx, which: usize, c: &mut dyn DigestHashContext, data: &[u8], chunks: &[usize], usage: &str) -> CaseResult {
    let name = NAMES[which];
    ctx.detail(format!("{} of {} bytes in pieces {:?} ({}) data {}", name, data.len(), &chunks[..chunks.len().min(40)], usage, hex(data)));
    let mut at = 0;
    let got = no_panic(name, || {
        for n in chunks {
            c.update(&data[at..at + n]);
            at += n;
        }
        c.finalize()
    })?;
    let want = reference(which, data);
    require!(
        got == want,
        &format!("{}:digest", name),
        "{} of {} bytes in pieces {:?} ({}): observed {} expected {}",
        name, data.len(), &chunks[..chunks.len().min(20)], usage, hex(&got), hex(&want)
    );
    ctx.count("digest compared");
    ctx.count(&format!("{} digests", name));
    ctx.add("bytes hashed", data.len() as u64);
    ctx.distinct(&want);
    Ok(())
}

/// Every message length 0..=300 and every split of it into two updates at block-relevant points.
pub fn lengths(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.index as usize % 301;
    let data = ctx.rng.bytes(n);
    for which in 0..5 {
        let mut c = context(which);
        compare(ctx, which, c.as_mut(), &data, &[n], "one call")?;
        for first in [1usize, 8, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 192, 256] {
            if first <= n {
                compare(ctx, which, c.as_mut(), &data, &[first, n - first], "two calls, reused context")?;
            }
        }
        let ones = vec![1usize; n];
        compare(ctx, which, c.as_mut(), &data, &ones, "byte by byte")?;
    }
    ctx.count("every length up to 300");
    Ok(())
}

pub fn random(ctx: &mut Ctx) -> CaseResult {
    let which = ctx.rng.usize(0, 4);
    let mut c = context(which);
    let rounds = ctx.rng.usize(1, 4);
    for round in 0..rounds {
        let max = if ctx.rng.chance(1, 50) { 1_200_000 } else { 20_000 };
        let n = ctx.rng.size(max);
        let data = ctx.rng.data(n);
        let mut chunks = ctx.rng.chunks(n);
        if ctx.rng.chance(1, 2) {
            // block aligned pieces with remainders, and empty updates in between
            chunks.clear();
            let mut left = n;
            while left > 0 && chunks.len() < 600 {
                let b = *ctx.rng.pick(&[64usize, 128, 63, 65, 127, 129, 0, 1, 56, 112, 256]);
                let k = b.min(left);
                chunks.push(k);
                left -= k;
            }
            chunks.push(left);
        }
        let usage = if round == 0 { "fresh context" } else { "reused context" };
        compare(ctx, which, c.as_mut(), &data, &chunks, usage)?;
        if round > 0 {
            ctx.count("context reused");
        }
        ctx.sample(|| format!("{} over {} bytes in {} pieces, {}", NAMES[which], n, chunks.len(), usage));
    }
    Ok(())
}

/// Published vectors: they check the reference as well.
pub fn published(ctx: &mut Ctx) -> CaseResult {
    let vectors: [(usize, &[u8], &str); 7] = [
        (0, b"abc", "900150983cd24fb0d6963f7d28e17f72"),
        (1, b"abc", "a9993e364706816aba3e25717850c26c9cd0d89d"),
        (2, b"abc", "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"),
        (3, b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
        (4, b"abc", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"),
        (0, b"", "d41d8cd98f00b204e9800998ecf8427e"),
        (4, b"", "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e"),
    ];
    for (which, data, want) in vectors {
        if hex(&reference(which, data)) != want {
            fail!("HARNESS", "reference {} is wrong", NAMES[which]);
        }
        let mut c = context(which);
        c.update(data);
        require!(hex(&c.finalize()) == want, &format!("{}:digest", NAMES[which]), "published vector");
        ctx.count("published vector");
    }
    Ok(())
}

/// One mebibyte that is repeated to make a long message.
pub fn long_pattern() -> Vec<u8> {
    (0u32..1 << 20).map(|i| (i.wrapping_mul(31).wrapping_add((i >> 8) * 7).wrapping_add((i >> 16) * 13)) as u8).collect()
}

/// Messages whose size in bits (or in bytes) needs more than 32 bits: the digests are those of
/// an external implementation (OpenSSL, by way of Python's hashlib).
pub fn long(ctx: &mut Ctx) -> CaseResult {
    const WANT: [[&str; 5]; 2] = [
        [
            "3e13f8123a0997ecaa761317a55eae21",
            "c93137462a915bcc4381ade60fabb0d2c2ae7b55",
            "29a1f49b220ba958b5f1c7fa812e2c7961ee3e1643c7408c933908ac",
            "1b4b9960dbaf0325525162df91a8912f155ceceb5840637d0c72d61cae73d208",
            "63931eacd78adf33c84268f9b076bf31d913c168babdb2f3a00e9263cadecf94f5c2442ffd2d9da7d2038d7711a524793c3cc4b3ba159fefd6b7ee05887b8370",
        ],
        [
            "968a8809aa0886d87f385d88733a98d2",
            "7ce9d83c5eacca17b354408ce637473229a7d5e2",
            "f4a576342fac75d84361339a63113147ab07c72643e52c88fb276e69",
            "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5",
            "3fb5450b9f919ab250736c2aadf529f4bb334d6aa6a68f767472caff38b269cb3a8c306b58b6402f8eb39210fee37035146450c339688d34fddb998dbfa1f070",
        ],
    ];
    let which = ctx.index as usize % 5;
    let case = ctx.index as usize / 5 % 2;
    let mut c = context(which);
    let (text, total) = [("2^29 + 7 patterned bytes in pieces of 1 MiB", (1usize << 29) + 7), ("2^32 + 5 zero bytes in one call", (1usize << 32) + 5)][case];
    ctx.detail(format!("{} of {}", NAMES[which], text));
    let got = no_panic(NAMES[which], || {
        if case == 0 {
            let block = long_pattern();
            let mut left = total;
            while left > 0 {
                let n = left.min(block.len());
                c.update(&block[..n]);
                left -= n;
            }
        } else {
            // never written to, hence backed by no memory
            c.update(&vec![0u8; total]);
        }
        c.finalize()
    })?;
    require!(hex(&got) == WANT[case][which], &format!("{}:digest", NAMES[which]), "{} of {}: observed {} expected {}", NAMES[which], text, hex(&got), WANT[case][which]);
    ctx.count(if case == 0 { "message of more than 2^32 bits" } else { "message of more than 2^32 bytes" });
    ctx.add("bytes hashed", total as u64);
    ctx.distinct(&got);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "every message length 0..300 in every two-piece split at block-relevant points and byte by byte, plus random messages up to 1.2 MB in random piece sizes through fresh and reused contexts, plus messages of 2^29 + 7 bytes in pieces and of 2^32 + 5 bytes in one call against recorded digests of OpenSSL; oracle: independent one-shot implementations of RFC 1321 and FIPS 180-4 with constants derived from first principles; non-trivial = distinct digest",
        assumptions: &["messages below 2^61 bytes: the 128-bit length of SHA-512 is not exercised beyond 64 bits"],
        sections: vec![
            Section { name: "published", quick: 1, thorough: 1, run: published },
            Section { name: "lengths", quick: 301, thorough: 3010, run: lengths },
            Section { name: "random", quick: 6000, thorough: 150_000, run: random },
            Section { name: "long", quick: 10, thorough: 10, run: long },
        ],
        must_observe: &["message of more than 2^32 bits", "message of more than 2^32 bytes", "published vector", "every length up to 300", "context reused", "md5 digests", "sha1 digests", "sha224 digests", "sha256 digests", "sha512 digests"],
        case_cpu_limit: 100,
    }
}
