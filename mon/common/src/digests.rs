//! Digests after their standards, for the reference.

/// Message padding of the MD family, for the reference implementations.
fn pad(data: &[u8], block: usize, length_size: usize, big: bool) -> Vec<u8> {
    let mut v = data.to_vec();
    v.push(0x80);
    while v.len() % block != block - length_size {
        v.push(0);
    }
    let bits = (data.len() as u128) * 8;
    let be = bits.to_be_bytes();
    let mut l = be[16 - length_size..].to_vec();
    if !big {
        l.reverse();
    }
    v.extend_from_slice(&l);
    v
}

pub fn md5_ref(data: &[u8]) -> Vec<u8> {
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let s = [[7u32, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for block in pad(data, 64, 8, false).chunks(64) {
        let m: Vec<u32> = block.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let (mut a, mut b, mut c, mut d) = (h[0], h[1], h[2], h[3]);
        for i in 0..64usize {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(m[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(s[i / 16][i % 4]));
        }
        h[0] = h[0].wrapping_add(a);
        h[1] = h[1].wrapping_add(b);
        h[2] = h[2].wrapping_add(c);
        h[3] = h[3].wrapping_add(d);
    }
    h.iter().flat_map(|w| w.to_le_bytes()).collect()
}

pub fn sha1_ref(data: &[u8]) -> Vec<u8> {
    let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for block in pad(data, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let mut v = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((v[1] & v[2]) | (!v[1] & v[3]), 0x5a827999u32),
                1 => (v[1] ^ v[2] ^ v[3], 0x6ed9eba1),
                2 => ((v[1] & v[2]) | (v[1] & v[3]) | (v[2] & v[3]), 0x8f1bbcdc),
                _ => (v[1] ^ v[2] ^ v[3], 0xca62c1d6),
            };
            let t = v[0].rotate_left(5).wrapping_add(f).wrapping_add(v[4]).wrapping_add(k).wrapping_add(*wi);
            v = [t, v[0], v[1].rotate_left(30), v[2], v[3]];
        }
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_be_bytes()).collect()
}

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// First 64 fractional bits of the cube (or square) root of n, by integer search.
fn root_bits(n: u64, cube: bool) -> u64 {
    // floor(root(n) * 2^64) mod 2^64, by binary search on 256-bit products.
    fn mul(a: &[u64; 8], b: &[u64; 8]) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..8 {
            let mut carry = 0u128;
            for j in 0..8 - i {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
        }
        r
    }
    let mut lo: u128 = 0;
    let mut hi: u128 = 1u128 << 72;
    let big = |x: u128| -> [u64; 8] { [x as u64, (x >> 64) as u64, 0, 0, 0, 0, 0, 0] };
    let mut target = [0u64; 8];
    target[if cube { 3 } else { 2 }] = n;
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let mut p = mul(&big(mid), &big(mid));
        if cube {
            p = mul(&p, &big(mid));
        }
        let le = p.iter().rev().cmp(target.iter().rev()) != std::cmp::Ordering::Greater;
        if le {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u64
}

pub struct Sha2Tables {
    k64: Vec<u64>,
    h64: Vec<u64>,
    h224: Vec<u32>,
}

pub fn tables() -> &'static Sha2Tables {
    static T: std::sync::OnceLock<Sha2Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        Sha2Tables {
            k64: p.iter().map(|n| root_bits(*n, true)).collect(),
            h64: p.iter().take(8).map(|n| root_bits(*n, false)).collect(),
            // SHA-224: the second 32 bits of the square roots of the 9th to 16th primes
            h224: p.iter().skip(8).take(8).map(|n| root_bits(*n, false) as u32).collect(),
        }
    })
}

pub fn sha256_ref(data: &[u8], short: bool) -> Vec<u8> {
    let t = tables();
    let mut h: Vec<u32> = if short { t.h224.clone() } else { t.h64.iter().map(|v| (v >> 32) as u32).collect() };
    for block in pad(data, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let k = (t.k64[i] >> 32) as u32;
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let r: Vec<u8> = h.iter().flat_map(|w| w.to_be_bytes()).collect();
    if short { r[..28].to_vec() } else { r }
}

pub fn sha512_ref(data: &[u8]) -> Vec<u8> {
    let t = tables();
    let mut h: Vec<u64> = t.h64.clone();
    for block in pad(data, 128, 16, true).chunks(128) {
        let mut w: Vec<u64> = block.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(t.k64[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|w| w.to_be_bytes()).collect()
}

/// A digest by the number of its kind: MD5, SHA1, SHA-224, SHA-256 and SHA-512.
pub fn reference(which: usize, data: &[u8]) -> Vec<u8> {
    match which {
        0 => md5_ref(data),
        1 => sha1_ref(data),
        2 => sha256_ref(data, true),
        3 => sha256_ref(data, false),
        _ => sha512_ref(data),
    }
}
