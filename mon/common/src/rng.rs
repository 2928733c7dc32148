//! SplitMix64 with a few shaped generators.

#[derive(Clone)]
pub struct Rng {
    state: u64,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self { state: seed ^ 0x5851f42d4c957f2d };
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi == u64::MAX && lo == 0 {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn i64(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        if span > u64::MAX as u128 {
            return self.next() as i64;
        }
        (lo as i128 + (self.next() as u128 % span) as i128) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Sizes concentrated on small values and on values around powers of two and block sizes.
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.below(4) {
            0 => self.usize(0, 16.min(max)),
            1 => {
                let p = 1usize << self.below(24);
                let d = self.i64(-3, 3);
                (p as i64 + d).max(0) as usize
            }
            2 => {
                let b = *self.pick(&[55usize, 56, 63, 64, 111, 112, 119, 127, 128, 512, 4096, 5552, 32768, 65521]);
                let k = self.usize(1, 4);
                (b * k) as usize + self.usize(0, 4) - 2
            }
            _ => self.usize(0, max),
        };
        n.min(max)
    }
    /// Data that is sometimes repetitive, sparse, textual or random.
    pub fn data(&mut self, n: usize) -> Vec<u8> {
        match self.below(7) {
            0 => self.bytes(n),
            1 => vec![*self.pick(&[0u8, 0xff, 0x20, 0x41]); n],
            2 => {
                let period = self.usize(1, 40);
                let p = self.bytes(period);
                (0..n).map(|i| p[i % period]).collect()
            }
            3 => {
                let words = [
                    "keramics ", "file ", "system ", "data ", "stream ", "\n", "the ", "0123456789", "cluster ", "\t", "a",
                ];
                let mut v = Vec::with_capacity(n + 16);
                while v.len() < n {
                    v.extend_from_slice(self.pick(&words).as_bytes());
                }
                v.truncate(n);
                v
            }
            4 => {
                let mut v = vec![0u8; n];
                let k = self.usize(0, 1 + n / 32);
                for _ in 0..k {
                    if n > 0 {
                        let i = self.usize(0, n - 1);
                        v[i] = self.byte();
                    }
                }
                v
            }
            5 => {
                // mix of copies from earlier and literals
                let mut v: Vec<u8> = Vec::with_capacity(n + 300);
                while v.len() < n {
                    if v.len() > 4 && self.chance(1, 2) {
                        let d = if self.chance(1, 4) {
                            self.usize(1, v.len())
                        } else {
                            self.usize(1, v.len().min(64))
                        };
                        let l = if self.chance(1, 6) { self.usize(3, 300) } else { self.usize(3, 24) };
                        for _ in 0..l {
                            let b = v[v.len() - d];
                            v.push(b);
                        }
                    } else {
                        let l = self.usize(1, 20);
                        let b = self.bytes(l);
                        v.extend_from_slice(&b);
                    }
                }
                v.truncate(n);
                v
            }
            _ => {
                let k = self.usize(1, 8) as u64;
                (0..n).map(|_| (self.below(k) * 37) as u8).collect()
            }
        }
    }
    /// Integers at and around boundaries.
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(300),
            1 => (1u64 << self.below(64)).wrapping_add(self.below(5)).wrapping_sub(2),
            2 => u64::MAX - self.below(300),
            3 => (self.next()) >> self.below(64),
            4 => (i64::MAX as u64).wrapping_add(self.below(5)).wrapping_sub(2),
            _ => self.next(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(0, i);
            v.swap(i, j);
        }
    }
    /// Splits 0..n into consecutive chunk sizes.
    pub fn chunks(&mut self, n: usize) -> Vec<usize> {
        let mut r = Vec::new();
        let mut left = n;
        let style = self.below(4);
        while left > 0 {
            let c = match style {
                0 => left,
                1 => self.usize(1, 3.min(left)).max(if n > 20000 { left.min(n / 64) } else { 1 }),
                2 => self.size(left),
                _ => self.usize(0, left),
            };
            r.push(c);
            left -= c;
            if r.len() > 400 {
                r.push(left);
                break;
            }
        }
        if self.chance(1, 4) {
            r.push(0);
        }
        r
    }
}
