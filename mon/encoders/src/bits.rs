//! Bit writers.

/// Bits fill bytes from the least significant bit on.
#[derive(Default)]
pub struct Lsb {
    pub data: Vec<u8>,
    acc: u64,
    n: usize,
}

impl Lsb {
    pub fn put(&mut self, value: u32, bits: usize) {
        if bits == 0 {
            return;
        }
        self.acc |= ((value as u64) & ((1u64 << bits) - 1)) << self.n;
        self.n += bits;
        while self.n >= 8 {
            self.data.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// Writes a prefix code, its most significant bit first.
    pub fn code(&mut self, (code, size): (u32, usize)) {
        assert!(size > 0, "symbol without code");
        for i in (0..size).rev() {
            self.put((code >> i) & 1, 1);
        }
    }
    pub fn align(&mut self, fill: u32) {
        if self.n > 0 {
            let left = 8 - self.n;
            self.put(fill, left);
        }
    }
    pub fn bit_position(&self) -> usize {
        self.data.len() * 8 + self.n
    }
}

/// Bits fill bytes from the most significant bit on.
#[derive(Default)]
pub struct Msb {
    pub data: Vec<u8>,
    acc: u8,
    n: usize,
}

impl Msb {
    pub fn put(&mut self, value: u64, bits: usize) {
        for i in (0..bits).rev() {
            self.acc = (self.acc << 1) | ((value >> i) & 1) as u8;
            self.n += 1;
            if self.n == 8 {
                self.data.push(self.acc);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn code(&mut self, (code, size): (u32, usize)) {
        assert!(size > 0, "symbol without code");
        self.put(code as u64, size);
    }
    pub fn finish(mut self) -> Vec<u8> {
        while self.n != 0 {
            self.put(0, 1);
        }
        self.data
    }
}

/// Bits fill little-endian 16-bit words from the most significant bit on.
#[derive(Default)]
pub struct Words {
    pub data: Vec<u8>,
    acc: u16,
    n: usize,
}

impl Words {
    pub fn put(&mut self, value: u32, bits: usize) {
        for i in (0..bits).rev() {
            self.acc = (self.acc << 1) | ((value >> i) & 1) as u16;
            self.n += 1;
            if self.n == 16 {
                self.data.extend_from_slice(&self.acc.to_le_bytes());
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn code(&mut self, (code, size): (u32, usize)) {
        assert!(size > 0, "symbol without code");
        self.put(code, size);
    }
    /// Bits still free in the current word, 0 when at a word boundary.
    pub fn free(&self) -> usize {
        (16 - self.n) % 16
    }
}
