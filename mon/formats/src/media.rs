//! The model of a medium: its size and its content, and the monitor that compares a stream
//! with it.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::SeekFrom;
use std::sync::Arc;

use keramics_core::{DataStream, DataStreamReference, ErrorTrace, open_fake_data_stream};
use keramics_formats::{FileResolver, FileResolverReference, PathComponent};
use mon_common::*;

/// Content of a medium that reads as zero where nothing was put.
#[derive(Clone, Default)]
#[derive(Debug)]
pub struct Media {
    pub size: u64,
    pub unit: u64,
    blocks: BTreeMap<u64, Vec<u8>>,
}

impl Media {
    /// `unit` is the granularity in which the content is put.
    pub fn new(size: u64, unit: u64) -> Media {
        Media { size, unit, blocks: BTreeMap::new() }
    }
    pub fn from_bytes(data: &[u8]) -> Media {
        let mut m = Media::new(data.len() as u64, data.len().max(1) as u64);
        m.put(0, data.to_vec());
        m
    }
    /// Puts content at a multiple of the unit, no longer than the unit.
    pub fn put(&mut self, at: u64, data: Vec<u8>) {
        assert!(at % self.unit == 0 && data.len() as u64 <= self.unit);
        self.blocks.insert(at, data);
    }
    /// Content of any place and length.
    pub fn write(&mut self, at: u64, data: &[u8]) {
        let mut done = 0;
        while done < data.len() {
            let o = at + done as u64;
            let base = o - o % self.unit;
            let n = (data.len() - done).min((base + self.unit - o) as usize);
            let b = self.blocks.entry(base).or_default();
            let from = (o - base) as usize;
            if b.len() < from + n {
                b.resize(from + n, 0);
            }
            b[from..from + n].copy_from_slice(&data[done..done + n]);
            done += n;
        }
    }
    pub fn get(&self, at: u64, len: usize) -> Vec<u8> {
        let mut out = vec![0; len];
        let end = at + len as u64;
        let first = at - at % self.unit;
        for (base, data) in self.blocks.range(first..end) {
            let from = at.max(*base);
            let to = end.min(base + data.len() as u64);
            if from < to {
                out[(from - at) as usize..(to - at) as usize]
                    .copy_from_slice(&data[(from - base) as usize..(to - base) as usize]);
            }
        }
        out
    }
    /// Makes a range read as zeros.
    pub fn erase(&mut self, at: u64, len: u64) {
        let end = at + len;
        let keys: Vec<u64> = self.blocks.range((at - at % self.unit)..end).map(|(k, _)| *k).collect();
        for k in keys {
            if k >= at && k + self.unit <= end {
                self.blocks.remove(&k);
            } else {
                let b = self.blocks.get_mut(&k).unwrap();
                let from = (at.max(k) - k).min(b.len() as u64) as usize;
                let to = (end - k).min(b.len() as u64) as usize;
                b[from..to].fill(0);
            }
        }
    }
    pub fn blocks(&self) -> impl Iterator<Item = (u64, &[u8])> {
        self.blocks.iter().map(|(k, v)| (*k, v.as_slice()))
    }
    /// The pieces of some length that do not read as zeros.
    pub fn pieces(&self, len: u64) -> BTreeSet<u64> {
        let mut out = BTreeSet::new();
        for (at, data) in &self.blocks {
            for k in *at / len..(*at + data.len() as u64).div_ceil(len) {
                let from = (k * len).max(*at) - at;
                let to = ((k + 1) * len - at).min(data.len() as u64);
                if data[from as usize..to as usize].iter().any(|b| *b != 0) {
                    out.insert(k);
                }
            }
        }
        out
    }
    /// The pieces of some length that differ from another medium.
    pub fn changes(&self, other: &Media, len: u64) -> BTreeSet<u64> {
        let mut p = self.pieces(len);
        p.extend(other.pieces(len));
        p.retain(|k| self.get(k * len, len as usize) != other.get(k * len, len as usize));
        p
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.get(0, self.size as usize)
    }
    pub fn hash(&self) -> u64 {
        let mut h = fnv(&self.size.to_le_bytes());
        for (a, d) in &self.blocks {
            h = h.rotate_left(5) ^ fnv(&a.to_le_bytes()) ^ fnv(d);
        }
        h
    }
    /// The same content up to another size, zero beyond.
    pub fn resized(&self, size: u64) -> Media {
        let mut m = self.clone();
        m.size = size;
        let keys: Vec<u64> = m.blocks.range((size.saturating_sub(self.unit))..).map(|(k, _)| *k).collect();
        for k in keys {
            if k >= size {
                m.blocks.remove(&k);
            } else {
                let b = m.blocks.get_mut(&k).unwrap();
                b.truncate(((size - k) as usize).min(b.len()));
            }
        }
        m
    }
    fn target(&self, rng: &mut Rng) -> u64 {
        let unit = self.unit.max(1);
        match rng.below(10) {
            0 => 0,
            1 => self.size + rng.below(20),
            2 => self.size.saturating_sub(rng.below(20)),
            3 => rng.below(64),
            4 | 5 if self.size > 0 => {
                let k = rng.below(self.size / unit + 1) * unit;
                (k + rng.below(40)).saturating_sub(20)
            }
            6 | 7 if !self.blocks.is_empty() => {
                let i = rng.usize(0, self.blocks.len().min(64) - 1);
                let k = if rng.chance(1, 2) { *self.blocks.keys().nth(i).unwrap() } else { *self.blocks.keys().rev().nth(i).unwrap() };
                (k + rng.below(unit + 40)).saturating_sub(20)
            }
            _ => rng.below(self.size.max(1)),
        }
    }
}

fn position(rng: &mut Rng, media: &Media, cursor: u64) -> (SeekFrom, u64) {
    let t = media.target(rng);
    match rng.below(4) {
        0 => (SeekFrom::Current(t as i64 - cursor as i64), t),
        1 => (SeekFrom::End(t as i64 - media.size as i64), t),
        _ => (SeekFrom::Start(t), t),
    }
}

/// Drives a stream with a random schedule of operations and compares every return value and
/// byte with the medium.
pub fn drive(ctx: &mut Ctx, tag: &str, stream: &DataStreamReference, media: &Media, operations: usize, max_read: usize) -> CaseResult {
    let mut s = stream.write().unwrap();
    let mut cursor = 0u64;
    match no_panic(tag, || s.get_size())? {
        Ok(n) => require_eq!(n, media.size, &format!("{tag}:size"), "size of the stream"),
        Err(e) => fail!(&format!("{tag}:size"), "{}", e.to_string()),
    }
    if ctx.rng.chance(1, 2) {
        match no_panic(tag, || s.seek(SeekFrom::Start(0)))? {
            Ok(0) => {}
            r => fail!(&format!("{tag}:seek"), "seek to the start: {r:?}"),
        }
    }
    for _ in 0..operations {
        if ctx.rng.chance(1, 2) {
            let (p, t) = position(&mut ctx.rng, media, cursor);
            match no_panic(tag, || s.seek(p))? {
                Ok(n) => require_eq!(n, t, &format!("{tag}:seek"), "{p:?} at {cursor} of {}", media.size),
                Err(e) => fail!(&format!("{tag}:seek"), "{p:?} at {cursor} of {}: {}", media.size, e.to_string()),
            }
            cursor = t;
        }
        let n = match ctx.rng.below(6) {
            0 => 0,
            1 | 2 => ctx.rng.usize(1, 16),
            3 => (media.unit as usize).min(max_read),
            _ => ctx.rng.size(max_read),
        };
        let have = media.size.saturating_sub(cursor).min(n as u64) as usize;
        let expected = media.get(cursor, have);
        let mut buf = vec![0xa5u8; n];
        let exact = ctx.rng.chance(1, 4);
        if exact {
            let r = no_panic(tag, || s.read_exact(&mut buf))?;
            match r {
                Ok(()) => {
                    require!(have == n, &format!("{tag}:exact"), "exact read of {n} at {cursor} of {} succeeded", media.size);
                    cursor += n as u64;
                }
                Err(e) => {
                    require!(have < n, &format!("{tag}:exact"), "exact read of {n} at {cursor} of {} failed: {}", media.size, e.to_string());
                    cursor = media.target(&mut ctx.rng);
                    let p = SeekFrom::Start(cursor);
                    let r = no_panic(tag, || s.seek(p))?;
                    require!(matches!(r, Ok(c) if c == cursor), &format!("{tag}:seek"), "seek to {cursor}: {r:?}");
                    continue;
                }
            }
        } else {
            match no_panic(tag, || s.read(&mut buf))? {
                Ok(got) => {
                    require_eq!(got, have, &format!("{tag}:count"), "read of {n} at {cursor} of {}: number of bytes", media.size);
                    cursor += got as u64;
                }
                Err(e) => fail!(&format!("{tag}:read"), "read of {n} at {cursor} of {}: {}", media.size, e.to_string()),
            }
        }
        let at = cursor - have as u64;
        if let Some(i) = (0..have).find(|&i| buf[i] != expected[i]) {
            fail!(&format!("{tag}:bytes"), "read of {n} at {at} of {}: byte at {} is {:#04x}, expected {:#04x}", media.size, at + i as u64, buf[i], expected[i]);
        }
        require!(buf[have..].iter().all(|b| *b == 0xa5), &format!("{tag}:overrun"), "read of {n} at {at}: bytes beyond the {have} returned ones were written");
        ctx.add("bytes compared", have as u64);
        ctx.count("reads compared");
    }
    Ok(())
}

/// Back to the start.
pub fn rewind(s: &DataStreamReference) {
    let _ = s.write().unwrap().seek(SeekFrom::Start(0));
}

/// Reads everything in pieces and compares it.
pub fn sweep(ctx: &mut Ctx, tag: &str, stream: &DataStreamReference, media: &Media) -> CaseResult {
    let mut s = stream.write().unwrap();
    let r = no_panic(tag, || s.seek(SeekFrom::Start(0)))?;
    require!(matches!(r, Ok(0)), &format!("{tag}:seek"), "seek to the start: {r:?}");
    let piece = match ctx.rng.below(3) {
        0 => ctx.rng.usize(1, 5000).max(media.size as usize / 400),
        1 => (media.size as usize).max(1),
        _ => (media.unit as usize).max(media.size as usize / 400).max(1),
    };
    let mut buf = vec![0; piece];
    let mut at = 0u64;
    loop {
        match no_panic(tag, || s.read(&mut buf))? {
            Ok(got) => {
                let have = (media.size - at).min(piece as u64) as usize;
                require_eq!(got, have, &format!("{tag}:count"), "read of {piece} at {at} of {}: number of bytes", media.size);
                let expected = media.get(at, have);
                if let Some(i) = (0..have).find(|&i| buf[i] != expected[i]) {
                    fail!(&format!("{tag}:bytes"), "read of {piece} at {at} of {}: byte at {} is {:#04x}, expected {:#04x}", media.size, at + i as u64, buf[i], expected[i]);
                }
                at += got as u64;
                ctx.add("bytes compared", got as u64);
                if got == 0 {
                    break;
                }
            }
            Err(e) => fail!(&format!("{tag}:read"), "read of {piece} at {at} of {}: {}", media.size, e.to_string()),
        }
    }
    ctx.count("streams read to their end");
    Ok(())
}

pub fn stream(data: &[u8]) -> DataStreamReference {
    open_fake_data_stream(data)
}

/// A stream over a sparse medium, for image files that are mostly holes.
pub struct SparseStream {
    media: Media,
    offset: u64,
}
impl DataStream for SparseStream {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        Ok(self.media.size)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        let n = self.media.size.saturating_sub(self.offset).min(buf.len() as u64) as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.media.get(self.offset, n));
        }
        self.offset += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        let o = match pos {
            SeekFrom::Start(o) => o as i128,
            SeekFrom::Current(o) => self.offset as i128 + o as i128,
            SeekFrom::End(o) => self.media.size as i128 + o as i128,
        };
        if o < 0 || o > i64::MAX as i128 {
            return Err(ErrorTrace::new(String::from("seek out of range")));
        }
        self.offset = o as u64;
        Ok(self.offset)
    }
}
pub fn sparse_stream(media: &Media) -> DataStreamReference {
    Arc::new(std::sync::RwLock::new(SparseStream { media: media.clone(), offset: 0 }))
}

/// Files by path ("/" between the components).
pub type Files = HashMap<String, Media>;
pub struct MemResolver(pub Files);
impl FileResolver for MemResolver {
    fn get_data_stream(&self, path: &[PathComponent]) -> Result<Option<DataStreamReference>, ErrorTrace> {
        let name = path.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("/");
        Ok(self.0.get(&name).map(sparse_stream))
    }
}
pub fn resolver(files: &Files) -> FileResolverReference {
    Arc::new(Box::new(MemResolver(files.clone())))
}

/// Bytes that tell their place.
pub fn fill(salt: u64, at: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 16);
    let mut w = at / 8;
    let skip = (at % 8) as usize;
    while v.len() < len + skip {
        let mut x = (w ^ salt).wrapping_mul(0x9e3779b97f4a7c15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9);
        v.extend_from_slice(&(x ^ (x >> 32)).to_le_bytes());
        w += 1;
    }
    v.drain(..skip);
    v.truncate(len);
    v
}

/// Damages an image file that is mostly holes.
pub fn mutate_media(rng: &mut Rng, m: &mut Media, places: &[(u64, u64)]) {
    if rng.chance(1, 12) {
        let n = rng.below(m.size + 1);
        *m = m.resized(n);
        return;
    }
    let n = if rng.chance(1, 2) { 1 } else { rng.usize(1, 6) };
    for _ in 0..n {
        let (o, l) = *rng.pick(places);
        let at = o + rng.below(l.max(1));
        if at >= m.size {
            continue;
        }
        let l = (m.size - at).min(24) as usize;
        let mut v = m.get(at, l);
        let places: Vec<(usize, usize)> = vec![(0, l.min(8))];
        mutate(rng, &mut v, &places);
        v.truncate(l);
        m.write(at, &v);
    }
}

pub fn le16(v: &mut [u8], o: usize, x: u16) {
    v[o..o + 2].copy_from_slice(&x.to_le_bytes());
}
pub fn le32(v: &mut [u8], o: usize, x: u32) {
    v[o..o + 4].copy_from_slice(&x.to_le_bytes());
}
pub fn le64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_le_bytes());
}
pub fn be16(v: &mut [u8], o: usize, x: u16) {
    v[o..o + 2].copy_from_slice(&x.to_be_bytes());
}
pub fn be32(v: &mut [u8], o: usize, x: u32) {
    v[o..o + 4].copy_from_slice(&x.to_be_bytes());
}
pub fn be64(v: &mut [u8], o: usize, x: u64) {
    v[o..o + 8].copy_from_slice(&x.to_be_bytes());
}

/// A CRC, reflected, bit by bit.
pub fn crc32_with(poly: u32, data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ poly } else { c >> 1 };
        }
    }
    !c
}
pub fn crc32(data: &[u8]) -> u32 {
    crc32_with(0xedb88320, data)
}
pub fn crc32c(data: &[u8]) -> u32 {
    !crc32c_raw(!0, data)
}
/// Without the inversions, continued from a value.
pub fn crc32c_raw(seed: u32, data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        (0..256u32)
            .map(|i| (0..8).fold(i, |c, _| if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 }))
            .collect()
    });
    data.iter().fold(seed, |c, b| (c >> 8) ^ t[((c ^ *b as u32) & 0xff) as usize])
}

/// Damages an image: bytes, fields, copies and truncation, mostly inside the given places.
pub fn mutate(rng: &mut Rng, v: &mut Vec<u8>, places: &[(usize, usize)]) {
    if v.is_empty() {
        return;
    }
    let n = if rng.chance(1, 2) { 1 } else { rng.usize(1, 6) };
    for _ in 0..n {
        let at = if !places.is_empty() && rng.chance(7, 8) {
            let (o, l) = *rng.pick(places);
            o + rng.usize(0, l.max(1) - 1)
        } else {
            rng.usize(0, v.len() - 1)
        };
        if at >= v.len() {
            continue;
        }
        let edge = rng.edge_u64();
        match rng.below(10) {
            0 | 1 => v[at] ^= 1 << rng.below(8),
            2 | 3 => v[at] = *rng.pick(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff]),
            4 => v[at] = rng.byte(),
            5 | 6 => {
                let k = *rng.pick(&[2usize, 4, 4, 8]);
                let at = at & !(k - 1);
                if at + k <= v.len() {
                    let mut e = edge.to_le_bytes();
                    if rng.chance(1, 2) {
                        e[..k].reverse();
                    }
                    v[at..at + k].copy_from_slice(&e[..k]);
                }
            }
            7 => {
                let l = rng.usize(1, 16).min(v.len() - at);
                v[at..at + l].fill(*rng.pick(&[0u8, 0xff]));
            }
            8 => {
                // another field of the image
                let l = (*rng.pick(&[1usize, 2, 4, 8, 16])).min(v.len() - at);
                let from = rng.usize(0, v.len() - l);
                let t = v[from..from + l].to_vec();
                v[at..at + l].copy_from_slice(&t);
            }
            _ => {
                if rng.chance(1, 3) {
                    let k = if rng.chance(1, 2) { at } else { rng.usize(0, v.len()) };
                    v.truncate(k);
                    if v.is_empty() {
                        return;
                    }
                } else {
                    let k = (*rng.pick(&[2usize, 4])).min(v.len() - at);
                    if k == 2 || k == 4 {
                        // slightly different numbers
                        let mut e = [0u8; 4];
                        e[..k].copy_from_slice(&v[at..at + k]);
                        let x = u32::from_le_bytes(e).wrapping_add(rng.below(9) as u32).wrapping_sub(4);
                        v[at..at + k].copy_from_slice(&x.to_le_bytes()[..k]);
                    }
                }
            }
        }
    }
}
