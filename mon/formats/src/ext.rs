//! Extended file systems (ext2, ext3 and ext4).

use std::collections::{BTreeMap, HashMap, HashSet};

use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, PosixTime32, PosixTime64Ns};
use keramics_encodings::CharacterEncoding;
use keramics_formats::ext::{ExtFileEntry, ExtFileSystem, ExtPath};
use keramics_types::ByteString;
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

#[derive(Clone, Debug)]
enum Kind {
    Directory(Vec<(Vec<u8>, u32)>),
    File(Media),
    Link(Vec<u8>),
    Device(u32, bool),
    Other,
}

#[derive(Clone, Debug)]
struct Node {
    mode: u16,
    uid: u32,
    gid: u32,
    size: u64,
    links: u16,
    accessed: DateTime,
    changed: DateTime,
    modified: DateTime,
    deleted: DateTime,
    created: Option<DateTime>,
    attributes: Option<usize>,
    kind: Kind,
    /// Number of directory entries that are to be there.
    names: usize,
}

#[derive(Clone, Debug)]
struct Run {
    logical: u64,
    length: u64,
    physical: u64,
    written: bool,
}

pub struct Built {
    pub media: Media,
    bs: u64,
    version: u8,
    revision: u32,
    flags: [u32; 3],
    inodes: u32,
    inode_size: u64,
    label: Vec<u8>,
    mounted_on: Vec<u8>,
    mounted: i32,
    written: i32,
    nodes: HashMap<u32, Node>,
    checksums: bool,
    pub places: Vec<(u64, u64)>,
    inode_places: HashMap<u32, u64>,
    descriptor_place: (u64, u64),
    seen: HashSet<&'static str>,
    groups: u64,
    total: u64,
}

struct Fs<'a> {
    rng: &'a mut Rng,
    media: Media,
    bs: u64,
    first: u64,
    total: u64,
    bpg: u64,
    ipg: u64,
    inode_size: u64,
    seed: Option<u32>,
    version: u8,
    file_type: bool,
    extents: bool,
    inline: bool,
    huge_file: bool,
    large: bool,
    tables: Vec<u64>,
    used: BTreeMap<u64, u64>,
    taken: HashSet<u32>,
    places: Vec<(u64, u64)>,
    inode_places: HashMap<u32, u64>,
    nodes: HashMap<u32, Node>,
    seen: HashSet<&'static str>,
    budget: u64,
}

fn crc16(mut c: u16, data: &[u8]) -> u16 {
    for b in data {
        c ^= *b as u16;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xa001 } else { c >> 1 };
        }
    }
    c
}

fn pad4(n: usize) -> usize {
    n.div_ceil(4) * 4
}

/// A value of time: the number as stored, the extra bits and what it stands for.
fn time(rng: &mut Rng, extra: bool) -> (u32, u32, DateTime) {
    let s = match rng.below(8) {
        0 => 0i32,
        1 => -(rng.below(1 << 31) as i32).max(1),
        2 => i32::MAX,
        _ => rng.below(1 << 31) as i32,
    };
    if !extra {
        return (s as u32, 0, if s != 0 { DateTime::PosixTime32(PosixTime32::new(s)) } else { DateTime::NotSet });
    }
    if s == 0 && rng.chance(1, 2) {
        return (0, 0, DateTime::NotSet);
    }
    let ns = match rng.below(4) {
        0 => 0,
        1 => 999_999_999,
        _ => rng.below(1_000_000_000) as u32,
    };
    let epoch = if rng.chance(1, 3) { rng.below(4) as u32 } else { 0 };
    let t = s as i64 + ((epoch as i64) << 32);
    if t == 0 {
        return (0, 0, DateTime::NotSet);
    }
    (s as u32, ns << 2 | epoch, DateTime::PosixTime64Ns(PosixTime64Ns::new(t, ns)))
}

fn name(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 255,
        1 => rng.usize(1, 255),
        2 => 1,
        _ => rng.usize(1, 20),
    };
    match rng.below(4) {
        0 => (0..n).map(|_| loop {
            let b = rng.byte();
            if b != 0 && b != 0x2f {
                break b;
            }
        }).collect(),
        1 => {
            let mut v = Vec::new();
            while v.len() < n {
                let c = *rng.pick(&['é', 'ß', '日', '本', '😀', 'ж', 'a', '.', '\u{301}']);
                let mut b = [0; 4];
                let c = c.encode_utf8(&mut b).as_bytes();
                if v.len() + c.len() > 255 {
                    break;
                }
                v.extend_from_slice(c);
            }
            v
        }
        _ => (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._- ")).collect(),
    }
}

impl Fs<'_> {
    fn see(&mut self, what: &'static str) {
        self.seen.insert(what);
    }
    fn free(&self, at: u64, len: u64) -> bool {
        at >= self.first && at + len <= self.total && self.used.range(..at + len).next_back().is_none_or(|(_, e)| *e <= at)
    }
    fn reserve(&mut self, at: u64, len: u64) {
        assert!(self.free(at, len), "{at} {len}");
        self.used.insert(at, at + len);
    }
    /// Blocks that are not in use.
    fn alloc(&mut self, len: u64) -> Option<u64> {
        if self.total < self.first + len {
            return None;
        }
        for _ in 0..30 {
            let at = self.rng.range(self.first, self.total - len);
            let at = match self.rng.below(4) {
                0 => self.total - len - self.rng.below(8).min(self.total - len),
                1 => self.first + (at - self.first) % 4000,
                _ => at,
            };
            if at + len <= self.total && self.free(at, len) {
                self.used.insert(at, at + len);
                return Some(at);
            }
        }
        let mut at = self.first;
        let ranges: Vec<(u64, u64)> = self.used.iter().map(|(s, e)| (*s, *e)).collect();
        for (s, e) in ranges {
            if at + len <= s {
                break;
            }
            at = at.max(e);
        }
        if self.free(at, len) {
            self.used.insert(at, at + len);
            return Some(at);
        }
        None
    }
    fn metadata(&mut self, at: u64, data: &[u8]) {
        self.places.push((at * self.bs, (data.len() as u64).min(160)));
        self.media.write(at * self.bs, data);
    }
    fn inode_place(&self, ino: u32) -> u64 {
        let i = (ino - 1) as u64;
        self.tables[(i / self.ipg) as usize] * self.bs + (i % self.ipg) * self.inode_size
    }
    fn new_inode(&mut self) -> Option<u32> {
        let count = self.tables.len() as u64 * self.ipg;
        for _ in 0..60 {
            let i = match self.rng.below(6) {
                0 | 1 => self.rng.range(11, count.min(60)),
                // the last block groups
                2 => count - self.rng.below(2 * self.ipg).min(count - 11),
                _ => self.rng.range(11, count),
            } as u32;
            if self.tables[(i as usize - 1) / self.ipg as usize] > u32::MAX as u64 {
                self.see("inode tables beyond 32 bits");
            }
            if self.taken.insert(i) {
                return Some(i);
            }
        }
        None
    }

    /// Runs of blocks for a content of so many blocks.
    fn runs(&mut self, blocks: u64, mapped: bool, dense: bool) -> Vec<Run> {
        let mut out: Vec<Run> = Vec::new();
        let p = self.bs / 4;
        if dense {
            let mut l = 0;
            while l < blocks {
                let mut n = (1 + self.rng.below(8)).min(blocks - l);
                let at = loop {
                    match self.alloc(n) {
                        Some(at) => break Some(at),
                        None if n > 1 => n = 1,
                        None => break None,
                    }
                };
                match at {
                    Some(physical) => out.push(Run { logical: l, length: n, physical, written: true }),
                    None => return out,
                }
                l += n;
            }
            return out;
        }
        let spots: Vec<u64> = vec![0, 11, 12, 12 + p - 1, 12 + p, 12 + p + p - 1, 12 + p + p * p - 1, 12 + p + p * p, 12 + p + p * p + p * p - 1, 12 + p + 2 * p * p, blocks - 1, blocks / 2];
        let mut wanted: Vec<u64> = (0..self.rng.usize(1, 8))
            .map(|_| {
                let s = if self.rng.chance(1, 2) { *self.rng.pick(&spots) } else { self.rng.below(blocks) };
                s.min(blocks - 1).saturating_sub(self.rng.below(4))
            })
            .collect();
        wanted.sort();
        let mut at = 0;
        for w in wanted {
            let l = w.max(at);
            let limit = if mapped { blocks } else { (blocks + 40).min(1 << 32) };
            if l >= limit {
                break;
            }
            let written = mapped || !self.rng.chance(1, 4);
            let n = match self.rng.below(20) {
                0 if !mapped && self.large => *self.rng.pick(&[32768u64, 32767, 20000]) - if written { 0 } else { 1 },
                0..=8 => 1,
                _ => 1 + self.rng.below(12),
            };
            let n = n.min(limit - l);
            match self.alloc(n) {
                Some(physical) => out.push(Run { logical: l, length: n, physical, written }),
                None => break,
            }
            at = l + n;
        }
        out
    }

    /// Writes the content of the runs and gives the model of it.
    fn content(&mut self, size: u64, runs: &[Run]) -> Media {
        let mut m = Media::new(size, self.bs);
        let salt = self.rng.next();
        for r in runs {
            let some: Vec<u64> = if r.length <= 16 {
                (0..r.length).collect()
            } else {
                let mut v: Vec<u64> = (0..4).map(|_| self.rng.below(r.length)).collect();
                v.extend([0, r.length - 1]);
                v
            };
            for i in some {
                let data = fill(salt ^ r.logical, (r.logical + i) * self.bs, self.bs as usize);
                self.media.write((r.physical + i) * self.bs, &data);
                let at = (r.logical + i) * self.bs;
                if r.written && at < size {
                    let n = (size - at).min(self.bs) as usize;
                    m.put(at, data[..n].to_vec());
                }
            }
        }
        m
    }

    /// An indirect block.
    fn indirect(&mut self, depth: u32, base: u64, map: &BTreeMap<u64, u64>, meta: &mut u64) -> u32 {
        let p = self.bs / 4;
        let span = p.pow(depth);
        if map.range(base..base + span).next().is_none() {
            if depth == 1 && self.rng.chance(1, 30) {
                if let Some(b) = self.alloc(1) {
                    self.see("empty indirect blocks");
                    *meta += 1;
                    return b as u32;
                }
            }
            return 0;
        }
        let here = match self.alloc(1) {
            Some(b) => b,
            None => return 0,
        };
        *meta += 1;
        let mut data = vec![0u8; self.bs as usize];
        if depth == 1 {
            for (l, b) in map.range(base..base + p) {
                le32(&mut data, ((l - base) * 4) as usize, *b as u32);
            }
        } else {
            let child = span / p;
            let mut at = base;
            while let Some((l, _)) = map.range(at..base + span).next() {
                let i = (l - base) / child;
                let b = self.indirect(depth - 1, base + i * child, map, meta);
                le32(&mut data, (i * 4) as usize, b);
                at = base + (i + 1) * child;
            }
        }
        self.metadata(here, &data);
        self.see(["", "indirect blocks", "double indirect blocks", "triple indirect blocks"][depth as usize]);
        here as u32
    }

    /// Block numbers in the inode. Runs whose indirect blocks cannot be stored are dropped.
    fn block_map(&mut self, runs: &[Run], meta: &mut u64) -> [u8; 60] {
        let mut map = BTreeMap::new();
        for r in runs {
            for i in 0..r.length {
                map.insert(r.logical + i, r.physical + i);
            }
        }
        let mut d = [0u8; 60];
        for (l, b) in map.range(..12) {
            le32(&mut d, *l as usize * 4, *b as u32);
        }
        let p = self.bs / 4;
        let b = self.indirect(1, 12, &map, meta);
        le32(&mut d, 48, b);
        let b = self.indirect(2, 12 + p, &map, meta);
        le32(&mut d, 52, b);
        let b = self.indirect(3, 12 + p + p * p, &map, meta);
        le32(&mut d, 56, b);
        d
    }

    fn extent_tree(&mut self, runs: &[Run], seed: Option<u32>, meta: &mut u64) -> Option<[u8; 60]> {
        let mut level: Vec<(u32, [u8; 12])> = runs
            .iter()
            .map(|r| {
                let mut e = [0u8; 12];
                le32(&mut e, 0, r.logical as u32);
                le16(&mut e, 4, if r.written { r.length as u16 } else { (r.length + 32768) as u16 });
                le16(&mut e, 6, (r.physical >> 32) as u16);
                le32(&mut e, 8, r.physical as u32);
                (r.logical as u32, e)
            })
            .collect();
        let capacity = (self.bs as usize - 12) / 12;
        let mut depth = 0u16;
        while depth < 5 && (level.len() > 4 || (!level.is_empty() && self.rng.chance(1, 5))) {
            let mut next = Vec::new();
            let mut i = 0;
            while i < level.len() {
                let rest = level.len() - i;
                let most = if self.rng.chance(1, 2) { 6 } else { capacity };
                let n = self.rng.usize(2, most).min(capacity).min(rest);
                let mut node = vec![0u8; self.bs as usize];
                node[0..2].copy_from_slice(&[0x0a, 0xf3]);
                le16(&mut node, 2, n as u16);
                le16(&mut node, 4, capacity as u16);
                le16(&mut node, 6, depth);
                for k in 0..n {
                    node[12 + k * 12..24 + k * 12].copy_from_slice(&level[i + k].1);
                }
                if let Some(s) = seed {
                    let tail = 12 + 12 * capacity;
                    let c = crc32c_raw(s, &node[..tail]);
                    le32(&mut node, tail, c);
                }
                let at = self.alloc(1)?;
                *meta += 1;
                self.metadata(at, &node);
                let mut e = [0u8; 12];
                le32(&mut e, 0, level[i].0);
                le32(&mut e, 4, at as u32);
                le16(&mut e, 8, (at >> 32) as u16);
                next.push((level[i].0, e));
                i += n;
            }
            level = next;
            depth += 1;
        }
        if level.len() > 4 {
            return None;
        }
        self.see(["extents in the inode", "extent trees of depth 1", "extent trees of depth 2", "extent trees of depth 3", "extent trees of depth 4", "extent trees of depth 5"][depth as usize]);
        let mut d = [0u8; 60];
        d[0..2].copy_from_slice(&[0x0a, 0xf3]);
        le16(&mut d, 2, level.len() as u16);
        le16(&mut d, 4, 4);
        le16(&mut d, 6, depth);
        for (k, (_, e)) in level.iter().enumerate() {
            d[12 + k * 12..24 + k * 12].copy_from_slice(e);
        }
        Some(d)
    }

    /// The entries of directories, packed in parts of a size. Gives what did not fit.
    fn pack<'e>(&mut self, out: &mut [u8], limit: usize, mut at: usize, entries: &'e [(Vec<u8>, u32, u8)], early: bool) -> &'e [(Vec<u8>, u32, u8)] {
        let mut last: Option<usize> = None;
        let mut rest = entries;
        loop {
            let junk = self.rng.chance(1, 12);
            let (n, i, t) = if junk {
                (name(self.rng), if self.rng.chance(1, 2) { 0 } else { 0xffff_fff0 }, 1)
            } else if rest.is_empty() || (early && last.is_some() && self.rng.chance(1, 12)) {
                break;
            } else {
                rest[0].clone()
            };
            let need = 8 + pad4(n.len());
            if at + need > limit {
                if junk {
                    continue;
                }
                break;
            }
            if junk && i != 0 {
                // an entry that was removed: part of the one before it
                if let Some(l) = last {
                    le32(out, at, self.rng.below(100) as u32);
                    le16(out, at + 4, need as u16);
                    out[at + 6] = n.len() as u8;
                    out[at + 7] = 1;
                    out[at + 8..at + 8 + n.len()].copy_from_slice(&n);
                    let old = u16::from_le_bytes([out[l + 4], out[l + 5]]) as usize;
                    le16(out, l + 4, (old + need) as u16);
                    at += need;
                    self.see("removed directory entries");
                }
                continue;
            }
            le32(out, at, i);
            le16(out, at + 4, need as u16);
            out[at + 6] = n.len() as u8;
            out[at + 7] = if self.file_type { t } else { 0 };
            out[at + 8..at + 8 + n.len()].copy_from_slice(&n);
            last = Some(at);
            at += need;
            if !junk {
                rest = &rest[1..];
            }
        }
        match last {
            Some(l) => {
                let n = limit - l;
                le16(out, l + 4, if n == 65536 { 65535 } else { n as u16 });
            }
            None if at < limit => {
                let n = limit - at;
                le16(out, at + 4, if n == 65536 { 65535 } else { n as u16 });
            }
            None => {}
        }
        rest
    }

    fn directory_blocks(&mut self, ino: u32, parent: u32, entries: &[(Vec<u8>, u32, u8)], seed: Option<u32>) -> (Vec<Vec<u8>>, bool) {
        let bs = self.bs as usize;
        let limit = if seed.is_some() { bs - 12 } else { bs };
        let hashed = self.rng.chance(1, 4);
        let mut blocks = Vec::new();
        let mut rest = entries;
        let mut first = vec![0u8; bs];
        le32(&mut first, 0, ino);
        le16(&mut first, 4, 12);
        first[6] = 1;
        first[8] = b'.';
        le32(&mut first, 12, parent);
        first[18] = 2;
        first[20] = b'.';
        first[21] = b'.';
        if self.file_type {
            first[7] = 2;
            first[19] = 2;
        }
        let index = |b: &mut Vec<u8>, at: usize, rng: &mut Rng| {
            // the index: a limit, a count and pairs of hashes and blocks
            for i in 0..rng.usize(1, 10) {
                le32(b, at + i * 8, rng.next() as u32);
                le32(b, at + 4 + i * 8, rng.below(40) as u32);
            }
        };
        if hashed {
            le16(&mut first, 16, if bs == 65536 { 65524 } else { (bs - 12) as u16 });
            first[28] = self.rng.below(3) as u8;
            first[29] = 8;
            index(&mut first, 32, self.rng);
            blocks.push(first);
            for _ in 0..self.rng.below(2) {
                let mut b = vec![0u8; bs];
                le16(&mut b, 4, if bs == 65536 { 65535 } else { bs as u16 });
                index(&mut b, 8, self.rng);
                blocks.push(b);
            }
            self.see("hashed directories");
        } else {
            le16(&mut first, 16, 12);
            let room = limit - 24;
            let n = rest.len();
            rest = self.pack(&mut first, limit, 24, rest, true);
            if rest.len() == n {
                // the last entry takes the remaining space
                let mut empty = vec![0u8; bs];
                std::mem::swap(&mut first, &mut empty);
                first[..24].copy_from_slice(&empty[..24]);
                le16(&mut first, 16, (room + 12) as u16);
            }
            blocks.push(first);
        }
        while !rest.is_empty() || (hashed && blocks.len() < 2) {
            let mut b = vec![0u8; bs];
            rest = self.pack(&mut b, limit, 0, rest, true);
            blocks.push(b);
        }
        if self.rng.chance(1, 8) {
            let mut b = vec![0u8; bs];
            self.pack(&mut b, limit, 0, &[], true);
            blocks.push(b);
        }
        if let Some(s) = seed {
            for (i, b) in blocks.iter_mut().enumerate() {
                if hashed && i == 0 || b[4] as usize | (b[5] as usize) << 8 >= bs.min(65535) {
                    continue;
                }
                le16(b, bs - 8, 12);
                b[bs - 5] = 0xde;
                let c = crc32c_raw(s, &b[..bs - 12]);
                le32(b, bs - 4, c);
            }
        }
        (blocks, hashed)
    }

    /// Stores an inode and everything of it.
    #[allow(clippy::too_many_arguments)]
    fn store(&mut self, ino: u32, parent: u32, mode: u16, links: u16, kind: Kind, size: u64) -> bool {
        let generation = self.rng.next() as u32;
        let seed = self.seed.map(|s| crc32c_raw(crc32c_raw(s, &ino.to_le_bytes()), &generation.to_le_bytes()));
        let n = self.inode_size as usize;
        let mut raw = vec![0u8; n];
        let extra = if n > 128 { *self.rng.pick(&[0usize, 4, 8, 12, 16, 20, 24, 28, 28, 32, 32, 32, 32]) } else { 0 };
        let region = n.saturating_sub(128 + extra);
        let mut attributes: Vec<(u8, Vec<u8>, Vec<u8>)> = Vec::new();
        let mut flags = self.rng.next() as u32 & 0xf0;
        let mut data = [0u8; 60];
        let mut meta = 0u64;
        let mut blocks = 0u64;
        let mut size = size;
        let mut kind = kind;
        let room = region.saturating_sub(4 + 20 + 4) & !3;
        let inline_room = if self.inline && extra >= 4 && region >= 40 { 60 + room } else { 0 };
        // the place of the data of the kinds that have data
        let mut content: Option<Vec<Run>> = None;
        let mut whole: Option<Vec<u8>> = None;
        match &kind {
            Kind::Directory(entries) => {
                let entries: Vec<(Vec<u8>, u32, u8)> = entries.iter().map(|(n, i)| (n.clone(), *i, self.type_of(*i))).collect();
                let need: usize = entries.iter().map(|e| 8 + pad4(e.0.len())).sum();
                if inline_room > 0 && need <= 56.max(inline_room - 4) && self.rng.chance(2, 3) {
                    let mut d = vec![0u8; 60];
                    le32(&mut d, 0, parent);
                    let rest = self.pack(&mut d, 60, 4, &entries, false);
                    let need: usize = rest.iter().map(|e| 8 + pad4(e.0.len())).sum();
                    if need <= room && (need > 0 || self.rng.chance(1, 2) || room < 12) {
                        let mut value = vec![0u8; if need == 0 { 0 } else { room }];
                        let left = if need > 0 { self.pack(&mut value, room, 0, rest, false) } else { rest };
                        if left.is_empty() {
                            data.copy_from_slice(&d);
                            if !value.is_empty() {
                                self.see("directories in the inode and its attribute");
                            }
                            size = 60 + value.len() as u64;
                            attributes.push((7, b"data".to_vec(), value));
                            flags |= 0x10000000;
                            self.see("directories in the inode");
                        }
                    }
                }
                if flags & 0x10000000 == 0 {
                    let (b, hashed) = self.directory_blocks(ino, parent, &entries, seed);
                    if hashed {
                        flags |= 0x1000;
                    }
                    size = b.len() as u64 * self.bs;
                    let runs = self.runs(b.len() as u64, true, true);
                    if runs.iter().map(|r| r.length).sum::<u64>() < b.len() as u64 {
                        return false;
                    }
                    for r in &runs {
                        for i in 0..r.length {
                            let at = r.physical + i;
                            self.metadata(at, &b[(r.logical + i) as usize]);
                        }
                    }
                    let mut runs = runs;
                    if self.rng.chance(1, 20) {
                        // a block that was never stored
                        for r in runs.iter_mut().skip(1) {
                            r.logical += 1;
                        }
                        if runs.len() > 1 {
                            size += self.bs;
                            self.see("directories with sparse blocks");
                        }
                    }
                    content = Some(runs);
                }
            }
            Kind::File(_) => {
                if inline_room > 0 && size <= inline_room as u64 {
                    let v = self.rng.bytes(size as usize);
                    data[..v.len().min(60)].copy_from_slice(&v[..v.len().min(60)]);
                    let value = v.get(60..).map(|v| v.to_vec()).unwrap_or_default();
                    if !value.is_empty() {
                        self.see("files in the inode and its attribute");
                    }
                    attributes.push((7, b"data".to_vec(), value));
                    flags |= 0x10000000;
                    whole = Some(v);
                    self.see("files in the inode");
                } else {
                    let n = size.div_ceil(self.bs);
                    let mapped = !self.extents || self.rng.chance(1, 6);
                    let runs = if n == 0 { Vec::new() } else if n <= 40 && self.rng.chance(1, 2) { self.runs(n, mapped, true) } else { self.runs(n, mapped, false) };
                    content = Some(runs);
                    if mapped && self.extents {
                        flags |= 1 << 31;
                    }
                }
            }
            Kind::Link(target) => {
                size = target.len() as u64;
                if target.len() < 60 {
                    data[..target.len()].copy_from_slice(target);
                    if inline_room > 0 && self.rng.chance(1, 3) {
                        attributes.push((7, b"data".to_vec(), Vec::new()));
                        flags |= 0x10000000;
                    }
                    self.see("short symbolic links");
                } else if inline_room >= target.len() && self.rng.chance(1, 2) {
                    data.copy_from_slice(&target[..60]);
                    attributes.push((7, b"data".to_vec(), target[60..].to_vec()));
                    flags |= 0x10000000;
                    self.see("symbolic links in the inode and its attribute");
                } else {
                    match self.alloc(1) {
                        Some(at) => {
                            let mut v = self.rng.bytes(self.bs as usize);
                            v[..target.len()].copy_from_slice(target);
                            if target.len() < v.len() {
                                v[target.len()] = 0;
                            }
                            self.media.write(at * self.bs, &v);
                            content = Some(vec![Run { logical: 0, length: 1, physical: at, written: true }]);
                        }
                        None => return false,
                    }
                    self.see("long symbolic links");
                }
            }
            Kind::Device(d, wide) => {
                if *wide {
                    le32(&mut data, 4, *d);
                } else {
                    le32(&mut data, 0, *d);
                }
            }
            Kind::Other => {}
        }
        if let Some(runs) = &content {
            let mapped = !self.extents || flags & (1 << 31) != 0 || (matches!(kind, Kind::Directory(_) | Kind::Link(_)) && self.rng.chance(1, 8));
            flags &= !(1 << 31);
            blocks = runs.iter().map(|r| r.length).sum();
            if mapped {
                if runs.iter().any(|r| r.physical + r.length > u32::MAX as u64 || !r.written || r.logical + r.length > (1 << 32)) {
                    if !self.extents {
                        return false;
                    }
                } else {
                    data = self.block_map(runs, &mut meta);
                    // a tree that did not fit
                    let mut m = 0;
                    let complete = self.check_map(&data, runs, &mut m);
                    if !complete {
                        return false;
                    }
                }
            }
            if data == [0; 60] && (self.extents && !(mapped && runs.is_empty())) {
                flags |= 0x80000;
                data = match self.extent_tree(runs, seed, &mut meta) {
                    Some(d) => d,
                    None => return false,
                };
                if runs.iter().any(|r| !r.written) {
                    self.see("unwritten extents");
                }
                if runs.iter().any(|r| r.length > 32000) {
                    self.see("extents of 32768 blocks");
                }
                if runs.iter().any(|r| r.physical > u32::MAX as u64) {
                    self.see("blocks beyond 32 bits");
                }
            }
        }
        if let Kind::File(_) = kind {
            let m = match (&whole, &content) {
                (Some(v), _) => Media::from_bytes(v),
                (_, Some(runs)) => {
                    let runs = runs.clone();
                    if runs.iter().any(|r| (r.logical + r.length) * self.bs > size + self.bs) {
                        self.see("blocks beyond the end of a file");
                    }
                    self.content(size, &runs)
                }
                _ => unreachable!(),
            };
            kind = Kind::File(m);
        }
        // attributes
        let mut left = region.saturating_sub(4 + 4);
        for (_, n, v) in &attributes {
            left = left.saturating_sub(16 + pad4(n.len()) + pad4(v.len()));
        }
        if extra >= 4 && region > 40 && self.rng.chance(1, 4) {
            for _ in 0..self.rng.usize(1, 3) {
                let n: Vec<u8> = (0..self.rng.usize(0, 12)).map(|_| *self.rng.pick(b"abcdefgh.")).collect();
                let v = { let k = self.rng.usize(0, 20); self.rng.bytes(k) };
                let idx = *self.rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
                let need = 16 + pad4(n.len()) + pad4(v.len());
                if need > left || (idx == 7 && n == b"data") {
                    break;
                }
                left -= need;
                let k = self.rng.usize(0, attributes.len());
                attributes.insert(k, (idx, n, v));
                self.see("attributes in the inode");
            }
        }
        if !attributes.is_empty() {
            let base = 128 + extra;
            raw[base..base + 4].copy_from_slice(&[0, 0, 2, 0xea]);
            let first = base + 4;
            let mut at = first;
            let mut end = n;
            for (idx, name, v) in &attributes {
                let mut o = 0;
                if !v.is_empty() {
                    end -= pad4(v.len());
                    raw[end..end + v.len()].copy_from_slice(v);
                    o = end - first;
                }
                raw[at] = name.len() as u8;
                raw[at + 1] = *idx;
                le16(&mut raw, at + 2, o as u16);
                le32(&mut raw, at + 8, v.len() as u32);
                le32(&mut raw, at + 12, self.rng.next() as u32);
                raw[at + 16..at + 16 + name.len()].copy_from_slice(name);
                at += 16 + pad4(name.len());
            }
            assert!(at + 4 <= end || end == n && at + 4 <= n, "{at} {end} {n} {attributes:?}");
        }
        let mut listed = Some(attributes.len());
        // a block of attributes
        if self.rng.chance(1, 10) {
            if let Some(at) = self.alloc(1) {
                let mut b = vec![0u8; self.bs as usize];
                b[..4].copy_from_slice(&[0, 0, 2, 0xea]);
                le32(&mut b, 4, 1);
                le32(&mut b, 8, 1);
                b[32] = 3;
                b[33] = 1;
                le16(&mut b, 34, (self.bs - 4) as u16);
                le32(&mut b, 40, 4);
                b[48..51].copy_from_slice(b"abc");
                self.media.write(at * self.bs, &b);
                le32(&mut raw, 104, at as u32);
                if self.version == 4 {
                    le16(&mut raw, 118, (at >> 32) as u16);
                }
                if at <= u32::MAX as u64 || self.version == 4 {
                    meta += 1;
                    listed = None;
                }
            }
        }
        let mut sectors = (blocks + meta) * (self.bs / 512);
        if self.huge_file && self.rng.chance(1, 6) {
            sectors = blocks + meta;
            flags |= 0x40000;
        }
        let (uid, gid) = (self.rng.edge_u64() as u32, self.rng.edge_u64() as u32);
        le16(&mut raw, 0, mode);
        le16(&mut raw, 2, uid as u16);
        le32(&mut raw, 4, size as u32);
        le16(&mut raw, 24, gid as u16);
        le16(&mut raw, 26, links);
        le32(&mut raw, 28, sectors as u32);
        le32(&mut raw, 32, flags);
        let v = self.rng.next() as u32;
        le32(&mut raw, 36, v);
        raw[40..100].copy_from_slice(&data);
        le32(&mut raw, 100, generation);
        if mode & 0xf000 == 0x8000 {
            le32(&mut raw, 108, (size >> 32) as u32);
            if size >> 32 != 0 {
                self.see("files of 4 GiB and larger");
            }
        }
        if self.version == 4 {
            le16(&mut raw, 116, (sectors >> 32) as u16);
        }
        le16(&mut raw, 120, (uid >> 16) as u16);
        le16(&mut raw, 122, (gid >> 16) as u16);
        let mut times = Vec::new();
        // access, change and modification, with the place of the extra bits
        for (at, more, size) in [(8usize, 140usize, 16usize), (12, 132, 8), (16, 136, 12)] {
            let (s, x, t) = time(self.rng, extra >= size);
            le32(&mut raw, at, s);
            if extra >= size {
                le32(&mut raw, more, x);
            }
            times.push(t);
        }
        let mut deleted = DateTime::NotSet;
        if self.rng.chance(1, 12) {
            let d = self.rng.range(1, i32::MAX as u64) as i32;
            le32(&mut raw, 20, d as u32);
            deleted = DateTime::PosixTime32(PosixTime32::new(d));
        }
        let mut created = None;
        if extra >= 2 {
            le16(&mut raw, 128, extra as u16);
        }
        if extra >= 24 {
            let (s, x, t) = time(self.rng, true);
            le32(&mut raw, 144, s);
            le32(&mut raw, 148, x);
            if t != DateTime::NotSet {
                created = Some(t);
            }
        } else if extra == 20 {
            // without the extra bits
            listed = None;
        }
        if let Some(s) = seed {
            let c = crc32c_raw(s, &raw);
            le16(&mut raw, 124, c as u16);
            if extra >= 4 {
                le16(&mut raw, 130, (c >> 16) as u16);
            } else if n > 128 {
                self.see("inodes with a short checksum");
            }
        }
        let place = self.inode_place(ino);
        self.media.write(place, &raw);
        self.places.push((place, n as u64));
        self.places.push((place + 28, 72));
        self.inode_places.insert(ino, place);
        let shown = if matches!(mode & 0xf000, 0x8000 | 0xa000) { size } else { 0 };
        let modified = times.pop().unwrap();
        let changed = times.pop().unwrap();
        let accessed = times.pop().unwrap();
        self.nodes.insert(ino, Node {
            mode, uid, gid, size: shown, links, accessed, changed, modified, deleted, created, attributes: listed, kind, names: 0,
        });
        true
    }

    /// All runs are in the map, that is: no indirect block was left out.
    fn check_map(&self, data: &[u8; 60], runs: &[Run], _m: &mut u64) -> bool {
        let p = self.bs / 4;
        let entry = |b: u64, i: u64| {
            let v = self.media.get(b * self.bs + i * 4, 4);
            u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as u64
        };
        let top = |i: usize| u32::from_le_bytes([data[i * 4], data[i * 4 + 1], data[i * 4 + 2], data[i * 4 + 3]]) as u64;
        for r in runs {
            for i in [0, r.length - 1] {
                let l = r.logical + i;
                let b = if l < 12 {
                    top(l as usize)
                } else if l < 12 + p {
                    match top(12) { 0 => 0, b => entry(b, l - 12) }
                } else if l < 12 + p + p * p {
                    let k = l - 12 - p;
                    match top(13) { 0 => 0, b => match entry(b, k / p) { 0 => 0, b => entry(b, k % p) } }
                } else {
                    let k = l - 12 - p - p * p;
                    if k >= p * p * p {
                        return false;
                    }
                    match top(14) { 0 => 0, b => match entry(b, k / p / p) { 0 => 0, b => match entry(b, k / p % p) { 0 => 0, b => entry(b, k % p) } } }
                };
                if b != r.physical + i {
                    return false;
                }
            }
        }
        true
    }

    fn type_of(&self, ino: u32) -> u8 {
        match self.nodes.get(&ino).map(|n| n.mode & 0xf000) {
            Some(0x8000) => 1,
            Some(0x4000) => 2,
            Some(0x2000) => 3,
            Some(0x6000) => 4,
            Some(0x1000) => 5,
            Some(0xc000) => 6,
            Some(0xa000) => 7,
            _ => 0,
        }
    }

    fn file_size(&mut self) -> u64 {
        let bs = self.bs;
        let p = bs / 4;
        match self.rng.below(12) {
            0 => 0,
            1 | 2 => self.rng.below(200),
            3 => bs * self.rng.below(14) + self.rng.below(3),
            4 => (12 + p) * bs + self.rng.below(2 * bs) - bs,
            5 => (12 + p + p * p) * bs + self.rng.below(2 * bs) - bs,
            6 => (1 << 32) + self.rng.below(4 * bs) - 2 * bs,
            7 => {
                let limit = if self.extents { bs << 32 } else { ((12 + p + p * p + p * p * p) * bs).min(1 << 41) };
                limit - bs - self.rng.below(3)
            }
            8 => self.rng.below(1 << 36),
            _ => self.rng.below(40 * bs),
        }
    }

    fn subtree(&mut self, ino: u32, parent: u32, depth: u32) -> bool {
        let mut names: Vec<(Vec<u8>, u32)> = Vec::new();
        let mut subdirs = 0u16;
        let n = match self.rng.below(10) {
            0 => 0,
            1 if depth == 0 => 120,
            2 => 40,
            _ => self.rng.usize(0, 12),
        };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let nm = loop {
                let nm = name(self.rng);
                if nm != b"." && nm != b".." && !names.iter().any(|x| x.0 == nm) {
                    break nm;
                }
            };
            // another name for a file
            if self.rng.chance(1, 12) {
                let mut other: Vec<u32> = self.nodes.iter().filter(|(_, n)| !matches!(n.kind, Kind::Directory(_))).map(|(i, _)| *i).collect();
                other.sort();
                if !other.is_empty() {
                    let i = *self.rng.pick(&other);
                    self.see("hard links");
                    names.push((nm, i));
                    continue;
                }
            }
            let child = match self.new_inode() {
                Some(i) => i,
                None => break,
            };
            let perm = self.rng.below(0x1000) as u16;
            let stored = match self.rng.below(10) {
                0 | 1 if depth < 4 => {
                    let s = self.subtree(child, ino, depth + 1);
                    if s {
                        subdirs += 1;
                    }
                    s
                }
                2 => {
                    let max = (self.bs as usize).min(4096) - 1;
                    let k = match self.rng.below(5) {
                        0 => *self.rng.pick(&[1usize, 58, 59, 60, 61]),
                        1 => self.rng.usize(60, max),
                        2 => max,
                        3 => self.rng.usize(60, 120),
                        _ => self.rng.usize(1, 59),
                    };
                    let t: Vec<u8> = (0..k).map(|_| *self.rng.pick(b"abc/.-_XYZ\xc3\xff")).collect();
                    self.store(child, ino, 0xa1ff, 1, Kind::Link(t), 0)
                }
                3 => {
                    let mode = *self.rng.pick(&[0x2000u16, 0x6000]) | perm;
                    let wide = self.rng.chance(1, 400);
                    let d = if wide { 259 << 8 | self.rng.below(200) as u32 } else { self.rng.range(1, 65535) as u32 };
                    self.store(child, ino, mode, 1, Kind::Device(d, wide), 0)
                }
                4 => {
                    let mode = *self.rng.pick(&[0x1000u16, 0xc000]) | perm;
                    self.store(child, ino, mode, 1, Kind::Other, 0)
                }
                _ => {
                    let s = self.file_size();
                    let links = self.rng.range(1, 65000) as u16;
                    self.store(child, ino, 0x8000 | perm, links, Kind::File(Media::default()), s)
                }
            };
            if stored {
                names.push((nm, child));
            }
        }
        let perm = self.rng.below(0x1000) as u16;
        self.rng.shuffle(&mut names);
        self.store(ino, parent, 0x4000 | perm, 2 + subdirs, Kind::Directory(names), 0)
    }
}

pub fn build(rng: &mut Rng, calm: bool) -> Built {
    loop {
        if let Some(b) = try_build(rng, calm) {
            return b;
        }
    }
}

fn try_build(rng: &mut Rng, calm: bool) -> Option<Built> {
    let bs: u64 = *rng.pick(&[1024u64, 1024, 1024, 2048, 4096, 4096, 4096, 8192, 65536]);
    let version = *rng.pick(&[2u8, 2, 3, 4, 4, 4, 4]);
    let revision: u32 = if version == 2 && rng.chance(1, 3) { 0 } else { 1 };
    let mut compat = 0u32;
    let mut incompat = 0u32;
    let mut ro = 0u32;
    let mut seed = None;
    let mut uuid = [0u8; 16];
    uuid.copy_from_slice(&rng.bytes(16));
    let mut csum_seed = None;
    if revision == 1 {
        compat |= rng.next() as u32 & 0x39;
        incompat |= rng.next() as u32 & 0x2;
        ro |= rng.next() as u32 & 0x3;
        if version >= 3 {
            compat |= 0x4;
            if rng.chance(1, 6) {
                incompat |= 0x4;
            }
        }
        if version == 4 {
            incompat |= rng.next() as u32 & (0x80 | 0x200 | 0x8000);
            if !rng.chance(1, 8) {
                incompat |= 0x40;
            }
            for f in [0x400, 0x10000, 0x20000] {
                if rng.chance(1, 10) {
                    incompat |= f;
                }
            }
            ro |= rng.next() as u32 & (0x8 | 0x20 | 0x40 | 0x100);
            if rng.chance(1, if calm { 6 } else { 2 }) {
                ro |= 0x400;
                if rng.chance(1, 2) {
                    incompat |= 0x2000;
                    csum_seed = Some(rng.next() as u32);
                }
            } else if rng.chance(1, 2) {
                ro |= 0x10;
            }
            if rng.chance(1, 5) {
                compat |= 0x200;
            }
            if (compat & 0x200) | (incompat & 0x1f7c0) | (ro & 0x378) == 0 {
                ro |= 0x40;
            }
        }
    }
    if ro & 0x400 != 0 {
        seed = Some(csum_seed.unwrap_or(crc32c_raw(!0, &uuid)));
    }
    let inode_size: u64 = if revision == 0 {
        128
    } else if version == 4 {
        *rng.pick(&[128u64, 256, 256, 256, 512, 1024])
    } else {
        *rng.pick(&[128u64, 128, 256])
    };
    let wide = incompat & 0x80 != 0;
    let dsize: u64 = if wide { 64 } else { 32 };
    let first = if bs == 1024 { 1 } else { 0 };
    let far = wide && bs == 65536 && !calm && rng.chance(1, 3);
    let (bpg, groups) = if far {
        (8 * bs, ((1u64 << 32) + rng.below(1 << 20)) / (8 * bs) + 1)
    } else {
        let g = match rng.below(10) {
            0 => 1,
            1 => rng.range(20, 130),
            _ => rng.range(1, 12),
        };
        (*rng.pick(&[256u64, 512, 1024, 2048, 8 * bs, 8 * bs, 8 * bs]).min(&(8 * bs)), g)
    };
    let gdt_blocks = (groups * dsize).div_ceil(bs);
    // inodes fill the blocks of their table
    let per_block = bs / inode_size;
    let ipg = match rng.below(4) {
        0 => 8,
        1 => 64,
        _ => 8 * rng.range(1, 24),
    };
    let ipg = if rng.chance(1, 2) { ipg.div_ceil(per_block) * per_block } else { ipg }.min(8 * bs);
    let ipg = if ipg * groups < 40 { 64 } else { ipg };
    let table_blocks = (ipg * inode_size).div_ceil(bs);
    let reserved_gdt = if compat & 0x10 != 0 { rng.below(4) } else { 0 };
    let overhead = 1 + gdt_blocks + reserved_gdt + 2 + table_blocks;
    if overhead + 20 > bpg {
        return None;
    }
    let last = match rng.below(4) {
        0 => bpg,
        1 => overhead + 1 + rng.below(3),
        _ => rng.range(overhead + 1, bpg),
    }
    .min(bpg);
    let total = first + (groups - 1) * bpg + last;
    if total > u32::MAX as u64 && !wide {
        return None;
    }
    let has_super = |g: u64| {
        let power = |mut n: u64, b: u64| {
            while n % b == 0 {
                n /= b;
            }
            n == 1
        };
        if g == 0 {
            true
        } else if compat & 0x200 != 0 {
            g == 1 || g == groups - 1
        } else if ro & 1 == 0 {
            true
        } else {
            g == 1 || power(g, 3) || power(g, 5) || power(g, 7)
        }
    };
    let mut fs = Fs {
        media: Media::new(total * bs, bs.min(4096)),
        bs,
        first: first.max(if bs == 1024 { 2 } else { 1 }),
        total,
        bpg,
        ipg,
        inode_size,
        seed,
        version,
        file_type: incompat & 2 != 0,
        extents: incompat & 0x40 != 0,
        inline: incompat & 0x8000 != 0,
        huge_file: ro & 8 != 0,
        large: total > 200_000 || bpg >= 65536,
        tables: vec![0; groups as usize],
        used: BTreeMap::new(),
        taken: HashSet::new(),
        places: Vec::new(),
        inode_places: HashMap::new(),
        nodes: HashMap::new(),
        seen: HashSet::new(),
        budget: if far { 40 } else { 260 },
        rng,
    };
    fs.first = 0;
    // where the superblocks and group descriptors are
    let start = |g: u64| first + g * bpg;
    if first == 1 {
        fs.used.insert(0, 1);
    }
    for g in 0..groups {
        if has_super(g) {
            fs.reserve(start(g), 1 + gdt_blocks + reserved_gdt);
        }
    }
    let flex = incompat & 0x200 != 0 && fs.rng.chance(3, 4);
    let mut descriptors = vec![0u8; (groups * dsize) as usize];
    for g in 0..groups {
        let o = start(g) + if has_super(g) { 1 + gdt_blocks + reserved_gdt } else { 0 };
        let (bb, ib, it) = if flex && !far {
            (fs.alloc(1)?, fs.alloc(1)?, fs.alloc(table_blocks)?)
        } else {
            let end = (start(g) + bpg).min(total);
            let extra = if fs.rng.chance(1, 4) { fs.rng.below((end - o).saturating_sub(2 + table_blocks).min(5) + 1) } else { 0 };
            let t = (o + extra, o + extra + 1, o + extra + 2);
            if !fs.free(t.0, 2 + table_blocks) {
                return None;
            }
            fs.reserve(t.0, 2 + table_blocks);
            t
        };
        if !far {
            for b in [bb, ib] {
                let v = fs.rng.bytes(16);
                fs.media.write(b * bs, &v);
            }
        }
        fs.tables[g as usize] = it;
        let d = &mut descriptors[(g * dsize) as usize..((g + 1) * dsize) as usize];
        for (i, b) in [bb, ib, it].into_iter().enumerate() {
            le32(d, i * 4, b as u32);
            if wide {
                le32(d, 32 + i * 4, (b >> 32) as u32);
            }
        }
        le16(d, 12, fs.rng.below(2000) as u16);
        le16(d, 14, fs.rng.below(200) as u16);
        le16(d, 16, fs.rng.below(20) as u16);
        if version == 4 {
            le16(d, 18, fs.rng.below(8) as u16);
            if seed.is_some() {
                le16(d, 24, fs.rng.next() as u16);
                le16(d, 26, fs.rng.next() as u16);
            }
            le16(d, 28, fs.rng.below(100) as u16);
        }
        let c = if let Some(s) = seed {
            crc32c_raw(crc32c_raw(s, &(g as u32).to_le_bytes()), d) as u16
        } else if ro & 0x10 != 0 {
            let c = crc16(crc16(crc16(0xffff, &uuid), &(g as u32).to_le_bytes()), &d[..30]);
            if wide { crc16(c, &d[32..]) } else { c }
        } else {
            0
        };
        le16(d, 30, c);
    }
    if flex {
        fs.see("tables anywhere");
    }
    if far {
        fs.see("blocks beyond 32 bits");
    }
    // the files
    fs.taken.extend(1..11);
    if !fs.subtree(2, 2, 0) {
        return None;
    }
    let mut seen: HashMap<u32, usize> = HashMap::new();
    for n in fs.nodes.values() {
        if let Kind::Directory(names) = &n.kind {
            for (_, i) in names {
                *seen.entry(*i).or_default() += 1;
            }
        }
    }
    for (i, n) in fs.nodes.iter_mut() {
        n.names = seen.get(i).copied().unwrap_or(0);
    }
    // the superblock
    let mut sb = vec![0u8; 1024];
    let inodes = (groups * ipg) as u32;
    le32(&mut sb, 0, inodes);
    le32(&mut sb, 4, total as u32);
    if wide {
        le32(&mut sb, 336, (total >> 32) as u32);
    }
    le32(&mut sb, 12, fs.rng.below(total) as u32);
    le32(&mut sb, 20, first as u32);
    le32(&mut sb, 24, (bs / 1024).trailing_zeros());
    le32(&mut sb, 28, (bs / 1024).trailing_zeros());
    le32(&mut sb, 32, bpg as u32);
    le32(&mut sb, 36, bpg as u32);
    le32(&mut sb, 40, ipg as u32);
    let times: Vec<i32> = (0..2).map(|_| if fs.rng.chance(1, 5) { 0 } else { fs.rng.range(1, i32::MAX as u64) as i32 }).collect();
    le32(&mut sb, 44, times[0] as u32);
    le32(&mut sb, 48, times[1] as u32);
    sb[56..58].copy_from_slice(&[0x53, 0xef]);
    le16(&mut sb, 58, 1);
    le32(&mut sb, 76, revision);
    let (mut label, mut mounted_on) = (Vec::new(), Vec::new());
    if revision == 1 {
        le32(&mut sb, 84, 11);
        le16(&mut sb, 88, inode_size as u16);
        le32(&mut sb, 92, compat);
        le32(&mut sb, 96, incompat);
        le32(&mut sb, 100, ro);
        if wide {
            le16(&mut sb, 254, 64);
        }
        if incompat & 0x200 != 0 {
            sb[372] = fs.rng.below(9) as u8;
        }
        if ro & 0x400 != 0 {
            sb[373] = 1;
        }
        if let Some(s) = csum_seed {
            le32(&mut sb, 624, s);
        }
        if compat & 0x200 != 0 {
            le32(&mut sb, 588, 1);
            le32(&mut sb, 592, groups as u32 - 1);
        }
        if inode_size > 128 {
            le16(&mut sb, 348, 32);
            le16(&mut sb, 350, 32);
        }
        le16(&mut sb, 206, reserved_gdt as u16);
        if fs.rng.chance(2, 3) {
            label = { let k = fs.rng.usize(1, 16); (0..k).map(|_| *fs.rng.pick(b"abcXYZ 0-_\xc3\xa9")).collect() };
            sb[120..120 + label.len()].copy_from_slice(&label);
        }
        if fs.rng.chance(1, 2) {
            mounted_on = { let k = fs.rng.usize(1, 64); (0..k).map(|_| *fs.rng.pick(b"/mnt-abc")).collect() };
            sb[136..136 + mounted_on.len()].copy_from_slice(&mounted_on);
        }
    }
    sb[104..120].copy_from_slice(&uuid);
    for g in 0..groups {
        if !has_super(g) {
            continue;
        }
        if g > 64 && !fs.rng.chance(64, groups) {
            // copies that no case needs would take gigabytes
            continue;
        }
        le16(&mut sb, 90, if revision == 1 { g as u16 } else { 0 });
        if ro & 0x400 != 0 {
            let c = crc32c_raw(!0, &sb[..1020]);
            le32(&mut sb, 1020, c);
        }
        let at = start(g) * bs + if g == 0 && bs > 1024 { 1024 } else { 0 };
        if g == 0 || !fs.rng.chance(1, 6) {
            fs.media.write(at, &sb);
        }
        fs.media.write((start(g) + 1) * bs, &descriptors);
    }
    let d = ((start(0) + 1) * bs, descriptors.len() as u64);
    for p in [(1024, 104), (1024, 104), (1024 + 254, 10), (1024 + 336, 40), (d.0, d.1.min(400)), (d.0, 64)] {
        fs.places.push(p);
    }
    let unused: Vec<u32> = (11..=inodes.min(2000)).filter(|i| !fs.taken.contains(i)).collect();
    if !unused.is_empty() && fs.rng.chance(1, 3) {
        // leftovers of what was removed
        let i = *fs.rng.pick(&unused);
        let at = fs.inode_place(i);
        let v = fs.rng.bytes(inode_size as usize);
        fs.media.write(at, &v);
    }
    Some(Built {
        media: fs.media,
        bs,
        version,
        revision,
        flags: [compat, incompat, ro],
        inodes,
        inode_size,
        label,
        mounted_on,
        mounted: times[0],
        written: times[1],
        nodes: fs.nodes,
        checksums: seed.is_some(),
        places: fs.places,
        inode_places: fs.inode_places,
        descriptor_place: d,
        seen: fs.seen,
        groups,
        total,
    })
}

fn text(name: &[u8]) -> String {
    String::from_utf8_lossy(name).to_string()
}

fn bs(name: &[u8]) -> ByteString {
    ByteString { encoding: CharacterEncoding::Utf8, elements: name.to_vec() }
}

fn same(ctx: &mut Ctx, what: &str, e: &mut ExtFileEntry, ino: u32, n: &Node, name: Option<&[u8]>) -> CaseResult {
    let t = format!("{what} inode {ino} {}", name.map(text).unwrap_or_default());
    require_eq!(e.inode_number, ino, "ext:inode", "{t}: inode number");
    require!(e.get_name().map(|n| n.elements.as_slice()) == name, "ext:name", "{t}: name {:?}", e.get_name());
    require_eq!(e.is_directory(), matches!(n.kind, Kind::Directory(_)), "ext:directory", "{t}: is a directory");
    require_eq!(e.is_root_directory(), ino == 2, "ext:root", "{t}: is the root directory");
    require_eq!(e.get_file_mode(), n.mode, "ext:mode", "{t}: mode");
    require_eq!(e.get_owner_identifier(), n.uid, "ext:owner", "{t}: owner");
    require_eq!(e.get_group_identifier(), n.gid, "ext:owner", "{t}: group");
    require_eq!(e.get_number_of_links(), n.links, "ext:links", "{t}: number of links");
    require_eq!(e.get_size(), n.size, "ext:size", "{t}: size");
    require!(e.get_access_time() == Some(&n.accessed), "ext:times", "{t}: access time {:?}, expected {:?}", e.get_access_time(), n.accessed);
    require!(e.get_change_time() == Some(&n.changed), "ext:times", "{t}: change time {:?}, expected {:?}", e.get_change_time(), n.changed);
    require!(e.get_modification_time() == Some(&n.modified), "ext:times", "{t}: modification time {:?}, expected {:?}", e.get_modification_time(), n.modified);
    require!(e.get_creation_time() == n.created.as_ref(), "ext:times", "{t}: creation time {:?}, expected {:?}", e.get_creation_time(), n.created);
    require!(e.get_deletion_time() == &n.deleted, "ext:times", "{t}: deletion time {:?}, expected {:?}", e.get_deletion_time(), n.deleted);
    if let Some(k) = n.attributes {
        match no_panic("ext:attributes", || e.get_number_of_attributes())? {
            Ok(got) => require_eq!(got, k, "ext:attributes", "{t}: number of attributes"),
            Err(e) => fail!("ext:attributes", "{t}: {}", e.to_string()),
        }
    }
    let target = match &n.kind {
        Kind::Link(t) => Some(t.clone()),
        _ => None,
    };
    match no_panic("ext:symbolic link", || e.get_symbolic_link_target().map(|t| t.cloned()))? {
        Ok(got) => require!(got.as_ref().map(|g| &g.elements) == target.as_ref(), "ext:symbolic link", "{t}: target {:?}, expected {:?}", got, target),
        Err(e) => fail!("ext:symbolic link", "{t}: {}", e.to_string()),
    }
    let device = match &n.kind {
        Kind::Device(d, _) => Some(*d),
        _ => None,
    };
    match no_panic("ext:device", || e.get_device_identifier())? {
        Ok(got) => {
            let sig = if device.is_some_and(|d| d > 0xffff) { "ext:device identifier beyond 16 bits" } else { "ext:device" };
            require!(got.map(|d| d as u32) == device, sig, "{t}: device identifier {got:?}, expected {device:?}")
        }
        Err(e) => fail!("ext:device", "{t}: {}", e.to_string()),
    }
    ctx.count("file entries compared");
    Ok(())
}

fn content(ctx: &mut Ctx, e: &ExtFileEntry, ino: u32, n: &Node) -> CaseResult {
    let s = no_panic("ext:data", || e.get_data_stream())?;
    match (s, &n.kind) {
        (Ok(Some(s)), Kind::File(m)) => {
            if m.size < 400_000 && ctx.rng.chance(1, 2) {
                sweep(ctx, "ext", &s, m)?;
            } else {
                drive(ctx, "ext", &s, m, 6, 20_000)?;
            }
            ctx.count("files read");
        }
        (Ok(None), k) if !matches!(k, Kind::File(_)) => {}
        (Ok(s), _) => fail!("ext:data", "inode {ino} with mode {:o} has data: {}", n.mode, s.is_some()),
        (Err(e), _) => fail!("ext:data", "inode {ino} of {} bytes: {}", n.size, e.to_string()),
    }
    Ok(())
}

fn walk(ctx: &mut Ctx, fs: &ExtFileSystem, b: &Built, dir: &mut ExtFileEntry, names: &[(Vec<u8>, u32)], path: &mut Vec<Vec<u8>>) -> CaseResult {
    let here = path.iter().map(|n| text(n)).collect::<Vec<_>>().join("/");
    let n = match no_panic("ext:list", || dir.get_number_of_sub_file_entries())? {
        Ok(n) => n,
        Err(e) => fail!("ext:list", "listing /{here}: {}", e.to_string()),
    };
    let mut by_name: HashMap<&[u8], u32> = names.iter().map(|(n, i)| (n.as_slice(), *i)).collect();
    require_eq!(n, names.len(), "ext:list", "number of entries of /{here}");
    require!(no_panic("ext:list", || dir.get_sub_file_entry_by_index(n))?.is_err(), "ext:list", "entry {n} of {n} of /{here} was given");
    for i in 0..n {
        let mut e = match no_panic("ext:list", || dir.get_sub_file_entry_by_index(i))? {
            Ok(e) => e,
            Err(e) => fail!("ext:list", "entry {i} of {n} of /{here}: {}", e.to_string()),
        };
        let given = e.get_name().cloned().unwrap_or_else(ByteString::new);
        let ino = match by_name.remove(given.elements.as_slice()) {
            Some(i) => i,
            None => fail!("ext:list", "/{here} lists {:?}, which is not in it (or listed twice)", given),
        };
        let node = &b.nodes[&ino];
        let nm = given.elements.clone();
        same(ctx, "listed", &mut e, ino, node, Some(&nm))?;
        content(ctx, &e, ino, node)?;
        match no_panic("ext:lookup", || dir.get_sub_file_entry_by_name(&bs(&nm)))? {
            Ok(Some(mut f)) => same(ctx, "looked up", &mut f, ino, node, Some(&nm))?,
            Ok(None) => fail!("ext:lookup", "/{here}: {} was not found", text(&nm)),
            Err(e) => fail!("ext:lookup", "/{here}: {}: {}", text(&nm), e.to_string()),
        }
        if ctx.rng.chance(1, 2) {
            match no_panic("ext:identifier", || fs.get_file_entry_by_identifier(ino))? {
                Ok(mut f) => {
                    same(ctx, "by identifier", &mut f, ino, node, None)?;
                    if ctx.rng.chance(1, 4) {
                        content(ctx, &f, ino, node)?;
                    }
                }
                Err(e) => fail!("ext:identifier", "{ino}: {}", e.to_string()),
            }
            ctx.count("file entries by identifier");
        }
        path.push(nm.clone());
        if ctx.rng.chance(1, 3) {
            let mut components = vec![ByteString::new()];
            components.extend(path.iter().map(|c| bs(c)));
            let p = ExtPath { components };
            match no_panic("ext:path", || fs.get_file_entry_by_path(&p))? {
                Ok(Some(mut f)) => same(ctx, "by path", &mut f, ino, node, Some(&nm))?,
                Ok(None) => fail!("ext:path", "{} was not found", p.to_string()),
                Err(e) => fail!("ext:path", "{}: {}", p.to_string(), e.to_string()),
            }
            ctx.count("file entries by path");
        }
        if let Kind::Directory(children) = &node.kind {
            walk(ctx, fs, b, &mut e, children, path)?;
        }
        path.pop();
    }
    for _ in 0..2 {
        let mut nm = names.first().map_or(b"x".to_vec(), |n| n.0.clone());
        match ctx.rng.below(3) {
            0 => nm.push(0x71),
            1 => {
                nm.pop();
            }
            _ => nm = text(&nm).to_uppercase().into_bytes(),
        }
        if names.iter().any(|n| n.0 == nm) {
            continue;
        }
        match no_panic("ext:lookup", || dir.get_sub_file_entry_by_name(&bs(&nm)))? {
            Ok(None) => ctx.count("missing names not found"),
            Ok(Some(_)) => fail!("ext:lookup", "/{here}: {} was found", text(&nm)),
            Err(e) => fail!("ext:lookup", "/{here}: {}: {}", text(&nm), e.to_string()),
        }
    }
    Ok(())
}

fn refusal(ctx: &mut Ctx, b: &Built) -> CaseResult {
    let mut m = b.media.clone();
    let flip = |m: &mut Media, at: u64, bit: u64| {
        let v = m.get(at, 1)[0] ^ (1 << bit);
        m.write(at, &[v]);
    };
    let bit = ctx.rng.below(8);
    let what = match ctx.rng.below(3) {
        0 => {
            flip(&mut m, 1024 + 104 + ctx.rng.below(100), bit);
            "superblock"
        }
        1 => {
            let d = if b.flags[1] & 0x80 != 0 { 64 } else { 32 };
            let g = ctx.rng.below(b.groups);
            let at = b.descriptor_place.0 + g * d + ctx.rng.below(28);
            flip(&mut m, at, bit);
            "group descriptor"
        }
        _ => {
            let mut i: Vec<u32> = b.nodes.keys().copied().collect();
            i.sort();
            let i = *ctx.rng.pick(&i);
            let o = *ctx.rng.pick(&[0u64, 2, 5, 8, 17, 40, 50, 99, 100, 120, 127]);
            flip(&mut m, b.inode_places[&i] + o, bit);
            let s = sparse_stream(&m);
            let mut fs = ExtFileSystem::new();
            if let Err(e) = no_panic("ext:open", || fs.read_data_stream(&s))? {
                fail!("ext:open", "with a damaged inode: {}", e.to_string());
            }
            require!(no_panic("ext:damaged", || fs.get_file_entry_by_identifier(i))?.is_err(), "ext:damaged inode", "inode {i} with a changed bit {bit} at {o} was not refused");
            ctx.count("damaged inodes refused");
            return Ok(());
        }
    };
    let s = sparse_stream(&m);
    let mut fs = ExtFileSystem::new();
    require!(no_panic("ext:damaged", || fs.read_data_stream(&s))?.is_err(), &format!("ext:damaged {what}"), "a {what} with a changed bit was not refused");
    ctx.count("damaged superblocks and group descriptors refused");
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let b = build(&mut ctx.rng, false);
    let describe = format!("ext{} revision {} of {} blocks of {} bytes in {} groups, features {:x?}, inodes of {} bytes", b.version, b.revision, b.total, b.bs, b.groups, b.flags, b.inode_size);
    ctx.detail(describe.clone());
    let stream = sparse_stream(&b.media);
    let mut fs = ExtFileSystem::new();
    if let Err(e) = no_panic("ext:open", || fs.read_data_stream(&stream))? {
        fail!("ext:open", "{describe}: {}", e.to_string());
    }
    require_eq!(fs.get_format_version(), b.version, "ext:version", "version of a file system with features {:x?}", b.flags);
    require_eq!([fs.get_compatible_feature_flags(), fs.get_incompatible_feature_flags(), fs.get_read_only_compatible_feature_flags()], b.flags, "ext:features", "feature flags");
    require_eq!(fs.number_of_inodes, b.inodes, "ext:inodes", "number of inodes");
    let label = if b.label.is_empty() { None } else { Some(b.label.clone()) };
    require_eq!(fs.get_volume_label().map(|l| l.elements.clone()), label, "ext:label", "volume label");
    require_eq!(fs.last_mount_path.elements, b.mounted_on, "ext:mount path", "last mount path");
    for (what, got, t) in [("mount", &fs.last_mount_time, b.mounted), ("written", &fs.last_written_time, b.written)] {
        let expected = if t == 0 { DateTime::NotSet } else { DateTime::PosixTime32(PosixTime32::new(t)) };
        require!(*got == expected, "ext:times", "last {what} time {got:?}, expected {expected:?}");
    }
    let mut root = match no_panic("ext:root", || fs.get_root_directory())? {
        Ok(Some(r)) => r,
        r => fail!("ext:root", "{describe}: {:?}", r.map(|r| r.is_some()).map_err(|e| e.to_string())),
    };
    let node = b.nodes[&2].clone();
    same(ctx, "root", &mut root, 2, &node, None)?;
    if let Kind::Directory(names) = &node.kind {
        walk(ctx, &fs, &b, &mut root, names, &mut Vec::new())?;
    }
    match no_panic("ext:path", || fs.get_file_entry_by_path(&ExtPath::from("/")))? {
        Ok(Some(r)) => require!(r.is_root_directory(), "ext:path", "/ is not the root"),
        r => fail!("ext:path", "/: {:?}", r.map(|r| r.is_some()).map_err(|e| e.to_string())),
    }
    for i in [0, b.inodes + 1, u32::MAX] {
        require!(no_panic("ext:identifier", || fs.get_file_entry_by_identifier(i))?.is_err(), "ext:identifier", "inode {i} of {} was given", b.inodes);
    }
    if b.checksums {
        refusal(ctx, &b)?;
    }
    ctx.count(&format!("ext{} file systems", b.version));
    if b.revision == 0 {
        ctx.count("file systems of the first revision");
    }
    let mut seen: Vec<&str> = b.seen.iter().copied().collect();
    seen.sort();
    for s in seen {
        ctx.count(s);
    }
    ctx.distinct(&b.media.hash().to_le_bytes());
    ctx.sample(|| describe.clone());
    Ok(())
}

/// Walks a file system that could be damaged.
pub fn opened(stream: &DataStreamReference) -> Result<Opened, String> {
    let mut fs = ExtFileSystem::new();
    fs.read_data_stream(stream).map_err(|e| e.to_string())?;
    let mut o = Opened::default();
    o.text = format!("{} {:?} {:?};", fs.number_of_inodes, fs.get_volume_label().map(|l| l.to_string()), fs.last_mount_time);
    let root = fs.get_root_directory().map_err(|e| e.to_string())?;
    let mut queue: Vec<(ExtFileEntry, u32)> = root.into_iter().map(|r| (r, 0)).collect();
    let mut budget = 200;
    while let Some((mut d, depth)) = queue.pop() {
        let n = match d.get_number_of_sub_file_entries() {
            Ok(n) => n,
            Err(_) => {
                o.text.push_str("list error;");
                continue;
            }
        };
        o.text.push_str(&format!("{n}:"));
        for i in 0..n.min(60) {
            if budget == 0 {
                break;
            }
            budget -= 1;
            match d.get_sub_file_entry_by_index(i) {
                Ok(mut e) => {
                    let name = e.get_name().cloned();
                    let more = format!("{:?} {:?} {:?}", e.get_number_of_attributes().ok(), e.get_device_identifier().ok(), e.get_symbolic_link_target().map(|t| t.cloned()).ok());
                    o.text.push_str(&format!(
                        "{:?} {} {} {:?} {:?} {:?} {:?} {:?} {more};",
                        name.as_ref().map(|n| n.to_string()), e.get_size(), e.get_file_mode(),
                        e.get_creation_time(), e.get_access_time(), e.get_modification_time(), e.get_change_time(), e.get_deletion_time(),
                    ));
                    if let Some(n) = name {
                        o.text.push_str(&format!("{:?};", d.get_sub_file_entry_by_name(&n).map(|e| e.map(|e| e.inode_number)).ok()));
                    }
                    if e.is_directory() {
                        if depth < 6 {
                            queue.push((e, depth + 1));
                        }
                    } else {
                        match e.get_data_stream() {
                            Ok(Some(s)) if o.streams.len() < 12 => o.streams.push(s),
                            Ok(s) => o.text.push_str(&format!("{};", s.is_some())),
                            Err(_) => o.text.push_str("data error;"),
                        }
                    }
                }
                Err(_) => o.text.push_str("entry error;"),
            }
        }
    }
    for id in [0u32, 1, 5, 7, 8, 11, 12, fs.number_of_inodes, u32::MAX] {
        o.text.push_str(&format!("{:?};", fs.get_file_entry_by_identifier(id).map(|e| e.get_file_mode()).ok()));
    }
    Ok(o)
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut b = build(&mut ctx.rng, true);
    let places = b.places.clone();
    if !ctx.rng.chance(1, 20) {
        mutate_media(&mut ctx.rng, &mut b.media, &places);
    }
    ctx.detail(format!("damaged ext{} of {} blocks of {} bytes, features {:x?}", b.version, b.total, b.bs, b.flags));
    ctx.distinct(&b.media.hash().to_le_bytes());
    let stream = sparse_stream(&b.media);
    probe(ctx, "ext", &|| opened(&stream))
}

/// A damaged file system.
pub fn damaged(rng: &mut Rng) -> Media {
    let mut b = build(rng, true);
    let places = b.places.clone();
    mutate_media(rng, &mut b.media, &places);
    b.media
}
