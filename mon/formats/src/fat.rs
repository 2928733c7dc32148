//! FAT-12, FAT-16 and FAT-32 file systems.

use std::collections::{HashMap, HashSet};

use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, FatDate, FatTimeDate, FatTimeDate10Ms};
use keramics_formats::fat::{FatFileEntry, FatFileSystem, FatFormat, FatPath, FatString};
use keramics_types::Ucs2String;
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

#[derive(Clone, Debug)]
pub struct Node {
    /// Elements of the name that is shown.
    name: Vec<u16>,
    long: bool,
    attributes: u8,
    /// The directory entry as stored.
    raw: [u8; 32],
    size: u32,
    /// Place of the short name entry.
    place: u64,
    /// The entries of the long name are in the same cluster as the short name.
    together: bool,
    children: Option<Vec<Node>>,
    content: Media,
}

struct Volume {
    media: Media,
    bits: u32,
    bps: u64,
    cluster: u64,
    clusters: u64,
    reserved: u64,
    fats: u64,
    fat_sectors: u64,
    root_entries: u64,
    data: u64,
    free: Vec<u64>,
    used: HashSet<u64>,
    fat: HashMap<u64, u32>,
    /// Places of interest for damage.
    places: Vec<(u64, u64)>,
    far: bool,
}

pub struct Built {
    pub media: Media,
    bits: u32,
    bps: u64,
    serial: u32,
    label: Option<Vec<u8>>,
    root: Vec<Node>,
    missing: Vec<Vec<u16>>,
    pub places: Vec<(u64, u64)>,
    far: bool,
    fragmented: bool,
    high: bool,
    /// Place of the first entry of a root that is not in clusters.
    first: u64,
}

const LETTERS: &[u32] = &[
    0x61, 0x62, 0x63, 0x64, 0x65, 0x78, 0x79, 0x7a, 0x41, 0x42, 0x5a, 0x30, 0x39, 0x20, 0x2e, 0x2b, 0x2c, 0x3b, 0x3d, 0x5b, 0x5d, 0x5f, 0x7e, 0x27,
    0xe0, 0xe9, 0xf6, 0xfe, 0xc0, 0xd8, 0x3b1, 0x3c9, 0x391, 0x430, 0x44f, 0x410, 0x451, 0x4e2d, 0x6587, 0x3042, 0xac00, 0x1f600, 0x20ac,
];

pub fn fold(name: &[u16]) -> String {
    String::from_utf16_lossy(name).chars().flat_map(|c| c.to_uppercase()).collect()
}

/// The same name in another case.
pub fn recase(rng: &mut Rng, name: &[u16]) -> Vec<u16> {
    let t: String = String::from_utf16_lossy(name)
        .chars()
        .map(|c| {
            let alternatives: Vec<char> = if rng.chance(1, 2) { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
            if alternatives.len() == 1 { alternatives[0] } else { c }
        })
        .collect();
    t.encode_utf16().collect()
}

pub fn long_name(rng: &mut Rng, letters: &[u32]) -> Vec<u16> {
    let n = match rng.below(8) {
        0 => rng.usize(1, 3),
        1 => 13 * rng.usize(1, 19) - rng.usize(0, 1),
        2 => rng.usize(200, 255),
        3 => *rng.pick(&[4usize, 5, 6, 10, 11, 12, 13, 14, 26, 255]),
        _ => rng.usize(1, 40),
    };
    let narrow = rng.chance(1, 2);
    let mut v: Vec<u16> = Vec::new();
    loop {
        let c = if narrow { letters[rng.usize(0, 20)] } else { *rng.pick(letters) };
        let c = char::from_u32(c).unwrap();
        let mut b = [0u16; 2];
        let e = c.encode_utf16(&mut b);
        if v.len() + e.len() > n {
            break;
        }
        v.extend_from_slice(e);
        if v.len() == n {
            break;
        }
    }
    // no leading or trailing spaces and dots
    for i in [0, v.len().saturating_sub(1)] {
        if let Some(e) = v.get_mut(i) {
            if *e == 0x20 || *e == 0x2e {
                *e = 0x71;
            }
        }
    }
    if v.is_empty() {
        v.push(0x71);
    }
    v
}

fn short_name(rng: &mut Rng) -> [u8; 11] {
    const C: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()-@^_`{}~";
    let mut n = [b' '; 11];
    let k = if rng.chance(1, 4) { 8 } else { rng.usize(1, 8) };
    for b in n[..k].iter_mut() {
        *b = *rng.pick(C);
    }
    if k > 2 && rng.chance(1, 12) {
        n[1] = b' ';
    }
    let k = rng.usize(0, 3);
    for b in n[8..8 + k].iter_mut() {
        *b = *rng.pick(C);
    }
    n
}

fn shown(short: &[u8; 11], flags: u8) -> Vec<u16> {
    let part = |p: &[u8], lower: bool| -> Vec<u16> {
        let n = p.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
        p[..n].iter().map(|b| if lower { b.to_ascii_lowercase() as u16 } else { *b as u16 }).collect()
    };
    let mut v = part(&short[..8], flags & 8 != 0);
    let e = part(&short[8..], flags & 16 != 0);
    if !e.is_empty() {
        v.push(b'.' as u16);
        v.extend(e);
    }
    v
}

fn checksum(short: &[u8]) -> u8 {
    let mut s: u8 = 0;
    for b in &short[..11] {
        s = ((s & 1) << 7).wrapping_add(s >> 1).wrapping_add(*b);
    }
    s
}

fn long_entries(rng: &mut Rng, name: &[u16], sum: u8) -> Vec<[u8; 32]> {
    let mut units = name.to_vec();
    if units.len() % 13 != 0 {
        units.push(0);
        while units.len() % 13 != 0 {
            units.push(0xffff);
        }
    }
    let n = units.len() / 13;
    let mut out = Vec::new();
    for k in (0..n).rev() {
        let mut e = [0u8; 32];
        e[0] = (k + 1) as u8 | if k + 1 == n { 0x40 } else { 0 };
        e[11] = 0x0f;
        e[13] = sum;
        for (i, u) in units[k * 13..k * 13 + 13].iter().enumerate() {
            let o = match i {
                0..=4 => 1 + i * 2,
                5..=10 => 14 + (i - 5) * 2,
                _ => 28 + (i - 11) * 2,
            };
            le16(&mut e, o, *u);
        }
        out.push(e);
    }
    let _ = rng;
    out
}

impl Volume {
    fn place(&self, cluster: u64) -> u64 {
        self.data + (cluster - 2) * self.cluster
    }
    fn take(&mut self, rng: &mut Rng, near: Option<u64>, directory: bool) -> Option<u64> {
        if self.used.len() as u64 >= self.clusters {
            return None;
        }
        let last = self.clusters + 1;
        for _ in 0..200 {
            let c = match (near, rng.below(6)) {
                (Some(n), 0..=3) => n + 1,
                (_, 0) => last - rng.below(4.min(self.clusters)),
                (_, 1) => 2 + rng.below(4.min(self.clusters)),
                (_, 2) if last > 0x10000 => 0xfff0 + rng.below(32),
                _ => 2 + rng.below(self.clusters),
            };
            if c < 2 || c > last || self.used.contains(&c) {
                continue;
            }
            if directory && !self.far && self.place(c) + self.cluster > u32::MAX as u64 {
                continue;
            }
            self.used.insert(c);
            return Some(c);
        }
        let c = (2..=last.min(5000)).find(|c| !self.used.contains(c))?;
        self.used.insert(c);
        Some(c)
    }
    fn chain(&mut self, rng: &mut Rng, n: usize, directory: bool) -> Option<Vec<u64>> {
        let mut v: Vec<u64> = Vec::new();
        for _ in 0..n {
            match self.take(rng, v.last().copied(), directory) {
                Some(c) => v.push(c),
                None => {
                    for c in v {
                        self.used.remove(&c);
                    }
                    return None;
                }
            }
        }
        Some(v)
    }
    fn link(&mut self, rng: &mut Rng, chain: &[u64]) {
        for (i, c) in chain.iter().enumerate() {
            let next = match chain.get(i + 1) {
                Some(n) => *n as u32,
                None => 0x0ffffff8 + rng.below(8) as u32,
            };
            self.fat.insert(*c, next);
        }
    }
    fn write_fat(&mut self, rng: &mut Rng) {
        let size = self.fat_sectors * self.bps;
        let start = self.reserved * self.bps;
        let mut entries: Vec<(u64, u32)> = self.fat.iter().map(|(a, b)| (*a, *b)).collect();
        entries.sort();
        entries.push((0, 0x0ffffff8));
        entries.push((1, 0x0fffffff));
        // clusters of lost chains and bad clusters
        for _ in 0..rng.usize(0, 4) {
            let c = 2 + rng.below(self.clusters);
            if !self.used.contains(&c) {
                entries.push((c, *rng.pick(&[0x0ffffff7u32, 0x0fffffff, 2])));
            }
        }
        for copy in 0..self.fats {
            let base = start + copy * size;
            for (c, v) in &entries {
                match self.bits {
                    12 => {
                        let o = base + c * 3 / 2;
                        let old = self.media.get(o, 2);
                        let mut w = u16::from_le_bytes([old[0], old[1]]);
                        let v = (*v & 0xfff) as u16;
                        w = if c % 2 == 0 { (w & 0xf000) | v } else { (w & 0x000f) | (v << 4) };
                        self.media.write(o, &w.to_le_bytes());
                    }
                    16 => self.media.write(base + c * 2, &(*v as u16).to_le_bytes()),
                    _ => {
                        let v = (*v & 0x0fffffff) | (rng.below(16) as u32) << 28;
                        self.media.write(base + c * 4, &v.to_le_bytes());
                    }
                }
                if copy == 0 && self.places.len() < 64 {
                    self.places.push((base + c * self.bits as u64 / 8, 4));
                }
            }
        }
    }
}

fn date(rng: &mut Rng) -> u16 {
    match rng.below(12) {
        0 => 0,
        1 => 0x0021,
        _ => ((rng.below(128) << 9) | (rng.range(1, 12) << 5) | rng.range(1, 28)) as u16,
    }
}
fn time(rng: &mut Rng) -> u16 {
    ((rng.below(24) << 11) | (rng.below(60) << 5) | rng.below(30)) as u16
}

struct Build<'a> {
    rng: &'a mut Rng,
    v: Volume,
    missing: Vec<Vec<u16>>,
    left: usize,
    fragmented: bool,
    high: bool,
}

impl Build<'_> {
    /// Builds the entries of a directory with what is in it; `capacity` is that of a fixed root.
    fn directory(&mut self, depth: usize, own: Option<(u32, u32)>, capacity: Option<u64>, label: Option<[u8; 11]>) -> (Vec<Node>, Vec<[u8; 32]>, Vec<usize>) {
        let mut slots: Vec<[u8; 32]> = Vec::new();
        let mut nodes: Vec<Node> = Vec::new();
        let mut at: Vec<usize> = Vec::new();
        let mut names: HashSet<String> = HashSet::new();
        let mut shorts: HashSet<[u8; 11]> = HashSet::new();
        // checksums of long names without a short name
        let mut orphans: HashSet<u8> = HashSet::new();
        if own.is_none() && self.rng.chance(15, 16) {
            let mut e = [0x20u8; 32];
            e[0] = 0xe5;
            slots.push(e);
        }
        if let Some((this, parent)) = own {
            for (name, c) in [(b".          ", this), (b"..         ", parent)] {
                let mut e = [0u8; 32];
                e[..11].copy_from_slice(name);
                e[11] = 0x10;
                le16(&mut e, 26, c as u16);
                le16(&mut e, 20, (c >> 16) as u16);
                slots.push(e);
            }
        }
        let mut label = label;
        let n = match self.rng.below(6) {
            0 => 0,
            1 => self.rng.usize(1, 2),
            2 if depth < 2 => self.rng.usize(10, 60),
            _ => self.rng.usize(2, 10),
        };
        let limit = capacity.unwrap_or(60_000);
        let label_at = self.rng.usize(0, n);
        for k in 0..=n {
            if k == label_at {
                if let Some(l) = label.take() {
                    let mut e = [0u8; 32];
                    e[..11].copy_from_slice(&l);
                    e[11] = if self.rng.chance(1, 2) { 0x08 } else { 0x28 };
                    e[12..22].fill(0);
                    le16(&mut e, 22, time(self.rng));
                    le16(&mut e, 24, date(self.rng));
                    if (slots.len() as u64) < limit {
                        slots.push(e);
                    }
                }
            }
            if k == n || self.left == 0 {
                continue;
            }
            self.left -= 1;
            // entries of deleted files
            if self.rng.chance(1, 6) {
                let s = short_name(self.rng);
                let name = long_name(self.rng, LETTERS);
                let deleted_whole = self.rng.chance(1, 2);
                let mut es = if self.rng.chance(1, 2) { long_entries(self.rng, &name, checksum(&s)) } else { Vec::new() };
                let mut e = [0u8; 32];
                e[..11].copy_from_slice(&s);
                e[0] = 0xe5;
                e[11] = 0x20;
                le32(&mut e, 28, 77);
                le16(&mut e, 26, 2);
                if deleted_whole {
                    for l in es.iter_mut() {
                        l[0] = 0xe5;
                    }
                }
                if slots.len() as u64 + (es.len() as u64) + 1 <= limit {
                    self.missing.push(name);
                    orphans.insert(checksum(&s));
                    slots.extend(es);
                    // the short name entry could be in use again
                    if deleted_whole || self.rng.chance(1, 2) {
                        slots.push(e);
                    }
                }
            }
            let mut short = short_name(self.rng);
            let long = if self.rng.chance(3, 5) { Some(long_name(self.rng, LETTERS)) } else { None };
            let flags = if long.is_some() { 0 } else { *self.rng.pick(&[0u8, 0, 8, 16, 24]) };
            if long.is_some() && self.rng.chance(1, 2) {
                short[6] = b'~';
                short[7] = b'1';
                for b in short[..6].iter_mut() {
                    if *b == b' ' {
                        *b = b'_';
                    }
                }
            }
            let name = long.clone().unwrap_or_else(|| shown(&short, flags));
            if orphans.contains(&checksum(&short)) {
                continue;
            }
            if !shorts.insert(short) || !names.insert(fold(&name)) || short[..2] == *b". " {
                continue;
            }
            let long_slots = match &long {
                Some(l) => long_entries(self.rng, l, checksum(&short)),
                None => Vec::new(),
            };
            if slots.len() + long_slots.len() + 1 > limit as usize {
                break;
            }
            let is_directory = depth < 4 && self.rng.chance(1, 4);
            let mut raw = [0u8; 32];
            raw[..11].copy_from_slice(&short);
            raw[11] = if is_directory { 0x10 } else { 0 } | *self.rng.pick(&[0u8, 0x20, 0x21, 0x02, 0x04, 0x27]);
            raw[12] = flags;
            raw[13] = self.rng.below(200) as u8;
            le16(&mut raw, 14, time(self.rng));
            le16(&mut raw, 16, date(self.rng));
            le16(&mut raw, 18, date(self.rng));
            le16(&mut raw, 22, time(self.rng));
            le16(&mut raw, 24, date(self.rng));
            if self.v.bits != 32 {
                // used by other systems for something else
                le16(&mut raw, 20, if self.rng.chance(1, 2) { 0 } else { self.rng.next() as u16 });
            }
            let mut node = Node { name, long: long.is_some(), attributes: raw[11], raw, size: 0, place: 0, together: false, children: None, content: Media::new(0, 4096) };
            let first;
            if is_directory {
                let c0 = match self.v.take(self.rng, None, true) {
                    Some(c) => c,
                    None => continue,
                };
                first = c0;
                let (children, chain) = match self.sub(depth + 1, c0, own.map_or(0, |o| o.0)) {
                    Some(x) => x,
                    None => continue,
                };
                self.note(&chain);
                node.children = Some(children);
            } else {
                let cs = self.v.cluster;
                let size = match self.rng.below(8) {
                    0 => 0,
                    1 => self.rng.range(1, 100),
                    2 => cs * self.rng.range(1, 3) - self.rng.below(2),
                    3 => cs * self.rng.range(1, 3) + 1,
                    4 => self.rng.below(40 * 4096),
                    _ => self.rng.below(cs * 3 + 10),
                };
                let n = size.div_ceil(cs) as usize + if self.rng.chance(1, 8) { self.rng.usize(1, 3) } else { 0 };
                let chain = match self.v.chain(self.rng, n, false) {
                    Some(c) => c,
                    None => continue,
                };
                let salt = self.rng.next();
                node.size = size as u32;
                node.content = Media::new(size, 4096);
                for (i, c) in chain.iter().enumerate() {
                    // what follows the end of the file is something else
                    let data = fill(salt, i as u64 * cs, cs as usize);
                    let at = self.v.place(*c);
                    self.v.media.write(at, &data);
                    let from = i as u64 * cs;
                    if from < size {
                        let k = (size - from).min(cs) as usize;
                        node.content.write(from, &data[..k]);
                    }
                }
                first = chain.first().copied().unwrap_or(0);
                self.v.link(self.rng, &chain);
                self.note(&chain);
                le32(&mut node.raw, 28, size as u32);
            }
            le16(&mut node.raw, 26, first as u16);
            if self.v.bits == 32 {
                le16(&mut node.raw, 20, (first >> 16) as u16);
            }
            let k = long_slots.len();
            slots.extend(long_slots);
            at.push(slots.len());
            slots.push(node.raw);
            node.together = k == 0;
            node.place = k as u64;
            nodes.push(node);
        }
        (nodes, slots, at)
    }
    fn note(&mut self, chain: &[u64]) {
        if chain.windows(2).any(|w| w[1] != w[0] + 1) {
            self.fragmented = true;
        }
        if chain.iter().any(|c| *c > 0xffff) {
            self.high = true;
        }
    }
    /// A directory that is stored in clusters.
    fn sub(&mut self, depth: usize, first: u64, parent: u32) -> Option<(Vec<Node>, Vec<u64>)> {
        let own = if depth == 0 { None } else { Some((first as u32, parent)) };
        let label = if depth == 0 { self.label() } else { None };
        let (mut nodes, slots, at) = self.directory(depth, own, None, label);
        let per = (self.v.cluster / 32) as usize;
        let mut need = slots.len().div_ceil(per).max(1);
        if self.rng.chance(1, 6) {
            need += self.rng.usize(1, 2);
        }
        let mut chain = vec![first];
        while chain.len() < need {
            let c = self.v.take(self.rng, chain.last().copied(), true)?;
            chain.push(c);
        }
        let mut data: Vec<u8> = slots.concat();
        let total = chain.len() * self.v.cluster as usize;
        if data.len() < total {
            data.extend(std::iter::repeat(0).take(32));
            if self.rng.chance(1, 4) {
                // what follows the end was never cleared
                data[slots.len() * 32 + 1..].copy_from_slice(&[0x41; 31]);
                let mut junk = [0u8; 32];
                junk[..11].copy_from_slice(b"STALE   BIN");
                junk[28] = 9;
                while data.len() < total {
                    data.extend_from_slice(&junk);
                }
                self.missing.push("STALE.BIN".encode_utf16().collect());
            }
            data.resize(total, 0);
        }
        for (i, c) in chain.iter().enumerate() {
            let o = i * self.v.cluster as usize;
            let place = self.v.place(*c);
            self.v.media.write(place, &data[o..o + self.v.cluster as usize]);
            let n = (slots.len() * 32).saturating_sub(o).min(self.v.cluster as usize);
            self.v.places.push((place, n.max(32) as u64));
        }
        for (n, s) in nodes.iter_mut().zip(at) {
            let k = n.place as usize;
            n.together = s / per == (s - k) / per;
            n.place = self.v.place(chain[s / per]) + ((s % per) * 32) as u64;
        }
        let c = chain.clone();
        self.v.link(self.rng, &c);
        Some((nodes, chain))
    }
    fn label(&mut self) -> Option<[u8; 11]> {
        if self.rng.chance(1, 3) {
            return None;
        }
        let mut l = [b' '; 11];
        let n = self.rng.usize(1, 11);
        for b in l[..n].iter_mut() {
            *b = *self.rng.pick(b"ABCDEFGHIJ KLMNOPQ RSTUV WXYZ_0123456789-");
        }
        if l[0] == b' ' {
            l[0] = b'V';
        }
        Some(l)
    }
}

fn trimmed(l: &[u8]) -> Vec<u8> {
    l[..l.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1)].to_vec()
}

pub fn build(rng: &mut Rng) -> Built {
    let bits = *rng.pick(&[12u32, 16, 32]);
    let bps = *rng.pick(&[512u64, 512, 512, 1024, 2048, 4096]);
    let mut spc = 1u64 << rng.below(8);
    while spc * bps > 65536 {
        spc /= 2;
    }
    let clusters: u64 = match (bits, rng.below(4)) {
        (12, 0) => 4084 - rng.below(20),
        (12, 1) => rng.range(4, 60),
        (12, _) => rng.range(1, 4084),
        (16, 0) => 65524 - rng.below(20),
        (16, 1) => 4085 + rng.below(20),
        (16, _) => rng.range(4085, 65524),
        (_, 0) => rng.range(8, 5000),
        (_, 1) => 65525 + rng.below(100),
        (_, 2) => rng.range(65525, 300_000),
        _ => rng.range(65525, (((u32::MAX as u64) - 5_000_000) / spc).min(0x0ffffff5)),
    };
    let fats = *rng.pick(&[2u64, 2, 2, 1, 3]);
    let reserved = if bits == 32 { rng.range(2, 40) } else { *rng.pick(&[1u64, 1, 2, 8]) };
    let root_entries = if bits == 32 { 0 } else { *rng.pick(&[16u64, 64, 112, 224, 512, 40]) };
    let fat_sectors = ((clusters + 2) * bits as u64).div_ceil(8).div_ceil(bps) + if rng.chance(1, 3) { rng.below(4) } else { 0 };
    let root_sectors = (root_entries * 32).div_ceil(bps);
    let data_sector = reserved + fats * fat_sectors + root_sectors;
    let mut sectors = data_sector + clusters * spc;
    if spc > 1 && rng.chance(1, 2) {
        sectors += rng.below(spc);
    }
    if bits == 12 && clusters < 8 {
        // leaves room for a few files only
    }
    let serial = rng.next() as u32;
    let media = Media::new(sectors * bps + if rng.chance(1, 3) { rng.below(5000) } else { 0 }, 4096);
    let far = rng.chance(1, 25);
    let v = Volume {
        media,
        bits,
        bps,
        cluster: bps * spc,
        clusters,
        reserved,
        fats,
        fat_sectors,
        root_entries,
        data: data_sector * bps,
        free: Vec::new(),
        used: HashSet::new(),
        fat: HashMap::new(),
        places: vec![(0, 96)],
        far,
    };
    let left = rng.usize(1, 120);
    let mut b = Build { rng, v, missing: Vec::new(), left, fragmented: false, high: false };
    let mut boot = vec![0u8; 512];
    boot[..3].copy_from_slice(&[0xeb, 0x3c, 0x90]);
    boot[3..11].copy_from_slice(b"MSDOS5.0");
    le16(&mut boot, 11, bps as u16);
    boot[13] = spc as u8;
    le16(&mut boot, 14, reserved as u16);
    boot[16] = fats as u8;
    le16(&mut boot, 17, root_entries as u16);
    boot[21] = 0xf8;
    le16(&mut boot, 24, 63);
    le16(&mut boot, 26, 255);
    boot[510] = 0x55;
    boot[511] = 0xaa;
    if sectors < 65536 && bits != 32 {
        le16(&mut boot, 19, sectors as u16);
    } else {
        le32(&mut boot, 32, sectors as u32);
    }
    let (root, root_label);
    let boot_label: Option<Vec<u8>>;
    let extended = if bits == 32 { 66 } else { 38 };
    let with_label = b.rng.chance(3, 4);
    if with_label {
        boot[extended] = 0x29;
        le32(&mut boot, extended + 1, serial);
        let l = b.label().unwrap_or(*b"NO NAME    ");
        boot[extended + 5..extended + 16].copy_from_slice(&l);
        boot_label = Some(trimmed(&l));
    } else {
        boot_label = None;
    }
    if bits == 32 {
        le32(&mut boot, 36, fat_sectors as u32);
        le16(&mut boot, 48, 1);
        le16(&mut boot, 50, 6);
        let c = b.v.take(b.rng, None, true).unwrap();
        le32(&mut boot, 44, c as u32);
        let (nodes, chain) = loop {
            // a root directory that does not fit is made again, smaller
            if let Some(x) = b.sub(0, c, 0) {
                break x;
            }
            b.left = 0;
        };
        b.note(&chain);
        root = nodes;
        let first = b.v.media.get(b.v.place(c), (chain.len().min(1)) * b.v.cluster as usize);
        let _ = first;
        // the label entry, wherever it is
        let mut found = None;
        'all: for c in &chain {
            let data = b.v.media.get(b.v.place(*c), b.v.cluster as usize);
            for e in data.chunks(32) {
                if e[0] == 0 {
                    break 'all;
                }
                if e[0] != 0xe5 && e[11] & 0x58 == 8 && e[11] != 0x0f {
                    found = Some(trimmed(&e[..11]));
                }
            }
        }
        root_label = found;
        boot[82..90].copy_from_slice(b"FAT32   ");
    } else {
        le16(&mut boot, 22, fat_sectors as u16);
        let label = b.label();
        let (mut nodes, slots, at) = b.directory(0, None, Some(root_entries), label);
        let base = (reserved + fats * fat_sectors) * bps;
        let mut data = slots.concat();
        let capacity = root_entries as usize * 32;
        if data.len() < capacity {
            data.extend_from_slice(&[0; 32]);
            if b.rng.chance(1, 4) {
                while data.len() < capacity {
                    let mut junk = [0u8; 32];
                    junk[..11].copy_from_slice(b"STALE   BIN");
                    data.extend_from_slice(&junk);
                }
                b.missing.push("STALE.BIN".encode_utf16().collect());
            }
        }
        b.v.media.write(base, &data);
        b.v.places.push((base, (slots.len() as u64 * 32).max(32)));
        for (n, s) in nodes.iter_mut().zip(at) {
            n.together = true;
            n.place = base + s as u64 * 32;
        }
        root_label = slots.iter().filter(|e| e[0] != 0xe5 && e[11] & 0x58 == 8 && e[11] != 0x0f).next_back().map(|e| trimmed(&e[..11]));
        root = nodes;
        boot[54..62].copy_from_slice(if bits == 12 { b"FAT12   " } else { b"FAT16   " });
    }
    b.v.media.write(0, &boot);
    let rng = &mut *b.rng;
    b.v.write_fat(rng);
    let _ = (&b.v.free, b.v.root_entries);
    Built {
        media: b.v.media,
        bits,
        bps,
        serial: if with_label { serial } else { 0 },
        label: root_label.or(boot_label),
        root,
        missing: b.missing,
        places: b.v.places,
        far,
        fragmented: b.fragmented,
        high: b.high,
        first: if bits == 32 { u64::MAX } else { (reserved + fats * fat_sectors) * bps },
    }
}

fn elements(name: &FatString) -> Vec<u16> {
    match name {
        FatString::ByteString(b) => b.elements.iter().map(|e| *e as u16).collect(),
        FatString::Ucs2String(u) => u.elements.clone(),
    }
}

fn text(name: &[u16]) -> String {
    String::from_utf16_lossy(name)
}

fn same(ctx: &mut Ctx, what: &str, e: &FatFileEntry, n: &Node, with_name: bool) -> CaseResult {
    let t = format!("{what} {}", text(&n.name));
    require_eq!(e.is_directory(), n.children.is_some(), "fat:directory", "{t}: is a directory");
    require!(!e.is_root_directory(), "fat:root", "{t}: said to be the root");
    require_eq!(e.get_file_attribute_flags(), n.attributes, "fat:attributes", "{t}: attribute flags");
    require_eq!(e.get_size(), n.size as u64, "fat:size", "{t}: size");
    let created = DateTime::FatTimeDate10Ms(FatTimeDate10Ms::from_bytes(&n.raw[13..18]));
    let accessed = DateTime::FatDate(FatDate::from_bytes(&n.raw[18..20]));
    let modified = DateTime::FatTimeDate(FatTimeDate::from_bytes(&n.raw[22..26]));
    require!(e.get_creation_time() == Some(&created), "fat:times", "{t}: creation time {:?}, expected {created:?}", e.get_creation_time());
    require!(e.get_access_time() == Some(&accessed), "fat:times", "{t}: access time {:?}, expected {accessed:?}", e.get_access_time());
    require!(e.get_modification_time() == Some(&modified), "fat:times", "{t}: modification time {:?}, expected {modified:?}", e.get_modification_time());
    if with_name {
        let got = e.get_name();
        require!(
            got.as_ref().map(elements) == Some(n.name.clone()) && matches!(got, Some(FatString::Ucs2String(_))) == n.long,
            "fat:name", "{t}: name {got:?}"
        );
    }
    ctx.count("file entries compared");
    Ok(())
}

fn content(ctx: &mut Ctx, e: &FatFileEntry, n: &Node) -> CaseResult {
    let s = no_panic("fat:data", || e.get_data_stream())?;
    match (s, n.children.is_some()) {
        (Ok(None), true) => {}
        (Ok(Some(s)), false) => {
            if ctx.rng.chance(1, 2) {
                sweep(ctx, "fat", &s, &n.content)?;
            } else {
                drive(ctx, "fat", &s, &n.content, 6, 20_000)?;
            }
            ctx.count("files read");
        }
        (Ok(s), d) => fail!("fat:data", "{}: directory {d}, has data: {}", text(&n.name), s.is_some()),
        (Err(e), _) => fail!("fat:data", "{} of {} bytes: {}", text(&n.name), n.size, e.to_string()),
    }
    Ok(())
}

fn ucs(name: &[u16]) -> FatString {
    FatString::Ucs2String(Ucs2String { elements: name.to_vec() })
}

fn walk(ctx: &mut Ctx, fs: &FatFileSystem, b: &Built, dir: &mut FatFileEntry, nodes: &[Node], path: &mut Vec<Vec<u16>>) -> CaseResult {
    let here = path.iter().map(|n| text(n)).collect::<Vec<_>>().join("/");
    let n = match no_panic("fat:list", || dir.get_number_of_sub_file_entries())? {
        Ok(n) => n,
        Err(e) => fail!("fat:list", "listing /{here}: {}", e.to_string()),
    };
    let mut by_name: HashMap<Vec<u16>, &Node> = nodes.iter().map(|n| (n.name.clone(), n)).collect();
    let mut listed = Vec::new();
    for i in 0..n {
        match no_panic("fat:list", || dir.get_sub_file_entry_by_index(i))? {
            Ok(e) => listed.push(e),
            Err(e) => fail!("fat:list", "entry {i} of {n} of /{here}: {}", e.to_string()),
        }
    }
    require!(no_panic("fat:list", || dir.get_sub_file_entry_by_index(n))?.is_err(), "fat:list", "entry {n} of {n} of /{here} was given");
    for e in listed.iter_mut() {
        let name = e.get_name().as_ref().map(elements).unwrap_or_default();
        let node = match by_name.remove(&name) {
            Some(n) => n,
            None => fail!("fat:list", "/{here} lists {:?}, which is not in it (or listed twice)", text(&name)),
        };
        same(ctx, "listed", e, node, true)?;
        content(ctx, e, node)?;
        // by its name, in any case
        let given = e.get_name().unwrap();
        for (what, name) in [("own name", given), ("name", ucs(&node.name)), ("name in another case", ucs(&recase(&mut ctx.rng, &node.name)))] {
            match no_panic("fat:lookup", || dir.get_sub_file_entry_by_name(&name))? {
                Ok(Some(f)) => {
                    same(ctx, "looked up", &f, node, true)?;
                    require_eq!(f.identifier, e.identifier, "fat:lookup", "identifier");
                }
                Ok(None) => fail!("fat:lookup", "/{here}: {} was not found by its {what} {}", text(&node.name), name.to_string()),
                Err(e) => fail!("fat:lookup", "/{here}: {} by its {what}: {}", text(&node.name), e.to_string()),
            }
        }
        if node.place == b.first {
            match no_panic("fat:identifier", || fs.get_file_entry_by_identifier(e.identifier))? {
                Ok(f) if f.get_name().as_ref().map(elements) == Some(node.name.clone()) => {}
                _ => fail!("fat:identifier of the first entry of the root", "{} at {} has the identifier of the root", text(&node.name), node.place),
            }
        } else if node.place <= u32::MAX as u64 {
            require_eq!(e.identifier as u64, node.place, "fat:identifier", "{}", text(&node.name));
            match no_panic("fat:identifier", || fs.get_file_entry_by_identifier(e.identifier))? {
                Ok(f) => {
                    same(ctx, "by identifier", &f, node, node.together)?;
                    if ctx.rng.chance(1, 4) {
                        content(ctx, &f, node)?;
                    }
                }
                Err(e) => fail!("fat:identifier", "{}: {}", text(&node.name), e.to_string()),
            }
            ctx.count("file entries by identifier");
        } else {
            match no_panic("fat:identifier", || fs.get_file_entry_by_identifier(e.identifier))? {
                Ok(f) if f.get_name().as_ref().map(elements) == Some(node.name.clone()) => {}
                _ => fail!("fat:identifier beyond 4 GiB", "{} at {} has identifier {}", text(&node.name), node.place, e.identifier),
            }
        }
        path.push(node.name.clone());
        if ctx.rng.chance(1, 3) {
            let mut components = vec![FatString::new()];
            let other = ctx.rng.chance(1, 2);
            for c in path.iter() {
                components.push(ucs(&if other { recase(&mut ctx.rng, c) } else { c.clone() }));
            }
            let p = FatPath { components };
            match no_panic("fat:path", || fs.get_file_entry_by_path(&p))? {
                Ok(Some(f)) => same(ctx, "by path", &f, node, true)?,
                Ok(None) => fail!("fat:path", "{} was not found", p.to_string()),
                Err(e) => fail!("fat:path", "{}: {}", p.to_string(), e.to_string()),
            }
            ctx.count("file entries by path");
        }
        if let Some(children) = &node.children {
            walk(ctx, fs, b, e, children, path)?;
        }
        path.pop();
    }
    if let Some((name, _)) = by_name.iter().next() {
        fail!("fat:list", "/{here} does not list {:?}", text(name));
    }
    // what is not there
    for _ in 0..2 {
        let name = if b.missing.is_empty() || ctx.rng.chance(1, 2) {
            let mut n = nodes.first().map_or(vec![0x78], |n| n.name.clone());
            n.push(0x71);
            n
        } else {
            ctx.rng.pick(&b.missing).clone()
        };
        if nodes.iter().any(|n| fold(&n.name) == fold(&name)) {
            continue;
        }
        match no_panic("fat:lookup", || dir.get_sub_file_entry_by_name(&ucs(&name)))? {
            Ok(None) => ctx.count("missing names not found"),
            Ok(Some(_)) => fail!("fat:lookup", "/{here}: {} was found", text(&name)),
            Err(e) => fail!("fat:lookup", "/{here}: {}: {}", text(&name), e.to_string()),
        }
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let b = build(&mut ctx.rng);
    ctx.detail(format!("FAT-{} of {} bytes, {} bytes per sector, {} entries in the root", b.bits, b.media.size, b.bps, b.root.len()));
    let stream = sparse_stream(&b.media);
    let mut fs = FatFileSystem::new();
    if let Err(e) = no_panic("fat:open", || fs.read_data_stream(&stream))? {
        fail!("fat:open", "FAT-{} of {} bytes: {}", b.bits, b.media.size, e.to_string());
    }
    let format = match fs.format {
        FatFormat::Fat12 => 12,
        FatFormat::Fat16 => 16,
        FatFormat::Fat32 => 32,
    };
    require_eq!(format, b.bits, "fat:format", "format of a file system of {} bytes", b.media.size);
    require_eq!(fs.bytes_per_sector as u64, b.bps, "fat:bps", "bytes per sector");
    require_eq!(fs.volume_serial_number, b.serial, "fat:serial", "volume serial number");
    require!(fs.get_volume_label().map(|l| l.elements.clone()) == b.label, "fat:label", "volume label {:?}, expected {:?}", fs.get_volume_label(), b.label);
    let mut root = match no_panic("fat:root", || fs.get_root_directory())? {
        Ok(r) => r,
        Err(e) => fail!("fat:root", "{}", e.to_string()),
    };
    require!(root.is_root_directory() && root.is_directory() && root.get_name().is_none(), "fat:root", "the root directory");
    walk(ctx, &fs, &b, &mut root, &b.root, &mut Vec::new())?;
    match no_panic("fat:path", || fs.get_file_entry_by_path(&FatPath::from("/")))? {
        Ok(Some(r)) => require!(r.is_root_directory(), "fat:path", "/ is not the root"),
        r => fail!("fat:path", "/: {:?}", r.map(|r| r.is_some())),
    }
    ctx.count(&format!("FAT-{} file systems", b.bits));
    if b.fragmented {
        ctx.count("fragmented files");
    }
    if b.high {
        ctx.count("clusters beyond 65535");
    }
    if b.far {
        ctx.count("directories anywhere");
    }
    ctx.distinct(&b.media.hash().to_le_bytes());
    ctx.sample(|| format!("FAT-{} of {} bytes with {} root entries", b.bits, b.media.size, b.root.len()));
    Ok(())
}

/// Walks a file system that could be damaged.
pub fn opened(stream: &DataStreamReference) -> Result<Opened, String> {
    let mut fs = FatFileSystem::new();
    fs.read_data_stream(stream).map_err(|e| e.to_string())?;
    let mut o = Opened::default();
    o.text = format!("{} {:?};", fs.volume_serial_number, fs.get_volume_label().map(|l| l.to_string()));
    let root = fs.get_root_directory().map_err(|e| e.to_string())?;
    let mut queue = vec![(root, 0)];
    let mut budget = 300;
    while let Some((mut d, depth)) = queue.pop() {
        let n = match d.get_number_of_sub_file_entries() {
            Ok(n) => n,
            Err(_) => {
                o.text.push_str("list error;");
                continue;
            }
        };
        o.text.push_str(&format!("{n}:"));
        for i in 0..n.min(60) {
            if budget == 0 {
                break;
            }
            budget -= 1;
            match d.get_sub_file_entry_by_index(i) {
                Ok(e) => {
                    let name = e.get_name();
                    o.text.push_str(&format!(
                        "{:?} {} {} {:?} {:?} {:?};",
                        name.as_ref().map(|n| n.to_string()), e.get_size(), e.get_file_attribute_flags(),
                        e.get_creation_time(), e.get_access_time(), e.get_modification_time()
                    ));
                    if let Some(n) = name {
                        o.text.push_str(&format!("{:?};", d.get_sub_file_entry_by_name(&n).map(|e| e.map(|e| e.identifier)).ok()));
                    }
                    o.text.push_str(&format!("{:?};", fs.get_file_entry_by_identifier(e.identifier).map(|e| e.get_name().map(|n| n.to_string())).ok()));
                    if e.is_directory() {
                        if depth < 6 {
                            queue.push((e, depth + 1));
                        }
                    } else {
                        match e.get_data_stream() {
                            Ok(Some(s)) if o.streams.len() < 12 => o.streams.push(s),
                            Ok(s) => o.text.push_str(&format!("{};", s.is_some())),
                            Err(_) => o.text.push_str("data error;"),
                        }
                    }
                }
                Err(_) => o.text.push_str("entry error;"),
            }
        }
    }
    for id in [0u32, 1, 31, 32, 512, 0xffffffe0, u32::MAX] {
        o.text.push_str(&format!("{:?};", fs.get_file_entry_by_identifier(id).map(|e| e.get_name().map(|n| n.to_string())).ok()));
    }
    Ok(o)
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut b = build(&mut ctx.rng);
    let places = b.places.clone();
    if !ctx.rng.chance(1, 20) {
        mutate_media(&mut ctx.rng, &mut b.media, &places);
    }
    ctx.detail(format!("damaged FAT-{} of {} bytes", b.bits, b.media.size));
    ctx.distinct(&b.media.hash().to_le_bytes());
    let stream = sparse_stream(&b.media);
    probe(ctx, "fat", &|| opened(&stream))
}

/// A damaged file system.
pub fn damaged(rng: &mut Rng) -> Media {
    let mut b = build(rng);
    let places = b.places.clone();
    mutate_media(rng, &mut b.media, &places);
    b.media
}
