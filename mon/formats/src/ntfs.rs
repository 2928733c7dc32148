//! New Technologies File System (NTFS).

use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

use encoders::{lz, lzx, tokens};
use keramics_core::DataStreamReference;
use keramics_datetime::{DateTime, Filetime};
use keramics_formats::ntfs::{NtfsAttribute, NtfsFileEntry, NtfsFileSystem, NtfsPath};
use keramics_types::Ucs2String;
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

const SI: u32 = 0x10;
const LIST: u32 = 0x20;
const NAME: u32 = 0x30;
const DATA: u32 = 0x80;
const ROOT: u32 = 0x90;
const ALLOCATION: u32 = 0xa0;
const BITMAP: u32 = 0xb0;
const REPARSE: u32 = 0xc0;

type Name = Vec<u16>;

fn u(s: &str) -> Name {
    s.encode_utf16().collect()
}
fn pad8(n: usize) -> usize {
    n.div_ceil(8) * 8
}
fn text(n: &[u16]) -> String {
    format!("{:?}", String::from_utf16_lossy(n))
}

/// The folding of the volume.
fn upcase(rng: &mut Rng) -> Vec<u16> {
    static BASE: OnceLock<Vec<u16>> = OnceLock::new();
    let mut v = BASE
        .get_or_init(|| {
            (0..=0xffffu32)
                .map(|c| {
                    let up: Vec<char> = char::from_u32(c).map(|c| c.to_uppercase().collect()).unwrap_or_default();
                    match up.as_slice() {
                        [x] if (*x as u32) < 0x10000 => *x as u16,
                        _ => c as u16,
                    }
                })
                .collect()
        })
        .clone();
    for _ in 0..rng.below(6) {
        let a = *rng.pick(&[0xe9usize, 0x3b1, 0x436, 0x4e2d, 0xd801, 0xff41, 0xffff]);
        v[a] = if rng.chance(1, 2) { a as u16 } else { *rng.pick(&[0x45u16, 0x61, 0x4e2d, 0xd801, 0xfffe]) };
    }
    v
}

#[derive(Clone, Debug)]
struct Entry {
    name: Name,
    number: u64,
    reference: u64,
    parent: u64,
    /// Not a short name.
    listed: bool,
}

#[derive(Clone, Debug, Default)]
struct Times([u64; 4], u32);

#[derive(Clone, Debug, PartialEq)]
enum Shown {
    Times,
    FileName(Name, u8, u64),
    Label(Name),
    Volume(u8, u8, u16),
    Reparse(u32),
    List(Vec<(u32, u64)>),
    Resident(Vec<u8>),
    Stored(u64),
}

#[derive(Clone, Debug, Default)]
struct Node {
    sequence: u16,
    base: u64,
    journal: u64,
    allocated: bool,
    empty: bool,
    bad: bool,
    times: Option<Times>,
    streams: Vec<(Option<Name>, Media)>,
    directory: Option<Vec<Entry>>,
    sensitive: bool,
    link: Option<Name>,
    junction: bool,
    attributes: Vec<(u32, Option<Name>, Shown)>,
}

pub struct Built {
    pub media: Media,
    bps: u64,
    cluster: u64,
    record: u64,
    index: u64,
    serial: u64,
    version: (u8, u8),
    volume_flags: u16,
    label: Option<Name>,
    upcase: Vec<u16>,
    nodes: HashMap<u64, Node>,
    entries: u64,
    pub places: Vec<(u64, u64)>,
    seen: HashSet<&'static str>,
}

#[derive(Clone, Debug)]
enum Body {
    Resident(Vec<u8>),
    Runs { runs: Vec<(Option<u64>, u64)>, allocated: u64, size: u64, valid: u64, unit: u16, stored: u64 },
}

#[derive(Clone, Debug)]
struct Attribute {
    kind: u32,
    name: Option<Name>,
    flags: u16,
    body: Body,
}

struct Fs<'a> {
    rng: &'a mut Rng,
    media: Media,
    cluster: u64,
    total: u64,
    record: u64,
    index: u64,
    old: bool,
    mft: Vec<(u64, u64)>,
    entries: u64,
    used: BTreeMap<u64, u64>,
    taken: HashSet<u64>,
    sequences: HashMap<u64, u16>,
    places: Vec<(u64, u64)>,
    nodes: HashMap<u64, Node>,
    seen: HashSet<&'static str>,
    upcase: Vec<u16>,
    budget: u64,
    depth: usize,
}

/// One step of the runs of a data stream.
fn encode_runs(rng: &mut Rng, runs: &[(Option<u64>, u64)]) -> Vec<u8> {
    fn minimal(v: i64) -> usize {
        (1..8).find(|k| v >= -(1i64 << (8 * k - 1)) && v < 1i64 << (8 * k - 1)).unwrap_or(8)
    }
    let wide = rng.chance(1, 6);
    let mut out = Vec::new();
    let mut last = 0i64;
    for (at, n) in runs {
        let mut a = minimal(*n as i64);
        if wide {
            a = rng.usize(a, 8);
        }
        let delta = at.map(|at| at as i64 - last);
        let mut b = delta.map_or(0, minimal);
        if wide && b > 0 {
            b = rng.usize(b, 8);
        }
        out.push((b << 4 | a) as u8);
        out.extend_from_slice(&n.to_le_bytes()[..a]);
        if let Some(d) = delta {
            out.extend_from_slice(&d.to_le_bytes()[..b]);
            last += d;
        }
    }
    out.push(0);
    out
}

fn name(rng: &mut Rng) -> Name {
    let n = match rng.below(14) {
        0 => 255,
        1 => rng.usize(1, 255),
        2 => 1,
        _ => rng.usize(1, 20),
    };
    let v: Name = match rng.below(5) {
        0 => (0..n).map(|_| loop {
            let c = rng.next() as u16;
            if c != 0 && c != 0x2f {
                break c;
            }
        }).collect(),
        1 => (0..n).map(|_| *rng.pick(&[0xe9u16, 0xc9, 0xdf, 0x3b1, 0x391, 0x436, 0x65e5, 0xd83d, 0xde00, 0x61, 0x41, 0x2e, 0x131, 0xff, 0x178])).collect(),
        _ => (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._- ~") as u16).collect(),
    };
    if v == u(".") || v == u("..") { u("x") } else { v }
}

fn fold(up: &[u16], n: &[u16]) -> Name {
    n.iter().map(|c| up[*c as usize]).collect()
}

fn time(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => i64::MAX as u64,
        _ => rng.range(100_000_000_000_000_000, 140_000_000_000_000_000),
    }
}

fn date(t: u64) -> DateTime {
    if t == 0 { DateTime::NotSet } else { DateTime::Filetime(Filetime::new(t)) }
}

impl Fs<'_> {
    fn see(&mut self, what: &'static str) {
        self.seen.insert(what);
    }
    fn free(&self, at: u64, len: u64) -> bool {
        at >= 1 && at + len <= self.total && self.used.range(..at + len).next_back().is_none_or(|(_, e)| *e <= at)
    }
    fn alloc(&mut self, len: u64) -> u64 {
        for _ in 0..200 {
            let top = self.total - len;
            let at = match self.rng.below(4) {
                0 => top - self.rng.below(16).min(top),
                1 => self.rng.below(3000).min(top),
                2 => match self.used.iter().nth(self.rng.usize(0, self.used.len().max(1) - 1).min(20)) {
                    Some((_, e)) => *e,
                    None => 1,
                },
                _ => self.rng.below(top),
            };
            if self.free(at, len) {
                self.used.insert(at, at + len);
                return at;
            }
        }
        panic!("no room for {len} of {} clusters", self.total);
    }
    /// Clusters in pieces.
    fn pieces(&mut self, clusters: u64, most: u64) -> Vec<(u64, u64)> {
        let mut out = Vec::new();
        let mut left = clusters;
        while left > 0 {
            let n = self.rng.range(1, most).min(left);
            out.push((self.alloc(n), n));
            left -= n;
        }
        out
    }
    fn put(&mut self, runs: &[(u64, u64)], at: u64, data: &[u8]) {
        let mut done = 0;
        while done < data.len() {
            let mut o = at + done as u64;
            let mut physical = None;
            for (lcn, n) in runs {
                let len = n * self.cluster;
                if o < len {
                    physical = Some((lcn * self.cluster + o, len - o));
                    break;
                }
                o -= len;
            }
            let (p, room) = physical.unwrap();
            let n = (data.len() - done).min(room as usize);
            self.media.write(p, &data[done..done + n]);
            self.places.push((p, (n as u64).min(200)));
            done += n;
        }
    }
    fn new_entry(&mut self) -> Option<u64> {
        for _ in 0..80 {
            let i = if self.rng.chance(1, 2) { self.rng.range(12, self.entries.min(80) - 1) } else { self.rng.range(12, self.entries - 1) };
            if self.taken.insert(i) {
                return Some(i);
            }
        }
        None
    }
    fn reference(&mut self, number: u64) -> u64 {
        let s = match self.sequences.get(&number) {
            Some(s) => *s,
            None => {
                let s = if self.rng.chance(1, 10) { 0xffff } else { self.rng.range(1, 300) as u16 };
                self.sequences.insert(number, s);
                s
            }
        };
        number | (s as u64) << 48
    }

    /// Fix-up values of a record.
    fn protect(&mut self, v: &mut [u8], offset: usize, count: usize) {
        le16(v, 4, offset as u16);
        le16(v, 6, count as u16);
        let stamp = self.rng.range(1, 0xffff) as u16;
        le16(v, offset, stamp);
        for i in 1..count {
            let end = i * 512;
            if end <= v.len() {
                let w = [v[end - 2], v[end - 1]];
                v[offset + i * 2..offset + i * 2 + 2].copy_from_slice(&w);
                le16(v, end - 2, stamp);
            }
        }
    }

    fn serialize(&mut self, a: &Attribute, id: u16, first: u64, runs: Option<&[(Option<u64>, u64)]>) -> Vec<u8> {
        let mut v = vec![0u8; 16];
        le32(&mut v, 0, a.kind);
        le16(&mut v, 12, a.flags);
        le16(&mut v, 14, id);
        let name: Vec<u8> = a.name.iter().flatten().flat_map(|c| c.to_le_bytes()).collect();
        v[9] = (name.len() / 2) as u8;
        match &a.body {
            Body::Resident(data) => {
                v.resize(24, 0);
                if !name.is_empty() {
                    le16(&mut v, 10, 24);
                }
                v.extend_from_slice(&name);
                v.resize(pad8(v.len()), 0);
                let o = v.len();
                le16(&mut v, 20, o as u16);
                le32(&mut v, 16, data.len() as u32);
                v[22] = (a.kind == NAME) as u8;
                v.extend_from_slice(data);
            }
            Body::Runs { runs: all, allocated, size, valid, unit, stored } => {
                let runs = runs.unwrap_or(all);
                v[8] = 1;
                let unit = if first == 0 || self.rng.chance(1, 2) { *unit } else { 0 };
                v.resize(if unit > 0 { 72 } else { 64 }, 0);
                let count: u64 = runs.iter().map(|r| r.1).sum();
                le64(&mut v, 16, first);
                le64(&mut v, 24, (first + count).wrapping_sub(1));
                le16(&mut v, 34, unit);
                if first == 0 {
                    le64(&mut v, 40, *allocated);
                    le64(&mut v, 48, *size);
                    le64(&mut v, 56, *valid);
                    if unit > 0 {
                        le64(&mut v, 64, *stored);
                    }
                }
                if !name.is_empty() {
                    let o = v.len();
                    le16(&mut v, 10, o as u16);
                }
                v.extend_from_slice(&name);
                v.resize(pad8(v.len()), 0);
                let o = v.len();
                le16(&mut v, 32, o as u16);
                let r = encode_runs(self.rng, runs);
                v.extend_from_slice(&r);
            }
        }
        let n = pad8(v.len());
        v.resize(n, if self.rng.chance(1, 4) { 0x5a } else { 0 });
        le32(&mut v, 4, n as u32);
        v
    }

    fn capacity(&self) -> usize {
        self.record as usize - self.attributes_offset() - 8
    }
    fn attributes_offset(&self) -> usize {
        let fixups = 2 * (self.record as usize / 512 + 1);
        pad8(if self.old { 42 } else { 48 } + fixups)
    }

    /// Writes a record.
    fn write_record(&mut self, number: u64, base: u64, flags: u16, attributes: &[Vec<u8>]) -> u64 {
        let mut v = vec![0u8; self.record as usize];
        let reference = self.reference(number);
        v[..4].copy_from_slice(b"FILE");
        let journal = if self.rng.chance(1, 4) { u64::MAX } else { self.rng.below(1 << 40) };
        le64(&mut v, 8, journal);
        le16(&mut v, 16, (reference >> 48) as u16);
        le16(&mut v, 18, 1);
        let mut o = self.attributes_offset();
        le16(&mut v, 20, o as u16);
        le16(&mut v, 22, flags);
        le32(&mut v, 28, self.record as u32);
        le64(&mut v, 32, base);
        if !self.old {
            le32(&mut v, 44, number as u32);
        }
        for a in attributes {
            v[o..o + a.len()].copy_from_slice(a);
            o += a.len();
        }
        v[o..o + 4].fill(0xff);
        o += 8;
        le32(&mut v, 24, o as u32);
        if self.rng.chance(1, 3) {
            let n = v.len();
            v[o..n].copy_from_slice(&fill(number, 0, n - o));
        }
        let count = self.record as usize / 512 + 1;
        self.protect(&mut v, if self.old { 42 } else { 48 }, count);
        let mft = self.mft.clone();
        self.put(&mft, number * self.record, &v);
        let place = self.places.pop().unwrap();
        self.places.push((place.0, o as u64));
        journal
    }

    /// Writes the records of a file entry; gives the model of the attributes.
    fn store(&mut self, number: u64, directory: bool, allocated: bool, attributes: Vec<Attribute>, list: bool) -> Option<Node> {
        let reference = self.reference(number);
        let flags = (allocated as u16) | (directory as u16) << 1;
        let mut attributes = attributes;
        attributes.sort_by(|a, b| a.kind.cmp(&b.kind).then(a.name.is_some().cmp(&b.name.is_some())).then(a.name.cmp(&b.name)));
        let mut node = Node { sequence: (reference >> 48) as u16, allocated, ..Node::default() };
        for a in &attributes {
            let shown = match (&a.body, a.kind) {
                (Body::Resident(_), SI) => Shown::Times,
                (Body::Resident(d), NAME) => {
                    let n: Name = d[66..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
                    Shown::FileName(n, d[65], u64::from_le_bytes(d[..8].try_into().unwrap()))
                }
                (Body::Resident(d), 0x60) => Shown::Label(d.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()),
                (Body::Resident(d), 0x70) => Shown::Volume(d[8], d[9], u16::from_le_bytes([d[10], d[11]])),
                (Body::Resident(d), REPARSE) => Shown::Reparse(u32::from_le_bytes(d[..4].try_into().unwrap())),
                (Body::Resident(d), _) => Shown::Resident(d.clone()),
                (Body::Runs { size, .. }, _) => Shown::Stored(*size),
            };
            node.attributes.push((a.kind, a.name.clone(), shown));
        }
        let whole: Vec<Vec<u8>> = attributes.iter().enumerate().map(|(i, a)| self.serialize(a, i as u16, 0, None)).collect();
        let sum: usize = whole.iter().map(|w| w.len()).sum();
        if sum <= self.capacity() && !(list && self.rng.chance(1, 4)) {
            node.journal = self.write_record(number, 0, flags, &whole);
            return Some(node);
        }
        if !list {
            return None;
        }
        self.see("attribute lists");
        // the pieces: attribute, bytes, first cluster
        let mut pieces: Vec<(usize, u64, Vec<u8>)> = Vec::new();
        let mut id = 0;
        for (i, a) in attributes.iter().enumerate() {
            let runs = match &a.body {
                Body::Runs { runs, .. } if runs.len() > 1 => runs.clone(),
                _ => {
                    if whole[i].len() > self.capacity() {
                        return None;
                    }
                    pieces.push((i, 0, whole[i].clone()));
                    id += 1;
                    continue;
                }
            };
            let mut at = 0;
            let mut first = 0;
            while at < runs.len() {
                let most = ((self.capacity() - 100 - 2 * a.name.as_ref().map_or(0, |n| n.len())) / 17).min(runs.len() - at);
                if most == 0 {
                    return None;
                }
                let n = if self.rng.chance(1, 2) { most } else { self.rng.usize(1, most) };
                let part = &runs[at..at + n];
                let bytes = self.serialize(a, id, first, Some(part));
                if bytes.len() > self.capacity() {
                    return None;
                }
                if first > 0 {
                    self.see("attributes in more than one record");
                }
                pieces.push((i, first, bytes));
                id += 1;
                first += part.iter().map(|r| r.1).sum::<u64>();
                at += n;
            }
        }
        // where they go: 0 is the base record
        let mut records: Vec<(u64, usize, Vec<usize>)> = vec![(number, 0, Vec::new())];
        let reserve = 180.min(self.capacity() / 2);
        for (p, (i, _, bytes)) in pieces.iter().enumerate() {
            let n = bytes.len();
            let base = attributes[*i].kind == SI || self.rng.chance(1, 3);
            if base && records[0].1 + n + reserve <= self.capacity() {
                records[0].1 += n;
                records[0].2.push(p);
                continue;
            }
            let again = self.rng.chance(2, 3);
            let capacity = self.capacity();
            let found = if again { (1..records.len()).find(|r| records[*r].1 + n <= capacity && !records[*r].2.iter().any(|q| pieces[*q].0 == *i)) } else { None };
            match found {
                Some(r) => {
                    records[r].1 += n;
                    records[r].2.push(p);
                }
                None => records.push((self.new_entry()?, n, vec![p])),
            }
        }
        let mut table = Vec::new();
        let mut shown = Vec::new();
        for (p, (i, first, bytes)) in pieces.iter().enumerate() {
            let owner = records.iter().find(|r| r.2.contains(&p)).unwrap().0;
            let r = self.reference(owner);
            let a = &attributes[*i];
            let name: Vec<u8> = a.name.iter().flatten().flat_map(|c| c.to_le_bytes()).collect();
            let n = pad8(26 + name.len());
            let mut e = vec![0u8; n];
            if self.rng.chance(1, 3) {
                e.fill(0x77);
            }
            le32(&mut e, 0, a.kind);
            le16(&mut e, 4, n as u16);
            e[6] = (name.len() / 2) as u8;
            e[7] = 26;
            le64(&mut e, 8, *first);
            le64(&mut e, 16, r);
            e[24..26].copy_from_slice(&bytes[14..16]);
            e[26..26 + name.len()].copy_from_slice(&name);
            table.extend_from_slice(&e);
            shown.push((a.kind, r));
        }
        let resident = Attribute { kind: LIST, name: None, flags: 0, body: Body::Resident(table.clone()) };
        let mut bytes = self.serialize(&resident, id, 0, None);
        if records[0].1 + bytes.len() > self.capacity() || self.rng.chance(1, 4) {
            let count = (table.len() as u64).div_ceil(self.cluster);
            let runs = self.pieces(count, 2.max(count / 2));
            self.put(&runs, 0, &table);
            if count > 1 {
                self.see("attribute lists of more than one cluster");
            }
            self.see("attribute lists outside of the record");
            let body = Body::Runs { runs: runs.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: count * self.cluster, size: table.len() as u64, valid: table.len() as u64, unit: 0, stored: 0 };
            bytes = self.serialize(&Attribute { body, ..resident }, id, 0, None);
            if records[0].1 + bytes.len() > self.capacity() {
                return None;
            }
        }
        node.attributes.push((LIST, None, Shown::List(shown)));
        let mut own: Vec<Vec<u8>> = records[0].2.iter().map(|p| pieces[*p].2.clone()).collect();
        let after = own.iter().filter(|a| a[0] == SI as u8).count();
        own.insert(after, bytes);
        node.journal = self.write_record(number, 0, flags, &own);
        for (n, _, list) in &records[1..] {
            let own: Vec<Vec<u8>> = list.iter().map(|p| pieces[*p].2.clone()).collect();
            let journal = self.write_record(*n, reference, 1, &own);
            let s = (self.reference(*n) >> 48) as u16;
            self.nodes.insert(*n, Node { sequence: s, base: reference, journal, allocated: true, attributes: vec![(0, None, Shown::Times)], ..Node::default() });
        }
        Some(node)
    }

    fn file_name(&mut self, parent: u64, n: &[u16], space: u8, directory: bool) -> Vec<u8> {
        let mut v = vec![0u8; 66];
        le64(&mut v, 0, parent);
        for i in 0..4 {
            let t = time(self.rng);
            le64(&mut v, 8 + i * 8, t);
        }
        let t = self.rng.below(1 << 40);
        le64(&mut v, 40, t);
        le64(&mut v, 48, t);
        le32(&mut v, 56, if directory { 0x1000_0000 } else { 0x20 });
        v[64] = n.len() as u8;
        v[65] = space;
        for c in n {
            v.extend_from_slice(&c.to_le_bytes());
        }
        v
    }

    fn standard(&mut self, node_times: &mut Option<Times>, sensitive: bool) -> Attribute {
        let mut v = vec![0u8; if self.old { 48 } else { 72 }];
        let t = [time(self.rng), time(self.rng), time(self.rng), time(self.rng)];
        for i in 0..4 {
            le64(&mut v, i * 8, t[i]);
        }
        let flags = self.rng.next() as u32;
        le32(&mut v, 32, flags);
        if sensitive {
            le32(&mut v, 40, 1);
        } else if self.rng.chance(1, 4) {
            le32(&mut v, 36, 1);
            le32(&mut v, 40, 1);
        }
        *node_times = Some(Times(t, flags));
        Attribute { kind: SI, name: None, flags: 0, body: Body::Resident(v) }
    }

    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let salt = self.rng.next();
        fill(salt, 0, n)
    }

    /// A data stream: its attribute and its content.
    fn data(&mut self, name: Option<Name>, small: bool) -> (Attribute, Media) {
        let c = self.cluster;
        let attribute = |flags, body| Attribute { kind: DATA, name: name.clone(), flags, body };
        let kind = if small || self.budget == 0 { 0 } else { self.rng.below(10) };
        self.budget = self.budget.saturating_sub(1);
        match kind {
            0 | 1 => {
                let most = (self.capacity() / 3).min(700);
                let n = if self.rng.chance(1, 5) { 0 } else { self.rng.usize(1, most) };
                let d = self.bytes(n);
                let flags = *self.rng.pick(&[0u16, 0, 0, 1, 0x8000]);
                if flags == 1 {
                    self.see("data in the record with the compression flag");
                }
                self.see("data in the record");
                (attribute(flags, Body::Resident(d.clone())), Media::from_bytes(&d))
            }
            2 => {
                self.see("data without clusters");
                (attribute(0, Body::Runs { runs: Vec::new(), allocated: 0, size: 0, valid: 0, unit: 0, stored: 0 }), Media::new(0, c))
            }
            3..=5 => {
                let clusters = match self.rng.below(10) {
                    0 => self.rng.range(20, 200),
                    _ => self.rng.range(1, 12),
                };
                let most = *self.rng.pick(&[1, 2, 8, 200]);
                let runs = self.pieces(clusters, most);
                let spare = if self.rng.chance(1, 6) { self.rng.below(clusters * c) } else { self.rng.below(c) };
                let size = clusters * c - spare;
                let valid = match self.rng.below(5) {
                    0 => self.rng.below(size + 1),
                    1 if self.rng.chance(1, 2) => 0,
                    _ => size,
                };
                if valid < size {
                    self.see("data beyond the valid size");
                }
                let mut m = Media::new(size, c);
                let salt = self.rng.next();
                let mut at = 0;
                for (lcn, n) in &runs {
                    for i in 0..*n {
                        let d = fill(salt, at, c as usize);
                        self.media.write((lcn + i) * c, &d);
                        if at < valid {
                            m.put(at, d[..(valid - at).min(c) as usize].to_vec());
                        }
                        at += c;
                    }
                }
                if runs.len() > 1 {
                    self.see("fragmented data");
                }
                if runs.windows(2).any(|w| w[1].0 < w[0].0) {
                    self.see("runs that go back");
                }
                (attribute(0, Body::Runs { runs: runs.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: clusters * c, size, valid, unit: 0, stored: 0 }), m)
            }
            6 | 7 => self.sparse(name.clone()),
            _ if c <= 4096 => self.compressed(name.clone()),
            _ => self.sparse(name.clone()),
        }
    }

    fn sparse(&mut self, name: Option<Name>) -> (Attribute, Media) {
        let c = self.cluster;
        let mut runs: Vec<(Option<u64>, u64)> = Vec::new();
        let salt = self.rng.next();
        let mut content: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut at = 0u64;
        let far = self.rng.chance(1, 3);
        for _ in 0..self.rng.usize(1, 8) {
            if self.rng.chance(1, 2) {
                let n = match self.rng.below(4) {
                    0 if far => self.rng.below((1 << 44) / c),
                    0 => 1000,
                    _ => self.rng.range(1, 40),
                };
                let n = n.max(1);
                runs.push((None, n));
                at += n;
            } else {
                let n = self.rng.range(1, 6);
                let lcn = self.alloc(n);
                for i in 0..n {
                    let d = fill(salt, (at + i) * c, c as usize);
                    self.media.write((lcn + i) * c, &d);
                    content.push(((at + i) * c, d));
                }
                runs.push((Some(lcn), n));
                at += n;
            }
        }
        let size = at * c - self.rng.below(c);
        let valid = if self.rng.chance(1, 4) { self.rng.below(size + 1) } else { size };
        let mut m = Media::new(size, c);
        for (o, d) in content {
            if o < valid {
                m.put(o, d[..(valid - o).min(c) as usize].to_vec());
            }
        }
        if at * c > 1 << 40 {
            self.see("sparse data of more than 1 TiB");
        }
        self.see("sparse data");
        let unit = *self.rng.pick(&[0u16, 4]);
        (Attribute { kind: DATA, name, flags: 0x8000, body: Body::Runs { runs, allocated: at * c, size, valid, unit, stored: 0 } }, m)
    }

    fn compressed(&mut self, name: Option<Name>) -> (Attribute, Media) {
        let c = self.cluster;
        let exponent = *self.rng.pick(&[4u16, 4, 4, 4, 3, 2]);
        let unit = 1u64 << exponent;
        let bytes = (unit * c) as usize;
        let units = match self.rng.below(6) {
            0 => self.rng.range(9, 14),
            _ => self.rng.range(1, 5),
        };
        let mut size = units * unit * c;
        if !self.rng.chance(1, 4) {
            size -= self.rng.below(unit * c);
        }
        let mut runs: Vec<(Option<u64>, u64)> = Vec::new();
        let mut content: Vec<u8> = Vec::new();
        let mut stored = 0;
        let mut sparse = 0u64;
        // how far the clusters of the units follow each other
        let together = self.rng.chance(1, 2);
        let mut area = if together { Some(self.alloc(units * unit)) } else { None };
        for k in 0..units {
            let mut part = vec![0u8; bytes];
            let mut disk: Option<(Vec<u8>, u64)> = None;
            let mut partial = 0;
            match self.rng.below(5) {
                0 => self.see("sparse compression units"),
                1 => {
                    part = self.bytes(bytes);
                    let mut used = unit;
                    if k + 1 == units && self.rng.chance(1, 2) {
                        used = ((size - k * unit * c).div_ceil(c)).max(1);
                        if used < unit {
                            partial = unit - used;
                            self.see("last compression units that are cut");
                            part.truncate((used * c) as usize);
                        }
                    }
                    disk = Some((part.clone(), used));
                    self.see("stored compression units");
                }
                _ => {
                    let want = if k + 1 == units { (size - k * unit * c) as usize } else { bytes };
                    let (mut e, d, _) = lz::lznt1(self.rng, want);
                    let mut n = (e.len() as u64).div_ceil(c);
                    if n < unit && e.len() as u64 % c == 0 && self.rng.chance(1, 2) {
                        n = n.max(1);
                    }
                    if n < unit && n > 0 {
                        part[..d.len()].copy_from_slice(&d);
                        e.resize((n * c) as usize, 0);
                        disk = Some((e, n));
                        self.see("compressed compression units");
                    } else {
                        part[..d.len()].copy_from_slice(&d);
                        disk = Some((part.clone(), unit));
                        self.see("stored compression units");
                    }
                }
            }
            if let Some((d, n)) = &disk {
                if sparse > 0 {
                    let split = if sparse > 1 && self.rng.chance(1, 4) { self.rng.range(1, sparse - 1) } else { 0 };
                    if split > 0 {
                        runs.push((None, split));
                    }
                    runs.push((None, sparse - split));
                    sparse = 0;
                }
                let places: Vec<(u64, u64)> = match &mut area {
                    Some(a) => {
                        let at = *a;
                        *a += n;
                        vec![(at, *n)]
                    }
                    None => {
                        let most = *self.rng.pick(&[1, 3, 64]);
                        self.pieces(*n, most)
                    }
                };
                self.put(&places, 0, d);
                for (at, n) in places {
                    match runs.last_mut() {
                        Some((Some(l), k)) if *l + *k == at && self.rng.chance(3, 4) => *k += n,
                        _ => runs.push((Some(at), n)),
                    }
                }
                stored += n;
                sparse += if *n < unit && partial == 0 { unit - n } else { 0 };
            } else {
                sparse += unit;
            }
            part.resize(bytes, 0);
            content.extend_from_slice(&part);
        }
        if sparse > 0 {
            runs.push((None, sparse));
        }
        let valid = if self.rng.chance(1, 4) { self.rng.below(size + 1) } else { size };
        content.truncate(size as usize);
        content[valid as usize..].fill(0);
        if valid < size {
            self.see("compressed data beyond the valid size");
        }
        let mut m = Media::new(size, bytes as u64);
        m.write(0, &content);
        self.see("compressed data");
        (Attribute { kind: DATA, name, flags: 1, body: Body::Runs { runs, allocated: units * unit * c, size, valid, unit: exponent, stored: stored * c } }, m)
    }

    /// A file of the Windows Overlay Filter.
    fn overlay(&mut self) -> (Vec<Attribute>, Vec<(Option<Name>, Media)>) {
        let c = self.cluster;
        let (method, unit) = *self.rng.pick(&[(0u32, 4096usize), (1, 32768), (1, 32768), (1, 32768), (2, 8192), (3, 16384)]);
        let size = match self.rng.below(4) {
            0 => self.rng.usize(1, unit),
            1 => unit * self.rng.usize(1, 3),
            2 => unit * 9 + self.rng.usize(0, unit * 2),
            _ => self.rng.usize(1, unit * 4),
        };
        let mut content = Vec::new();
        let mut chunks: Vec<Vec<u8>> = Vec::new();
        while content.len() < size {
            let n = unit.min(size - content.len());
            let mut out = self.bytes(n);
            let mut chunk = out.clone();
            if method == 1 && n == unit && self.rng.chance(3, 4) {
                let (t, mut o) = tokens(self.rng, n, lzx::LIMITS);
                let (e, _) = lzx::encode(self.rng, &t, &o, &[1, 2], false);
                lzx::untranslate(&mut o);
                if e.len() < n {
                    out = o;
                    chunk = e;
                    self.see("LZX chunks");
                }
            }
            content.extend_from_slice(&out);
            chunks.push(chunk);
        }
        let mut stored = Vec::new();
        let mut at = 0u32;
        for k in &chunks[..chunks.len() - 1] {
            at += k.len() as u32;
            stored.extend_from_slice(&at.to_le_bytes());
        }
        for k in &chunks {
            stored.extend_from_slice(k);
        }
        let clusters = (stored.len() as u64).div_ceil(c);
        let most = *self.rng.pick(&[1, 5, 100]);
        let runs = self.pieces(clusters, most);
        self.put(&runs, 0, &stored);
        let n = (size as u64).div_ceil(c);
        let valid = *self.rng.pick(&[size as u64, size as u64, 0, self.budget.min(size as u64)]);
        let mut reparse = vec![0u8; 24];
        le32(&mut reparse, 0, 0x80000017);
        le16(&mut reparse, 4, 16);
        le32(&mut reparse, 8, 1);
        le32(&mut reparse, 12, 2);
        le32(&mut reparse, 16, 1);
        le32(&mut reparse, 20, method);
        self.see("overlay filter data");
        let named = Some(u("WofCompressedData"));
        let mut m = Media::new(size as u64, unit as u64);
        m.write(0, &content);
        (
            vec![
                Attribute { kind: REPARSE, name: None, flags: 0, body: Body::Resident(reparse) },
                Attribute { kind: DATA, name: None, flags: 0x8000, body: Body::Runs { runs: vec![(None, n)], allocated: n * c, size: size as u64, valid, unit: 0, stored: 0 } },
                Attribute { kind: DATA, name: named.clone(), flags: 0, body: Body::Runs { runs: runs.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: clusters * c, size: stored.len() as u64, valid: stored.len() as u64, unit: 0, stored: 0 } },
            ],
            vec![(None, m), (named, Media::from_bytes(&stored))],
        )
    }

    fn link(&mut self, junction: bool) -> (Attribute, Name) {
        let most = ((self.capacity() - 200) / 4).min(120);
        let mut names = Vec::new();
        for _ in 0..2 {
            let mut n = if self.rng.chance(1, 6) { Vec::new() } else { name(self.rng) };
            n.truncate(most.min(60));
            names.push(n);
        }
        let head = if junction { 8 } else { 12 };
        let mut v = vec![0u8; 8 + head];
        le32(&mut v, 0, if junction { 0xa0000003 } else { 0xa000000c });
        let order = if self.rng.chance(1, 2) { [0, 1] } else { [1, 0] };
        let end = junction && self.rng.chance(1, 2);
        for i in order {
            let o = v.len() - 8 - head;
            let n = &names[i];
            le16(&mut v, 8 + i * 4, o as u16);
            le16(&mut v, 8 + i * 4 + 2, 2 * n.len() as u16);
            for c in n {
                v.extend_from_slice(&c.to_le_bytes());
            }
            if end {
                v.extend_from_slice(&[0, 0]);
            }
        }
        let n = v.len() as u16 - 8;
        le16(&mut v, 4, n);
        if !junction && self.rng.chance(1, 2) {
            le32(&mut v, 16, 1);
        }
        if names.iter().any(|n| n.is_empty()) {
            self.see("links with an empty name");
        }
        (Attribute { kind: REPARSE, name: None, flags: 0, body: Body::Resident(v) }, names.swap_remove(0))
    }

    /// The attributes of an index of names, keys in order.
    fn index(&mut self, keys: &[(u64, Vec<u8>)]) -> Vec<Attribute> {
        struct Tree {
            items: Vec<(usize, usize)>,
            last: usize,
            leaf: bool,
        }
        fn size(k: &(u64, Vec<u8>), leaf: bool) -> usize {
            pad8(16 + k.1.len()) + if leaf { 0 } else { 8 }
        }
        fn grow(fs: &mut Fs, keys: &[(u64, Vec<u8>)], from: usize, to: usize, room: usize, depth: usize, out: &mut Vec<Tree>) -> usize {
            fs.depth = fs.depth.max(depth);
            let all: usize = keys[from..to].iter().map(|k| size(k, true)).sum();
            let me = out.len();
            if from == to || all + 16 <= room && !fs.rng.chance(1, if depth < 2 { 10 } else { 1000 }) {
                out.push(Tree { items: (from..to).map(|k| (k, 0)).collect(), last: 0, leaf: true });
                return me;
            }
            out.push(Tree { items: Vec::new(), last: 0, leaf: false });
            let inner = (fs.index as usize) - 24 - 16 - 2 * (fs.index as usize / 512 + 2) - 8;
            // keys of this node, about as many as there are children to fill
            let mean = all / (to - from) + 8;
            let fit = (room - 24) / mean;
            let wanted = if depth == 0 && fs.rng.chance(1, 6) { 0 } else { (all / inner + 1).max(1).min(fit.max(1)) };
            let wanted = if fs.rng.chance(1, 4) { wanted.min(1) } else { wanted };
            let mut picks: Vec<usize> = (1..=wanted).map(|i| from + (to - from) * i / (wanted + 1)).map(|p| p.min(to - 1)).collect();
            picks.dedup();
            let mut left = room - 24;
            let mut at = from;
            let mut items = Vec::new();
            for p in picks {
                let s = size(&keys[p], false);
                if s > left || p < at {
                    continue;
                }
                left -= s;
                let child = grow(fs, keys, at, p, inner, depth + 1, out);
                items.push((p, child));
                at = p + 1;
            }
            let last = grow(fs, keys, at, to, inner, depth + 1, out);
            out[me].items = items;
            out[me].last = last;
            me
        }
        let budget = ((self.capacity() / 2).saturating_sub(100)).max(24);
        let room = if self.rng.chance(1, 4) { self.rng.usize(24, budget) } else { budget };
        let mut nodes = Vec::new();
        self.depth = 0;
        grow(self, keys, 0, keys.len(), room, 0, &mut nodes);
        if self.depth >= 2 {
            self.see("directories with nodes of nodes");
        }
        if self.depth > 0 {
            self.see("directories with nodes outside of the record");
        }
        let unit = if self.cluster <= self.index { self.cluster } else { 512 };
        let per = self.index / unit;
        let count = nodes.len() as u64 - 1;
        let spare = if count > 0 || self.rng.chance(1, 12) { self.rng.below(3) } else { 0 };
        let clusters = ((count + spare) * self.index).div_ceil(self.cluster);
        let blocks = clusters * self.cluster / self.index;
        let mut order: Vec<u64> = (0..blocks).collect();
        self.rng.shuffle(&mut order);
        let values = |fs: &mut Fs, t: &Tree, order: &[u64]| -> Vec<u8> {
            let mut v = Vec::new();
            for (k, child) in &t.items {
                let n = size(&keys[*k], t.leaf);
                let mut e = vec![0u8; n];
                le64(&mut e, 0, keys[*k].0);
                le16(&mut e, 8, n as u16);
                le16(&mut e, 10, keys[*k].1.len() as u16);
                le32(&mut e, 12, !t.leaf as u32);
                e[16..16 + keys[*k].1.len()].copy_from_slice(&keys[*k].1);
                if !t.leaf {
                    le64(&mut e, n - 8, order[*child - 1] * per);
                }
                v.extend_from_slice(&e);
            }
            let n = if t.leaf { 16 } else { 24 };
            let mut e = vec![0u8; n];
            le16(&mut e, 8, n as u16);
            le32(&mut e, 12, 2 | !t.leaf as u32);
            if !t.leaf {
                le64(&mut e, 16, order[t.last - 1] * per);
            }
            if t.leaf && fs.rng.chance(1, 20) {
                le64(&mut e, 0, 0);
            }
            v.extend_from_slice(&e);
            v
        };
        let v = values(self, &nodes[0], &order);
        let mut root = vec![0u8; 32];
        le32(&mut root, 0, NAME);
        le32(&mut root, 4, 1);
        le32(&mut root, 8, self.index as u32);
        root[12] = (self.index / unit) as u8;
        le32(&mut root, 16, 16);
        le32(&mut root, 20, 16 + v.len() as u32);
        le32(&mut root, 24, 16 + v.len() as u32);
        le32(&mut root, 28, !nodes[0].leaf as u32);
        root.extend_from_slice(&v);
        let i30 = Some(u("$I30"));
        let mut out = vec![Attribute { kind: ROOT, name: i30.clone(), flags: 0, body: Body::Resident(root) }];
        if clusters == 0 {
            return out;
        }
        let most = *self.rng.pick(&[1, 3, 100]);
        let runs = self.pieces(clusters, most);
        if self.cluster < self.index && most < 8 {
            self.see("nodes of directories over more than one run");
        }
        if self.cluster > self.index {
            self.see("nodes of directories smaller than a cluster");
        }
        for (i, t) in nodes.iter().enumerate().skip(1) {
            let block = order[i - 1];
            let mut r = vec![0u8; self.index as usize];
            if self.rng.chance(1, 3) {
                r = self.bytes(r.len());
            }
            let fixups = self.index as usize / 512 + 1 + self.rng.usize(0, 1);
            let start = pad8(40 + 2 * fixups);
            r[..start].fill(0);
            r[..4].copy_from_slice(b"INDX");
            le64(&mut r, 16, block * per);
            let v = values(self, t, &order);
            le32(&mut r, 24, start as u32 - 24);
            le32(&mut r, 28, (start - 24 + v.len()) as u32);
            le32(&mut r, 32, self.index as u32 - 24);
            le32(&mut r, 36, !t.leaf as u32);
            r[start..start + v.len()].copy_from_slice(&v);
            self.protect(&mut r, 40, fixups);
            self.put(&runs, block * self.index, &r);
        }
        let size = clusters * self.cluster;
        out.push(Attribute { kind: ALLOCATION, name: i30.clone(), flags: 0, body: Body::Runs { runs: runs.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: size, size, valid: size, unit: 0, stored: 0 } });
        let mut bits = vec![0u8; pad8(blocks.div_ceil(8).max(1) as usize)];
        for i in 1..nodes.len() {
            bits[(order[i - 1] / 8) as usize] |= 1 << (order[i - 1] % 8);
        }
        out.push(Attribute { kind: BITMAP, name: i30, flags: 0, body: Body::Resident(bits) });
        out
    }

    /// Stores a directory with its children.
    fn directory(&mut self, number: u64, parent: u64, own: Vec<Attribute>, most: usize, level: u32) -> bool {
        let reference = self.reference(number);
        let sensitive = self.rng.chance(1, 8);
        let mut names: HashSet<Name> = HashSet::new();
        let mut entries: Vec<Entry> = Vec::new();
        let mut keys: Vec<(Name, u64, Vec<u8>)> = Vec::new();
        let wanted = match self.rng.below(6) {
            0 => 0,
            1 | 2 => self.rng.usize(0, 4),
            _ => self.rng.usize(0, most),
        };
        if number == 5 {
            let k = self.file_name(reference, &u("."), 3, true);
            keys.push((u("."), reference, k));
        }
        for _ in 0..wanted {
            let mut n = name(self.rng);
            if n.len() > 60 && self.record < 1024 {
                n.truncate(60);
            }
            if sensitive && !entries.is_empty() && self.rng.chance(1, 3) {
                n = self.rng.pick(&entries).name.clone();
                let i = self.rng.usize(0, n.len() - 1);
                let up = self.upcase[n[i] as usize];
                n[i] = if up != n[i] { up } else if (0x41..0x5b).contains(&n[i]) { n[i] + 32 } else { n[i] };
            }
            let key = if sensitive { n.clone() } else { fold(&self.upcase, &n) };
            if key == u(".") || !names.insert(key) {
                continue;
            }
            // another name of a file that is there
            let files: Vec<u64> = if self.rng.chance(1, 12) {
                let mut v: Vec<u64> = self.nodes.iter().filter(|(k, n)| **k > 11 && n.allocated && n.base == 0 && n.directory.is_none() && !n.empty && !n.bad).map(|(k, _)| *k).collect();
                v.sort();
                v
            } else {
                Vec::new()
            };
            let mut short: Option<Name> = None;
            let mut space = *self.rng.pick(&[0u8, 0, 1, 3]);
            if !sensitive && files.is_empty() && self.rng.chance(1, 3) {
                let s: Name = format!("{}~{}.{}", (0..self.rng.usize(1, 6)).map(|_| *self.rng.pick(b"ABCXYZ019") as char).collect::<String>(), self.rng.below(10), "TXT").encode_utf16().collect();
                if names.insert(fold(&self.upcase, &s)) {
                    short = Some(s);
                    space = 1;
                }
            }
            let child = if !files.is_empty() {
                self.see("files with more than one name");
                *self.rng.pick(&files)
            } else {
                let c = match self.new_entry() {
                    Some(c) => c,
                    None => break,
                };
                let directory = level < 3 && self.rng.chance(1, 5);
                let mut attributes = Vec::new();
                for (n, s) in [(Some(&n), space), (short.as_ref(), 2)] {
                    if let Some(n) = n {
                        let d = self.file_name(reference, n, s, directory);
                        attributes.push(Attribute { kind: NAME, name: None, flags: 0, body: Body::Resident(d) });
                    }
                }
                let done = if directory {
                    self.directory(c, reference, attributes, most / 2, level + 1)
                } else {
                    self.file(c, attributes)
                };
                if !done {
                    continue;
                }
                c
            };
            let r = self.reference(child);
            let directory = self.nodes[&child].directory.is_some();
            for (n, s) in [(Some(n), space), (short, 2)] {
                if let Some(n) = n {
                    let k = self.file_name(reference, &n, s, directory);
                    keys.push((n.clone(), r, k));
                    if s == 2 {
                        self.see("short names");
                    }
                    entries.push(Entry { name: n, number: child, reference: r, parent: reference, listed: s != 2 });
                }
            }
        }
        let up = self.upcase.clone();
        keys.sort_by(|a, b| fold(&up, &a.0).cmp(&fold(&up, &b.0)).then_with(|| a.0.cmp(&b.0)));
        let keys: Vec<(u64, Vec<u8>)> = keys.into_iter().map(|k| (k.1, k.2)).collect();
        let mut attributes = own;
        let mut times = None;
        if sensitive || self.rng.chance(19, 20) {
            let a = self.standard(&mut times, sensitive);
            attributes.push(a);
        }
        let index = self.index(&keys);
        attributes.extend(index);
        let mut streams = Vec::new();
        if self.rng.chance(1, 6) {
            let n = Some(u("notes"));
            let (a, m) = self.data(n.clone(), true);
            attributes.push(a);
            streams.push((n, m));
            self.see("directories with data");
        }
        let junction = number != 5 && self.rng.chance(1, 10);
        if junction {
            attributes.push(self.link(true).0);
            self.see("junctions");
        }
        let _ = parent;
        match self.store(number, true, true, attributes, true) {
            Some(node) => {
                if sensitive {
                    self.see("case-sensitive directories");
                }
                self.nodes.insert(number, Node { times, streams, directory: Some(entries), junction, sensitive, ..node });
                true
            }
            None => false,
        }
    }

    fn file(&mut self, number: u64, own: Vec<Attribute>) -> bool {
        let mut attributes = own;
        let mut times = None;
        if self.rng.chance(19, 20) {
            let a = self.standard(&mut times, false);
            attributes.push(a);
        }
        let mut streams: Vec<(Option<Name>, Media)> = Vec::new();
        let mut link = None;
        match self.rng.below(14) {
            0 if !self.old => {
                let (a, n) = self.link(false);
                attributes.push(a);
                link = Some(n);
                self.see("symbolic links");
                let (a, m) = self.data(None, true);
                attributes.push(a);
                streams.push((None, m));
            }
            1 if !self.old && self.budget > 0 => {
                let (a, s) = self.overlay();
                attributes.extend(a);
                streams.extend(s);
            }
            2 => {}
            3 if !self.old => {
                let mut v = self.bytes(40);
                le32(&mut v, 0, 0x80000013);
                le16(&mut v, 4, 32);
                attributes.push(Attribute { kind: REPARSE, name: None, flags: 0, body: Body::Resident(v) });
                let (a, m) = self.data(None, false);
                attributes.push(a);
                streams.push((None, m));
            }
            _ => {
                let (a, m) = self.data(None, false);
                attributes.push(a);
                streams.push((None, m));
            }
        }
        for _ in 0..if self.rng.chance(1, 5) { self.rng.usize(1, 4) } else { 0 } {
            let mut n = name(self.rng);
            n.truncate(30);
            if streams.iter().any(|s| s.0.as_ref() == Some(&n)) {
                continue;
            }
            let (a, m) = self.data(Some(n.clone()), false);
            attributes.push(a);
            streams.push((Some(n), m));
            self.see("named data streams");
        }
        for (kind, n) in [(0x40u32, 16usize), (0x50, 60), (0xd0, 8), (0xe0, 24), (0x100, 30)] {
            if self.rng.chance(1, 8) {
                let d = self.bytes(n);
                attributes.push(Attribute { kind, name: if kind == 0x100 { Some(u("$EFS")) } else { None }, flags: 0, body: Body::Resident(d) });
            }
        }
        match self.store(number, false, true, attributes, true) {
            Some(node) => {
                self.nodes.insert(number, Node { times, streams, link, ..node });
                true
            }
            None => false,
        }
    }
}

pub fn build(rng: &mut Rng, hostile: bool) -> Built {
    let bps = if rng.chance(3, 4) { 512 } else { *rng.pick(&[256u64, 1024, 2048, 4096]) };
    let spc: u64 = loop {
        let s = if rng.chance(1, 2) { 4096u64.div_ceil(bps) } else { 1 << rng.below(10) };
        if s * bps >= 512 && s * bps <= if rng.chance(1, 10) { 2 << 20 } else { 65536 } {
            break s;
        }
    };
    let cluster = bps * spc;
    let record = if rng.chance(2, 3) { 1024 } else { *rng.pick(&[512u64, 1024, 2048, 4096, 8192]) };
    let index = if rng.chance(2, 3) { 4096 } else { *rng.pick(&[1024u64, 2048, 8192, 16384, 32768]) };
    let total = match rng.below(5) {
        0 => 1 << 36,
        1 => rng.range(1 << 20, 1 << 33),
        _ => rng.range(20_000, 200_000),
    }
    .min((1 << 62) / cluster);
    let old = rng.chance(1, 4);
    let entries = if hostile { 64 } else { rng.range(48, 300) };
    let per = (record.max(cluster)) / record;
    let step = record.div_ceil(cluster);
    let entries = entries.div_ceil(per) * per;
    let media = Media::new(total * cluster, cluster.min(4096));
    let upcase = upcase(rng);
    let mut fs = Fs {
        rng,
        media,
        cluster,
        total,
        record,
        index,
        old,
        mft: Vec::new(),
        entries,
        used: BTreeMap::new(),
        taken: HashSet::new(),
        sequences: HashMap::new(),
        places: Vec::new(),
        nodes: HashMap::new(),
        seen: HashSet::new(),
        upcase,
        budget: if hostile { 6 } else { 30 },
        depth: 0,
    };
    let boot = 8192u64.div_ceil(cluster);
    fs.used.insert(0, boot);
    // the master file table, the first run of which has the records of the system files
    let clusters = entries * record / cluster;
    let mut left = clusters;
    let least = (16 * record).div_ceil(cluster).next_multiple_of(step);
    let shape = fs.rng.below(4);
    while left > 0 {
        let n = if fs.mft.is_empty() {
            if shape == 0 { left } else { (least + step * fs.rng.below(4)).min(left) }
        } else {
            match shape {
                1 => left,
                2 => step * fs.rng.range(1, 8),
                _ => step,
            }
            .min(left)
        };
        let at = fs.alloc(n);
        fs.mft.push((at, n));
        left -= n;
    }
    let mft = fs.mft.clone();
    if mft.len() > 1 {
        fs.see("master file tables in pieces");
    }
    for n in 0..12 {
        fs.taken.insert(n);
    }
    // the table itself: what does not fit goes into records of its own
    let reference = fs.reference(5);
    let mut times = None;
    let standard = fs.standard(&mut times, false);
    let key = fs.file_name(reference, &u("$MFT"), 3, false);
    let own = |d: Vec<u8>| Attribute { kind: NAME, name: None, flags: 0, body: Body::Resident(d) };
    let size = clusters * cluster;
    let table = Attribute { kind: DATA, name: None, flags: 0, body: Body::Runs { runs: mft.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: size, size, valid: size, unit: 0, stored: 0 } };
    let mut m = Media::new(size, record);
    m.size = size;
    let parts: Vec<Vec<u8>> = [standard.clone(), own(key.clone())].iter().enumerate().map(|(i, a)| fs.serialize(a, i as u16, 0, None)).collect();
    let used: usize = parts.iter().map(|p| p.len()).sum();
    let whole = fs.serialize(&table, 3, 0, None);
    if used + whole.len() <= fs.capacity() && (mft.len() == 1 || fs.rng.chance(1, 2)) {
        let mut parts = parts;
        parts.push(whole);
        let journal = fs.write_record(0, 0, 1, &parts);
        let s = (fs.reference(0) >> 48) as u16;
        fs.nodes.insert(0, Node { sequence: s, journal, allocated: true, times, attributes: vec![(0, None, Shown::Times)], ..Node::default() });
    } else {
        fs.see("master file tables with an attribute list");
        let runs: Vec<(Option<u64>, u64)> = mft.iter().map(|r| (Some(r.0), r.1)).collect();
        // the records that continue it, which are in the first run
        let mut at = 0;
        let mut first = 0;
        let mut segments = Vec::new();
        let in_first = mft[0].1 * cluster / record;
        let mut free: Vec<u64> = (12..in_first).collect();
        fs.rng.shuffle(&mut free);
        while at < runs.len() {
            let limit = if at == 0 { (fs.capacity() - used - 200) / 2 } else { fs.capacity() };
            let most = ((limit.saturating_sub(72)) / 17).max(1).min(runs.len() - at);
            let last = free.len() < 2 && at > 0;
            let n = if last || fs.rng.chance(1, 2) { most } else { fs.rng.usize(1, most) };
            if last && n < runs.len() - at {
                // too many runs for the records: start over with fewer
                return build(fs.rng, hostile);
            }
            let holder = if at == 0 { 0 } else { free.pop().unwrap() };
            segments.push((holder, first, fs.serialize(&table, 10 + segments.len() as u16, first, Some(&runs[at..at + n]))));
            first += runs[at..at + n].iter().map(|r| r.1).sum::<u64>();
            at += n;
        }
        let mut list = Vec::new();
        let base = fs.reference(0);
        for (kind, first, holder, id) in [(SI, 0, 0, 0u16), (NAME, 0, 0, 1)].into_iter().chain(segments.iter().enumerate().map(|(i, s)| (DATA, s.1, s.0, 10 + i as u16))) {
            let r = fs.reference(holder);
            let mut e = vec![0u8; 32];
            le32(&mut e, 0, kind);
            le16(&mut e, 4, 32);
            e[7] = 26;
            le64(&mut e, 8, first);
            le64(&mut e, 16, r);
            le16(&mut e, 24, id);
            list.extend_from_slice(&e);
        }
        let mut a = Attribute { kind: LIST, name: None, flags: 0, body: Body::Resident(list.clone()) };
        let mut bytes = fs.serialize(&a, 9, 0, None);
        if used + bytes.len() + segments[0].2.len() > fs.capacity() {
            let n = (list.len() as u64).div_ceil(cluster);
            let runs = vec![(fs.alloc(n), n)];
            fs.put(&runs, 0, &list);
            a.body = Body::Runs { runs: vec![(Some(runs[0].0), n)], allocated: n * cluster, size: list.len() as u64, valid: list.len() as u64, unit: 0, stored: 0 };
            bytes = fs.serialize(&a, 9, 0, None);
        }
        let parts = vec![parts[0].clone(), bytes, parts[1].clone(), segments[0].2.clone()];
        let journal = fs.write_record(0, 0, 1, &parts);
        let s = (base >> 48) as u16;
        fs.nodes.insert(0, Node { sequence: s, journal, allocated: true, times, attributes: vec![(0, None, Shown::Times)], ..Node::default() });
        for (holder, _, bytes) in segments[1..].iter() {
            fs.taken.insert(*holder);
            let journal = fs.write_record(*holder, base, 1, &[bytes.clone()]);
            let s = (fs.reference(*holder) >> 48) as u16;
            fs.nodes.insert(*holder, Node { sequence: s, base, journal, allocated: true, attributes: vec![(0, None, Shown::Times)], ..Node::default() });
        }
    }
    // the volume
    let label = match fs.rng.below(5) {
        0 => None,
        1 => Some(Vec::new()),
        _ => Some(name(fs.rng).into_iter().take(32).collect::<Name>()),
    };
    let version = if old { (1, 2) } else { (3, *fs.rng.pick(&[0u8, 1])) };
    let volume_flags = fs.rng.next() as u16;
    let mut info = vec![0u8; 12];
    info[8] = version.0;
    info[9] = version.1;
    le16(&mut info, 10, volume_flags);
    let mut times = None;
    let mut attributes = vec![fs.standard(&mut times, false), Attribute { kind: 0x70, name: None, flags: 0, body: Body::Resident(info) }];
    if let Some(l) = &label {
        attributes.push(Attribute { kind: 0x60, name: None, flags: 0, body: Body::Resident(l.iter().flat_map(|c| c.to_le_bytes()).collect()) });
    }
    let node = fs.store(3, false, true, attributes, false).unwrap();
    fs.nodes.insert(3, Node { times, ..node });
    // the folding
    let bytes: Vec<u8> = fs.upcase.iter().flat_map(|c| c.to_le_bytes()).collect();
    let n = 131072u64.div_ceil(cluster);
    let most = n.div_ceil(*fs.rng.pick(&[1, 2, 6]));
    let runs = fs.pieces(n, most.max(n / 8));
    let kept = fs.places.len();
    fs.put(&runs, 0, &bytes);
    fs.places.truncate(kept);
    let mut times = None;
    let attributes = vec![
        fs.standard(&mut times, false),
        Attribute { kind: DATA, name: None, flags: 0, body: Body::Runs { runs: runs.iter().map(|r| (Some(r.0), r.1)).collect(), allocated: n * cluster, size: 131072, valid: 131072, unit: 0, stored: 0 } },
    ];
    match fs.store(10, false, true, attributes, false) {
        Some(node) => {
            fs.nodes.insert(10, Node { times, streams: vec![(None, Media::from_bytes(&bytes))], ..node });
        }
        None => return build(fs.rng, hostile),
    }
    // the bad clusters: as many sparse clusters as the volume has
    let bad = Some(u("$Bad"));
    let mut times = None;
    let attributes = vec![
        fs.standard(&mut times, false),
        Attribute { kind: DATA, name: None, flags: 0, body: Body::Resident(Vec::new()) },
        Attribute { kind: DATA, name: bad.clone(), flags: 0x8000, body: Body::Runs { runs: vec![(None, total)], allocated: total * cluster, size: total * cluster, valid: 0, unit: 0, stored: 0 } },
    ];
    let node = fs.store(8, false, true, attributes, false).unwrap();
    fs.nodes.insert(8, Node { times, streams: vec![(None, Media::new(0, 512)), (bad, Media::new(total * cluster, cluster))], ..node });
    // records that are not in use
    for i in [1u64, 2, 4, 6, 7, 9, 11].into_iter() {
        fs.file(i, Vec::new());
    }
    let most = if hostile { 16 } else { *fs.rng.pick(&[6usize, 20, 60, 200]) };
    if !fs.directory(5, reference, Vec::new(), most, 0) {
        return build(fs.rng, hostile);
    }
    for i in 12..entries {
        if fs.taken.contains(&i) {
            continue;
        }
        match fs.rng.below(6) {
            0 => {
                fs.see("deleted files");
                let (a, m) = fs.data(None, true);
                let mut times = None;
                let s = fs.standard(&mut times, false);
                let node = fs.store(i, false, false, vec![s, a], false).unwrap();
                fs.nodes.insert(i, Node { times, streams: vec![(None, m)], ..node });
            }
            1 => {
                let v = b"BAAD".to_vec();
                fs.put(&mft, i * record, &v);
                fs.nodes.insert(i, Node { bad: true, ..Node::default() });
            }
            2 => {
                let journal = fs.write_record(i, 0, 0, &[]);
                let s = (fs.reference(i) >> 48) as u16;
                fs.nodes.insert(i, Node { sequence: s, journal, ..Node::default() });
            }
            _ => {
                fs.nodes.insert(i, Node { empty: true, ..Node::default() });
            }
        }
    }
    // boot record
    let mut b = vec![0u8; 512];
    b[..3].copy_from_slice(&[0xeb, 0x52, 0x90]);
    b[3..11].copy_from_slice(b"NTFS    ");
    le16(&mut b, 11, bps as u16);
    b[13] = if spc <= 128 { spc as u8 } else { (256 - spc.trailing_zeros()) as u8 };
    b[21] = 0xf8;
    le64(&mut b, 40, total * spc);
    le64(&mut b, 48, mft[0].0);
    le64(&mut b, 56, total / 2);
    let coded = |rng: &mut Rng, n: u64| if n >= cluster && n / cluster < 128 && rng.chance(1, 2) { (n / cluster) as u32 } else { 256 - n.trailing_zeros() };
    let c = coded(fs.rng, record);
    le32(&mut b, 64, c);
    let c = coded(fs.rng, index);
    le32(&mut b, 68, c);
    let serial = fs.rng.next();
    le64(&mut b, 72, serial);
    b[510] = 0x55;
    b[511] = 0xaa;
    fs.media.write(0, &b);
    fs.places.push((0, 80));
    Built {
        media: fs.media,
        bps,
        cluster,
        record,
        index,
        serial,
        version,
        volume_flags,
        label,
        upcase: fs.upcase,
        nodes: fs.nodes,
        entries,
        places: fs.places,
        seen: fs.seen,
    }
}

fn ucs(n: &[u16]) -> Ucs2String {
    Ucs2String::from(n)
}

fn same(ctx: &mut Ctx, what: &str, e: &mut NtfsFileEntry, number: u64, n: &Node) -> CaseResult {
    let t = format!("{what} {number}");
    require_eq!(e.mft_entry_number, number, "ntfs:number", "{t}: number");
    require_eq!(e.is_empty(), n.empty, "ntfs:state", "{t}: is empty");
    require_eq!(e.is_bad(), n.bad, "ntfs:state", "{t}: is bad");
    require_eq!(e.is_allocated(), n.allocated, "ntfs:allocated", "{t}: is allocated");
    require_eq!(e.is_root_directory(), number == 5, "ntfs:root", "{t}: is the root directory");
    if n.empty || n.bad {
        ctx.count("records without content");
        return Ok(());
    }
    require_eq!(e.sequence_number, n.sequence, "ntfs:sequence", "{t}: sequence number");
    require_eq!(e.get_base_record_file_reference(), n.base, "ntfs:base record", "{t}: base record");
    require_eq!(e.get_journal_sequence_number(), n.journal, "ntfs:journal", "{t}: journal sequence number");
    if n.base != 0 || n.attributes.iter().any(|a| a.0 == 0) {
        return Ok(());
    }
    require_eq!(e.is_directory(), n.directory.is_some(), "ntfs:directory", "{t}: is a directory");
    require_eq!(e.is_symbolic_link(), n.link.is_some(), "ntfs:symbolic link", "{t}: is a symbolic link");
    require_eq!(e.is_junction(), n.junction, "ntfs:junction", "{t}: is a junction");
    let size = n.streams.iter().find(|s| s.0.is_none()).map_or(0, |s| s.1.size);
    require_eq!(e.get_size(), size, "ntfs:size", "{t}: size");
    let (times, flags) = match &n.times {
        Some(Times(t, f)) => (t.map(|t| Some(date(t))), *f),
        None => ([None, None, None, None], 0),
    };
    for (what, got, expected) in [
        ("creation", e.get_creation_time(), &times[0]),
        ("modification", e.get_modification_time(), &times[1]),
        ("change", e.get_change_time(), &times[2]),
        ("access", e.get_access_time(), &times[3]),
    ] {
        require!(got == expected.as_ref(), "ntfs:times", "{t}: {what} time {got:?}, expected {expected:?}");
    }
    require_eq!(e.get_file_attribute_flags(), flags, "ntfs:flags", "{t}: file attribute flags");
    match no_panic("ntfs:symbolic link", || e.get_symbolic_link_target().map(|t| t.cloned()))? {
        Ok(got) => require!(got.as_ref().map(|g| &g.elements) == n.link.as_ref(), "ntfs:symbolic link", "{t}: target {:?}, expected {:?}", got, n.link),
        Err(e) => fail!("ntfs:symbolic link", "{t}: {}", e.to_string()),
    }
    ctx.count("file entries compared");
    Ok(())
}

fn attributes(ctx: &mut Ctx, e: &NtfsFileEntry, number: u64, n: &Node) -> CaseResult {
    let mut left: Vec<&(u32, Option<Name>, Shown)> = n.attributes.iter().collect();
    let count = e.get_number_of_attributes();
    require_eq!(count, left.len(), "ntfs:attributes", "record {number}: number of attributes");
    for i in 0..count {
        let a = match no_panic("ntfs:attributes", || e.get_attribute_by_index(i).map(|a| {
            let kind = a.get_attribute_type();
            let shown = match a {
                NtfsAttribute::AttributeList { attribute_list } => Shown::List(attribute_list.entries.iter().map(|e| (e.attribute_type, e.file_reference)).collect()),
                NtfsAttribute::FileName { file_name } => Shown::FileName(file_name.name.elements.clone(), file_name.name_space, file_name.parent_file_reference),
                NtfsAttribute::Generic { mft_attribute } => {
                    if mft_attribute.is_resident() { Shown::Resident(mft_attribute.resident_data.clone()) } else { Shown::Stored(mft_attribute.data_size) }
                }
                NtfsAttribute::ReparsePoint { reparse_point } => Shown::Reparse(reparse_point.get_reparse_tag()),
                NtfsAttribute::StandardInformation { .. } => Shown::Times,
                NtfsAttribute::VolumeInformation { volume_information: v } => Shown::Volume(v.major_format_version, v.minor_format_version, v.volume_flags),
                NtfsAttribute::VolumeName { volume_name } => Shown::Label(volume_name.elements.clone()),
            };
            (kind, shown)
        }))? {
            Ok(a) => a,
            Err(e) => fail!("ntfs:attributes", "record {number}: attribute {i}: {}", e.to_string()),
        };
        match left.iter().position(|l| l.0 == a.0 && l.2 == a.1) {
            Some(k) => {
                left.remove(k);
            }
            None => fail!("ntfs:attributes", "record {number}: attribute {i} is {}, which is none of {}", short(&format!("{a:x?}")), short(&format!("{left:x?}"))),
        }
    }
    require!(no_panic("ntfs:attributes", || e.get_attribute_by_index(count).is_err())?, "ntfs:attributes", "attribute {count} of {count} was given");
    ctx.add("attributes compared", count as u64);
    Ok(())
}

fn compare(ctx: &mut Ctx, s: &DataStreamReference, m: &Media) -> CaseResult {
    if m.size < 300_000 && ctx.rng.chance(1, 2) {
        sweep(ctx, "ntfs", s, m)?;
        rewind(s);
    }
    drive(ctx, "ntfs", s, m, 8, 40_000)
}

fn content(ctx: &mut Ctx, e: &NtfsFileEntry, number: u64, n: &Node) -> CaseResult {
    let forks = match no_panic("ntfs:forks", || e.get_number_of_data_forks())? {
        Ok(k) => k,
        Err(e) => fail!("ntfs:forks", "{number}: {}", e.to_string()),
    };
    require_eq!(forks, n.streams.len(), "ntfs:forks", "record {number}: number of data forks");
    let mut left: Vec<&(Option<Name>, Media)> = n.streams.iter().collect();
    for i in 0..forks {
        let f = match no_panic("ntfs:forks", || e.get_data_fork_by_index(i))? {
            Ok(f) => f,
            Err(e) => fail!("ntfs:forks", "record {number}: data fork {i}: {}", e.to_string()),
        };
        let given = f.get_name().map(|n| n.elements.clone());
        let m = match left.iter().position(|l| l.0 == given) {
            Some(k) => &left.remove(k).1,
            None => fail!("ntfs:forks", "record {number}: data fork {i} has the name {given:?}"),
        };
        if ctx.rng.chance(1, 2) {
            match no_panic("ntfs:data", || f.get_data_stream())? {
                Ok(s) => compare(ctx, &s, m)?,
                Err(e) => fail!("ntfs:data", "record {number}, fork {given:?}: {}", e.to_string()),
            }
        } else {
            match no_panic("ntfs:data", || e.get_data_stream_by_name(&given.as_ref().map(|n| ucs(n))))? {
                Ok(Some(s)) => compare(ctx, &s, m)?,
                Ok(None) => fail!("ntfs:data", "record {number}: no stream {given:?}"),
                Err(e) => fail!("ntfs:data", "record {number}, stream {given:?}: {}", e.to_string()),
            }
        }
        ctx.count("data streams read");
    }
    require!(no_panic("ntfs:forks", || e.get_data_fork_by_index(forks).is_err())?, "ntfs:forks", "fork {forks} of {forks} was given");
    let main = n.streams.iter().find(|s| s.0.is_none());
    match (no_panic("ntfs:data", || e.get_data_stream())?, main) {
        (Ok(Some(s)), Some((_, m))) => compare(ctx, &s, m)?,
        (Ok(None), None) => {}
        (Ok(s), _) => fail!("ntfs:data", "record {number} has data: {}", s.is_some()),
        (Err(e), _) => fail!("ntfs:data", "record {number}: {}", e.to_string()),
    }
    let missing = Some(ucs(&u("no such stream")));
    require!(matches!(no_panic("ntfs:data", || e.get_data_stream_by_name(&missing))?, Ok(None)), "ntfs:data", "a stream that is not there was given");
    Ok(())
}

fn walk(ctx: &mut Ctx, fs: &NtfsFileSystem, b: &Built, dir: &mut NtfsFileEntry, number: u64, path: &mut Vec<Name>) -> CaseResult {
    let names = b.nodes[&number].directory.as_ref().unwrap();
    let sensitive = b.nodes[&number].sensitive;
    let here = path.iter().map(|n| text(n)).collect::<Vec<_>>().join("\\");
    let n = match no_panic("ntfs:list", || dir.get_number_of_sub_file_entries())? {
        Ok(n) => n,
        Err(e) => fail!("ntfs:list", "listing {here} ({number}): {}", e.to_string()),
    };
    let mut left: HashMap<&[u16], &Entry> = names.iter().filter(|e| e.listed).map(|e| (e.name.as_slice(), e)).collect();
    require_eq!(n, left.len(), "ntfs:list", "number of entries of {here} ({number})");
    require!(no_panic("ntfs:list", || dir.get_sub_file_entry_by_index(n))?.is_err(), "ntfs:list", "entry {n} of {n} of {here} was given");
    let mut before: Option<Name> = None;
    for i in 0..n {
        let mut e = match no_panic("ntfs:list", || dir.get_sub_file_entry_by_index(i))? {
            Ok(e) => e,
            Err(e) => fail!("ntfs:list", "entry {i} of {n} of {here} ({number}): {}", e.to_string()),
        };
        let given = e.get_name().map(|n| n.elements.clone()).unwrap_or_default();
        let entry = match left.remove(given.as_slice()) {
            Some(e) => e,
            None => fail!("ntfs:list", "{here} lists {}, which is not in it (or listed twice)", text(&given)),
        };
        if let Some(p) = &before {
            require!(fold(&b.upcase, p).cmp(&fold(&b.upcase, &given)) != Ordering::Greater, "ntfs:order", "{here}: {} after {}", text(&given), text(p));
        }
        before = Some(given.clone());
        let node = &b.nodes[&entry.number];
        same(ctx, "listed", &mut e, entry.number, node)?;
        require_eq!(e.get_file_reference(), entry.reference, "ntfs:reference", "{}: file reference", text(&given));
        require_eq!(e.get_parent_file_reference(), Some(entry.parent), "ntfs:parent", "{}: parent", text(&given));
        if ctx.rng.chance(1, 2) {
            attributes(ctx, &e, entry.number, node)?;
        }
        content(ctx, &e, entry.number, node)?;
        path.push(given.clone());
        if ctx.rng.chance(1, 3) {
            let mut components = vec![Ucs2String::new()];
            components.extend(path.iter().map(|c| ucs(c)));
            let p = NtfsPath { components };
            match no_panic("ntfs:path", || fs.get_file_entry_by_path(&p))? {
                Ok(Some(mut f)) => same(ctx, "by path", &mut f, entry.number, node)?,
                Ok(None) => fail!("ntfs:path", "{} was not found", p.to_string()),
                Err(e) => fail!("ntfs:path", "{}: {}", p.to_string(), e.to_string()),
            }
            ctx.count("file entries by path");
        }
        if node.directory.is_some() {
            walk(ctx, fs, b, &mut e, entry.number, path)?;
        }
        path.pop();
    }
    for entry in names {
        let mut nm = entry.name.clone();
        if !sensitive && ctx.rng.chance(1, 2) {
            // another spelling
            let i = ctx.rng.usize(0, nm.len() - 1);
            let up = b.upcase[nm[i] as usize];
            let other = if up != nm[i] { Some(up) } else { (0..=0xffffu32).map(|c| c as u16).step_by(1).find(|c| *c != nm[i] && *c != 0 && b.upcase[*c as usize] == up) };
            if let Some(o) = other.filter(|o| b.upcase[*o as usize] == up) {
                nm[i] = o;
                ctx.count("names in another spelling");
            }
        }
        let node = &b.nodes[&entry.number];
        match no_panic("ntfs:lookup", || dir.get_sub_file_entry_by_name(&ucs(&nm)))? {
            Ok(Some(mut f)) => {
                same(ctx, "looked up", &mut f, entry.number, node)?;
                require_eq!(f.get_file_reference(), entry.reference, "ntfs:reference", "{}: file reference", text(&nm));
                require_eq!(f.get_parent_file_reference(), Some(entry.parent), "ntfs:parent", "{}: parent", text(&nm));
                if entry.listed {
                    let got = f.get_name().map(|n| n.elements.clone());
                    require!(got.as_ref() == Some(&entry.name), "ntfs:name", "{}: name {:?}, expected {}", text(&nm), got, text(&entry.name));
                } else {
                    ctx.count("files found by their short name");
                }
            }
            Ok(None) => fail!(if sensitive { "ntfs:lookup in a case-sensitive directory" } else { "ntfs:lookup" }, "{here} ({number}): {} was not found", text(&nm)),
            Err(e) => fail!("ntfs:lookup", "{here}: {}: {}", text(&nm), e.to_string()),
        }
    }
    for _ in 0..2 {
        let mut nm = names.first().map_or(u("x"), |n| n.name.clone());
        match ctx.rng.below(4) {
            0 => nm.push(0x71),
            1 => {
                nm.pop();
            }
            2 if sensitive => nm = fold(&b.upcase, &nm),
            _ => nm = name(&mut ctx.rng),
        }
        let known = if sensitive { names.iter().any(|n| n.name == nm) } else { names.iter().any(|n| fold(&b.upcase, &n.name) == fold(&b.upcase, &nm)) };
        if known || fold(&b.upcase, &nm) == u(".") {
            continue;
        }
        match no_panic("ntfs:lookup", || dir.get_sub_file_entry_by_name(&ucs(&nm)))? {
            Ok(None) => ctx.count("missing names not found"),
            Ok(Some(_)) => fail!("ntfs:lookup", "{here}: {} was found", text(&nm)),
            Err(e) => fail!("ntfs:lookup", "{here}: {}: {}", text(&nm), e.to_string()),
        }
    }
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let b = build(&mut ctx.rng, false);
    let describe = format!("NTFS {}.{} with clusters of {} bytes, records of {}, index entries of {}, {} records", b.version.0, b.version.1, b.cluster, b.record, b.index, b.entries);
    ctx.detail(describe.clone());
    let stream = sparse_stream(&b.media);
    let mut fs = NtfsFileSystem::new();
    if let Err(e) = no_panic("ntfs:open", || fs.read_data_stream(&stream))? {
        fail!("ntfs:open", "{describe}: {}", e.to_string());
    }
    require_eq!(fs.bytes_per_sector as u64, b.bps, "ntfs:geometry", "bytes per sector");
    require_eq!(fs.cluster_block_size as u64, b.cluster, "ntfs:geometry", "cluster size");
    require_eq!(fs.mft_entry_size as u64, b.record, "ntfs:geometry", "MFT entry size");
    require_eq!(fs.index_entry_size as u64, b.index, "ntfs:geometry", "index entry size");
    require_eq!(fs.volume_serial_number, b.serial, "ntfs:serial", "serial number");
    require_eq!(fs.get_format_version(), Some(b.version), "ntfs:version", "format version");
    require_eq!(fs.get_volume_flags(), Some(b.volume_flags), "ntfs:volume flags", "volume flags");
    require_eq!(fs.get_volume_label().map(|l| l.elements.clone()), b.label, "ntfs:label", "volume label");
    let mut root = match no_panic("ntfs:root", || fs.get_root_directory())? {
        Ok(r) => r,
        Err(e) => fail!("ntfs:root", "{describe}: {}", e.to_string()),
    };
    same(ctx, "root", &mut root, 5, &b.nodes[&5])?;
    walk(ctx, &fs, &b, &mut root, 5, &mut Vec::new())?;
    match no_panic("ntfs:path", || fs.get_file_entry_by_path(&NtfsPath::from("\\")))? {
        Ok(Some(r)) => require!(r.is_root_directory(), "ntfs:path", "\\ is not the root"),
        r => fail!("ntfs:path", "\\: {:?}", r.map(|r| r.is_some()).map_err(|e| e.to_string())),
    }
    for i in 0..b.entries {
        let node = match b.nodes.get(&i) {
            Some(n) => n,
            None => continue,
        };
        if i > 11 && ctx.rng.chance(1, 2) {
            continue;
        }
        match no_panic("ntfs:identifier", || fs.get_file_entry_by_identifier(i))? {
            Ok(mut e) => {
                same(ctx, "by identifier", &mut e, i, node)?;
                if !node.empty && !node.bad {
                    require_eq!(e.get_file_reference(), i | (node.sequence as u64) << 48, "ntfs:reference", "{i}: file reference");
                }
                if node.base == 0 && !node.attributes.iter().any(|a| a.0 == 0) && (i < 12 || ctx.rng.chance(1, 4)) {
                    attributes(ctx, &e, i, node)?;
                    content(ctx, &e, i, node)?;
                }
            }
            Err(e) => fail!(if node.empty || node.bad { "ntfs:identifier of an empty or bad entry" } else { "ntfs:identifier" }, "{i} ({}): {}", if node.empty { "empty" } else if node.bad { "bad" } else { "used" }, e.to_string()),
        }
        ctx.count("file entries by identifier");
    }
    for i in [b.entries, 1 << 48, u64::MAX] {
        require!(no_panic("ntfs:identifier", || fs.get_file_entry_by_identifier(i))?.is_err(), "ntfs:identifier", "entry {i} of {} was given", b.entries);
    }
    ctx.count(&format!("NTFS {}.{} file systems", b.version.0, b.version.1));
    let mut seen: Vec<&str> = b.seen.iter().copied().collect();
    seen.sort();
    for s in seen {
        ctx.count(s);
    }
    ctx.distinct(&b.media.hash().to_le_bytes());
    ctx.sample(|| describe.clone());
    Ok(())
}

/// Walks a file system that could be damaged.
pub fn opened(stream: &DataStreamReference) -> Result<Opened, String> {
    let mut fs = NtfsFileSystem::new();
    fs.read_data_stream(stream).map_err(|e| e.to_string())?;
    let mut o = Opened::default();
    o.text = format!("{:?} {:?} {:?};", fs.get_format_version(), fs.get_volume_label().map(|l| l.to_string()), fs.get_volume_flags());
    let root = fs.get_root_directory().map_err(|e| e.to_string())?;
    let mut queue: Vec<(NtfsFileEntry, u32)> = vec![(root, 0)];
    let mut budget = 120;
    fn look(o: &mut Opened, e: &mut NtfsFileEntry) {
        let target = e.get_symbolic_link_target().map(|t| t.map(|t| t.to_string())).ok();
        o.text.push_str(&format!(
            "{:?} {} {:x} {:?} {:?} {:?} {:?} {:?} {} {} {};",
            e.get_name().map(|n| n.to_string()), e.get_size(), e.get_file_attribute_flags(),
            e.get_creation_time(), e.get_access_time(), e.get_modification_time(), e.get_change_time(),
            target, e.is_allocated(), e.is_junction(), e.get_file_reference(),
        ));
        for i in 0..e.get_number_of_attributes().min(20) {
            o.text.push_str(&format!("{:?};", e.get_attribute_by_index(i).map(|a| a.get_attribute_type()).ok()));
        }
        for i in 0..e.get_number_of_data_forks().unwrap_or(0).min(6) {
            if let Ok(f) = e.get_data_fork_by_index(i) {
                match f.get_data_stream() {
                    Ok(s) if o.streams.len() < 16 => o.streams.push(s),
                    Ok(_) => {}
                    Err(_) => o.text.push_str("data error;"),
                }
            }
        }
    }
    while let Some((mut d, depth)) = queue.pop() {
        let n = match d.get_number_of_sub_file_entries() {
            Ok(n) => n,
            Err(_) => {
                o.text.push_str("list error;");
                continue;
            }
        };
        o.text.push_str(&format!("{n}:"));
        for i in 0..n.min(60) {
            if budget == 0 {
                break;
            }
            budget -= 1;
            match d.get_sub_file_entry_by_index(i) {
                Ok(mut e) => {
                    look(&mut o, &mut e);
                    if let Some(n) = e.get_name().cloned() {
                        o.text.push_str(&format!("{:?};", d.get_sub_file_entry_by_name(&n).map(|e| e.map(|e| e.mft_entry_number)).ok()));
                    }
                    if e.is_directory() && depth < 6 {
                        queue.push((e, depth + 1));
                    }
                }
                Err(_) => o.text.push_str("entry error;"),
            }
        }
        o.text.push_str(&format!("{:?};", d.get_sub_file_entry_by_name(&Ucs2String::from("zzz")).map(|e| e.is_some()).ok()));
    }
    for id in [0u64, 1, 2, 3, 4, 5, 8, 9, 10, 12, 16, 24, 40, 63, u64::MAX] {
        match fs.get_file_entry_by_identifier(id) {
            Ok(mut e) => look(&mut o, &mut e),
            Err(_) => o.text.push_str("identifier error;"),
        }
    }
    Ok(o)
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut b = build(&mut ctx.rng, true);
    let places = b.places.clone();
    if !ctx.rng.chance(1, 20) {
        mutate_media(&mut ctx.rng, &mut b.media, &places);
    }
    ctx.detail(format!("damaged NTFS {}.{} with clusters of {} bytes, records of {}, index entries of {}", b.version.0, b.version.1, b.cluster, b.record, b.index));
    ctx.distinct(&b.media.hash().to_le_bytes());
    let stream = sparse_stream(&b.media);
    probe(ctx, "ntfs", &|| opened(&stream))
}

/// A damaged file system.
pub fn damaged(rng: &mut Rng) -> Media {
    let mut b = build(rng, true);
    let places = b.places.clone();
    mutate_media(rng, &mut b.media, &places);
    b.media
}
