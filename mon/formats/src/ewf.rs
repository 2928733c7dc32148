//! Expert Witness images: an independent writer of segment files and the monitors of the reader.

use std::collections::HashMap;
use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_datetime::PosixTime32;
use keramics_formats::PathComponent;
use keramics_formats::ewf::{EwfHeaderValue, EwfHeaderValueType as T, EwfImage, EwfMediaType};
use mon_common::*;
use encoders::{deflate, greedy, tokens};

use crate::hostile::{Opened, probe};
use crate::media::*;

/// Layouts of the format.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// Short volume section, chunks in the table section, no table footer.
    Smart,
    Original,
    /// Long volume section, chunks in the table section.
    Encase1,
    /// Chunks in the sectors section.
    Encase5,
    /// With base offset.
    Encase6,
}

/// A section of a segment file: its place and the structures in it that have a checksum.
#[derive(Clone)]
struct Sec {
    name: String,
    at: u64,
    size: u64,
    /// Ranges in which every byte is covered by a checksum.
    covered: Vec<(u64, u64)>,
}

struct Segment {
    name: String,
    file: Media,
    sections: Vec<Sec>,
}

struct Image {
    kind: Kind,
    first: String,
    segments: Vec<Segment>,
    content: Media,
    /// Segment, place, stored size, media range, compressed.
    chunks: Vec<(usize, u64, u64, (u64, u64), bool)>,
    tables: usize,
    overflow: bool,
    bytes_per_sector: u32,
    sectors_per_chunk: u32,
    sectors: u64,
    media_type: u8,
    granularity: u32,
    set: [u8; 16],
    md5: [u8; 16],
    sha1: [u8; 20],
    values: HashMap<&'static str, Value>,
    /// The notes in the header section.
    header_notes: Option<Value>,
}

#[derive(Clone, PartialEq, Debug)]
enum Value {
    Text(String),
    Date(i32),
}

const TYPES: [(&str, T); 15] = [
    ("a", T::Description),
    ("av", T::Version),
    ("c", T::CaseNumber),
    ("e", T::ExaminerName),
    ("l", T::DeviceLabel),
    ("m", T::AcquisitionDate),
    ("md", T::Model),
    ("n", T::EvidenceNumber),
    ("ov", T::Platform),
    ("p", T::PasswordHash),
    ("pid", T::ProcessIdentifier),
    ("r", T::CompressionLevel),
    ("sn", T::SerialNumber),
    ("t", T::Notes),
    ("u", T::SystemDate),
];

fn extension(first: char, n: usize) -> String {
    if n < 100 {
        return format!("{first}{n:02}");
    }
    let upper = first.is_ascii_uppercase();
    let a = if upper { b'A' } else { b'a' };
    let k = n - 100;
    let lead = first as u8 + (k / 676) as u8;
    format!("{}{}{}", lead as char, (a + (k / 26 % 26) as u8) as char, (a + (k % 26) as u8) as char)
}

fn sum(data: &mut Vec<u8>) {
    let s = deflate::adler32(data);
    data.extend(s.to_le_bytes());
}

fn section_header(name: &str, next: u64, size: u64) -> Vec<u8> {
    let mut h = vec![0u8; 72];
    h[..name.len()].copy_from_slice(name.as_bytes());
    le64(&mut h, 16, next);
    le64(&mut h, 24, size);
    sum(&mut h);
    h
}

impl Segment {
    fn new(name: String, number: usize) -> Segment {
        let mut file = Media::new(13, 1 << 16);
        file.write(0, &[0x45, 0x56, 0x46, 0x09, 0x0d, 0x0a, 0xff, 0x00, 1, number as u8, (number >> 8) as u8, 0, 0]);
        Segment { name, file, sections: Vec::new() }
    }
    /// Where the data of the next section starts.
    fn next(&self) -> u64 {
        self.file.size + 76
    }
    fn add(&mut self, rng: &mut Rng, name: &str, data: &[u8], covered: &[(u64, u64)]) {
        let at = self.file.size;
        self.add_sized(rng, name, data.len() as u64, covered);
        self.file.write(at + 76, data);
    }
    fn add_sized(&mut self, rng: &mut Rng, name: &str, size: u64, covered: &[(u64, u64)]) {
        let at = self.file.size;
        let last = name == "done" || name == "next";
        let total = 76 + size;
        let stored = if last && rng.chance(1, 2) || rng.chance(1, 20) { 0 } else { total };
        let next = if last { at } else { at + total };
        self.file.write(at, &section_header(name, next, stored));
        self.file.size = at + total;
        let mut c = vec![(at, 76)];
        c.extend(covered.iter().map(|(o, l)| (at + 76 + o, *l)));
        self.sections.push(Sec { name: name.to_string(), at, size: total, covered: c });
    }
}

/// A compressed chunk of n bytes.
fn compressed(rng: &mut Rng, n: usize) -> (Vec<u8>, Vec<u8>) {
    loop {
        let (t, o) = if rng.chance(1, 3) {
            let d = rng.data(n);
            (greedy(&d, deflate::LIMITS), d)
        } else {
            tokens(rng, n, deflate::LIMITS)
        };
        let d = deflate::encode(rng, &t, &o).0;
        let z = deflate::zlib(rng, 32768, &d, &o);
        if z.len() <= 2 * n + 4000 {
            return (z, o);
        }
    }
}

fn text(rng: &mut Rng, wide: bool) -> String {
    let n = match rng.below(8) {
        0 => 0,
        1 => rng.usize(100, 3000),
        _ => rng.usize(1, 20),
    };
    let repeat = rng.chance(1, 4);
    let c = (b'a' + rng.below(26) as u8) as char;
    (0..n)
        .map(|_| {
            if repeat {
                c
            } else if wide && rng.chance(1, 3) {
                *rng.pick(&['\u{e9}', '\u{3b1}', '\u{4e2d}', '\u{1f600}', '\u{ffee}'])
            } else {
                (b' ' + rng.below(94) as u8) as char
            }
        })
        .collect()
}

/// The text of a header section and the values in it.
fn header_text(rng: &mut Rng, wide: bool) -> (String, Vec<(&'static str, Value)>) {
    let eol = if rng.chance(1, 2) { "\r\n" } else { "\n" };
    let categories = if rng.chance(1, 2) { "1" } else { "3" };
    let mut names: Vec<&'static str> = TYPES.iter().map(|t| t.0).filter(|_| rng.chance(2, 3)).collect();
    if rng.chance(1, 3) {
        names.push(*rng.pick(&["dc", "ext", "aq", "x", "y"]));
    }
    if names.is_empty() {
        names.push("t");
    }
    rng.shuffle(&mut names);
    let mut values = Vec::new();
    let mut stored = Vec::new();
    for n in &names {
        let known = TYPES.iter().any(|t| t.0 == *n);
        if wide && (*n == "m" || *n == "u") {
            match rng.below(6) {
                0 => stored.push(rng.pick(&["", "x", "12a", "99999999999", "4294967295"]).to_string()),
                1 => {
                    stored.push("2147483647".to_string());
                    values.push((*n, Value::Date(i32::MAX)));
                }
                _ => {
                    let d = rng.below(1 << 31) as i32;
                    stored.push(d.to_string());
                    values.push((*n, Value::Date(d)));
                }
            }
        } else {
            let mut v = text(rng, wide);
            if !wide && (*n == "m" || *n == "u") {
                v = "2020 1 2 3 4 5".to_string();
            }
            if known {
                values.push((*n, Value::Text(v.clone())));
            }
            stored.push(v);
        }
    }
    let mut t = [categories, "main", &names.join("\t"), &stored.join("\t")].join(eol);
    match rng.below(6) {
        0 => {}
        1 => t.push_str(eol),
        2 if categories == "3" => t.push_str(&format!("{eol}{eol}srce{eol}0\t1{eol}p\tn{eol}0\t0{eol}{eol}")),
        _ => t.push_str(&format!("{eol}{eol}")),
    }
    (t, values)
}

fn zlib_of(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let t = greedy(data, deflate::LIMITS);
    let d = deflate::encode(rng, &t, data).0;
    deflate::zlib(rng, 32768, &d, data)
}

fn volume(i: &Image, rng: &mut Rng, chunks: u32) -> Vec<u8> {
    if i.kind == Kind::Smart || i.kind == Kind::Original {
        let mut v = vec![0u8; 90];
        v[0] = 1;
        le32(&mut v, 4, chunks);
        le32(&mut v, 8, i.sectors_per_chunk);
        le32(&mut v, 12, i.bytes_per_sector);
        le32(&mut v, 16, i.sectors as u32);
        v[85..90].copy_from_slice(if i.kind == Kind::Smart { b"SMART" } else { b"EVF\x09\x0d" });
        sum(&mut v);
        v
    } else {
        let mut v = vec![0u8; 1048];
        v[0] = i.media_type;
        le32(&mut v, 4, chunks);
        le32(&mut v, 8, i.sectors_per_chunk);
        le32(&mut v, 12, i.bytes_per_sector);
        le64(&mut v, 16, i.sectors);
        for o in [24usize, 28, 32, 40, 48] {
            let x = rng.next() as u32;
            le32(&mut v, o, x);
        }
        v[36] = rng.below(16) as u8;
        v[52] = rng.below(3) as u8;
        le32(&mut v, 56, i.granularity);
        v[64..80].copy_from_slice(&i.set);
        sum(&mut v);
        v
    }
}

fn table(base: u64, entries: &[u32], footer: bool) -> Vec<u8> {
    let mut t = vec![0u8; 20];
    le32(&mut t, 0, entries.len() as u32);
    le64(&mut t, 8, base);
    sum(&mut t);
    let mut e: Vec<u8> = entries.iter().flat_map(|e| e.to_le_bytes()).collect();
    if footer {
        sum(&mut e);
    }
    t.extend(e);
    t
}

fn image(rng: &mut Rng, small: bool) -> Image {
    let kind = *rng.pick(&[Kind::Smart, Kind::Original, Kind::Encase1, Kind::Encase5, Kind::Encase5, Kind::Encase6, Kind::Encase6]);
    let long = !matches!(kind, Kind::Smart | Kind::Original);
    let inline = matches!(kind, Kind::Smart | Kind::Original | Kind::Encase1);
    let number = if small {
        *rng.pick(&[1usize, 1, 2, 3])
    } else {
        match rng.below(60) {
            0 => rng.usize(99, 104),
            1 => rng.usize(774, 780),
            2..=6 => rng.usize(17, 45),
            7..=30 => rng.usize(2, 5),
            _ => 1,
        }
    };
    let bytes_per_sector = *rng.pick(&[512u32, 512, 512, 2048, 4096, 520]);
    let sectors_per_chunk = *rng.pick(&[1u32, 2, 3, 7, 8, 64, 64, 128]);
    let sectors_per_chunk = if small || number > 5 { sectors_per_chunk.min(if number > 50 { 2 } else { 8 }) } else { sectors_per_chunk };
    let bytes_per_sector = if number > 50 || small { 512 } else { bytes_per_sector };
    let block = (bytes_per_sector * sectors_per_chunk) as u64;
    let huge = kind == Kind::Encase6 && rng.chance(1, 12);
    let overflow = huge && number < 6;
    // tables per segment, chunks per table
    let mut plan: Vec<Vec<usize>> = Vec::new();
    let mut left = (400_000 / block).clamp(2, 300) as usize;
    for _ in 0..number {
        let t = if number > 1 && rng.chance(1, 12) { 0 } else { *rng.pick(&[1usize, 1, 1, 2, 3]) };
        let mut s = Vec::new();
        for _ in 0..t {
            let most = if number > 50 { 2 } else if number > 5 { 3 } else { left.min(if small { 5 } else { 200 }).max(1) };
            let n = rng.size(most - 1) + 1;
            left = left.saturating_sub(n).max(1);
            s.push(n);
        }
        plan.push(s);
    }
    if plan.iter().all(|s| s.is_empty()) {
        plan[0].push(1);
    }
    let chunks: usize = plan.iter().flatten().sum();
    let partial = if rng.chance(1, 2) { 0 } else { rng.below(sectors_per_chunk as u64) };
    let sectors = chunks as u64 * sectors_per_chunk as u64 - partial;
    let first_char = match (kind, rng.chance(1, 4)) {
        (Kind::Smart, true) => 'S',
        (Kind::Smart, false) => 's',
        (_, true) => 'e',
        (_, false) => 'E',
    };
    let stem = rng.pick(&["image", "a", "Disk 1", "x.y"]).to_string();
    let mut i = Image {
        kind,
        first: format!("{stem}.{}", extension(first_char, 1)),
        segments: Vec::new(),
        content: Media::new(sectors * bytes_per_sector as u64, block),
        chunks: Vec::new(),
        tables: 0,
        overflow,
        bytes_per_sector,
        sectors_per_chunk,
        sectors,
        media_type: if long { *rng.pick(&[0u8, 1, 3, 0x0e, 0x10, 2, 9]) } else { 0xff },
        granularity: if long { *rng.pick(&[0u32, 1, 64, 0xffffffff]) } else { 0 },
        set: [0; 16],
        md5: [0; 16],
        sha1: [0; 20],
        values: HashMap::new(),
        header_notes: None,
    };
    if long {
        i.set.copy_from_slice(&rng.bytes(16));
    }
    let volume_data = volume(&i, rng, chunks as u32);
    let salt = rng.next();
    let mut chunk = 0u64;
    let raw_only = !matches!(kind, Kind::Smart) && rng.chance(1, 5);
    for (index, tables) in plan.iter().enumerate() {
        let mut s = Segment::new(format!("{stem}.{}", extension(first_char, index + 1)), index + 1);
        if index == 0 {
            let mut put = |rng: &mut Rng, s: &mut Segment, wide: bool, times: usize| {
                let (t, v) = header_text(rng, wide);
                let raw: Vec<u8> = if wide {
                    let big = rng.chance(1, 3);
                    let bom = big || rng.chance(2, 3);
                    let units: Vec<u16> = bom.then_some(0xfeff).into_iter().chain(t.encode_utf16()).collect();
                    units.iter().flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect()
                } else {
                    t.into_bytes()
                };
                let z = zlib_of(rng, &raw);
                for _ in 0..times {
                    s.add(rng, if wide { "header2" } else { "header" }, &z, &[]);
                }
                for (n, v) in v {
                    if n == "t" && !wide {
                        i.header_notes.get_or_insert(v.clone());
                    }
                    i.values.entry(n).or_insert(v);
                }
            };
            if rng.chance(9, 10) {
                match kind {
                    Kind::Encase5 | Kind::Encase6 if rng.chance(2, 3) => {
                        put(rng, &mut s, true, 2);
                        if rng.chance(4, 5) {
                            put(rng, &mut s, false, 1);
                        }
                    }
                    _ => {
                        let times = 1 + rng.below(2) as usize;
                        put(rng, &mut s, false, times)
                    }
                }
            }
            let name = if rng.chance(1, 4) && long { "disk" } else { "volume" };
            s.add(rng, name, &volume_data, &[(0, volume_data.len() as u64)]);
        } else if long && rng.chance(4, 5) {
            s.add(rng, "data", &volume_data, &[(0, 1052)]);
        }
        for (k, n) in tables.iter().enumerate() {
            if rng.chance(1, 8) {
                let junk = rng.size(300);
                let junk = rng.data(junk);
                let name = *rng.pick(&["ltree", "session", "xheader", "ltypes", "error2", "incomplete"]);
                s.add(rng, name, &junk, &[]);
            }
            // the chunks and their places
            let start = s.next();
            let mut at = if inline { start + 24 + *n as u64 * 4 + if kind == Kind::Encase1 { 4 } else { 0 } } else { start };
            let pad = if rng.chance(1, 8) { rng.below(5000) } else { 0 };
            at += pad;
            let mut base = match kind {
                Kind::Encase6 => rng.below(at + 1),
                _ => 0,
            };
            if kind == Kind::Encase6 && rng.chance(1, 2) {
                base = start;
            }
            let crossing = overflow && k + 1 == tables.len();
            let cross_after = rng.below(*n as u64 + 1);
            if crossing {
                // the chunks reach beyond 2 GiB behind the base offset
                let room = match rng.below(4) {
                    0 => 0,
                    1 => block + 4,
                    _ => rng.below(cross_after * (block + 4) + 3000),
                };
                at = (base + (1 << 31) - 1).saturating_sub(room).max(at);
            }
            let body = at;
            let mut entries: Vec<u32> = Vec::new();
            let mut wide = false;
            for j in 0..*n {
                let media_at = chunk * block;
                let size = block.min(i.content.size - media_at);
                let offset = at - base;
                if crossing && !wide && offset > i32::MAX as u64 {
                    wide = true;
                }
                let ends_beyond = |z: u64| offset + z > i32::MAX as u64;
                let mut c = !raw_only && !wide && (kind == Kind::Smart || rng.chance(1, 2));
                let stored = if c {
                    let (z, o) = compressed(rng, size as usize);
                    if offset + z.len() as u64 + 8 > i32::MAX as u64 && j + 1 == *n && j == 0 {
                        c = false;
                        Vec::new()
                    } else {
                        i.content.put(media_at, o);
                        z
                    }
                } else {
                    Vec::new()
                };
                let stored = if c {
                    stored
                } else {
                    let o = fill(salt, media_at, size as usize);
                    i.content.put(media_at, o.clone());
                    let mut o = o;
                    sum(&mut o);
                    o
                };
                s.file.write(at, &stored);
                i.chunks.push((index, at, stored.len() as u64, (media_at, size), c));
                entries.push(offset as u32 | if c { 1 << 31 } else { 0 });
                // what follows a chunk that ends beyond 2 GiB has offsets of 32 bits
                wide |= ends_beyond(stored.len() as u64);
                at += stored.len() as u64;
                chunk += 1;
            }
            let t = table(base, &entries, long);
            let covered: &[(u64, u64)] = if long { &[(0, 28 + *n as u64 * 4)] } else { &[(0, 24)] };
            i.tables += 1;
            if inline {
                s.add_sized(rng, "table", at - start, covered);
                s.file.write(start, &t);
                let _ = body;
            } else {
                s.add_sized(rng, "sectors", at - start, &[]);
                s.add(rng, "table", &t, covered);
                if rng.chance(7, 8) {
                    s.add(rng, "table2", &t, covered);
                }
            }
        }
        if index + 1 < number {
            s.add(rng, "next", &[], &[]);
        } else {
            if long && number == 1 && rng.chance(4, 5) {
                s.add(rng, "data", &volume_data, &[(0, 1052)]);
            }
            let (md5, sha1) = (rng.bytes(16), rng.bytes(20));
            if rng.chance(1, 2) {
                let mut d: Vec<u8> = md5.iter().chain(&sha1).copied().collect();
                d.resize(76, 0);
                sum(&mut d);
                s.add(rng, "digest", &d, &[(0, 80)]);
                i.md5.copy_from_slice(&md5);
                i.sha1.copy_from_slice(&sha1);
            }
            if rng.chance(2, 3) {
                let mut d = md5.clone();
                d.extend(rng.bytes(16));
                sum(&mut d);
                s.add(rng, "hash", &d, &[(0, 36)]);
                i.md5.copy_from_slice(&md5);
            }
            s.add(rng, "done", &[], &[]);
        }
        i.segments.push(s);
    }
    i
}

/// An image with the given content: the files and the name of the first one.
pub fn pack(rng: &mut Rng, content: &Media) -> (Files, String) {
    let number = *rng.pick(&[1usize, 1, 2, 3, 20]);
    let block = 32768;
    let chunks = content.size.div_ceil(block);
    let i = Image {
        kind: Kind::Encase5,
        first: String::from("image.E01"),
        segments: Vec::new(),
        content: Media::new(content.size, block),
        chunks: Vec::new(),
        tables: 0,
        overflow: false,
        bytes_per_sector: 512,
        sectors_per_chunk: 64,
        sectors: content.size / 512,
        media_type: 1,
        granularity: 64,
        set: rng.bytes(16).try_into().unwrap(),
        md5: [0; 16],
        sha1: [0; 20],
        values: HashMap::new(),
        header_notes: None,
    };
    let volume_data = volume(&i, rng, chunks as u32);
    let zeros = zlib_of(rng, &vec![0; block as usize]);
    let mut out = Files::new();
    let each = chunks.div_ceil(number as u64).max(1);
    let mut chunk = 0;
    for index in 0..number {
        let name = format!("image.{}", extension('E', index + 1));
        let mut s = Segment::new(name.clone(), index + 1);
        if index == 0 {
            let (t, _) = header_text(rng, false);
            let z = zlib_of(rng, t.as_bytes());
            s.add(rng, "header", &z, &[]);
            s.add(rng, "volume", &volume_data, &[]);
        } else {
            s.add(rng, "data", &volume_data, &[]);
        }
        let last = if index + 1 == number { chunks } else { (chunk + each).min(chunks) };
        while chunk < last {
            let n = (last - chunk).min(1 + rng.below(3000));
            let start = s.next();
            let mut at = start;
            let mut entries = Vec::new();
            for _ in 0..n {
                let size = block.min(content.size - chunk * block);
                let mut data = content.get(chunk * block, size as usize);
                let c = size == block && data.iter().all(|b| *b == 0);
                if c {
                    data = zeros.clone();
                } else {
                    sum(&mut data);
                }
                s.file.write(at, &data);
                entries.push(at as u32 | if c { 1 << 31 } else { 0 });
                at += data.len() as u64;
                chunk += 1;
            }
            let t = table(0, &entries, true);
            s.add_sized(rng, "sectors", at - start, &[]);
            s.add(rng, "table", &t, &[]);
            s.add(rng, "table2", &t, &[]);
        }
        s.add(rng, if index + 1 == number { "done" } else { "next" }, &[], &[]);
        out.insert(name, s.file);
    }
    (out, i.first)
}

/// Some image: the files, the name of the first one, and the content.
pub fn sample(rng: &mut Rng) -> (Files, String, Media) {
    let small = rng.next() % 3 != 0;
    let i = image(rng, small);
    (files(&i), i.first.clone(), i.content)
}

/// The same with the digests that are stored.
pub fn sample_with_digests(rng: &mut Rng) -> (Files, String, Media, [Vec<u8>; 2]) {
    let small = rng.next() % 3 != 0;
    let i = image(rng, small);
    (files(&i), i.first.clone(), i.content, [i.md5.to_vec(), i.sha1.to_vec()])
}

fn files(i: &Image) -> Files {
    i.segments.iter().map(|s| (s.name.clone(), s.file.clone())).collect()
}

fn open(files: &Files, first: &str) -> Result<EwfImage, String> {
    let mut f = EwfImage::new();
    f.open(&resolver(files), &PathComponent::from(first)).map_err(|e| e.to_string())?;
    Ok(f)
}

fn value(v: &EwfHeaderValue) -> Value {
    match v {
        EwfHeaderValue::PosixTime(p) => Value::Date(p.timestamp),
        EwfHeaderValue::Byte(b) => Value::Text(b.elements.iter().map(|b| *b as char).collect()),
        v => Value::Text(v.to_string()),
    }
}

fn media_name(t: &EwfMediaType) -> u8 {
    match t {
        EwfMediaType::RemoveableDisk => 0,
        EwfMediaType::FixedDisk => 1,
        EwfMediaType::OpticalDisk => 3,
        EwfMediaType::LogicalEvidence => 0x0e,
        EwfMediaType::Memory => 0x10,
        EwfMediaType::Unknown => 0xff,
    }
}

fn facts(f: &EwfImage) -> String {
    let v: Vec<String> = TYPES.iter().map(|(n, t)| format!("{n}={:?}", f.get_header_value(t).map(value))).collect();
    format!(
        "{} {} {} {} {} {:x?} {:x?} {} {}",
        f.media_size, f.bytes_per_sector, f.sectors_per_chunk, f.number_of_sectors, f.error_granularity, f.md5_hash, f.sha1_hash, f.set_identifier.to_string(), v.join(" ")
    )
}

fn uuid_text(b: &[u8; 16]) -> String {
    format!(
        "{:08x}-{:04x}-{:04x}-{:02x}{:02x}-{}",
        u32::from_le_bytes([b[0], b[1], b[2], b[3]]),
        u16::from_le_bytes([b[4], b[5]]),
        u16::from_le_bytes([b[6], b[7]]),
        b[8],
        b[9],
        b[10..].iter().map(|x| format!("{x:02x}")).collect::<String>()
    )
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let i = image(&mut ctx.rng, false);
    let all = files(&i);
    let describe = || {
        format!(
            "{:?} {} segments, {} tables, {} chunks of {}, media {}, first {}, sections of segment 1: {:?}",
            i.kind,
            i.segments.len(),
            i.tables,
            i.chunks.len(),
            i.content.unit,
            i.content.size,
            i.first,
            i.segments[0].sections.iter().map(|s| format!("{}@{}+{}", s.name, s.at, s.size)).collect::<Vec<_>>()
        )
    };
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(i.content.hash() ^ i.segments[0].file.hash());
    let f = match no_panic("EWF", || open(&all, &i.first))? {
        Ok(f) => f,
        Err(e) => fail!("ewf:refused", "valid image refused: {e}"),
    };
    require_eq!(
        (f.media_size, f.bytes_per_sector, f.sectors_per_chunk, f.number_of_sectors as u64, f.error_granularity),
        (i.content.size, i.bytes_per_sector, i.sectors_per_chunk, i.sectors, i.granularity),
        "ewf:values",
        "media size, bytes per sector, sectors per chunk, sectors, error granularity"
    );
    let known = [0u8, 1, 3, 0x0e, 0x10].contains(&i.media_type);
    require_eq!(media_name(&f.media_type), if known { i.media_type } else { 0xff }, "ewf:values", "media type");
    require_eq!((f.md5_hash, f.sha1_hash), (i.md5, i.sha1), "ewf:hash", "stored hashes");
    require_eq!(f.set_identifier.to_string(), uuid_text(&i.set), "ewf:values", "set identifier");
    let mut notes = false;
    for (n, t) in &TYPES {
        let expected = i.values.get(n).cloned();
        if *n == "t" && expected != i.header_notes && f.get_header_value(t).map(value) == i.header_notes {
            // known finding, told at the end
            notes = true;
            continue;
        }
        require_eq!(f.get_header_value(t).map(value), expected, "ewf:header", "header value {n}");
        if let Some(Value::Date(d)) = expected {
            require_eq!(f.get_header_value(t).unwrap().to_string(), PosixTime32::new(d).to_iso8601_string(), "ewf:header", "text of date value {n}");
            ctx.count("date values");
        }
    }
    ctx.add("header values", i.values.len() as u64);
    let s: DataStreamReference = Arc::new(RwLock::new(f));
    drive(ctx, "ewf", &s, &i.content, 30, 9000)?;
    if i.content.size < 3_000_000 {
        sweep(ctx, "ewf", &s, &i.content)?;
        if i.chunks.len() > 64 || i.segments.len() > 16 {
            rewind(&s);
            drive(ctx, "ewf", &s, &i.content, 60, 5000)?;
        }
    }
    ctx.count(match i.kind {
        Kind::Smart => "SMART images",
        Kind::Original => "images after the original description",
        Kind::Encase1 => "EnCase 1 images",
        Kind::Encase5 => "EnCase 2 to 5 images",
        Kind::Encase6 => "EnCase 6 images",
    });
    ctx.count(match i.segments.len() {
        1 => "images of one segment",
        2..=16 => "images of 2 to 16 segments",
        17..=99 => "images of 17 to 99 segments",
        100..=775 => "images of 100 to 775 segments",
        _ => "images of more than 775 segments",
    });
    if i.overflow {
        ctx.count("tables with offsets beyond 2 GiB");
    }
    ctx.add("compressed chunks", i.chunks.iter().filter(|c| c.4).count() as u64);
    ctx.add("uncompressed chunks", i.chunks.iter().filter(|c| !c.4).count() as u64);
    let expected = i.values.get("t").cloned();
    damaged(ctx, i, all)?;
    require!(!notes, "ewf:notes of header2", "notes {expected:?} of the header2 section were ignored");
    Ok(())
}

/// Damage that a checksum or a rule of the format tells.
fn damaged(ctx: &mut Ctx, i: Image, mut all: Files) -> CaseResult {
    let k = ctx.rng.usize(0, i.segments.len() - 1);
    let seg = &i.segments[k];
    let file = all.get_mut(&seg.name).unwrap();
    let what = match ctx.rng.below(8) {
        0..=2 => {
            let places: Vec<(u64, u64, &str)> = seg.sections.iter().flat_map(|s| s.covered.iter().map(|c| (c.0, c.1, s.name.as_str()))).collect();
            let (o, l, n) = *ctx.rng.pick(&places);
            let at = o + ctx.rng.below(l);
            let b = file.get(at, 1)[0];
            let x = ctx.rng.range(1, 255) as u8;
            file.write(at, &[b ^ x]);
            format!("byte {} of the structure at {o} in a {n} section changed", at - o)
        }
        3 => {
            // a whole structure of another place or a number with a right checksum
            let at = *ctx.rng.pick(&[0u64, 1, 2, 7, 8, 11, 12]);
            let b = file.get(at, 1)[0];
            let x = ctx.rng.range(1, 255) as u8;
            file.write(at, &[b ^ x]);
            format!("byte {at} of the file header changed")
        }
        4 => {
            let n = (k as u64 + 1 + ctx.rng.range(1, 0xfffe)) as u16;
            file.write(9, &n.to_le_bytes());
            format!("segment number {n}")
        }
        5 => {
            all.remove(&seg.name);
            "missing segment".to_string()
        }
        6 => {
            let s: Vec<&Sec> = seg.sections.iter().filter(|s| !matches!(s.name.as_str(), "done" | "next")).collect();
            if s.is_empty() {
                return Ok(());
            }
            let s = *ctx.rng.pick(&s);
            let wrong = s.size.wrapping_add(*ctx.rng.pick(&[1u64, u64::MAX, 76, 1 << 32]));
            file.write(s.at, &section_header(&s.name, s.at + s.size, wrong));
            format!("size of section {} is {wrong}", s.name)
        }
        _ => match seg.sections.iter().find(|s| s.name == "data") {
            Some(s) => {
                let mut d = file.get(s.at + 76, 1048);
                let j = ctx.rng.usize(64, 79);
                d[j] ^= ctx.rng.range(1, 255) as u8;
                sum(&mut d);
                file.write(s.at + 76, &d);
                "another set identifier".to_string()
            }
            None => {
                let n = ctx.rng.range(1, 75);
                *file = file.resized(file.size - n);
                format!("last {n} bytes missing")
            }
        },
    };
    let r = no_panic("EWF", || open(&all, &i.first).map(|_| ()))?;
    require!(r.is_err(), "ewf:damage", "segment {}: {what}: was accepted", k + 1);
    ctx.count("damaged or incomplete images refused");
    // the checksum of a compressed chunk
    let packed: Vec<&(usize, u64, u64, (u64, u64), bool)> = i.chunks.iter().filter(|c| c.4).collect();
    if packed.is_empty() || i.segments.len() > 20 {
        return Ok(());
    }
    let c = *ctx.rng.pick(&packed);
    let mut all = files(&i);
    let file = all.get_mut(&i.segments[c.0].name).unwrap();
    let at = c.1 + c.2 - 1 - ctx.rng.below(4);
    let byte = file.get(at, 1)[0] ^ ctx.rng.range(1, 255) as u8;
    file.write(at, &[byte]);
    let mut f = match no_panic("EWF", || open(&all, &i.first))? {
        Ok(f) => f,
        Err(e) => fail!("ewf:refused", "image with a damaged chunk refused: {e}"),
    };
    let mut buf = vec![0u8; c.3.1 as usize];
    let r = no_panic("EWF", || {
        use keramics_core::DataStream;
        f.seek(std::io::SeekFrom::Start(c.3.0))?;
        f.read(&mut buf)
    })?;
    require!(r.is_err(), "ewf:damaged chunk", "the compressed chunk at {} was read despite of its wrong checksum", c.3.0);
    ctx.count("damaged chunks refused");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let i = image(&mut ctx.rng, true);
    let mut all = files(&i);
    let k = ctx.rng.usize(0, i.segments.len() - 1);
    let seg = &i.segments[k];
    let file = all.get_mut(&seg.name).unwrap();
    let s = ctx.rng.pick(&seg.sections).clone();
    let (fix, places): (bool, Vec<(u64, u64)>) = match ctx.rng.below(6) {
        0 => (false, vec![(0, file.size.min(3000))]),
        1 => (ctx.rng.chance(4, 5), vec![(s.at, 40)]),
        _ => (ctx.rng.chance(7, 8), s.covered.iter().skip(1).map(|c| (c.0, c.1.min(84))).chain([(s.at + 76, (s.size - 76).min(200))]).filter(|c| c.1 > 0).collect()),
    };
    if !places.is_empty() {
        mutate_media(&mut ctx.rng, file, &places);
    }
    if ctx.rng.chance(1, 10) {
        // a section that is taken for another one
        let name = *ctx.rng.pick(&["errors2", "table", "table2", "volume", "disk", "data", "hash", "digest", "header", "header2", "sectors", "done", "next"]);
        let mut n = [0u8; 16];
        n[..name.len()].copy_from_slice(name.as_bytes());
        file.write(s.at, &n);
    }
    if fix && file.size >= s.at + 76 {
        let mut h = file.get(s.at, 72);
        sum(&mut h);
        file.write(s.at, &h);
        let d = s.at + 76;
        let mut again = |at: u64, len: u64| {
            if at + len + 4 <= file.size {
                let mut b = file.get(at, len as usize);
                sum(&mut b);
                file.write(at, &b);
            }
        };
        match s.name.as_str() {
            "volume" | "disk" | "data" => again(d, s.size - 76 - 4),
            "digest" => again(d, 76),
            "hash" => again(d, 32),
            "table" | "table2" => {
                again(d, 20);
                if s.covered[1].1 > 28 {
                    again(d + 24, s.covered[1].1 - 28);
                }
            }
            _ => {}
        }
    }
    ctx.distinct_hash(file.hash());
    let first = i.first;
    probe(ctx, "EWF", &|| {
        let f = open(&all, &first)?;
        Ok(Opened { text: facts(&f), streams: vec![Arc::new(RwLock::new(f))] })
    })
}
