//! UDIF disk images (.dmg), valid and damaged.

use std::sync::{Arc, RwLock};

use encoders::{bzip2, deflate, greedy, lz, lzfse, tokens};
use keramics_core::DataStreamReference;
use keramics_formats::udif::{UdifCompressionMethod, UdifFile};
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;
use crate::sparse::{base64, gap, plist};

const ADC: u32 = 0x80000004;
const ZLIB: u32 = 0x80000005;
const BZIP2: u32 = 0x80000006;
const LZFSE: u32 = 0x80000007;

struct Image {
    file: Media,
    content: Media,
    method: u32,
    used: bool,
    /// Data fork.
    fork: (u64, u64),
    /// Compressed chunks: number of the table and of the entry, place in the file and size.
    chunks: Vec<(usize, usize, u64, u64)>,
    /// Tables with the entries (type, start sector, sectors, offset, size).
    tables: Vec<Table>,
    kinds: [u64; 4],
}

struct Table {
    start: u64,
    sectors: u64,
    entries: Vec<[u64; 5]>,
}

impl Table {
    fn bytes(&self, salt: u64) -> Vec<u8> {
        let mut v = vec![0u8; 204];
        v[0..4].copy_from_slice(b"mish");
        be32(&mut v, 4, 1);
        be64(&mut v, 8, self.start);
        be64(&mut v, 16, self.sectors);
        be32(&mut v, 32, 520);
        be32(&mut v, 36, self.entries.len() as u32);
        be32(&mut v, 64, 2);
        be32(&mut v, 68, 32);
        be32(&mut v, 72, salt as u32);
        be32(&mut v, 200, self.entries.len() as u32);
        for e in &self.entries {
            let mut b = vec![0u8; 40];
            be32(&mut b, 0, e[0] as u32);
            for k in 1..5 {
                be64(&mut b, 8 * k, e[k]);
            }
            v.extend(b);
        }
        v
    }
}

/// Compressed data of some sectors and what it stands for.
fn chunk(rng: &mut Rng, method: u32, n: usize) -> (Vec<u8>, Vec<u8>) {
    loop {
        let r = any_chunk(rng, method, n);
        // the encoders may make blocks of single bytes
        if n < 8000 || r.0.len() < 2 * n {
            return r;
        }
    }
}

fn any_chunk(rng: &mut Rng, method: u32, n: usize) -> (Vec<u8>, Vec<u8>) {
    match method {
        ADC => {
            let (t, o) = tokens(rng, n, lz::ADC);
            (lz::adc(rng, &t, &o).0, o)
        }
        ZLIB => {
            let (t, o) = tokens(rng, n, deflate::LIMITS);
            let d = deflate::encode(rng, &t, &o).0;
            (deflate::zlib(rng, 32768, &d, &o), o)
        }
        BZIP2 => {
            let o = rng.data(n);
            let level = rng.range(1, 9) as u8;
            let limit = if rng.chance(1, 3) { rng.usize(500, 5000) } else { 900_000 };
            (bzip2::encode(rng, level, &o, limit).0, o)
        }
        _ => {
            let (t, o) = tokens(rng, n, lzfse::LIMITS);
            let kinds: &[u64] = *rng.pick(&[&[2u64] as &[u64], &[0, 1, 2], &[1], &[2, 3]]);
            (lzfse::encode(rng, &t, &o, kinds).0, o)
        }
    }
}

fn text(rng: &mut Rng, tables: &[Vec<u8>]) -> String {
    let mut blkx = String::new();
    for (i, t) in tables.iter().enumerate() {
        let mut b = String::from("\n\t\t\t\t");
        let step = *rng.pick(&[52usize, 60, 64, 76, 100_000]);
        for line in base64(t).as_bytes().chunks(step) {
            b.push_str(std::str::from_utf8(line).unwrap());
            b.push_str(*rng.pick(&["\n\t\t\t\t", "\n", "\r\n", "  \n\t"]));
        }
        let mut rows = vec![
            "<key>Attributes</key><string>0x0050</string>".to_string(),
            format!("<key>CFName</key><string>Part {i} (Apple_HFS : {i})</string>"),
            format!("<key>Data</key>\n<data>{b}</data>"),
            format!("<key>ID</key><string>{}</string>", i as i64 - 1),
            format!("<key>Name</key><string>whole disk &amp; more {i}</string>"),
        ];
        if rng.chance(1, 2) {
            rng.shuffle(&mut rows);
        }
        blkx.push_str(&gap(rng));
        blkx.push_str(&format!("<dict>{}</dict>", rows.join(&gap(rng))));
    }
    let mut rows = vec![
        if tables.is_empty() { "<key>blkx</key><array></array>".to_string() } else { format!("<key>blkx</key>{}<array>{blkx}{}</array>", gap(rng), gap(rng)) },
        "<key>plst</key><array><dict><key>Attributes</key><string>0x0050</string><key>Data</key><data>\nAAAAAA==\n</data><key>ID</key><string>0</string><key>Name</key><string></string></dict></array>".to_string(),
    ];
    if rng.chance(1, 2) {
        rng.shuffle(&mut rows);
    }
    let fork = format!("<dict>{}{}</dict>", gap(rng), rows.join(&gap(rng)));
    plist(rng, &[("resource-fork", fork)])
}

fn image(rng: &mut Rng, small: bool) -> Image {
    let method = *rng.pick(&[ADC, ZLIB, ZLIB, BZIP2, LZFSE]);
    let salt = rng.next();
    let mut file = Media::new(0, 4096);
    let fork_at = match rng.below(6) {
        0 | 1 => 0,
        2 => 512 * rng.below(100),
        3 => rng.below(10_000),
        4 => 1 << 33,
        _ => 0,
    };
    let mut next = fork_at;
    let mut sectors = 0u64;
    let mut puts: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut tables = Vec::new();
    let mut chunks = Vec::new();
    let mut used = false;
    let mut kinds = [0u64; 4];
    // chunks of a sector, more of them than a reader keeps, at times
    let many = !small && rng.chance(1, 8);
    let n_tables = if many { 1 } else { *rng.pick(&[0usize, 1, 1, 1, 2, 3, 5]) };
    let mut budget = if small { 20_000usize } else { 120_000 };
    let mut last: Option<([u64; 5], Vec<u8>)> = None;
    for t in 0..n_tables {
        let start = sectors;
        let mut entries: Vec<[u64; 5]> = Vec::new();
        let n = if many { rng.usize(70, 200) } else { rng.usize(0, 12) };
        for _ in 0..n {
            if rng.chance(1, 12) {
                // comments, which have no sectors
                entries.push([0x7ffffffe, sectors - start, 0, next, 0]);
            }
            let at = sectors * 512;
            let mut kind = if many { 4 + rng.below(4) } else { rng.below(8) };
            if budget == 0 {
                kind = 0;
            }
            let e = match kind {
                0 | 1 => {
                    let n = match rng.below(6) {
                        0 => 1 + rng.below(1 << 40),
                        1 => 2048 * (1 + rng.below(9)),
                        _ => 1 + rng.below(60),
                    };
                    kinds[0] += 1;
                    let o = if rng.chance(1, 2) { next } else { 0 };
                    [*rng.pick(&[0u64, 2, 2]), sectors - start, n, o, 0]
                }
                2 | 3 => {
                    let n = if rng.chance(1, 6) { rng.below(3000) + 1 } else { 1 + rng.below(20) };
                    let l = ((n * 512) as usize).min(budget.max(512));
                    let n = (l / 512) as u64;
                    budget = budget.saturating_sub(l);
                    next += rng.below(3) * rng.below(20);
                    let v = fill(salt, at, n as usize * 512);
                    file.write(next, &v);
                    puts.push((at, v));
                    kinds[1] += 1;
                    let e = [1, sectors - start, n, next, n * 512];
                    next += n * 512;
                    e
                }
                _ => {
                    if let Some((e, v)) = last.as_ref().filter(|_| rng.chance(1, 10)) {
                        // the same data once more
                        let mut e = *e;
                        e[1] = sectors - start;
                        puts.push((at, v.clone()));
                        kinds[3] += 1;
                        e
                    } else {
                        let n = match rng.below(120) {
                            0 if !small && budget > 100_000 => *rng.pick(&[2048u64, 2048, 2047, 512, 1024]),
                            1..=6 if !many => 1 + rng.below(60),
                            _ if many => 1,
                            _ => 1 + rng.below(8),
                        };
                        let (c, v) = chunk(rng, method, n as usize * 512);
                        budget = budget.saturating_sub(v.len());
                        next += rng.below(3) * rng.below(20);
                        file.write(next, &c);
                        puts.push((at, v.clone()));
                        kinds[2] += 1;
                        used = true;
                        let e = [method as u64, sectors - start, n, next, c.len() as u64];
                        chunks.push((t, entries.len(), next, c.len() as u64));
                        next += c.len() as u64;
                        last = Some((e, v));
                        e
                    }
                }
            };
            sectors += e[2];
            entries.push(e);
        }
        if rng.chance(9, 10) {
            entries.push([0xffffffff, sectors - start, 0, next, 0]);
            if rng.chance(1, 6) {
                // not looked at
                entries.push([1, 1, 1, 1, 1]);
            }
        }
        tables.push(Table { start, sectors: sectors - start, entries });
    }
    let mut content = Media::new(sectors * 512, 512);
    for (at, v) in puts {
        content.write(at, &v);
    }
    let fork_size = next - fork_at;
    let raw: Vec<Vec<u8>> = tables.iter().map(|t| t.bytes(salt)).collect();
    finish(rng, &mut file, next, (fork_at, fork_size), Some(&raw), sectors);
    Image { file, content, method, used, fork: (fork_at, fork_size), chunks, tables, kinds }
}

/// Puts the plist and the footer behind the data.
fn finish(rng: &mut Rng, file: &mut Media, mut next: u64, fork: (u64, u64), tables: Option<&[Vec<u8>]>, sectors: u64) {
    let mut f = vec![0u8; 512];
    f[0..4].copy_from_slice(b"koly");
    be32(&mut f, 4, 4);
    be32(&mut f, 8, 512);
    be32(&mut f, 12, 1);
    be64(&mut f, 24, fork.0);
    be64(&mut f, 32, fork.1);
    be32(&mut f, 56, 1);
    be32(&mut f, 60, 1);
    let id = rng.bytes(16);
    f[64..80].copy_from_slice(&id);
    be32(&mut f, 80, 2);
    be32(&mut f, 84, 32);
    let sum = rng.bytes(4);
    f[88..92].copy_from_slice(&sum);
    if let Some(t) = tables {
        next += rng.below(2) * rng.below(1000);
        let p = text(rng, t);
        be64(&mut f, 216, next);
        be64(&mut f, 224, p.len() as u64);
        file.write(next, p.as_bytes());
        next += p.len() as u64;
    }
    be32(&mut f, 352, 2);
    be32(&mut f, 488, 1);
    be64(&mut f, 492, sectors);
    next += rng.below(2) * rng.below(600);
    file.write(next, &f);
    file.size = next + 512;
}

/// An image with the given content.
pub fn pack(rng: &mut Rng, content: &Media) -> Media {
    let mut file = Media::new(0, 4096);
    let salt = rng.next();
    let sectors = content.size / 512;
    let n = *rng.pick(&[8u64, 128, 512]);
    let mut entries: Vec<[u64; 5]> = Vec::new();
    let (mut at, mut next) = (0, 0);
    for k in content.pieces(n * 512) {
        if k * n > at {
            entries.push([*rng.pick(&[0u64, 2]), at, k * n - at, 0, 0]);
        }
        at = k * n;
        let c = n.min(sectors - at);
        let data = content.get(at * 512, c as usize * 512);
        let (kind, stored) = if rng.chance(1, 2) {
            (1, data)
        } else {
            let t = greedy(&data, deflate::LIMITS);
            let d = deflate::encode(rng, &t, &data).0;
            let z = deflate::zlib(rng, 32768, &d, &data);
            // there is a limit of 8 MiB
            if z.len() < 4 << 20 { (ZLIB as u64, z) } else { (1, data) }
        };
        file.write(next, &stored);
        entries.push([kind, at, c, next, stored.len() as u64]);
        next += stored.len() as u64;
        at += c;
    }
    if at < sectors {
        entries.push([0, at, sectors - at, 0, 0]);
    }
    entries.push([0xffffffff, sectors, 0, next, 0]);
    let t = Table { start: 0, sectors, entries };
    finish(rng, &mut file, next, (0, next), Some(&[t.bytes(salt)]), sectors);
    file
}

/// Some image and its content.
pub fn sample(rng: &mut Rng) -> (Media, Media) {
    let i = image(rng, false);
    (i.file, i.content)
}

fn open(file: &Media) -> Result<UdifFile, String> {
    let mut f = UdifFile::new();
    f.read_data_stream(&sparse_stream(file)).map_err(|e| e.to_string())?;
    Ok(f)
}

fn method_name(m: &UdifCompressionMethod) -> &'static str {
    match m {
        UdifCompressionMethod::Adc => "ADC",
        UdifCompressionMethod::Bzip2 => "bzip2",
        UdifCompressionMethod::Lzfse => "LZFSE",
        UdifCompressionMethod::Lzma => "LZMA",
        UdifCompressionMethod::None => "none",
        UdifCompressionMethod::Zlib => "zlib",
    }
}

fn raw_case(ctx: &mut Ctx) -> CaseResult {
    // no plist: the data fork is the medium
    let rng = &mut ctx.rng;
    let at = rng.below(3) * rng.below(5000);
    let len = rng.size(60_000);
    let v = fill(rng.next(), 0, len);
    let mut file = Media::new(0, 4096);
    file.write(at, &v);
    finish(rng, &mut file, at + len as u64, (at, len as u64), None, len as u64 / 512);
    ctx.detail(format!("data fork of {len} bytes at {at} without plist"));
    ctx.distinct_hash(file.hash());
    let f = match no_panic("UDIF", || open(&file))? {
        Ok(f) => f,
        Err(e) => fail!("udif:refused", "valid image refused: {e}"),
    };
    require_eq!(method_name(&f.compression_method), "none", "udif:values", "compression method");
    let mut content = Media::from_bytes(&v);
    content.unit = content.unit.max(1);
    let s: DataStreamReference = Arc::new(RwLock::new(f));
    drive(ctx, "udif", &s, &content, 25, 9000)?;
    sweep(ctx, "udif", &s, &content)?;
    ctx.count("images without plist");
    Ok(())
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    if ctx.index % 16 == 0 {
        return raw_case(ctx);
    }
    let i = image(&mut ctx.rng, false);
    let describe = || {
        let mut s = format!("method {:#x}, medium of {} bytes, data fork {:?}", i.method, i.content.size, i.fork);
        for t in &i.tables {
            s.push_str(&format!("; table at {}: {:x?}", t.start, &t.entries[..t.entries.len().min(60)]));
        }
        s
    };
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(i.file.hash());
    let f = match no_panic("UDIF", || open(&i.file))? {
        Ok(f) => f,
        Err(e) => fail!("udif:refused", "valid image refused: {e}"),
    };
    require_eq!((f.media_size, f.bytes_per_sector), (i.content.size, 512), "udif:values", "media size and sector size");
    let name = match i.method {
        _ if !i.used => "none",
        ADC => "ADC",
        ZLIB => "zlib",
        BZIP2 => "bzip2",
        _ => "LZFSE",
    };
    require_eq!(method_name(&f.compression_method), name, "udif:values", "compression method");
    let s: DataStreamReference = Arc::new(RwLock::new(f));
    drive(ctx, "udif", &s, &i.content, 30, 9000)?;
    if i.content.size < 3_000_000 {
        sweep(ctx, "udif", &s, &i.content)?;
        if i.chunks.len() > 64 {
            rewind(&s);
            drive(ctx, "udif", &s, &i.content, 60, 5000)?;
            ctx.count("images of more chunks than are kept");
        }
    }
    if i.used {
        ctx.count(match name {
            "ADC" => "ADC images",
            "zlib" => "zlib images",
            "bzip2" => "bzip2 images",
            _ => "LZFSE images",
        });
    }
    ctx.add("sparse ranges", i.kinds[0]);
    ctx.add("uncompressed ranges", i.kinds[1]);
    ctx.add("compressed ranges", i.kinds[2]);
    ctx.add("ranges with the data of another one", i.kinds[3]);
    refused(ctx, i)
}

/// Images whose tables contradict themselves.
fn refused(ctx: &mut Ctx, mut i: Image) -> CaseResult {
    let places: Vec<(usize, usize)> = i
        .tables
        .iter()
        .enumerate()
        .flat_map(|(t, x)| x.entries.iter().take_while(|e| e[0] != 0xffffffff).enumerate().filter(|(_, e)| e[0] != 0x7ffffffe).map(move |(k, _)| (t, k)))
        .collect();
    if places.is_empty() || !ctx.rng.chance(1, 2) {
        return Ok(());
    }
    let (t, k) = *ctx.rng.pick(&places);
    let end = i.fork.0 + i.fork.1;
    let e = &mut i.tables[t].entries[k];
    let what = match ctx.rng.below(6) {
        0 => {
            e[1] += 1 + ctx.rng.below(5);
            "an entry that leaves a gap"
        }
        1 if e[1] > 0 => {
            e[1] -= 1;
            "an entry that overlaps"
        }
        2 if e[0] != 0 && e[0] != 2 => {
            e[3] = end + ctx.rng.below(600);
            "data behind the data fork"
        }
        3 if e[0] != 0 && e[0] != 2 => {
            e[4] = end - e[3] + 1 + ctx.rng.below(600);
            "data that reaches beyond the data fork"
        }
        4 => {
            e[0] = *ctx.rng.pick(&[3u64, 0x80000001, 0x80000009, 0x7fffffff]);
            "an unknown type"
        }
        _ => {
            e[2] = 0;
            "an entry without sectors"
        }
    };
    let raw: Vec<Vec<u8>> = i.tables.iter().map(|t| t.bytes(0)).collect();
    let sectors = i.content.size / 512;
    let mut file = i.file.resized(end);
    finish(&mut ctx.rng, &mut file, end, i.fork, Some(&raw), sectors);
    let r = no_panic("UDIF", || open(&file).map(|_| ()))?;
    require!(r.is_err(), "udif:contradiction", "table {t} entry {k}: {what} was accepted");
    ctx.count("contradicting tables refused");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut i = image(&mut ctx.rng, true);
    let end = i.fork.0 + i.fork.1;
    let sectors = i.content.size / 512;
    match ctx.rng.below(4) {
        0 => {
            // the file, mostly the footer
            let size = i.file.size;
            mutate_media(&mut ctx.rng, &mut i.file, &[(size - 512, 40), (size - 512 + 208, 40), (size - 512, 512)]);
        }
        1 if !i.chunks.is_empty() => {
            let places: Vec<(u64, u64)> = i.chunks.iter().map(|c| (c.2, c.3)).collect();
            mutate_media(&mut ctx.rng, &mut i.file, &places);
        }
        2 => {
            // the property list
            let raw: Vec<Vec<u8>> = i.tables.iter().map(|t| t.bytes(0)).collect();
            let mut p = text(&mut ctx.rng, &raw).into_bytes();
            mutate(&mut ctx.rng, &mut p, &[]);
            let mut f = i.file.get(i.file.size - 512, 512);
            be64(&mut f, 216, end);
            be64(&mut f, 224, p.len() as u64);
            p.extend(f);
            i.file = i.file.resized(end);
            i.file.write(end, &p);
            i.file.size = end + p.len() as u64;
        }
        _ => {
            let mut raw: Vec<Vec<u8>> = i.tables.iter().map(|t| t.bytes(0)).collect();
            for _ in 0..ctx.rng.usize(1, 3) {
                if raw.is_empty() {
                    break;
                }
                let k = ctx.rng.usize(0, raw.len() - 1);
                let entries = i.tables[k].entries.len();
                let mut places = vec![(0, 24), (200, 4)];
                for j in 0..entries {
                    places.push((204 + j * 40, 40));
                    places.push((204 + j * 40 + 8, 32));
                }
                if ctx.rng.chance(1, 4) && entries > 1 {
                    // entries of each other's place
                    let (a, b) = (ctx.rng.usize(0, entries - 1), ctx.rng.usize(0, entries - 1));
                    let (x, y) = (204 + a * 40 + 24, 204 + b * 40 + 24);
                    if raw[k].len() < 204 + entries * 40 {
                        continue;
                    }
                    let v = raw[k][x..x + 16].to_vec();
                    raw[k][y..y + 16].copy_from_slice(&v);
                } else {
                    mutate(&mut ctx.rng, &mut raw[k], &places);
                }
            }
            i.file = i.file.resized(end);
            finish(&mut ctx.rng, &mut i.file, end, i.fork, Some(&raw), sectors);
        }
    }
    ctx.distinct_hash(i.file.hash());
    let file = i.file;
    probe(ctx, "UDIF", &|| {
        let f = open(&file)?;
        Ok(Opened { text: format!("{} {}", f.media_size, method_name(&f.compression_method)), streams: vec![Arc::new(RwLock::new(f))] })
    })
}
