//! Volume systems: MBR, GPT and APM.

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::apm::ApmVolumeSystem;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_formats::mbr::MbrVolumeSystem;
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

/// A disk whose every byte tells its place.
fn disk(rng: &mut Rng, size: usize) -> Vec<u8> {
    let salt = rng.next();
    let mut v = Vec::with_capacity(size + 8);
    let mut i = salt | 1;
    while v.len() < size {
        i = i.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.extend_from_slice(&(i >> 13).to_le_bytes());
    }
    v.truncate(size);
    v
}

#[derive(Debug)]
struct Part {
    index: usize,
    offset: u64,
    size: u64,
    kind: u8,
    flags: u8,
}

struct Mbr {
    disk: Vec<u8>,
    bps: usize,
    identity: u32,
    parts: Vec<Part>,
    records: Vec<usize>,
    /// The bytes per sector can be told from the disk.
    detectable: bool,
}

fn entry(v: &mut [u8], o: usize, flags: u8, kind: u8, lba: u32, n: u32, rng: &mut Rng) {
    v[o] = flags;
    let chs = rng.bytes(6);
    v[o + 1..o + 4].copy_from_slice(&chs[..3]);
    v[o + 4] = kind;
    v[o + 5..o + 8].copy_from_slice(&chs[3..]);
    le32(v, o + 8, lba);
    le32(v, o + 12, n);
}

const KINDS: &[u8] = &[0x01, 0x04, 0x06, 0x07, 0x0b, 0x0c, 0x0e, 0x82, 0x83, 0xa5, 0xee, 0xef, 0xff, 0x10, 0x14];

fn mbr(rng: &mut Rng) -> Mbr {
    let bps = *rng.pick(&[512usize, 512, 512, 1024, 2048, 4096]);
    let mut parts = Vec::new();
    let mut records = vec![0];
    // A plan of the disk in sectors first: primaries and the extended partition do not overlap.
    let slots = rng.usize(0, 4);
    let extended = if slots > 0 && rng.chance(2, 3) { Some(rng.usize(0, slots - 1)) } else { None };
    let mut next = rng.usize(1, 8);
    let mut rows: Vec<(usize, u8, u8, usize, usize)> = Vec::new();
    let mut chain: Vec<(usize, Option<(u8, u8, usize, usize)>, usize)> = Vec::new();
    let mut empty_lead = 0;
    for slot in 0..4 {
        if slot >= slots && rng.chance(3, 4) {
            continue;
        }
        if Some(slot) == extended {
            let start = next;
            let count = match rng.below(8) {
                0 => 0,
                1..=4 => rng.usize(1, 4),
                5 | 6 => rng.usize(1, 20),
                _ => rng.usize(20, 60),
            };
            let mut at = start;
            for k in 0..count.max(1) {
                let logical = if count == 0 || rng.chance(1, 20) {
                    None
                } else {
                    let gap = rng.usize(1, 4);
                    let n = rng.usize(1, 6);
                    Some((*rng.pick(&[0u8, 0x80]), *rng.pick(KINDS), gap, n))
                };
                let used = logical.map_or(1, |l| l.2 + l.3);
                chain.push((at, logical, used));
                at += used + if k + 1 < count { rng.usize(0, 3) } else { 0 };
            }
            // EBRs need not be in the order of their place
            if chain.len() > 2 && rng.chance(1, 4) {
                let tail = &mut chain[1..];
                rng.shuffle(tail);
            }
            let total = at - start + rng.usize(0, 4);
            rows.push((slot, *rng.pick(&[5u8, 5, 15]), 0, start, total));
            next = start + total;
        } else if rng.chance(1, 5) {
            empty_lead += 1;
            continue;
        } else {
            let n = match rng.below(5) { 0 => 0, 1 => 1, _ => rng.usize(1, 40) };
            rows.push((slot, *rng.pick(KINDS), *rng.pick(&[0u8, 0x80, 0x80, 0x01]), next, n));
            next += n + rng.usize(0, 5);
        }
    }
    let _ = empty_lead;
    if rng.chance(1, 3) {
        // the entries are not in the order of the disk
        let mut order: Vec<usize> = rows.iter().map(|r| r.0).collect();
        rng.shuffle(&mut order);
        for (r, s) in rows.iter_mut().zip(order) {
            r.0 = s;
        }
    }
    let tail = rng.usize(0, 3);
    let total = (next + tail).max(1);
    let mut d = disk(rng, total * bps);
    d.resize(d.len().max(512), 0);
    let head = 512.min(d.len());
    for b in d[446..head].iter_mut() {
        *b = 0;
    }
    d[510] = 0x55;
    d[511] = 0xaa;
    let identity = u32::from_le_bytes(d[440..444].try_into().unwrap());
    rows.sort();
    for (slot, kind, flags, lba, n) in rows.iter() {
        entry(&mut d, 446 + slot * 16, *flags, *kind, *lba as u32, *n as u32, rng);
        if *kind != 5 && *kind != 15 {
            parts.push(Part { index: *slot, offset: (*lba * bps) as u64, size: (*n * bps) as u64, kind: *kind, flags: *flags });
        }
    }
    let mut ebr_first = None;
    for (k, (at, logical, _)) in chain.iter().enumerate() {
        let first = chain[0].0;
        let o = at * bps;
        ebr_first.get_or_insert(first);
        records.push(o);
        for b in d[o..o + 512].iter_mut() {
            *b = 0;
        }
        d[o + 510] = 0x55;
        d[o + 511] = 0xaa;
        if let Some((flags, kind, gap, n)) = logical {
            entry(&mut d, o + 446, *flags, *kind, *gap as u32, *n as u32, rng);
            parts.push(Part { index: 4 + 4 * k, offset: ((at + gap) * bps) as u64, size: (n * bps) as u64, kind: *kind, flags: *flags });
        }
        if let Some((next_at, next_logical, _)) = chain.get(k + 1) {
            let span = next_logical.map_or(1, |l| l.2 + l.3);
            entry(&mut d, o + 462, 0, 5, (next_at - first) as u32, span as u32, rng);
        }
    }
    // With an extended partition the place of its boot record tells the size of a sector, else
    // the size of the disk can.
    let detectable = if let Some(first) = ebr_first {
        [512usize, 1024, 2048, 4096].iter().take_while(|b| **b < bps).all(|b| {
            let o = first * b + 510;
            o + 2 > d.len() || d[o..o + 2] != [0x55, 0xaa]
        })
    } else {
        match parts.iter().max_by_key(|p| p.offset) {
            None => false,
            Some(last) => {
                let end = (last.offset + last.size) as usize / bps;
                let fits = |b: usize| end <= d.len() / b;
                let starts: Vec<u64> = parts.iter().map(|p| p.offset).collect();
                let unique = starts.iter().filter(|s| **s == last.offset).count() == 1;
                unique && fits(bps) && (bps == 4096 || !fits(bps * 2))
            }
        }
    };
    Mbr { disk: d, bps, identity, parts, records, detectable }
}

/// Some disk with a partition table: the content, and the places of the partitions.
pub fn sample(rng: &mut Rng) -> (&'static str, Vec<u8>, Vec<(u64, u64)>) {
    match rng.below(3) {
        0 => {
            let m = mbr(rng);
            (if m.detectable { "mbr" } else { "?" }, m.disk, m.parts.iter().map(|p| (p.offset, p.size)).collect())
        }
        1 => {
            let g = gpt(rng);
            let bps = g.bps as u64;
            ("gpt", g.disk, g.parts.iter().map(|p| (p.3 * bps, (p.4 + 1 - p.3) * bps)).collect())
        }
        _ => {
            let a = apm(rng);
            ("apm", a.disk, a.parts.iter().map(|p| (p.0, p.1)).collect())
        }
    }
}

/// A disk with the given partitions, which are put at places of multiples of a sector.
pub fn pack(rng: &mut Rng, kind: &str, parts: &[Media]) -> (Media, Vec<(u64, u64)>) {
    let bps = 512u64;
    let mut places = Vec::new();
    let mut next = bps * (34 + rng.below(100) + parts.len() as u64 * 2);
    let mut d = Media::new(0, 4096);
    for p in parts {
        let size = p.size.div_ceil(bps).max(1) * bps;
        places.push((next, size));
        for (at, data) in p.blocks() {
            d.write(next + at, data);
        }
        next += size + bps * rng.below(3);
    }
    match kind {
        "mbr" => {
            let mut v = vec![0u8; 512];
            for (k, (at, size)) in places.iter().enumerate() {
                entry(&mut v, 446 + 16 * k, 0x80 * rng.below(2) as u8, *rng.pick(&[6, 7, 0x0b, 0x83]), (at / bps) as u32, (size / bps) as u32, rng);
            }
            v[510..].copy_from_slice(&[0x55, 0xaa]);
            d.write(0, &v);
        }
        "gpt" => {
            let table = places.iter().fold(vec![0u8; 128 * 128], |mut t, (at, size)| {
                let o = t.iter().step_by(128).position(|b| *b == 0).unwrap() * 128;
                let b = rng.bytes(32);
                t[o..o + 32].copy_from_slice(&b);
                t[o] |= 1;
                le64(&mut t, o + 32, at / bps);
                le64(&mut t, o + 40, (at + size) / bps - 1);
                t
            });
            let id = uuid(rng);
            let crc = crc32(&table);
            let total = next / bps + 33;
            let mut v = vec![0u8; 1024];
            v[510..512].copy_from_slice(&[0x55, 0xaa]);
            entry(&mut v, 446, 0, 0xee, 1, total.min(u32::MAX as u64) as u32 - 1, rng);
            gpt_header(&mut v, 512, 512, 1, total - 1, 34, total - 34, &id, 2, 128, crc);
            d.write(0, &v);
            d.write(1024, &table);
            d.write(next, &table);
            let mut v = vec![0u8; 512];
            gpt_header(&mut v, 512, 0, total - 1, 1, 34, total - 34, &id, next / bps, 128, crc);
            d.write((total - 1) * bps, &v);
            next = total * bps;
        }
        _ => {
            let n = parts.len();
            for i in 0..=n {
                let mut v = vec![0u8; 512];
                v[0..2].copy_from_slice(b"PM");
                be32(&mut v, 4, n as u32 + 1);
                let (at, size) = if i == 0 { (bps, (n as u64 + 1) * bps) } else { places[i - 1] };
                be32(&mut v, 8, (at / bps) as u32);
                be32(&mut v, 12, (size / bps) as u32);
                v[16..20].copy_from_slice(b"disk");
                let kind: &[u8] = if i == 0 { b"Apple_partition_map" } else { b"Apple_HFS" };
                v[48..48 + kind.len()].copy_from_slice(kind);
                be32(&mut v, 84, (size / bps) as u32);
                d.write(bps * (i as u64 + 1), &v);
            }
            let mut v = vec![0u8; 4];
            v[..2].copy_from_slice(b"ER");
            be16(&mut v, 2, 512);
            d.write(0, &v);
        }
    }
    d.size = next;
    (d, places)
}

fn open_mbr(s: &DataStreamReference, bps: u16) -> Result<MbrVolumeSystem, String> {
    let mut v = MbrVolumeSystem::new();
    if bps != 0 {
        v.set_bytes_per_sector(bps).map_err(|e| e.to_string())?;
    }
    v.read_data_stream(s).map_err(|e| e.to_string())?;
    Ok(v)
}

pub fn mbr_case(ctx: &mut Ctx) -> CaseResult {
    let m = mbr(&mut ctx.rng);
    ctx.distinct(&m.disk);
    ctx.detail(format!("{} bytes per sector, {:?}", m.bps, m.parts));
    ctx.sample(|| format!("disk of {} sectors of {} bytes: {:?}", m.disk.len() / m.bps, m.bps, m.parts));
    let s = stream(&m.disk);
    let set = if m.detectable && ctx.rng.chance(1, 2) {
        ctx.count("sector sizes told from the disk");
        0
    } else {
        m.bps as u16
    };
    let v = match no_panic("MBR", || open_mbr(&s, set))? {
        Ok(v) => v,
        Err(e) => fail!("mbr:refused", "valid disk refused: {e}"),
    };
    require_eq!(v.disk_identity, m.identity, "mbr:identity", "disk identity");
    require_eq!(v.get_number_of_partitions(), m.parts.len(), "mbr:number", "number of partitions of {:?}", m.parts);
    if !m.parts.is_empty() {
        require_eq!(v.bytes_per_sector as usize, m.bps, "mbr:sector", "bytes per sector");
    }
    let r = no_panic("MBR", || v.get_partition_by_index(m.parts.len()))?;
    require!(r.is_err(), "mbr:beyond", "partition {} of {} exists", m.parts.len(), m.parts.len());
    let logical = m.parts.iter().filter(|p| p.index >= 4).count();
    ctx.add("primary partitions", (m.parts.len() - logical) as u64);
    ctx.add("logical partitions", logical as u64);
    if logical > 1 {
        ctx.count("chains of extended boot records");
    }
    let mut order: Vec<usize> = (0..m.parts.len()).collect();
    ctx.rng.shuffle(&mut order);
    let mut opened = Vec::new();
    for i in order.into_iter().take(12) {
        let want = &m.parts[i];
        let p = match no_panic("MBR", || v.get_partition_by_index(i))? {
            Ok(p) => p,
            Err(e) => fail!("mbr:partition", "partition {i}: {}", e.to_string()),
        };
        let got = Part { index: p.entry_index, offset: p.offset, size: p.size, kind: p.partition_type, flags: p.flags };
        require_eq!(format!("{got:?}"), format!("{want:?}"), "mbr:values", "partition {i}");
        opened.push((i, Arc::new(RwLock::new(p)) as DataStreamReference));
    }
    for (i, p) in opened.iter() {
        let want = &m.parts[*i];
        let content = Media::from_bytes(&m.disk[want.offset as usize..(want.offset + want.size) as usize]);
        drive(ctx, "mbr", p, &content, 8, 3 * m.bps)?;
    }
    // no boot signature
    if ctx.rng.chance(1, 4) {
        let mut d = m.disk.clone();
        let at = *ctx.rng.pick(&m.records) + 510 + ctx.rng.usize(0, 1);
        d[at] ^= 1 << ctx.rng.below(8);
        let s = stream(&d);
        let r = no_panic("MBR", || open_mbr(&s, m.bps as u16).map(|_| ()))?;
        require!(r.is_err(), "mbr:signature", "a boot record without its signature at {at} was accepted");
        ctx.count("boot records without signature refused");
    }
    Ok(())
}

struct Gpt {
    disk: Vec<u8>,
    bps: usize,
    identifier: [u8; 16],
    parts: Vec<(usize, [u8; 16], [u8; 16], u64, u64)>,
    entries_at: usize,
    entries: usize,
    backup_at: usize,
}

fn uuid(rng: &mut Rng) -> [u8; 16] {
    rng.bytes(16).try_into().unwrap()
}

/// The text of a GUID as it is stored in a GPT.
pub fn guid_text(b: &[u8]) -> String {
    let h = |r: &[u8]| r.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let rev = |r: &[u8]| r.iter().rev().map(|x| format!("{x:02x}")).collect::<String>();
    format!("{}-{}-{}-{}-{}", rev(&b[0..4]), rev(&b[4..6]), rev(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}

fn gpt_header(v: &mut [u8], bps: usize, at: usize, me: u64, other: u64, first: u64, last: u64, id: &[u8], table: u64, n: u32, crc: u32) {
    let o = at;
    v[o..o + bps].fill(0);
    v[o..o + 8].copy_from_slice(b"EFI PART");
    le32(v, o + 8, 0x00010000);
    le32(v, o + 12, 92);
    le64(v, o + 24, me);
    le64(v, o + 32, other);
    le64(v, o + 40, first);
    le64(v, o + 48, last);
    v[o + 56..o + 72].copy_from_slice(id);
    le64(v, o + 72, table);
    le32(v, o + 80, n);
    le32(v, o + 84, 128);
    le32(v, o + 88, crc);
    let c = crc32(&v[o..o + 92]);
    le32(v, o + 16, c);
}

fn gpt(rng: &mut Rng) -> Gpt {
    let bps = *rng.pick(&[512usize, 512, 4096]);
    let max = 32 * bps / 128;
    let entries = match rng.below(6) {
        0 => max,
        1 => rng.usize(0, 8),
        2 => rng.usize(0, max),
        _ => 128,
    };
    let table_blocks = (entries * 128).div_ceil(bps).max(1);
    let table = 2 + if rng.chance(1, 3) { rng.usize(0, 5) } else { 0 };
    let area = table + table_blocks + rng.usize(0, 3);
    let mut parts = Vec::new();
    let mut next = area as u64;
    let want = match rng.below(4) { 0 => 0, 1 => rng.usize(0, 3), 2 => rng.usize(0, 12), _ => rng.usize(0, 40) }.min(entries);
    let mut slots: Vec<usize> = (0..entries).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut slots);
    }
    for slot in slots.into_iter().take(want) {
        let n = if rng.chance(1, 3) { 1 } else { rng.range(1, 12) };
        let id = if rng.chance(1, 15) { [0; 16] } else { uuid(rng) };
        parts.push((slot, uuid(rng), id, next, next + n - 1));
        next += n + if rng.chance(1, 2) { 0 } else { rng.below(4) };
    }
    parts.sort();
    let last_usable = next + rng.below(3);
    let backup_table = last_usable as usize + 1;
    let backup = backup_table + table_blocks;
    let total = backup + 1;
    let mut d = disk(rng, total * bps);
    if bps == 4096 {
        d[512..520].fill(0);
    }
    let mut tab = vec![0u8; entries * 128];
    for (slot, kind, id, first, last) in &parts {
        let o = slot * 128;
        tab[o..o + 16].copy_from_slice(kind);
        tab[o + 16..o + 32].copy_from_slice(id);
        le64(&mut tab, o + 32, *first);
        le64(&mut tab, o + 40, *last);
        let f = rng.next();
        le64(&mut tab, o + 48, f);
        for k in 0..rng.usize(0, 36) {
            let c = rng.range(0x20, 0x7e) as u16;
            le16(&mut tab, o + 56 + 2 * k, c);
        }
    }
    if rng.chance(1, 4) {
        // what unused entries hold beyond a nil type
        for slot in 0..entries {
            if parts.iter().all(|p| p.0 != slot) && rng.chance(1, 4) {
                let b = rng.bytes(112);
                tab[slot * 128 + 16..slot * 128 + 128].copy_from_slice(&b);
            }
        }
    }
    let crc = crc32(&tab);
    let id = uuid(rng);
    d[table * bps..table * bps + tab.len()].copy_from_slice(&tab);
    d[backup_table * bps..backup_table * bps + tab.len()].copy_from_slice(&tab);
    // A disk that was made larger or an image that was cut has its backup header elsewhere than
    // the header says: the last block is the second place.
    let told = match rng.below(6) {
        0 => backup as u64 + rng.range(1, 1000),
        1 => rng.range(area as u64, last_usable),
        _ => backup as u64,
    };
    gpt_header(&mut d, bps, bps, 1, told, area as u64, last_usable, &id, table as u64, entries as u32, crc);
    gpt_header(&mut d, bps, backup * bps, backup as u64, 1, area as u64, last_usable, &id, backup_table as u64, entries as u32, crc);
    Gpt { disk: d, bps, identifier: id, parts, entries_at: table * bps, entries, backup_at: backup * bps }
}

fn open_gpt(s: &DataStreamReference, bps: u16) -> Result<GptVolumeSystem, String> {
    let mut v = GptVolumeSystem::new();
    if bps != 0 {
        v.set_bytes_per_sector(bps).map_err(|e| e.to_string())?;
    }
    v.read_data_stream(s).map_err(|e| e.to_string())?;
    Ok(v)
}

pub fn gpt_case(ctx: &mut Ctx) -> CaseResult {
    let g = gpt(&mut ctx.rng);
    ctx.distinct(&g.disk);
    ctx.detail(format!("{} bytes per sector, {} entries, {:?}", g.bps, g.entries, g.parts));
    ctx.sample(|| format!("{} sectors of {} bytes, {} entries, {} partitions", g.disk.len() / g.bps, g.bps, g.entries, g.parts.len()));
    let s = stream(&g.disk);
    let set = if ctx.rng.chance(1, 2) { 0 } else { g.bps as u16 };
    let v = match no_panic("GPT", || open_gpt(&s, set))? {
        Ok(v) => v,
        Err(e) => fail!("gpt:refused", "valid disk refused: {e}"),
    };
    require_eq!(v.bytes_per_sector as usize, g.bps, "gpt:sector", "bytes per sector");
    require_eq!(v.disk_identifier.to_string(), guid_text(&g.identifier), "gpt:identifier", "disk identifier");
    require_eq!(v.get_number_of_partitions(), g.parts.len(), "gpt:number", "number of partitions");
    let r = no_panic("GPT", || v.get_partition_by_index(g.parts.len()))?;
    require!(r.is_err(), "gpt:beyond", "partition {} of {} exists", g.parts.len(), g.parts.len());
    ctx.add("GPT partitions", g.parts.len() as u64);
    for (i, (slot, kind, id, first, last)) in g.parts.iter().enumerate() {
        let p = match no_panic("GPT", || v.get_partition_by_index(i))? {
            Ok(p) => p,
            Err(e) => fail!("gpt:partition", "partition {i}: {}", e.to_string()),
        };
        let bps = g.bps as u64;
        let size = (last - first + 1) * bps;
        require_eq!((p.entry_index, p.offset, p.size), (*slot, first * bps, size), "gpt:values", "index, offset and size of partition {i}");
        require_eq!(p.type_identifier.to_string(), guid_text(kind), "gpt:type", "type of partition {i}");
        require_eq!(p.identifier.to_string(), guid_text(id), "gpt:id", "identifier of partition {i}");
        if i < 10 {
            let content = Media::from_bytes(&g.disk[(first * bps) as usize..(first * bps + size) as usize]);
            let p: DataStreamReference = Arc::new(RwLock::new(p));
            drive(ctx, "gpt", &p, &content, 8, 3 * g.bps)?;
        }
    }
    // damage that the checksums tell
    let mut d = g.disk.clone();
    let (what, at) = match ctx.rng.below(3) {
        0 => ("header", g.bps + *ctx.rng.pick(&[8usize, 12, 20, 24, 32, 40, 48, 56, 72, 80, 84, 88]) + ctx.rng.usize(0, 3)),
        1 if g.entries > 0 => ("entries", g.entries_at + ctx.rng.usize(0, g.entries * 128 - 1)),
        1 => return Ok(()),
        _ => ("signature", g.bps + ctx.rng.usize(0, 7)),
    };
    d[at] ^= 1 << ctx.rng.below(8);
    let s = stream(&d);
    let r = no_panic("GPT", || open_gpt(&s, g.bps as u16).map(|_| ()))?;
    require!(r.is_err(), "gpt:damage", "a partition table with damage in the {what} at {at} was accepted");
    ctx.count(&format!("damaged GPT {what} refused"));
    Ok(())
}

struct Apm {
    disk: Vec<u8>,
    parts: Vec<(u64, u64, Vec<u8>, Vec<u8>, u32)>,
}

fn apm(rng: &mut Rng) -> Apm {
    let n = match rng.below(4) { 0 => rng.usize(0, 2), 1 => rng.usize(0, 60), _ => rng.usize(1, 10) };
    let mut next = 1 + (n + 1) + rng.usize(0, 8);
    let mut parts = Vec::new();
    let name = |rng: &mut Rng| -> Vec<u8> {
        let k = match rng.below(4) { 0 => 32, 1 => 0, _ => rng.usize(1, 31) };
        (0..k).map(|_| *rng.pick(b"ABCDEFabcdef0189 _-.:+$%/") as u8).collect()
    };
    for _ in 0..n {
        let k = match rng.below(4) { 0 => 1, 1 => 0, _ => rng.usize(1, 12) };
        let kind = if rng.chance(1, 3) { name(rng) } else { rng.pick(&[&b"Apple_HFS"[..], b"Apple_Free", b"Apple_Driver43", b"Apple_Boot"]).to_vec() };
        parts.push(((next * 512) as u64, (k * 512) as u64, kind, name(rng), rng.next() as u32));
        next += k + rng.usize(0, 3);
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut parts);
    }
    let total = next + rng.usize(0, 3);
    let mut d = disk(rng, total * 512);
    d[0..2].copy_from_slice(b"ER");
    be16(&mut d, 2, 512);
    for i in 0..=n {
        let o = 512 * (i + 1);
        // The boot code fields and what follows are left to chance.
        d[o..o + 92].fill(0);
        d[o..o + 2].copy_from_slice(b"PM");
        be32(&mut d, o + 4, n as u32 + 1);
        if i == 0 {
            be32(&mut d, o + 8, 1);
            be32(&mut d, o + 12, n as u32 + 1);
            d[o + 16..o + 21].copy_from_slice(b"Apple");
            d[o + 48..o + 67].copy_from_slice(b"Apple_partition_map");
        } else {
            let p = &parts[i - 1];
            be32(&mut d, o + 8, (p.0 / 512) as u32);
            be32(&mut d, o + 12, (p.1 / 512) as u32);
            d[o + 16..o + 16 + p.3.len()].copy_from_slice(&p.3);
            d[o + 48..o + 48 + p.2.len()].copy_from_slice(&p.2);
            be32(&mut d, o + 80, 0);
            be32(&mut d, o + 84, (p.1 / 512) as u32);
            be32(&mut d, o + 88, p.4);
        }
    }
    Apm { disk: d, parts }
}

fn open_apm(s: &DataStreamReference) -> Result<ApmVolumeSystem, String> {
    let mut v = ApmVolumeSystem::new();
    v.read_data_stream(s).map_err(|e| e.to_string())?;
    Ok(v)
}

pub fn apm_case(ctx: &mut Ctx) -> CaseResult {
    let a = apm(&mut ctx.rng);
    ctx.distinct(&a.disk);
    ctx.detail(format!("{:?}", a.parts));
    ctx.sample(|| format!("{} sectors, partitions {:?}", a.disk.len() / 512, a.parts));
    let s = stream(&a.disk);
    let v = match no_panic("APM", || open_apm(&s))? {
        Ok(v) => v,
        Err(e) => fail!("apm:refused", "valid disk refused: {e}"),
    };
    require_eq!(v.get_number_of_partitions(), a.parts.len(), "apm:number", "number of partitions");
    let r = no_panic("APM", || v.get_partition_by_index(a.parts.len()))?;
    require!(r.is_err(), "apm:beyond", "partition {} of {} exists", a.parts.len(), a.parts.len());
    ctx.add("APM partitions", a.parts.len() as u64);
    for (i, (offset, size, kind, name, flags)) in a.parts.iter().enumerate() {
        let p = match no_panic("APM", || v.get_partition_by_index(i))? {
            Ok(p) => p,
            Err(e) => fail!("apm:partition", "partition {i}: {}", e.to_string()),
        };
        require_eq!((p.offset, p.size, p.status_flags), (*offset, *size, *flags), "apm:values", "offset, size and status flags of partition {i}");
        require_eq!(p.type_identifier.to_string(), String::from_utf8_lossy(kind), "apm:type", "type of partition {i}");
        require_eq!(p.name.to_string(), String::from_utf8_lossy(name), "apm:name", "name of partition {i}");
        if i < 10 {
            let content = Media::from_bytes(&a.disk[*offset as usize..(offset + size) as usize]);
            let p: DataStreamReference = Arc::new(RwLock::new(p));
            drive(ctx, "apm", &p, &content, 8, 1500)?;
        }
    }
    // an entry without signature, or with another number of entries
    let mut d = a.disk.clone();
    let at = 512 * (1 + ctx.rng.usize(0, a.parts.len()));
    if at > 512 && ctx.rng.chance(1, 2) {
        d[at + 7] ^= 1 << ctx.rng.below(8);
    } else {
        d[at + ctx.rng.usize(0, 1)] ^= 1 << ctx.rng.below(8);
    }
    let s = stream(&d);
    let r = no_panic("APM", || open_apm(&s).map(|_| ()))?;
    require!(r.is_err(), "apm:damage", "a partition map with a damaged entry at {at} was accepted");
    ctx.count("damaged APM entries refused");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    match ctx.index % 3 {
        0 => {
            let m = mbr(&mut ctx.rng);
            let mut d = m.disk;
            let places: Vec<(usize, usize)> = m.records.iter().map(|r| (r + 446, 66)).collect();
            mutate(&mut ctx.rng, &mut d, &places);
            ctx.distinct(&d);
            ctx.detail(hex(&d[..d.len().min(512)]));
            let s = stream(&d);
            let set = *ctx.rng.pick(&[0u16, 0, m.bps as u16]);
            probe(ctx, "MBR", &|| {
                let v = open_mbr(&s, set)?;
                let mut o = Opened { text: format!("{} {};", v.bytes_per_sector, v.disk_identity), streams: vec![] };
                for i in 0..v.get_number_of_partitions().min(10) {
                    match v.get_partition_by_index(i) {
                        Ok(p) => {
                            o.text.push_str(&format!("{} {} {} {};", p.entry_index, p.offset, p.size, p.partition_type));
                            o.streams.push(Arc::new(RwLock::new(p)));
                        }
                        Err(_) => o.text.push_str("error;"),
                    }
                }
                Ok(o)
            })
        }
        1 => {
            let g = gpt(&mut ctx.rng);
            let mut d = g.disk;
            let at = g.bps;
            mutate(&mut ctx.rng, &mut d, &[(at, 92), (at, 92), (g.entries_at, (g.entries * 128).max(1)), (g.backup_at, 92)]);
            // With the checksums made right again, or left out, the damage is looked at.
            let style = ctx.rng.below(4);
            if style > 0 && d.len() >= at + 92 {
                if style == 1 {
                    le32(&mut d, at + 16, 0);
                    le32(&mut d, at + 88, 0);
                } else {
                    let table = u64::from_le_bytes(d[at + 72..at + 80].try_into().unwrap()) as u128 * at as u128;
                    let n = u32::from_le_bytes(d[at + 80..at + 84].try_into().unwrap()) as u128 * 128;
                    if table + n <= d.len() as u128 {
                        let c = crc32(&d[table as usize..(table + n) as usize]);
                        le32(&mut d, at + 88, c);
                    }
                    le32(&mut d, at + 16, 0);
                    let c = crc32(&d[at..at + 92]);
                    le32(&mut d, at + 16, c);
                }
            }
            ctx.distinct(&d);
            ctx.detail(hex(&d[..d.len().min(at + 92)]));
            let s = stream(&d);
            let set = *ctx.rng.pick(&[0u16, 0, g.bps as u16]);
            probe(ctx, "GPT", &|| {
                let v = open_gpt(&s, set)?;
                let mut o = Opened { text: format!("{} {};", v.bytes_per_sector, v.disk_identifier), streams: vec![] };
                for i in 0..v.get_number_of_partitions().min(10) {
                    match v.get_partition_by_index(i) {
                        Ok(p) => {
                            o.text.push_str(&format!("{} {} {} {};", p.entry_index, p.offset, p.size, p.identifier));
                            o.streams.push(Arc::new(RwLock::new(p)));
                        }
                        Err(_) => o.text.push_str("error;"),
                    }
                }
                Ok(o)
            })
        }
        _ => {
            let a = apm(&mut ctx.rng);
            let mut d = a.disk;
            mutate(&mut ctx.rng, &mut d, &[(512, 92), (512, 512 * (a.parts.len() + 1))]);
            ctx.distinct(&d);
            let s = stream(&d);
            probe(ctx, "APM", &|| {
                let v = open_apm(&s)?;
                let mut o = Opened { text: String::new(), streams: vec![] };
                for i in 0..v.get_number_of_partitions().min(10) {
                    match v.get_partition_by_index(i) {
                        Ok(p) => {
                            o.text.push_str(&format!("{} {} {} {};", p.offset, p.size, p.name.to_string(), p.type_identifier.to_string()));
                            o.streams.push(Arc::new(RwLock::new(p)));
                        }
                        Err(_) => o.text.push_str("error;"),
                    }
                }
                Ok(o)
            })
        }
    }
}
