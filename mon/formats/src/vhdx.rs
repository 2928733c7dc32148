//! Virtual Hard Disk version 2 images.

use keramics_formats::PathComponent;
use keramics_formats::vhdx::{VhdxDiskType, VhdxImage};
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;
use crate::volume::guid_text;

const MIB: u64 = 1 << 20;
const BAT: [u8; 16] = [0x66, 0x77, 0xc2, 0x2d, 0x23, 0xf6, 0x00, 0x42, 0x9d, 0x64, 0x11, 0x5e, 0x9b, 0xfd, 0x4a, 0x08];
const METADATA: [u8; 16] = [0x06, 0xa2, 0x7c, 0x8b, 0x90, 0x47, 0x9a, 0x4b, 0xb8, 0xfe, 0x57, 0x5f, 0x05, 0x0f, 0x88, 0x6e];
const PARAMETERS: [u8; 16] = [0x37, 0x67, 0xa1, 0xca, 0x36, 0xfa, 0x43, 0x4d, 0xb3, 0xb6, 0x33, 0xf0, 0xaa, 0x44, 0xe7, 0x6b];
const SIZE: [u8; 16] = [0x24, 0x42, 0xa5, 0x2f, 0x1b, 0xcd, 0x76, 0x48, 0xb2, 0x11, 0x5d, 0xbe, 0xd8, 0x3b, 0xf4, 0xb8];
const LOGICAL: [u8; 16] = [0x1d, 0xbf, 0x41, 0x81, 0x6f, 0xa9, 0x09, 0x47, 0xba, 0x47, 0xf2, 0x33, 0xa8, 0xfa, 0xab, 0x5f];
const PHYSICAL: [u8; 16] = [0xc7, 0x48, 0xa3, 0xcd, 0x5d, 0x44, 0x71, 0x44, 0x9c, 0xc9, 0xe9, 0x88, 0x52, 0x51, 0xc5, 0x56];
const DISK_ID: [u8; 16] = [0xab, 0x12, 0xca, 0xbe, 0xe6, 0xb2, 0x23, 0x45, 0x93, 0xef, 0xc3, 0x09, 0xe0, 0x00, 0xc7, 0x46];
const PARENT: [u8; 16] = [0x2d, 0x5f, 0xd3, 0xa8, 0x0b, 0xb3, 0x4d, 0x45, 0xab, 0xf7, 0xd3, 0xd8, 0x48, 0x34, 0xab, 0x0c];
const LOCATOR: [u8; 16] = [0xb7, 0xef, 0x4a, 0xb0, 0x9e, 0xd1, 0x81, 0x4a, 0xb7, 0x89, 0x25, 0xb8, 0xe9, 0x44, 0x59, 0x13];

struct Layer {
    name: String,
    kind: u32,
    id: Vec<u8>,
    sector: u64,
    block_size: u64,
    content: Media,
}

struct Vhdx {
    files: Files,
    layers: Vec<Layer>,
    places: Vec<(u64, u64)>,
    /// Whether the second header of the top file is the current one.
    second: bool,
}

fn summed(mut v: Vec<u8>) -> Vec<u8> {
    le32(&mut v, 4, 0);
    let c = crc32c(&v);
    le32(&mut v, 4, c);
    v
}

fn header(rng: &mut Rng, sequence: u64, id: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; 4096];
    v[0..4].copy_from_slice(b"head");
    le64(&mut v, 8, sequence);
    v[16..32].copy_from_slice(&rng.bytes(16));
    v[32..48].copy_from_slice(id);
    le16(&mut v, 66, 1);
    le32(&mut v, 68, MIB as u32);
    le64(&mut v, 72, MIB);
    summed(v)
}

fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

fn locator(rng: &mut Rng, id: &[u8], name: &str) -> Vec<u8> {
    let mut text = format!("{{{}}}", guid_text(id));
    if rng.chance(1, 2) {
        text = text.to_uppercase();
    }
    let mut pairs = vec![("parent_linkage", text)];
    if rng.chance(1, 3) {
        pairs.push(("parent_linkage2", format!("{{{}}}", guid_text(&rng.bytes(16)))));
    }
    let paths = [
        ("absolute_win32_path", format!("\\\\?\\c:\\disks\\old ones\\{name}")),
        ("volume_path", format!("\\\\?\\Volume{{26a21bda-a627-11d7-9931-806e6f6e6963}}\\{name}")),
        ("relative_path", (*rng.pick(&["..\\x\\", ".\\", ""])).to_string() + name),
    ];
    let must = rng.usize(0, 2);
    for (k, p) in paths.into_iter().enumerate() {
        if k == must || rng.chance(1, 3) {
            pairs.push(p);
        }
    }
    rng.shuffle(&mut pairs);
    let mut v = LOCATOR.to_vec();
    v.extend_from_slice(&[0, 0]);
    v.extend_from_slice(&(pairs.len() as u16).to_le_bytes());
    let mut data = Vec::new();
    let base = 20 + 12 * pairs.len();
    for (k, t) in &pairs {
        let (k, t) = (utf16(k), utf16(t));
        v.extend_from_slice(&((base + data.len()) as u32).to_le_bytes());
        v.extend_from_slice(&((base + data.len() + k.len()) as u32).to_le_bytes());
        v.extend_from_slice(&(k.len() as u16).to_le_bytes());
        v.extend_from_slice(&(t.len() as u16).to_le_bytes());
        data.extend(k);
        data.extend(t);
        if rng.chance(1, 4) {
            data.extend([0, 0]);
        }
    }
    v.extend(data);
    v
}

#[allow(clippy::too_many_arguments)]
fn layer(rng: &mut Rng, kind: u32, size: u64, block_size: u64, sector: u64, id: &[u8], second: bool, parent: Option<(&[u8], &str, &Media)>, want: Option<&Media>, places: &mut Vec<(u64, u64)>) -> (Media, Media) {
    let salt = rng.next();
    let mut content = match parent {
        Some((_, _, m)) => m.resized(size),
        None => Media::new(size, 4096),
    };
    let mut f = Media::new(0, 4096);
    let mut v = b"vhdxfile".to_vec();
    v.extend(utf16("Monitor 1.0"));
    f.write(0, &v);
    let sequence = 1 + rng.below(1 << 40);
    let old = rng.bytes(16);
    let older = sequence - 1 - rng.below(sequence.min(3));
    let (first, other) = if second { (header(rng, older, &old), header(rng, sequence, id)) } else { (header(rng, sequence, id), header(rng, older, &old)) };
    f.write(65536, &first);
    f.write(2 * 65536, &other);
    // the table of blocks, the metadata and the log, in any order
    let blocks = size.div_ceil(block_size);
    let ratio = (1 << 23) * sector / block_size;
    let chunks = blocks.div_ceil(ratio);
    let entries = if kind == 2 { chunks * (ratio + 1) } else { blocks + (blocks - 1) / ratio };
    let bat_size = (entries * 8).div_ceil(MIB) * MIB;
    let mut regions = [("log", MIB), ("metadata", MIB), ("bat", bat_size)];
    rng.shuffle(&mut regions);
    let mut next = MIB;
    let mut at = std::collections::HashMap::new();
    for (name, n) in regions {
        next += MIB * rng.below(2);
        at.insert(name, next);
        next += n;
    }
    let mut table = vec![0u8; 65536];
    table[0..4].copy_from_slice(b"regi");
    let mut list: Vec<([u8; 16], u64, u64)> = vec![(BAT, at["bat"], bat_size), (METADATA, at["metadata"], MIB)];
    if rng.chance(1, 4) {
        list.push((rng.bytes(16).try_into().unwrap(), next, MIB));
        next += MIB;
    }
    rng.shuffle(&mut list);
    le32(&mut table, 8, list.len() as u32);
    for (k, (g, o, n)) in list.iter().enumerate() {
        let e = 16 + 32 * k;
        table[e..e + 16].copy_from_slice(g);
        le64(&mut table, e + 16, *o);
        le32(&mut table, e + 24, *n as u32);
        le32(&mut table, e + 28, u32::from(*g == BAT || *g == METADATA));
    }
    let table = summed(table);
    f.write(3 * 65536, &table);
    f.write(4 * 65536, &table);
    // metadata items
    let mut items: Vec<([u8; 16], Vec<u8>)> = Vec::new();
    let flags = if kind == 2 { 2 | rng.below(2) as u32 } else { u32::from(kind == 0) };
    let mut v = (block_size as u32).to_le_bytes().to_vec();
    v.extend_from_slice(&flags.to_le_bytes());
    items.push((PARAMETERS, v));
    items.push((SIZE, size.to_le_bytes().to_vec()));
    items.push((LOGICAL, (sector as u32).to_le_bytes().to_vec()));
    items.push((PHYSICAL, (*rng.pick(&[512u32, 4096])).to_le_bytes().to_vec()));
    items.push((DISK_ID, rng.bytes(16)));
    if let Some((pid, name, _)) = parent {
        items.push((PARENT, locator(rng, pid, name)));
    }
    if rng.chance(1, 4) {
        items.push((rng.bytes(16).try_into().unwrap(), rng.bytes(40)));
    }
    rng.shuffle(&mut items);
    let meta = at["metadata"];
    let mut t = vec![0u8; 32 + 32 * items.len()];
    t[0..8].copy_from_slice(b"metadata");
    le16(&mut t, 10, items.len() as u16);
    let mut o = 65536 + 8 * rng.below(100);
    for (k, (g, v)) in items.iter().enumerate() {
        let e = 32 + 32 * k;
        t[e..e + 16].copy_from_slice(g);
        le32(&mut t, e + 16, o as u32);
        le32(&mut t, e + 20, v.len() as u32);
        le32(&mut t, e + 24, 6);
        f.write(meta + o, v);
        places.push((meta + o, v.len() as u64));
        o += v.len() as u64 + rng.below(20);
    }
    f.write(meta, &t);
    places.push((meta, 32));
    places.push((meta + 32, 32 * items.len() as u64));
    places.push((65536, 80));
    places.push((2 * 65536, 80));
    places.push((3 * 65536, 16 + 96));
    // blocks
    let mut used: Vec<u64> = (0..rng.below(blocks.min(8) + 1)).collect();
    for _ in 0..rng.below(8) {
        used.push(rng.below(blocks));
    }
    for c in 1..chunks.min(4) {
        // on both sides of the bitmap entries
        used.push(c * ratio - 1);
        used.push(c * ratio);
    }
    if rng.chance(1, 2) {
        used.push(blocks - 1);
    }
    used.retain(|b| *b < blocks);
    used.sort_unstable();
    used.dedup();
    if let Some(w) = want {
        // the content is given
        used = match parent {
            Some((_, _, p)) => w.changes(p, block_size),
            None => w.pieces(block_size),
        }.into_iter().collect();
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut used);
    }
    if rng.chance(1, 10) {
        next += MIB << 22;
    }
    let spb = block_size / sector;
    let bat = at["bat"];
    let mut bitmaps: std::collections::HashMap<u64, u64> = std::collections::HashMap::new();
    for b in used {
        let media = b * block_size;
        let len = block_size.min(size - media);
        let state = if kind == 2 { *rng.pick(&[0u64, 2, 6, 7, 7, 7, 7]) } else { *rng.pick(&[0u64, 1, 2, 3, 6, 6, 6, 6]) };
        let state = if want.is_some() { 6 } else { state };
        let entry = bat + 8 * (b / ratio * (ratio + 1) + b % ratio);
        places.push((entry, 8));
        let mut runs: Vec<(u64, u64)> = Vec::new();
        for _ in 0..rng.below(5) {
            let a = rng.below(spb);
            runs.push((a, 1 + rng.below((spb - a).min(20))));
        }
        if rng.chance(1, 3) {
            runs.push((0, 1 + rng.below(9)));
        }
        if rng.chance(1, 3) {
            let n = 1 + rng.below(9);
            runs.push((spb - n, n));
        }
        if rng.chance(1, 4) {
            let a = rng.below(spb - 20);
            runs.extend((0..10).map(|i| (a + 2 * i, 1)));
        }
        if want.is_some() {
            runs = vec![(0, spb)];
        }
        let garbage = rng.chance(1, 2);
        match state {
            0 => {
                if garbage {
                    // no block, but a place it may have had
                    f.write(entry, &(next & !(MIB - 1)).to_le_bytes());
                }
            }
            6 | 7 => {
                next += MIB * rng.below(2);
                let data = next;
                next += block_size;
                if state == 6 {
                    content.erase(media, len);
                }
                let mut bits = vec![0u8; (spb / 8) as usize];
                for (a, n) in runs {
                    let v = match want {
                        Some(w) => w.get(media + a * sector, (n * sector) as usize),
                        None => fill(salt, media + a * sector, (n * sector) as usize),
                    };
                    f.write(data + a * sector, &v);
                    if a * sector < len {
                        let n = (v.len() as u64).min(len - a * sector) as usize;
                        content.write(media + a * sector, &v[..n]);
                    }
                    for i in a..a + n {
                        bits[i as usize / 8] |= 1 << (i % 8);
                    }
                }
                if kind == 2 && (state == 7 || garbage) {
                    let map = match bitmaps.get(&(b / ratio)) {
                        Some(m) => *m,
                        None => {
                            let m = next;
                            next += MIB;
                            bitmaps.insert(b / ratio, m);
                            let e = bat + 8 * ((b / ratio + 1) * (ratio + 1) - 1);
                            f.write(e, &(m | 6).to_le_bytes());
                            places.push((e, 8));
                            m
                        }
                    };
                    if state == 7 {
                        // sectors of the parent, and of the file where no bit is set
                        let a = rng.below(spb);
                        if bits[a as usize / 8] & (1 << (a % 8)) == 0 {
                            f.write(data + a * sector, &fill(!salt, a, sector as usize));
                        }
                    } else {
                        bits.iter_mut().take(64).for_each(|b| *b = 0x5a);
                    }
                    let o = map + b % ratio * (spb / 8);
                    f.write(o, &bits);
                    places.push((o, (spb / 8).min(16)));
                }
                f.write(entry, &(data | state).to_le_bytes());
            }
            _ => {
                content.erase(media, len);
                f.write(entry, &state.to_le_bytes());
            }
        }
    }
    f.size = next.max(MIB);
    (f, content)
}

fn vhdx(rng: &mut Rng) -> Vhdx {
    let mut v = Vhdx { files: Files::new(), layers: Vec::new(), places: Vec::new(), second: false };
    let depth = *rng.pick(&[1usize, 1, 2, 2, 3, 4]);
    for k in 0..depth {
        v.places.clear();
        let sector = *rng.pick(&[512u64, 512, 4096]);
        let block_size = MIB << *rng.pick(&[0u64, 0, 1, 2, 5, 8]);
        let chunk = (1 << 23) * sector;
        let mut size = match rng.below(4) {
            0 => (1 + rng.below(4000)) * sector,
            1 => (1 + rng.below(20)) * block_size,
            2 => chunk * (1 + rng.below(3)) + sector * rng.below(1 << 20),
            _ => (1 + rng.below(1 << 22)) * sector,
        };
        if let Some(p) = v.layers.last() {
            if rng.chance(2, 3) {
                size = p.content.size.div_ceil(sector) * sector;
            }
        }
        let id = rng.bytes(16);
        v.second = rng.chance(1, 2);
        let name = match rng.below(3) {
            0 => format!("disk{k}.vhdx"),
            1 => format!("Disque dur n\u{00b0} {k}.avhdx"),
            _ => format!("\u{78c1}\u{76d8} {k}.vhdx"),
        };
        let kind = if k == 0 { rng.below(2) as u32 } else { 2 };
        let parent = v.layers.last().map(|p| (p.id.as_slice(), p.name.as_str(), &p.content));
        let (f, content) = layer(rng, kind, size, block_size, sector, &id, v.second, parent, None, &mut v.places);
        v.files.insert(name.clone(), f);
        v.layers.push(Layer { name, kind, id, sector, block_size, content });
    }
    v
}

/// A file with the given content, over that of its parent.
pub fn pack(rng: &mut Rng, content: &Media, id: &[u8], parent: Option<(&[u8], &str, &Media)>) -> Media {
    let sector = if content.size % 4096 == 0 { *rng.pick(&[512u64, 4096]) } else { 512 };
    let mut block = MIB << rng.below(2);
    while content.size / block > 60_000 {
        block *= 2;
    }
    let kind = if parent.is_some() { 2 } else { rng.below(2) as u32 };
    let second = rng.chance(1, 2);
    layer(rng, kind, content.size, block, sector, id, second, parent, Some(content), &mut Vec::new()).0
}

/// Some chain of files: the name of the top one, and the content of the layers.
pub fn sample(rng: &mut Rng) -> (Files, String, Vec<Media>) {
    let v = vhdx(rng);
    let name = v.layers.last().unwrap().name.clone();
    (v.files, name, v.layers.into_iter().map(|l| l.content).collect())
}

fn open(files: &Files, name: &str) -> Result<VhdxImage, String> {
    let mut i = VhdxImage::new();
    i.open(&resolver(files), &PathComponent::from(name)).map_err(|e| e.to_string())?;
    Ok(i)
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let v = vhdx(&mut ctx.rng);
    let top = v.layers.last().unwrap();
    let describe = || v.layers.iter().map(|l| format!("{} type {} size {} block {} sector {}", l.name, l.kind, l.content.size, l.block_size, l.sector)).collect::<Vec<_>>().join(", ");
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(v.files.values().fold(0, |h, m| h ^ m.hash()));
    let i = match no_panic("VHDX", || open(&v.files, &top.name))? {
        Ok(i) => i,
        Err(e) => fail!("vhdx:refused", "valid image refused: {e}"),
    };
    require_eq!(i.get_number_of_layers(), v.layers.len(), "vhdx:layers", "number of layers");
    require!(i.get_layer_by_index(v.layers.len()).is_err(), "vhdx:layers", "a layer more than there are");
    let mut order: Vec<usize> = (0..v.layers.len()).collect();
    ctx.rng.shuffle(&mut order);
    for k in order {
        let l = &v.layers[k];
        let f = match i.get_layer_by_index(k) {
            Ok(f) => f,
            Err(e) => fail!("vhdx:layers", "layer {k}: {}", e.to_string()),
        };
        {
            let f = f.read().unwrap();
            let kind = match f.disk_type {
                VhdxDiskType::Fixed => 0,
                VhdxDiskType::Dynamic => 1,
                VhdxDiskType::Differential => 2,
                _ => 9,
            };
            require_eq!((kind, f.media_size), (l.kind, l.content.size), "vhdx:values", "type and size of layer {k}");
            require_eq!((f.bytes_per_sector as u64, f.block_size as u64, f.format_version), (l.sector, l.block_size, 1), "vhdx:values", "sector and block size, version of layer {k}");
            require_eq!(f.identifier.to_string(), guid_text(&l.id), "vhdx:identifier", "identifier of layer {k}");
            let parent = f.parent_identifier.as_ref().map(|u| u.to_string());
            let expected = if k > 0 { Some(guid_text(&v.layers[k - 1].id)) } else { None };
            require_eq!(parent, expected, "vhdx:parent", "parent identifier of layer {k}");
            let name = f.get_parent_file_name().map(|u| u.to_string());
            let expected = if k > 0 { Some(v.layers[k - 1].name.clone()) } else { None };
            require_eq!(name, expected, "vhdx:parent", "parent name of layer {k}");
        }
        let s: keramics_core::DataStreamReference = f;
        rewind(&s);
        drive(ctx, "vhdx", &s, &l.content, if k + 1 == v.layers.len() { 40 } else { 15 }, 70_000)?;
        if k + 1 == v.layers.len() && l.content.size < 2_200_000 {
            sweep(ctx, "vhdx", &s, &l.content)?;
        }
        ctx.count(match l.kind {
            0 => "fixed disks",
            1 => "dynamic disks",
            _ => "differential disks",
        });
        if l.content.size > (1 << 23) * l.sector {
            ctx.count("disks of more than one chunk");
        }
    }
    if v.layers.len() > 1 {
        let k = ctx.rng.usize(0, v.layers.len() - 2);
        let mut files = v.files.clone();
        let what = match ctx.rng.below(3) {
            0 => {
                // both headers with another identifier
                let m = files.get_mut(&v.layers[k].name).unwrap();
                for n in [5, 6] {
                    let id = ctx.rng.bytes(16);
                    let h = header(&mut ctx.rng, n, &id);
                    m.write(65536 * (n - 4), &h);
                }
                "another parent"
            }
            1 => {
                files.remove(&v.layers[k].name);
                "no parent"
            }
            _ => {
                let f = v.files[&top.name].clone();
                files.insert(v.layers[k].name.clone(), f);
                "the disk itself as parent"
            }
        };
        let r = no_panic("VHDX", || open(&files, &top.name).map(|_| ()))?;
        require!(r.is_err(), "vhdx:other-parent", "{what} was accepted");
        ctx.count("wrong parents refused");
    }
    if ctx.rng.chance(1, 2) {
        // a structure that does not match its checksum
        let mut files = v.files.clone();
        let m = files.get_mut(&top.name).unwrap();
        let (what, at) = if ctx.rng.chance(1, 2) {
            let k = if v.second { 2 } else { 1 };
            let o = *ctx.rng.pick(&[8u64, 15, 32, 47, 66, 67, 100, 4095]);
            ("header", k * 65536 + o)
        } else {
            let o = *ctx.rng.pick(&[8u64, 16, 32, 33, 34, 40, 64, 65, 66, 65535]);
            ("region table", 3 * 65536 + o)
        };
        let b = m.get(at, 1)[0] ^ (1 << ctx.rng.below(8));
        m.write(at, &[b]);
        let r = no_panic("VHDX", || open(&files, &top.name))?;
        if let Ok(i) = r {
            // the other copy may be used
            let f = i.get_layer_by_index(v.layers.len() - 1).unwrap();
            let f = f.read().unwrap();
            require!(what != "header" || f.identifier.to_string() != guid_text(&top.id), "vhdx:checksum", "the {what} is used though it does not match its checksum");
            require!(what == "header" || f.media_size == top.content.size, "vhdx:checksum", "the {what} is used though it does not match its checksum");
        }
        ctx.count("damaged headers and region tables");
    }
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut v = vhdx(&mut ctx.rng);
    let name = v.layers.last().unwrap().name.clone();
    let m = v.files.get_mut(&name).unwrap();
    mutate_media(&mut ctx.rng, m, &v.places);
    if ctx.rng.chance(7, 8) {
        for (at, len) in [(65536u64, 4096usize), (2 * 65536, 4096), (3 * 65536, 65536), (4 * 65536, 65536)] {
            if at + len as u64 <= m.size {
                let h = summed(m.get(at, len));
                m.write(at + 4, &h[4..8]);
            }
        }
    }
    ctx.distinct_hash(m.hash());
    let files = v.files;
    probe(ctx, "VHDX", &|| {
        let i = open(&files, &name)?;
        let mut o = Opened::default();
        for k in 0..i.get_number_of_layers() {
            let f = i.get_layer_by_index(k).map_err(|e| e.to_string())?;
            {
                let f = f.read().unwrap();
                o.text.push_str(&format!("{} {} {};", f.media_size, f.block_size, f.identifier));
            }
            o.streams.push(f);
        }
        Ok(o)
    })
}
