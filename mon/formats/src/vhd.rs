//! Virtual Hard Disk images.

use keramics_formats::PathComponent;
use keramics_formats::vhd::{VhdDiskType, VhdImage};
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

struct Layer {
    name: String,
    kind: u32,
    id: Vec<u8>,
    content: Media,
    block_size: u64,
}

struct Vhd {
    files: Files,
    layers: Vec<Layer>,
    /// Interesting places of the top file.
    places: Vec<(u64, u64)>,
}

pub fn uuid_be_text(b: &[u8]) -> String {
    let h = |r: &[u8]| r.iter().map(|x| format!("{x:02x}")).collect::<String>();
    format!("{}-{}-{}-{}-{}", h(&b[0..4]), h(&b[4..6]), h(&b[6..8]), h(&b[8..10]), h(&b[10..16]))
}

fn footer(rng: &mut Rng, kind: u32, next: u64, size: u64, id: &[u8]) -> Vec<u8> {
    let mut v = vec![0; 512];
    v[0..8].copy_from_slice(b"conectix");
    be32(&mut v, 8, 2);
    be32(&mut v, 12, 0x00010000);
    be64(&mut v, 16, next);
    be32(&mut v, 24, rng.next() as u32);
    v[28..32].copy_from_slice(*rng.pick(&[b"qemu", b"win ", b"vpc "]));
    be32(&mut v, 32, 0x00050003);
    v[36..40].copy_from_slice(b"Wi2k");
    // The size when the disk was made can differ from that of now.
    be64(&mut v, 40, if rng.chance(1, 3) { rng.below(1 << 30) * 512 } else { size });
    be64(&mut v, 48, size);
    be32(&mut v, 56, rng.next() as u32);
    be32(&mut v, 60, kind);
    v[68..84].copy_from_slice(id);
    let sum: u32 = v.iter().map(|b| *b as u32).sum();
    be32(&mut v, 64, !sum);
    v
}

/// A dynamic or differential disk over the content of its parent.
#[allow(clippy::too_many_arguments)]
fn sparse_layer(rng: &mut Rng, kind: u32, size: u64, block_size: u64, id: &[u8], parent: Option<(&[u8], &str, &Media)>, want: Option<&Media>, places: &mut Vec<(u64, u64)>) -> (Media, Media) {
    let salt = rng.next();
    let spb = block_size / 512;
    let bitmap_size = spb.div_ceil(8).div_ceil(512) * 512;
    let blocks = size.div_ceil(block_size);
    let entries = blocks + if rng.chance(1, 3) { rng.below(5) } else { 0 };
    let mut content = match parent {
        Some((_, _, m)) => m.resized(size),
        None => Media::new(size, 512),
    };
    // which blocks have data, and where
    let density = rng.below(5);
    let mut used: Vec<u64> = (0..blocks).filter(|_| rng.below(4) < density).collect();
    if used.len() > 40 {
        rng.shuffle(&mut used);
        used.truncate(40);
    }
    if let Some(w) = want {
        // the content is given
        used = match parent {
            Some((_, _, p)) => w.changes(p, block_size),
            None => w.pieces(block_size),
        }.into_iter().collect();
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut used);
    }
    let mut file = Media::new(0, 4096);
    let header_at;
    let mut next;
    if rng.chance(4, 5) {
        header_at = 512 + 512 * rng.below(3);
        next = header_at + 1024 + 512 * rng.below(3);
    } else {
        // the header behind the table
        next = 512;
        header_at = next + (entries * 4).div_ceil(512) * 512;
    }
    let table_at = next;
    next = (table_at + (entries * 4).div_ceil(512) * 512).max(header_at + 1024);
    let mut table = vec![0xffu8; (entries * 4).div_ceil(512) as usize * 512];
    places.push((0, 512));
    places.push((header_at, 1024));
    places.push((header_at, 64));
    places.push((table_at, (entries * 4).max(1)));
    if rng.chance(1, 12) {
        // offsets beyond 4 GiB
        next += 1 << 33;
    }
    for b in used {
        next += 512 * rng.below(3);
        be32(&mut table, b as usize * 4, (next / 512) as u32);
        let mut bitmap = vec![0u8; bitmap_size as usize];
        let style = if want.is_some() { 5 } else { rng.below(5) };
        let set = |rng: &mut Rng, bitmap: &mut [u8], i: u64| {
            let _ = rng;
            bitmap[i as usize / 8] |= 0x80 >> (i % 8);
        };
        let limit = 200;
        let mut runs: Vec<(u64, u64)> = Vec::new();
        match style {
            0 if spb <= 4096 => runs.push((0, spb)),
            0 => runs.push((0, 1000)),
            5 => runs.push((0, spb)),
            1 => {}
            2 => {
                let n = rng.usize(1, 6);
                for _ in 0..n {
                    let a = rng.below(spb);
                    runs.push((a, 1 + rng.below((spb - a).min(64))));
                }
            }
            3 => {
                for i in 0..spb.min(limit) {
                    if rng.chance(1, 2) {
                        runs.push((i, 1));
                    }
                }
            }
            _ => {
                // the ends
                runs.push((0, 1 + rng.below(spb.min(20))));
                let n = 1 + rng.below(spb.min(20));
                runs.push((spb - n, n));
            }
        }
        let data_at = next + bitmap_size;
        for (a, n) in runs {
            for i in a..a + n {
                set(rng, &mut bitmap, i);
            }
            let at = b * block_size + a * 512;
            let v = match want {
                Some(w) => w.get(at, (n * 512) as usize),
                None => fill(salt, at, (n * 512) as usize),
            };
            file.write(data_at + a * 512, &v);
            if at < size {
                content.write(at, &v[..v.len().min((size - at) as usize)]);
            }
        }
        // what the bitmap does not tell of
        for i in 0..spb.min(64) {
            if bitmap[i as usize / 8] & (0x80 >> (i % 8)) == 0 {
                file.write(data_at + i * 512, &fill(!salt, i, 512));
            }
        }
        if rng.chance(1, 2) {
            for i in spb..bitmap_size * 8 {
                if rng.chance(1, 2) {
                    set(rng, &mut bitmap, i);
                }
            }
        }
        places.push((next, bitmap_size));
        file.write(next, &bitmap);
        next = data_at + block_size;
    }
    file.write(table_at, &table);
    let mut h = vec![0u8; 1024];
    h[0..8].copy_from_slice(b"cxsparse");
    be64(&mut h, 8, u64::MAX);
    be64(&mut h, 16, table_at);
    be32(&mut h, 24, 0x00010000);
    be32(&mut h, 28, entries as u32);
    be32(&mut h, 32, block_size as u32);
    if let Some((pid, name, _)) = parent {
        h[40..56].copy_from_slice(pid);
        be32(&mut h, 56, rng.next() as u32);
        let full = match rng.below(3) {
            0 => name.to_string(),
            1 => format!("C:\\Disks\\older ones\\{name}"),
            _ => format!(".\\{name}"),
        };
        for (i, u) in full.encode_utf16().enumerate() {
            be16(&mut h, 64 + 2 * i, u);
        }
    }
    let sum: u32 = h.iter().map(|b| *b as u32).sum();
    be32(&mut h, 36, !sum);
    file.write(header_at, &h);
    let f = footer(rng, kind, header_at, size, id);
    if header_at > 511 {
        file.write(0, &f);
    }
    file.size = next + 512;
    file.write(next, &f);
    places.push((next, 512));
    places.push((next + 8, 76));
    (file, content)
}

fn vhd(rng: &mut Rng) -> Vhd {
    let mut files = Files::new();
    let mut layers: Vec<Layer> = Vec::new();
    let mut places = Vec::new();
    let depth = *rng.pick(&[1usize, 1, 2, 2, 3, 5]);
    for k in 0..depth {
        places.clear();
        let block_size = *rng.pick(&[512u64, 1024, 4096, 4096, 8192, 65536, 0x80000, 0x200000, 0x200000]);
        let sectors = match rng.below(4) {
            0 => 1 + rng.below(20),
            1 => block_size / 512 * (1 + rng.below(4)),
            _ => 1 + rng.below((block_size / 512) * 40 + 40),
        };
        let mut size = sectors.min(1 << 18) * 512;
        if let Some(p) = layers.last() {
            if rng.chance(2, 3) {
                size = p.content.size;
            }
        }
        // keep the number of blocks reasonable
        let mut block_size = block_size;
        while size / block_size > 3000 {
            block_size *= 2;
        }
        let id = rng.bytes(16);
        let name = match rng.below(3) {
            0 => format!("disk{k}.vhd"),
            1 => format!("Disque dur n\u{00b0} {k}.vhd"),
            _ => format!("\u{78c1}\u{76d8} {k}.avhd"),
        };
        let (kind, file, content) = if k == 0 && rng.chance(1, 3) {
            let salt = rng.next();
            let size = size.min(40 * 512);
            let mut m = Media::new(size, 512);
            m.write(0, &fill(salt, 0, size as usize));
            let mut file = m.clone();
            file.size += 512;
            file.write(size, &footer(rng, 2, u64::MAX, size, &id));
            places.push((size, 512));
            (2, file, m)
        } else {
            let kind = if k == 0 { 3 } else { 4 };
            let parent = layers.last().map(|p| (p.id.as_slice(), p.name.as_str(), &p.content));
            let (f, c) = sparse_layer(rng, kind, size, block_size, &id, parent, None, &mut places);
            (kind, f, c)
        };
        files.insert(name.clone(), file);
        layers.push(Layer { name, kind, id, content, block_size });
    }
    Vhd { files, layers, places }
}

/// A file with the given content, over that of its parent.
pub fn pack(rng: &mut Rng, content: &Media, id: &[u8], parent: Option<(&[u8], &str, &Media)>) -> Media {
    if parent.is_none() && rng.chance(1, 3) {
        let mut file = content.clone();
        file.size += 512;
        file.write(content.size, &footer(rng, 2, u64::MAX, content.size, id));
        return file;
    }
    let mut block = *rng.pick(&[4096u64, 65536, 0x200000]);
    while content.size / block > 60_000 {
        block *= 2;
    }
    sparse_layer(rng, if parent.is_some() { 4 } else { 3 }, content.size, block, id, parent, Some(content), &mut Vec::new()).0
}

/// Some chain of files: the name of the top one, and the content of the layers.
pub fn sample(rng: &mut Rng) -> (Files, String, Vec<Media>) {
    let v = vhd(rng);
    let name = v.layers.last().unwrap().name.clone();
    (v.files, name, v.layers.into_iter().map(|l| l.content).collect())
}

fn open(files: &Files, name: &str) -> Result<VhdImage, String> {
    let mut i = VhdImage::new();
    i.open(&resolver(files), &PathComponent::from(name)).map_err(|e| e.to_string())?;
    Ok(i)
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let v = vhd(&mut ctx.rng);
    let top = v.layers.last().unwrap();
    let describe = || {
        v.layers.iter().map(|l| format!("{} type {} size {} block {}", l.name, l.kind, l.content.size, l.block_size)).collect::<Vec<_>>().join(", ")
    };
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(v.files.values().fold(0, |h, m| h ^ m.hash()));
    let i = match no_panic("VHD", || open(&v.files, &top.name))? {
        Ok(i) => i,
        Err(e) => fail!("vhd:refused", "valid image refused: {e}"),
    };
    require_eq!(i.get_number_of_layers(), v.layers.len(), "vhd:layers", "number of layers");
    require!(i.get_layer_by_index(v.layers.len()).is_err(), "vhd:layers", "a layer more than there are");
    let mut order: Vec<usize> = (0..v.layers.len()).collect();
    ctx.rng.shuffle(&mut order);
    for k in order {
        let l = &v.layers[k];
        let f = match i.get_layer_by_index(k) {
            Ok(f) => f,
            Err(e) => fail!("vhd:layers", "layer {k}: {}", e.to_string()),
        };
        {
            let f = f.read().unwrap();
            let kind = match f.disk_type {
                VhdDiskType::Fixed => 2,
                VhdDiskType::Dynamic => 3,
                VhdDiskType::Differential => 4,
                _ => 0,
            };
            require_eq!((kind, f.media_size), (l.kind, l.content.size), "vhd:values", "type and size of layer {k}");
            require_eq!(f.identifier.to_string(), uuid_be_text(&l.id), "vhd:identifier", "identifier of layer {k}");
            let parent = f.parent_identifier.as_ref().map(|u| u.to_string());
            let expected = if k > 0 { Some(uuid_be_text(&v.layers[k - 1].id)) } else { None };
            require_eq!(parent, expected, "vhd:parent", "parent identifier of layer {k}");
            let name = f.get_parent_file_name().map(|u| u.to_string());
            let expected = if k > 0 { Some(v.layers[k - 1].name.clone()) } else { None };
            require_eq!(name, expected, "vhd:parent", "parent name of layer {k}");
        }
        let s: keramics_core::DataStreamReference = f;
        // The layers above move the position of a layer.
        rewind(&s);
        let max = (l.block_size as usize * 3).clamp(2000, 70_000);
        drive(ctx, "vhd", &s, &l.content, if k + 1 == v.layers.len() { 30 } else { 10 }, max)?;
        if k + 1 == v.layers.len() && l.content.size < 2_000_000 {
            sweep(ctx, "vhd", &s, &l.content)?;
        }
        ctx.count(match l.kind {
            2 => "fixed disks",
            3 => "dynamic disks",
            _ => "differential disks",
        });
    }
    if v.layers.len() > 1 {
        // another disk in the place of a parent, no disk, a disk that is its own parent
        let k = ctx.rng.usize(0, v.layers.len() - 2);
        let mut files = v.files.clone();
        let m = files.get_mut(&v.layers[k].name).unwrap();
        let what = match ctx.rng.below(3) {
            0 => {
                let at = m.size - 512 + 68 + ctx.rng.below(16);
                let b = m.get(at, 1)[0] ^ (1 << ctx.rng.below(8));
                m.write(at, &[b]);
                "another parent"
            }
            1 => {
                files.remove(&v.layers[k].name);
                "no parent"
            }
            _ => {
                let f = v.files[&top.name].clone();
                files.insert(v.layers[k].name.clone(), f);
                "the disk itself as parent"
            }
        };
        let r = no_panic("VHD", || open(&files, &top.name).map(|_| ()))?;
        require!(r.is_err(), "vhd:other-parent", "{what} was accepted");
        ctx.count("wrong parents refused");
    }
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut v = vhd(&mut ctx.rng);
    let name = v.layers.last().unwrap().name.clone();
    let m = v.files.get_mut(&name).unwrap();
    mutate_media(&mut ctx.rng, m, &v.places);
    ctx.distinct_hash(m.hash());
    let files = v.files;
    probe(ctx, "VHD", &|| {
        let i = open(&files, &name)?;
        let mut o = Opened::default();
        for k in 0..i.get_number_of_layers() {
            let f = i.get_layer_by_index(k).map_err(|e| e.to_string())?;
            {
                let f = f.read().unwrap();
                o.text.push_str(&format!("{} {} {};", f.media_size, f.block_size, f.identifier));
            }
            o.streams.push(f);
        }
        Ok(o)
    })
}
