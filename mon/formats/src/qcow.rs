//! QCOW disks, their backing files and damaged ones.

use keramics_formats::PathComponent;
use keramics_formats::qcow::{QcowCompressionMethod, QcowImage};
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

struct Layer {
    name: String,
    version: u32,
    bits: u32,
    content: Media,
}

struct Qcow {
    files: Files,
    layers: Vec<Layer>,
    places: Vec<(u64, u64)>,
    /// The places of entries of stored clusters, and the offsets of their content.
    clusters: Vec<(u64, u64)>,
}

fn file(rng: &mut Rng, version: u32, bits: u32, l2_bits: u32, size: u64, parent: Option<(&str, &Media)>, want: Option<&Media>, places: &mut Vec<(u64, u64)>, stored: &mut Vec<(u64, u64)>) -> (Media, Media) {
    let salt = rng.next();
    let cluster = 1u64 << bits;
    let span = cluster << l2_bits;
    let clusters = size.div_ceil(cluster);
    let l1_entries = size.div_ceil(span);
    let mut content = match parent {
        Some((_, m)) => m.resized(size),
        None => Media::new(size, 4096),
    };
    // clusters that have an entry
    let mut used: Vec<u64> = Vec::new();
    match rng.below(4) {
        0 => {
            let n = rng.below(clusters.min(24) + 1);
            used.extend(0..n);
        }
        1 => {
            let n = rng.below(clusters.min(24) + 1);
            used.extend(clusters - n..clusters);
        }
        2 => {}
        _ => {
            let n = rng.below(24);
            let at = rng.below(clusters);
            used.extend((at..clusters).take(n as usize));
        }
    }
    for _ in 0..rng.below(16) {
        used.push(rng.below(clusters));
    }
    used.sort_unstable();
    used.dedup();
    let limit = (2_000_000 / cluster).max(3) as usize;
    if used.len() > limit {
        rng.shuffle(&mut used);
        used.truncate(limit);
    }
    if let Some(w) = want {
        // the content is given
        used = match parent {
            Some((_, p)) => w.changes(p, cluster),
            None => w.pieces(cluster),
        }.into_iter().collect();
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut used);
    }
    let header = match version {
        1 => 48,
        2 => 72,
        _ => *rng.pick(&[104u64, 112]),
    };
    let mut h = vec![0u8; header as usize];
    h[0..4].copy_from_slice(&[0x51, 0x46, 0x49, 0xfb]);
    be32(&mut h, 4, version);
    let mut m = Media::new(0, 4096);
    let align = |at: u64| at.div_ceil(cluster) * cluster;
    let mut next = header;
    if let Some((name, _)) = parent {
        // between header extensions, behind the header
        next += 8 * rng.below(12);
        be64(&mut h, 8, next);
        be32(&mut h, 16, name.len() as u32);
        m.write(next, name.as_bytes());
        places.push((8, 12));
        places.push((next, name.len() as u64));
        next += name.len() as u64;
    }
    let l1_at;
    match version {
        1 => {
            next = next.div_ceil(8) * 8;
            be32(&mut h, 20, rng.next() as u32);
            be64(&mut h, 24, size);
            h[32] = bits as u8;
            h[33] = l2_bits as u8;
            l1_at = next;
            be64(&mut h, 40, l1_at);
            next = (next + l1_entries * 8).max(560);
        }
        _ => {
            be32(&mut h, 20, bits);
            be64(&mut h, 24, size);
            next = align(next) + cluster * rng.below(4);
            l1_at = next;
            let extra = if rng.chance(1, 3) { rng.below(40) } else { 0 };
            be32(&mut h, 36, (l1_entries + extra) as u32);
            be64(&mut h, 40, l1_at);
            next += (l1_entries + extra) * 8;
            // reference counts, which no reader needs
            be64(&mut h, 48, align(next));
            be32(&mut h, 56, 1);
            if version == 3 {
                be64(&mut h, 72, rng.below(2));
                be64(&mut h, 80, rng.below(2));
                be64(&mut h, 88, rng.below(4));
                be32(&mut h, 96, 4);
                be32(&mut h, 100, header as u32);
            }
        }
    }
    places.push((0, header));
    places.push((4, 44.min(header - 4)));
    places.push((l1_at, (l1_entries * 8).clamp(8, 64)));
    if rng.chance(1, 10) {
        next += 1 << 33;
    }
    m.write(0, &h);
    let copied = |rng: &mut Rng| if version > 1 && rng.chance(1, 2) { 1u64 << 63 } else { 0 };
    let mut tables = std::collections::BTreeMap::new();
    let mut next = if version == 1 { next.div_ceil(512) * 512 } else { align(next) };
    for c in used {
        let l1 = c >> l2_bits;
        let l2 = c & ((1 << l2_bits) - 1);
        let table = match tables.get(&l1) {
            Some(t) => *t,
            None => {
                let t = next;
                let flag = copied(rng);
                m.write(l1_at + l1 * 8, &(t | flag).to_be_bytes());
                next += 8 << l2_bits;
                if version > 1 {
                    next = align(next);
                }
                tables.insert(l1, t);
                t
            }
        };
        places.push((table + l2 * 8, 8));
        let at = c * cluster;
        let n = (size - at).min(cluster) as usize;
        let mut kind = rng.below(8);
        if let Some(w) = want {
            let zeros = w.get(at, n).iter().all(|b| *b == 0);
            kind = if zeros && version == 3 { 1 + rng.below(3) } else { 7 };
        }
        let entry = match kind {
            0 => 0,
            1 | 2 if version == 3 => {
                // reads as zeros, with or without a cluster of its own
                content.write(at, &vec![0; n]);
                if kind == 1 {
                    1
                } else {
                    let o = next;
                    m.write(o, &fill(!salt, at, cluster as usize));
                    next += cluster;
                    o | 1 | copied(rng)
                }
            }
            _ => {
                next += match version {
                    1 => 512 * rng.below(3),
                    _ => cluster * rng.below(2),
                };
                let o = next;
                let v = match want {
                    Some(w) => w.get(at, cluster as usize),
                    None => fill(salt, at, cluster as usize),
                };
                m.write(o, &v);
                content.write(at, &v[..n]);
                stored.push((table + l2 * 8, at));
                next += cluster;
                o | copied(rng)
            }
        };
        m.write(table + l2 * 8, &entry.to_be_bytes());
    }
    m.size = next.max(512);
    (m, content)
}

fn qcow(rng: &mut Rng) -> Qcow {
    let mut q = Qcow { files: Files::new(), layers: Vec::new(), places: Vec::new(), clusters: Vec::new() };
    let depth = *rng.pick(&[1usize, 1, 2, 2, 3, 5]);
    for k in 0..depth {
        q.places.clear();
        q.clusters.clear();
        let version = 1 + rng.below(3) as u32;
        let bits = *rng.pick(&[9u32, 9, 10, 11, 12, 12, 14, 16, 16, 18]);
        let l2_bits = if version == 1 { *rng.pick(&[1u32, 3, 6, 9, 12]) } else { bits - 3 };
        let cluster = 1u64 << bits;
        let mut size = match rng.below(6) {
            0 => 512 * (1 + rng.below(30)),
            1 => (1 + rng.below(8)) * (cluster << l2_bits),
            2 => cluster * (1 + rng.below(300)),
            3 => 512 * (1 + rng.below(1 << 24)),
            4 => 512 * (1 + rng.below((cluster / 512) * 600)),
            _ => 1 + rng.below(cluster * 40),
        };
        size = size.min((cluster << l2_bits) * 3000);
        if let Some(p) = q.layers.last() {
            if rng.chance(1, 2) && p.content.size / (cluster << l2_bits) < 3000 {
                size = p.content.size;
            }
        }
        let name = match rng.below(3) {
            0 => format!("disk{k}.qcow2"),
            1 => format!("base image {k}"),
            _ => format!("disque n\u{00b0} {k} \u{78c1}.img"),
        };
        let parent = q.layers.last().map(|p| (p.name.as_str(), &p.content));
        let (m, content) = file(rng, version, bits, l2_bits, size, parent, None, &mut q.places, &mut q.clusters);
        q.files.insert(name.clone(), m);
        q.layers.push(Layer { name, version, bits, content });
    }
    q
}

/// A file with the given content, over that of its parent.
pub fn pack(rng: &mut Rng, content: &Media, parent: Option<(&str, &Media)>) -> Media {
    let version = 1 + rng.below(3) as u32;
    let mut bits = *rng.pick(&[9u32, 10, 12, 16, 16]);
    while content.size >> (2 * bits - 3) > 3000 {
        bits += 1;
    }
    file(rng, version, bits, bits - 3, content.size, parent, Some(content), &mut Vec::new(), &mut Vec::new()).0
}

/// Some chain of files: the name of the top one, and the content of the layers.
pub fn sample(rng: &mut Rng) -> (Files, String, Vec<Media>) {
    let q = qcow(rng);
    let name = q.layers.last().unwrap().name.clone();
    (q.files, name, q.layers.into_iter().map(|l| l.content).collect())
}

fn open(files: &Files, name: &str) -> Result<QcowImage, String> {
    let mut i = QcowImage::new();
    i.open(&resolver(files), &PathComponent::from(name)).map_err(|e| e.to_string())?;
    Ok(i)
}

pub fn case(ctx: &mut Ctx) -> CaseResult {
    let q = qcow(&mut ctx.rng);
    let top = q.layers.last().unwrap();
    let describe = || q.layers.iter().map(|l| format!("{} version {} size {} cluster bits {}", l.name, l.version, l.content.size, l.bits)).collect::<Vec<_>>().join(", ");
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(q.files.values().fold(0, |h, m| h ^ m.hash()));
    let i = match no_panic("QCOW", || open(&q.files, &top.name))? {
        Ok(i) => i,
        Err(e) => fail!("qcow:refused", "valid image refused: {e}"),
    };
    require_eq!(i.get_number_of_layers(), q.layers.len(), "qcow:layers", "number of layers");
    require!(i.get_layer_by_index(q.layers.len()).is_err(), "qcow:layers", "a layer more than there are");
    let mut order: Vec<usize> = (0..q.layers.len()).collect();
    ctx.rng.shuffle(&mut order);
    for k in order {
        let l = &q.layers[k];
        let f = match i.get_layer_by_index(k) {
            Ok(f) => f,
            Err(e) => fail!("qcow:layers", "layer {k}: {}", e.to_string()),
        };
        {
            let f = f.read().unwrap();
            require_eq!((f.format_version, f.media_size), (l.version, l.content.size), "qcow:values", "version and size of layer {k}");
            require!(f.compression_method == QcowCompressionMethod::Zlib, "qcow:values", "compression method of layer {k}");
            let name = f.get_backing_file_name().map(|u| u.to_string());
            let expected = if k > 0 { Some(q.layers[k - 1].name.clone()) } else { None };
            require_eq!(name, expected, "qcow:backing", "backing file name of layer {k}");
        }
        let s: keramics_core::DataStreamReference = f;
        rewind(&s);
        let max = ((3usize) << l.bits).clamp(2000, 70_000);
        drive(ctx, "qcow", &s, &l.content, if k + 1 == q.layers.len() { 30 } else { 10 }, max)?;
        if k + 1 == q.layers.len() && l.content.size < 2_000_000 {
            sweep(ctx, "qcow", &s, &l.content)?;
        }
        ctx.count(match l.version {
            1 => "version 1 files",
            2 => "version 2 files",
            _ => "version 3 files",
        });
    }
    if q.layers.len() > 1 {
        let k = ctx.rng.usize(0, q.layers.len() - 2);
        let mut files = q.files.clone();
        let what = match ctx.rng.below(3) {
            0 => {
                files.remove(&q.layers[k].name);
                "no backing file"
            }
            1 => {
                files.insert(q.layers[k].name.clone(), Media::from_bytes(&fill(7, 0, 4096)));
                "another file as backing file"
            }
            _ => {
                let f = q.files[&top.name].clone();
                files.insert(q.layers[k].name.clone(), f);
                "the disk itself as backing file"
            }
        };
        let r = no_panic("QCOW", || open(&files, &top.name).map(|_| ()))?;
        require!(r.is_err(), "qcow:other-backing", "{what} was accepted");
        ctx.count("wrong backing files refused");
    }
    if ctx.rng.chance(1, 4) {
        let mut files = q.files.clone();
        let at = if top.version == 1 { 36 } else { 32 };
        let e = 1 + ctx.rng.below(3) as u32;
        files.get_mut(&top.name).unwrap().write(at, &e.to_be_bytes());
        let r = no_panic("QCOW", || open(&files, &top.name).map(|_| ()))?;
        require!(r.is_err(), "qcow:encrypted", "encryption method {e} was accepted");
        ctx.count("encrypted disks refused");
    }
    if !q.clusters.is_empty() && ctx.rng.chance(1, 4) {
        // compressed clusters are not supported: an error, and no other data
        let (place, at) = *ctx.rng.pick(&q.clusters);
        let mut files = q.files.clone();
        let f = files.get_mut(&top.name).unwrap();
        let flag: u8 = if top.version == 1 { 0x80 } else { 0x40 };
        let b = f.get(place, 1)[0];
        f.write(place, &[b & 0x3f | flag]);
        let i = match no_panic("QCOW", || open(&files, &top.name))? {
            Ok(i) => i,
            Err(_) => return Ok(()),
        };
        let s: keramics_core::DataStreamReference = match i.get_layer_by_index(q.layers.len() - 1) {
            Ok(s) => s,
            Err(e) => fail!("qcow:layers", "the top layer: {}", e.to_string()),
        };
        let r = no_panic("QCOW", || {
            let mut s = s.write().unwrap();
            s.seek(std::io::SeekFrom::Start(at)).and_then(|_| s.read(&mut [0u8; 16])).is_err()
        })?;
        require!(r, "qcow:compressed", "a compressed cluster at {at} was read as one that is not");
        ctx.count("compressed clusters refused");
    }
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let mut q = qcow(&mut ctx.rng);
    let name = q.layers.last().unwrap().name.clone();
    let m = q.files.get_mut(&name).unwrap();
    mutate_media(&mut ctx.rng, m, &q.places);
    ctx.distinct_hash(m.hash());
    let files = q.files;
    probe(ctx, "QCOW", &|| {
        let i = open(&files, &name)?;
        let mut o = Opened::default();
        for k in 0..i.get_number_of_layers() {
            let f = i.get_layer_by_index(k).map_err(|e| e.to_string())?;
            {
                let f = f.read().unwrap();
                o.text.push_str(&format!("{} {};", f.media_size, f.format_version));
            }
            o.streams.push(f);
        }
        Ok(o)
    })
}
