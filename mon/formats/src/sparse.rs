//! Mac OS sparse images and sparse bundles.

use std::sync::{Arc, RwLock};

use keramics_core::DataStreamReference;
use keramics_formats::sparsebundle::SparseBundleImage;
use keramics_formats::sparseimage::SparseImageFile;
use mon_common::*;

use crate::hostile::{Opened, probe};
use crate::media::*;

struct Image {
    file: Media,
    content: Media,
    band: u64,
    array: Vec<u32>,
}

fn image(rng: &mut Rng) -> Image {
    let spb = match rng.below(6) {
        0 => 1,
        1 => 1 + rng.below(8),
        2 => 16,
        3 => 2048,
        4 => 1 + rng.below(300),
        _ => *rng.pick(&[4096, 65536]),
    };
    let band = spb * 512;
    let bands = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => 1008,
        3 => 256 + rng.below(3),
        _ => 1 + rng.below(40),
    };
    let sectors = match bands {
        0 => 0,
        n => (n - 1) * spb + 1 + rng.below(spb),
    };
    let sectors = sectors.min(u32::MAX as u64 - 1);
    let size = sectors * 512;
    let salt = rng.next();
    let mut content = Media::new(size, 512);
    // which bands exist: the array tells where each place in the file belongs
    let mut used: Vec<u64> = (0..bands).collect();
    rng.shuffle(&mut used);
    let keep = if rng.chance(1, 4) { bands } else { rng.below(bands + 1) };
    used.truncate(keep as usize);
    if rng.chance(1, 3) {
        used.sort();
    }
    let mut array = vec![0u32; bands as usize];
    let mut places: Vec<usize> = (0..bands as usize).collect();
    if rng.chance(1, 3) {
        // gaps in the array
        rng.shuffle(&mut places);
    }
    let mut file = Media::new(4096, 4096);
    for (b, place) in used.iter().zip(&places) {
        array[*place] = *b as u32 + 1;
        let data_at = 4096 + *place as u64 * band;
        // all of a small band, some of a large one
        let runs = if used.len() as u64 * band <= 1 << 20 {
            vec![(0, band)]
        } else {
            let n = 512 * (1 + rng.below(4));
            vec![(0, n.min(band)), (band - n.min(band), n.min(band)), ((band / 2) & !511, 512)]
        };
        for (o, n) in runs {
            let v = fill(salt, b * band + o, n as usize);
            file.write(data_at + o, &v);
            let at = b * band + o;
            if at < size {
                content.write(at, &v[..v.len().min((size - at) as usize)]);
            }
        }
        file.size = file.size.max(data_at + band);
    }
    let mut h = vec![0u8; 4096];
    h[0..4].copy_from_slice(b"sprs");
    be32(&mut h, 4, 3);
    be32(&mut h, 8, spb as u32);
    be32(&mut h, 12, 1);
    be32(&mut h, 16, sectors as u32);
    be32(&mut h, 32, rng.next() as u32);
    for (i, n) in array.iter().enumerate() {
        be32(&mut h, 64 + 4 * i, *n);
    }
    file.write(0, &h);
    Image { file, content, band, array }
}

/// An image with the given content.
pub fn pack(rng: &mut Rng, content: &Media) -> Media {
    let sectors = content.size / 512;
    let spb = sectors.div_ceil(1000).max(1) + rng.below(20);
    let band = spb * 512;
    let mut used: Vec<u64> = content.pieces(band).into_iter().collect();
    rng.shuffle(&mut used);
    let mut h = vec![0u8; 4096];
    h[0..4].copy_from_slice(b"sprs");
    be32(&mut h, 4, 3);
    be32(&mut h, 8, spb as u32);
    be32(&mut h, 12, 1);
    be32(&mut h, 16, sectors as u32);
    let mut file = Media::new(4096 + used.len() as u64 * band, 4096);
    for (k, b) in used.iter().enumerate() {
        be32(&mut h, 64 + 4 * k, *b as u32 + 1);
        file.write(4096 + k as u64 * band, &content.get(b * band, band as usize));
    }
    file.write(0, &h);
    file
}

/// Some image and its content.
pub fn sample(rng: &mut Rng) -> (Media, Media) {
    let i = image(rng);
    (i.file, i.content)
}

fn open_image(file: &Media) -> Result<SparseImageFile, String> {
    let mut f = SparseImageFile::new();
    f.read_data_stream(&sparse_stream(file)).map_err(|e| e.to_string())?;
    Ok(f)
}

pub fn image_case(ctx: &mut Ctx) -> CaseResult {
    let i = image(&mut ctx.rng);
    let describe = || format!("sparse image of {} bytes, bands of {} bytes, array {:?}", i.content.size, i.band, &i.array[..i.array.len().min(50)]);
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(i.file.hash());
    let f = match no_panic("sparse image", || open_image(&i.file))? {
        Ok(f) => f,
        Err(e) => fail!("sparseimage:refused", "valid image refused: {e}"),
    };
    require_eq!((f.media_size, f.block_size as u64), (i.content.size, i.band), "sparseimage:values", "media and block size");
    let s: DataStreamReference = Arc::new(RwLock::new(f));
    drive(ctx, "sparseimage", &s, &i.content, 30, (i.band as usize * 3).clamp(2000, 70_000))?;
    if i.content.size < 3_000_000 {
        sweep(ctx, "sparseimage", &s, &i.content)?;
    }
    ctx.count("sparse images");
    if !i.array.is_empty() {
        // a band that does not exist, the same band twice
        let mut bad = i.file.clone();
        let k = ctx.rng.usize(0, i.array.len() - 1) as u64;
        let n = if ctx.rng.chance(1, 2) { i.array.len() as u32 + 1 + ctx.rng.below(100) as u32 } else { u32::MAX };
        bad.write(64 + 4 * k, &n.to_be_bytes());
        let r = no_panic("sparse image", || open_image(&bad).map(|_| ()))?;
        require!(r.is_err(), "sparseimage:band", "band number {n} of {} accepted", i.array.len());
        ctx.count("bands out of range refused");
    }
    Ok(())
}

struct Bundle {
    files: Files,
    content: Media,
    band: u64,
    plist: String,
}

fn escape(rng: &mut Rng, s: &str) -> String {
    let style = rng.below(6);
    if style == 0 && !s.is_empty() {
        return format!("<![CDATA[{s}]]>");
    }
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '&' => out.push_str("&amp;"),
            '>' => out.push_str("&gt;"),
            '"' if rng.chance(1, 2) => out.push_str("&quot;"),
            '\'' if rng.chance(1, 2) => out.push_str("&apos;"),
            c if style == 1 && rng.chance(1, 4) => {
                let n = c as u32;
                match rng.below(3) {
                    0 => out.push_str(&format!("&#{n};")),
                    1 => out.push_str(&format!("&#x{n:x};")),
                    _ => out.push_str(&format!("&#x{n:04X};")),
                }
            }
            c => out.push(c),
        }
        if style == 2 && rng.chance(1, 10) {
            out.push_str("<!-- in between -->");
        }
    }
    out
}

fn word(rng: &mut Rng) -> String {
    let n = rng.usize(0, 12);
    (0..n).map(|_| *rng.pick(&['a', 'Z', '5', ' ', '-', '<', '&', '>', '"', '\'', '\u{e9}', '\u{4e2d}', '\u{1f600}', ';', '#'])).collect()
}

fn element(rng: &mut Rng, depth: usize) -> String {
    let k = rng.below(if depth > 3 { 8 } else { 12 });
    match k {
        0 => "<true/>".into(),
        1 => "<false />".into(),
        2 => format!("<integer>{}</integer>", rng.next() as i64 >> rng.below(64)),
        3 => format!("<real>{}</real>", *rng.pick(&["1.5", "-0.25", "1e10", "0"])),
        4 => {
            let w = word(rng);
            format!("<string>{}</string>", escape(rng, &w))
        }
        5 => rng.pick(&["<string/>", "<string></string>", "<data></data>", "<data/>", "<array/>", "<dict/>", "<array></array>", "<dict></dict>"]).to_string(),
        6 => {
            let n = rng.usize(0, 60);
            let v = rng.bytes(n);
            format!("<data>\n\t{}\n\t</data>", base64(&v))
        }
        7 => format!("<date>{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z</date>", 1900 + rng.below(200), 1 + rng.below(12), 1 + rng.below(28), rng.below(24), rng.below(60), rng.below(60)),
        8 | 9 => {
            let n = rng.usize(0, 4);
            let e: Vec<String> = (0..n).map(|_| element(rng, depth + 1)).collect();
            format!("<array>{}</array>", join(rng, &e))
        }
        _ => {
            let n = rng.usize(0, 4);
            let e: Vec<String> = (0..n)
                .map(|i| {
                    let w = word(rng);
                    format!("<key>{}{i}</key>{}{}", escape(rng, &w), gap(rng), element(rng, depth + 1))
                })
                .collect();
            format!("<dict>{}</dict>", join(rng, &e))
        }
    }
}

pub fn base64(v: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in v.chunks(3) {
        let w = (c[0] as usize) << 16 | (*c.get(1).unwrap_or(&0) as usize) << 8 | *c.get(2).unwrap_or(&0) as usize;
        for k in 0..4 {
            if k <= c.len() {
                s.push(A[w >> (18 - 6 * k) & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn gap(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1 => "<!-- a comment -->".into(),
        2 => " <!-- <key>size</key> -->\r\n".into(),
        3 => "<?hint a?>".into(),
        4 => "\n\n  \t".into(),
        _ => "\n\t".into(),
    }
}

fn join(rng: &mut Rng, parts: &[String]) -> String {
    let mut s = gap(rng);
    for p in parts {
        s.push_str(p);
        s.push_str(&gap(rng));
    }
    s
}

/// A property list with these pairs, in any order, among others.
pub fn plist(rng: &mut Rng, pairs: &[(&str, String)]) -> String {
    let mut rows: Vec<String> = pairs.iter().map(|(k, v)| format!("<key>{k}</key>{}{v}", gap(rng))).collect();
    if rng.chance(1, 2) {
        for i in 0..rng.usize(0, 4) {
            let e = element(rng, 0);
            rows.push(format!("<key>other {i}</key>{}{e}", gap(rng)));
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut rows);
    }
    let body = join(rng, &rows);
    let mut s = String::new();
    if rng.chance(1, 8) {
        s.push('\u{feff}');
    }
    if rng.chance(7, 8) {
        s.push_str(*rng.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\" ?>\n\n"]));
    }
    if rng.chance(1, 8) {
        s.push_str("<!-- first -->\n");
    }
    if rng.chance(7, 8) {
        s.push_str("<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n");
    }
    s.push_str(*rng.pick(&["<plist version=\"1.0\">", "<plist version='1.0' >", "<plist>"]));
    s.push_str(&gap(rng));
    s.push_str("<dict>");
    s.push_str(&body);
    s.push_str("</dict>");
    s.push_str(&gap(rng));
    s.push_str(*rng.pick(&["</plist>\n", "</plist>", "</plist >\n<!-- last -->\n"]));
    s
}

fn bundle(rng: &mut Rng) -> Bundle {
    let band = match rng.below(5) {
        0 => 1 + rng.below(600),
        1 => 512 * (1 + rng.below(16)),
        2 => 8_388_608,
        3 => 1 << (9 + rng.below(12)),
        _ => 1 + rng.below(70_000),
    };
    let size = 1 + match rng.below(5) {
        0 => rng.below(band),
        1 => band * (1 + rng.below(4)) - 1,
        2 => rng.below(band * 300),
        3 => (1 << 40) + rng.below(band * 300),
        _ => rng.below(band * 20),
    };
    let bands = size.div_ceil(band);
    let salt = rng.next();
    let mut content = Media::new(size, 512);
    let mut files = Files::new();
    let n = rng.usize(0, 20);
    for _ in 0..n {
        let b = match rng.below(3) {
            0 => rng.below(bands),
            1 => rng.below(bands.min(40)),
            _ => bands - 1 - rng.below(bands.min(3)),
        };
        let name = format!("bands/{b:x}");
        if files.contains_key(&name) {
            continue;
        }
        // a band file can be shorter than a band
        let len = match rng.below(4) {
            0 => 0,
            1 | 2 => band,
            _ => rng.below(band + 1),
        };
        let mut f = Media::new(len, 4096);
        let head = len.min(6000);
        let tail = (len - head).min(6000);
        for (o, l) in [(0, head), (len - tail, tail)] {
            if l == 0 {
                continue;
            }
            let at = b * band + o;
            let v = fill(salt, at, l as usize);
            f.write(o, &v);
            if at < size {
                content.write(at, &v[..v.len().min((size - at) as usize)]);
            }
        }
        files.insert(name, f);
    }
    let s = |s: &str| format!("<string>{s}</string>");
    let i = |n: u64| format!("<integer>{n}</integer>");
    let pairs = [
        ("CFBundleInfoDictionaryVersion", s("6.0")),
        ("band-size", i(band)),
        ("bundle-backingstore-version", i(1)),
        ("diskimage-bundle-type", s(&escape(rng, "com.apple.diskimage.sparsebundle"))),
        ("size", i(size)),
    ];
    let plist = plist(rng, &pairs);
    files.insert("Info.plist".into(), Media::from_bytes(plist.as_bytes()));
    files.insert("token".into(), Media::new(0, 1));
    Bundle { files, content, band, plist }
}

fn open_bundle(files: &Files) -> Result<SparseBundleImage, String> {
    let mut i = SparseBundleImage::new();
    i.open(&resolver(files)).map_err(|e| e.to_string())?;
    Ok(i)
}

pub fn bundle_case(ctx: &mut Ctx) -> CaseResult {
    let b = bundle(&mut ctx.rng);
    let describe = || format!("sparse bundle of {} bytes, bands of {} bytes, {} files, {}", b.content.size, b.band, b.files.len(), b.plist);
    ctx.detail(describe());
    ctx.sample(describe);
    ctx.distinct_hash(b.files.values().fold(0, |h, m| h ^ m.hash()));
    let i = match no_panic("sparse bundle", || open_bundle(&b.files))? {
        Ok(i) => i,
        Err(e) => fail!("sparsebundle:refused", "valid bundle refused: {e}"),
    };
    require_eq!((i.media_size, i.block_size as u64), (b.content.size, b.band), "sparsebundle:values", "media and block size");
    let s: DataStreamReference = Arc::new(RwLock::new(i));
    drive(ctx, "sparsebundle", &s, &b.content, 30, (b.band as usize * 3).clamp(2000, 50_000))?;
    if b.content.size < 1_000_000 {
        sweep(ctx, "sparsebundle", &s, &b.content)?;
    }
    ctx.count("sparse bundles");
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    if ctx.index % 2 == 0 {
        let i = image(&mut ctx.rng);
        let mut f = i.file;
        mutate_media(&mut ctx.rng, &mut f, &[(0, 20), (64, 4 * i.array.len().max(1) as u64)]);
        ctx.distinct_hash(f.hash());
        return probe(ctx, "sparse image", &|| {
            let i = open_image(&f)?;
            Ok(Opened { text: format!("{} {}", i.media_size, i.block_size), streams: vec![Arc::new(RwLock::new(i))] })
        });
    }
    let b = bundle(&mut ctx.rng);
    let mut files = b.files;
    let mut text = b.plist.into_bytes();
    if ctx.rng.chance(1, 3) {
        // numbers at the ends
        let n = ctx.rng.edge_u64() as i64;
        let key = *ctx.rng.pick(&["<key>size</key>", "<key>band-size</key>"]);
        let t = String::from_utf8(text).unwrap();
        text = t.replace(key, &format!("<key>x</key><true/>{key}<integer>{n}</integer><key>y</key>")).into_bytes();
    } else if ctx.rng.chance(1, 20) {
        let n = ctx.rng.usize(1, 7000);
        let t = *ctx.rng.pick(&["array", "dict", "string", "integer"]);
        let open = if t == "dict" { "<dict><key>a</key>".to_string() } else { format!("<{t}>") };
        let deep = format!("<plist>{}{}</plist>", open.repeat(n.min(60_000 / (open.len() + t.len() + 3))), format!("</{t}>").repeat(n));
        text = deep.into_bytes();
        text.truncate(65536);
    } else {
        mutate(&mut ctx.rng, &mut text, &[]);
    }
    files.insert("Info.plist".into(), Media::from_bytes(&text));
    ctx.distinct(&text);
    probe(ctx, "sparse bundle", &|| {
        let i = open_bundle(&files)?;
        Ok(Opened { text: format!("{} {}", i.media_size, i.block_size), streams: vec![Arc::new(RwLock::new(i))] })
    })
}
