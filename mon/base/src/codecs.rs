//! C04 (single-byte code pages), C05 (Windows 932), C06 (UTF-8).

use std::collections::HashMap;
use std::sync::OnceLock;

use keramics_encodings::{CharacterEncoding as E, new_character_decoder, new_character_encoder};
use mon_common::*;

const SINGLE: [(&str, E); 36] = [
    ("ascii", E::Ascii),
    ("iso8859_1", E::Iso8859_1),
    ("iso8859_2", E::Iso8859_2),
    ("iso8859_3", E::Iso8859_3),
    ("iso8859_4", E::Iso8859_4),
    ("iso8859_5", E::Iso8859_5),
    ("iso8859_6", E::Iso8859_6),
    ("iso8859_7", E::Iso8859_7),
    ("iso8859_8", E::Iso8859_8),
    ("iso8859_9", E::Iso8859_9),
    ("iso8859_10", E::Iso8859_10),
    ("iso8859_11", E::Iso8859_11),
    ("iso8859_13", E::Iso8859_13),
    ("iso8859_14", E::Iso8859_14),
    ("iso8859_15", E::Iso8859_15),
    ("iso8859_16", E::Iso8859_16),
    ("koi8_r", E::Koi8R),
    ("koi8_u", E::Koi8U),
    ("mac_arabic", E::MacArabic),
    ("mac_celtic", E::MacCeltic),
    ("mac_latin2", E::MacCentralEurRoman),
    ("mac_croatian", E::MacCroatian),
    ("mac_cyrillic", E::MacCyrillic),
    ("mac_dingbats", E::MacDingbats),
    ("mac_farsi", E::MacFarsi),
    ("mac_gaelic", E::MacGaelic),
    ("cp874", E::Windows874),
    ("cp1250", E::Windows1250),
    ("cp1251", E::Windows1251),
    ("cp1252", E::Windows1252),
    ("cp1253", E::Windows1253),
    ("cp1254", E::Windows1254),
    ("cp1255", E::Windows1255),
    ("cp1256", E::Windows1256),
    ("cp1257", E::Windows1257),
    ("cp1258", E::Windows1258),
];

pub struct CodePage {
    pub name: &'static str,
    pub encoding: E,
    pub decode: [Option<u32>; 256],
    /// Code point to the bytes that stand for it.
    pub encode: HashMap<u32, Vec<u8>>,
}

pub fn pages() -> &'static Vec<CodePage> {
    static P: OnceLock<Vec<CodePage>> = OnceLock::new();
    P.get_or_init(|| {
        let text = include_str!("../data/single_byte.txt");
        let mut r = Vec::new();
        for line in text.lines() {
            let mut it = line.split_whitespace();
            let name = it.next().unwrap();
            let _source = it.next().unwrap();
            let (n, e) = SINGLE.iter().find(|(n, _)| *n == name).unwrap();
            let mut decode = [None; 256];
            let mut encode: HashMap<u32, Vec<u8>> = HashMap::new();
            for b in 0..256usize {
                let f = it.next().unwrap();
                if f != "-" && !(name == "ascii" && b >= 0x80) {
                    let c = u32::from_str_radix(f, 16).unwrap();
                    decode[b] = Some(c);
                    encode.entry(c).or_default().push(b as u8);
                }
            }
            r.push(CodePage { name: n, encoding: e.clone(), decode, encode });
        }
        assert_eq!(r.len(), 36);
        r
    })
}

/// What a decoder or encoder delivered: Some(value) or an error, at most `cap` items.
pub fn drain<T, X>(it: Box<dyn Iterator<Item = Result<T, X>> + '_>, cap: usize) -> Vec<Option<T>> {
    it.take(cap).map(|r| r.ok()).collect()
}

pub fn decode(e: &E, bytes: &[u8]) -> Result<Vec<Option<u32>>, Violation> {
    no_panic("decoder", || drain(new_character_decoder(e, bytes), bytes.len() + 4))
}
pub fn encode(e: &E, cps: &[u32]) -> Result<Vec<Option<Vec<u8>>>, Violation> {
    no_panic("encoder", || drain(new_character_encoder(e, cps), cps.len() + 4))
}

/// ASCII gives no meaning to the upper half; nothing is claimed about it but totality.
fn expect_byte(p: &CodePage, b: u8) -> Option<Option<u32>> {
    if p.name == "ascii" && b >= 0x80 { None } else { Some(p.decode[b as usize]) }
}

fn single_decode(ctx: &mut Ctx) -> CaseResult {
    let p = &pages()[ctx.index as usize % 36];
    for b in 0..=255u8 {
        let got = decode(&p.encoding, &[b])?;
        require!(got.len() == 1, &format!("{}:items", p.name), "{} byte {:02x}: {} items", p.name, b, got.len());
        if let Some(want) = expect_byte(p, b) {
            require!(
                got[0] == want, &format!("{}:decode", p.name),
                "{} byte {:02x}: observed {:x?} expected {:x?}", p.name, b, got[0], want
            );
            ctx.count(if want.is_some() { "byte decoded" } else { "undefined byte refused" });
            ctx.distinct(&[p.name.len() as u8, ctx.index as u8, b]);
        }
    }
    ctx.sample(|| format!("all 256 bytes of {}", p.name));
    Ok(())
}

const BLOCK: u32 = 4096;
/// Code point blocks an index stands for: 36 code pages x 272 blocks of 4096 code points.
fn single_encode(ctx: &mut Ctx) -> CaseResult {
    let p = &pages()[(ctx.index % 36) as usize];
    let block = (ctx.index / 36) as u32;
    let cps: Vec<u32> = (block * BLOCK..(block + 1) * BLOCK).collect();
    let got = encode(&p.encoding, &cps)?;
    require!(
        got.len() == cps.len(), &format!("{}:items", p.name),
        "{} delivers {} items for {} code points from U+{:04x}", p.name, got.len(), cps.len(), cps[0]
    );
    for (c, g) in cps.iter().zip(got.iter()) {
        check_encoded(ctx, p, *c, g)?;
    }
    ctx.add("code points offered", cps.len() as u64);
    ctx.sample(|| format!("{}: code points U+{:04X} to U+{:04X}", p.name, cps[0], cps[cps.len() - 1]));
    Ok(())
}

fn check_encoded(ctx: &mut Ctx, p: &CodePage, c: u32, g: &Option<Vec<u8>>) -> CaseResult {
    match (g, p.encode.get(&c)) {
        (Some(b), Some(want)) => {
            require!(
                b.len() == 1 && want.contains(&b[0]), &format!("{}:encode", p.name),
                "{} U+{:04x}: observed {:02x?} expected one of {:02x?}", p.name, c, b, want
            );
            ctx.count("code point encoded");
        }
        (None, None) => {}
        (Some(b), None) => fail!(&format!("{}:encode-unmapped", p.name), "{} U+{:04x} is not in the code page but encodes as {:02x?}", p.name, c, b),
        (None, Some(want)) => fail!(&format!("{}:encode-refused", p.name), "{} U+{:04x} stands for {:02x?} but is refused", p.name, c, want),
    }
    Ok(())
}

/// Sequences: every byte or code point is treated as it is alone, in order.
fn single_sequences(ctx: &mut Ctx) -> CaseResult {
    let p = &pages()[ctx.rng.below(36) as usize];
    let n = if ctx.index % 500 == 1 { ctx.rng.size(200_000) } else { ctx.rng.size(300) };
    if n > 1 << 16 {
        ctx.count("more than 2^16 items");
    }
    let bytes = if ctx.rng.chance(1, 2) { ctx.rng.bytes(n) } else { ctx.rng.data(n) };
    ctx.detail(format!("{} {} bytes {}", p.name, n, hex(&bytes[..n.min(3000)])));
    let got = decode(&p.encoding, &bytes)?;
    require_eq!(got.len(), bytes.len(), &format!("{}:items", p.name), "items of a {} sequence of {} bytes", p.name, n);
    for (i, b) in bytes.iter().enumerate() {
        if let Some(want) = expect_byte(p, *b) {
            require!(got[i] == want, &format!("{}:decode", p.name), "{} byte {:02x} at {}: {:x?} expected {:x?}", p.name, b, i, got[i], want);
        }
    }
    let known: Vec<u32> = p.encode.keys().copied().filter(|c| *c >= 0x80).collect();
    let cps: Vec<u32> = (0..n)
        .map(|_| match ctx.rng.below(5) {
            0 => ctx.rng.below(0x110000) as u32,
            1 => ctx.rng.below(128) as u32,
            2 => ctx.rng.edge_u64() as u32,
            _ if !known.is_empty() => {
                let c = *ctx.rng.pick(&known);
                if ctx.rng.chance(1, 4) { c ^ (1 << ctx.rng.below(12)) } else { c }
            }
            _ => 0x41,
        })
        .collect();
    let got = encode(&p.encoding, &cps)?;
    require_eq!(got.len(), cps.len(), &format!("{}:items", p.name), "items of {} code points in {}", n, p.name);
    for (c, g) in cps.iter().zip(got.iter()) {
        check_encoded(ctx, p, *c, g)?;
    }
    // Text in the repertoire survives a round trip.
    let flat: Vec<u8> = got.iter().flatten().flatten().copied().collect();
    let back = decode(&p.encoding, &flat)?;
    let want: Vec<Option<u32>> = cps.iter().zip(got.iter()).filter(|(_, g)| g.is_some()).map(|(c, _)| Some(*c)).collect();
    require!(back == want, &format!("{}:roundtrip", p.name), "{}: decoding the encoded text gives other text", p.name);
    ctx.add("round trip code points", want.len() as u64);
    ctx.distinct(&bytes);
    ctx.sample(|| format!("{}: decode {}", p.name, hex(&bytes[..n.min(200)])));
    Ok(())
}

pub struct Cp932 {
    pub decode: HashMap<Vec<u8>, u32>,
    pub encode: HashMap<u32, Vec<u8>>,
    pub sequences: Vec<Vec<u8>>,
}
pub fn cp932() -> &'static Cp932 {
    static P: OnceLock<Cp932> = OnceLock::new();
    P.get_or_init(|| {
        let mut decode = HashMap::new();
        let mut encode = HashMap::new();
        let mut sequences = Vec::new();
        for line in include_str!("../data/cp932.txt").lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            let bytes = |s: &str| -> Vec<u8> {
                (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
            };
            let b = bytes(f[0]);
            let c = u32::from_str_radix(f[1], 16).unwrap();
            decode.insert(b.clone(), c);
            encode.insert(c, if f.len() > 2 { bytes(f[2]) } else { b.clone() });
            sequences.push(b);
        }
        Cp932 { decode, encode, sequences }
    })
}

/// Lead bytes of two-byte characters of code page 932 outside the user-defined area.
fn is_lead(b: u8) -> bool {
    (0x81..=0x9f).contains(&b) || (0xe0..=0xef).contains(&b) || (0xfa..=0xfc).contains(&b)
}
fn is_vendor(b: u8) -> bool {
    b == 0x80 || b == 0xa0 || b >= 0xfd || (0xf0..=0xf9).contains(&b)
}

fn cp932_decode(ctx: &mut Ctx) -> CaseResult {
    let t = cp932();
    let lead = ctx.index as u8;
    if is_vendor(lead) {
        let got = decode(&E::Windows932, &[lead, 0x40])?;
        require!(got.len() <= 2, "cp932:items", "{} items for two bytes", got.len());
        return Ok(());
    }
    if !is_lead(lead) {
        let got = decode(&E::Windows932, &[lead])?;
        let want = t.decode.get(&vec![lead]).copied();
        require!(got == vec![want], "cp932:decode", "byte {:02x}: {:x?} expected {:x?}", lead, got, want);
        ctx.count("byte decoded");
        return Ok(());
    }
    let got = decode(&E::Windows932, &[lead])?;
    require!(got == vec![None], "cp932:truncated", "a lone lead byte {:02x} gives {:x?}", lead, got);
    for trail in 0..=255u8 {
        let got = decode(&E::Windows932, &[lead, trail])?;
        let want = t.decode.get(&vec![lead, trail]).copied();
        require!(!got.is_empty() && got.len() <= 2, "cp932:items", "{} items for two bytes", got.len());
        require!(
            got[0] == want, "cp932:decode",
            "bytes {:02x} {:02x}: observed {:x?} expected {:x?}", lead, trail, got[0], want
        );
        if want.is_some() {
            require!(got.len() == 1, "cp932:items", "bytes {:02x} {:02x}: {} items", lead, trail, got.len());
            ctx.count("two-byte character decoded");
        } else {
            ctx.count("undefined pair refused");
        }
        ctx.distinct(&[lead, trail]);
    }
    ctx.sample(|| format!("all trail bytes after lead byte {:02x}", lead));
    Ok(())
}

fn cp932_encode(ctx: &mut Ctx) -> CaseResult {
    let t = cp932();
    let base = ctx.index as u32 * BLOCK;
    let cps: Vec<u32> = (base..base + BLOCK).collect();
    let got = encode(&E::Windows932, &cps)?;
    require_eq!(got.len(), cps.len(), "cp932:items", "items for {} code points", cps.len());
    for (c, g) in cps.iter().zip(got.iter()) {
        if (0xe000..=0xf8ff).contains(c) || *c == 0x80 || *c == 0xa0 {
            continue;
        }
        let want = t.encode.get(c);
        require!(g.as_ref() == want, "cp932:encode", "U+{:04x}: observed {:02x?} expected {:02x?}", c, g, want);
        if want.is_some() {
            ctx.count("code point encoded");
            ctx.distinct(&c.to_le_bytes());
        }
    }
    ctx.add("code points offered", cps.len() as u64);
    ctx.sample(|| format!("code points U+{:04X}..", base));
    Ok(())
}

fn cp932_sequences(ctx: &mut Ctx) -> CaseResult {
    let t = cp932();
    let n = if ctx.index % 500 == 1 { ctx.rng.size(100_000) } else { ctx.rng.size(120) };
    if n > 1 << 16 {
        ctx.count("more than 2^16 characters");
    }
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let s = if ctx.rng.chance(1, 5) { vec![ctx.rng.below(0x80) as u8] } else { ctx.rng.pick(&t.sequences).clone() };
        want.push(Some(t.decode[&s]));
        bytes.extend_from_slice(&s);
    }
    ctx.detail(format!("{} characters {}", n, hex(&bytes[..bytes.len().min(3000)])));
    let got = decode(&E::Windows932, &bytes)?;
    require!(got == want, "cp932:sequence", "text of {} characters decodes to something else", n);
    // Cut or corrupt the text: everything before the damage is unaffected.
    if n > 0 {
        let cut = ctx.rng.usize(0, bytes.len());
        let mut damaged = bytes[..cut].to_vec();
        damaged.extend(ctx.rng.bytes(8));
        let got = decode(&E::Windows932, &damaged)?;
        require!(got.len() <= damaged.len(), "cp932:items", "{} items for {} bytes", got.len(), damaged.len());
        let mut at = 0;
        for (i, w) in want.iter().enumerate() {
            let l = if is_lead(bytes[at]) { 2 } else { 1 };
            if at + l > cut {
                break;
            }
            require!(got.get(i) == Some(w), "cp932:prefix", "character {} before the damage at byte {} changed", i, cut);
            at += l;
        }
        ctx.count("damaged text");
    }
    let cps: Vec<u32> = want.iter().map(|c| c.unwrap()).collect();
    let got = encode(&E::Windows932, &cps)?;
    let flat: Vec<u8> = got.iter().flatten().flatten().copied().collect();
    let back = decode(&E::Windows932, &flat)?;
    require!(back == want, "cp932:roundtrip", "encoding and decoding {} characters changes them", n);
    ctx.add("round trip code points", n as u64);
    ctx.distinct(&bytes);
    ctx.sample(|| format!("text of {} characters, {} bytes", n, bytes.len()));
    Ok(())
}

/// UTF-8 by the book: RFC 3629 table of well-formed sequences; each maximal ill-formed prefix is
/// one error. Written from the RFC, then cross-checked with the standard library.
fn utf8_reference(bytes: &[u8]) -> Vec<Option<u32>> {
    let mut r = Vec::new();
    for chunk in bytes.utf8_chunks() {
        r.extend(chunk.valid().chars().map(|c| Some(c as u32)));
        if !chunk.invalid().is_empty() {
            r.push(None);
        }
    }
    r
}

fn utf8_check(ctx: &mut Ctx, bytes: &[u8]) -> CaseResult {
    let want = utf8_reference(bytes);
    let got = decode(&E::Utf8, bytes)?;
    if got != want {
        let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail!(
            "utf8:decode",
            "bytes {}: item {}: observed {:x?} expected {:x?}", hex(bytes), i, got.get(i), want.get(i)
        );
    }
    for w in want.iter() {
        ctx.count(match w {
            None => "ill-formed sequence refused",
            Some(0..=0x7f) => "1-byte sequence",
            Some(0x80..=0x7ff) => "2-byte sequence",
            Some(0x800..=0xffff) => "3-byte sequence",
            Some(_) => "4-byte sequence",
        });
    }
    Ok(())
}

/// All sequences of up to three bytes (the third byte's class decides), per lead byte; and for
/// 4-byte leads, all second bytes with boundary third and fourth bytes.
fn utf8_exhaustive(ctx: &mut Ctx) -> CaseResult {
    let lead = ctx.index as u8;
    utf8_check(ctx, &[lead])?;
    let tails = [0x00u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff];
    for b in 0..=255u8 {
        utf8_check(ctx, &[lead, b])?;
        if lead < 0xc0 {
            continue;
        }
        for c in 0..=255u8 {
            if c % 7 != 0 && !tails.contains(&c) {
                continue;
            }
            utf8_check(ctx, &[lead, b, c])?;
            if lead >= 0xe0 {
                for d in tails {
                    utf8_check(ctx, &[lead, b, c, d])?;
                }
            }
        }
    }
    ctx.distinct(&[lead]);
    ctx.sample(|| format!("sequences starting with {:02x}", lead));
    Ok(())
}

/// Every scalar value, in blocks.
fn utf8_scalars(ctx: &mut Ctx) -> CaseResult {
    let base = ctx.index as u32 * BLOCK;
    let mut s = String::new();
    for c in base..base + BLOCK {
        if let Some(c) = char::from_u32(c) {
            s.push(c);
        }
    }
    utf8_check(ctx, s.as_bytes())?;
    ctx.distinct(&base.to_le_bytes());
    ctx.add("scalar values", s.chars().count() as u64);
    Ok(())
}

fn utf8_random(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.index % 1000 == 1 { ctx.rng.size(200_000) } else { ctx.rng.size(60) };
    if n > 1 << 16 {
        ctx.count("more than 2^16 characters");
    }
    let mut bytes = Vec::new();
    for _ in 0..n {
        match ctx.rng.below(6) {
            0 => bytes.push(ctx.rng.byte()),
            1 => bytes.push(*ctx.rng.pick(&[0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0x80, 0xbf])),
            _ => {
                let c = loop {
                    let bits = ctx.rng.range(7, 21);
                    if let Some(c) = char::from_u32(ctx.rng.below(1 << bits) as u32) {
                        break c;
                    }
                };
                let mut b = [0; 4];
                let e = c.encode_utf8(&mut b).as_bytes();
                let keep = if ctx.rng.chance(1, 12) { ctx.rng.usize(0, e.len()) } else { e.len() };
                bytes.extend_from_slice(&e[..keep]);
            }
        }
    }
    let begin = &bytes[..bytes.len().min(3000)];
    ctx.detail(hex(begin));
    utf8_check(ctx, &bytes)?;
    ctx.distinct(&bytes);
    ctx.sample(|| hex(&begin[..begin.len().min(200)]));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            level: "exploration",
            rule: "every byte of the 36 single-byte code pages decoded and compared with reference tables; every code point U+0000-U+10FFFF offered to every encoder; random sequences checked item by item and round-tripped; non-trivial = distinct (code page, byte) or sequence",
            assumptions: &[
                "reference tables come from the Python standard library codecs; Mac Celtic, Gaelic and Dingbats (absent there) are recorded from the pinned commit",
                "nothing is claimed about bytes above 0x7f in ASCII",
            ],
            sections: vec![
                Section { name: "decode", quick: 36, thorough: 36, run: single_decode },
                Section { name: "encode", quick: 36 * 272, thorough: 36 * 272, run: single_encode },
                Section { name: "sequences", quick: 200_000, thorough: 4_000_000, run: single_sequences },
            ],
            must_observe: &["byte decoded", "undefined byte refused", "code point encoded", "round trip code points", "more than 2^16 items"],
            case_cpu_limit: 60,
        },
        Property {
            id: "C05",
            level: "exploration",
            rule: "every one-byte and two-byte sequence of Windows code page 932 outside the user-defined area decoded, every code point offered to the encoder, random text round-tripped and damaged; compared with a reference table; non-trivial = distinct byte pair, code point or text",
            assumptions: &["reference table from the Python standard library cp932 codec; the user-defined area (lead bytes F0-F9) and single bytes 80, A0, FD-FF are excluded"],
            sections: vec![
                Section { name: "decode", quick: 256, thorough: 256, run: cp932_decode },
                Section { name: "encode", quick: 272, thorough: 272, run: cp932_encode },
                Section { name: "sequences", quick: 200_000, thorough: 4_000_000, run: cp932_sequences },
            ],
            must_observe: &["two-byte character decoded", "undefined pair refused", "code point encoded", "damaged text", "more than 2^16 characters"],
            case_cpu_limit: 60,
        },
        Property {
            id: "C06",
            level: "exploration",
            rule: "all 1- and 2-byte sequences, 3- and 4-byte sequences over boundary bytes, every Unicode scalar value, random mixes of well-formed, truncated and ill-formed sequences; oracle: the Rust standard library's UTF-8 validation (one error per maximal ill-formed subsequence); non-trivial = distinct byte string",
            assumptions: &["std::str UTF-8 validation is correct"],
            sections: vec![
                Section { name: "exhaustive", quick: 256, thorough: 256, run: utf8_exhaustive },
                Section { name: "scalars", quick: 272, thorough: 272, run: utf8_scalars },
                Section { name: "random", quick: 600_000, thorough: 20_000_000, run: utf8_random },
            ],
            must_observe: &["ill-formed sequence refused", "1-byte sequence", "2-byte sequence", "3-byte sequence", "4-byte sequence", "more than 2^16 characters"],
            case_cpu_limit: 60,
        },
    ]
}
