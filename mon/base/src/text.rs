//! C07 (Base64), C08 (byte strings), C09 (16-bit strings), C10 (UUIDs), C11 (date and time).

use std::cmp::Ordering;
use std::collections::HashMap;

use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};
use keramics_encodings::{Base64Context, Base64Stream, CharacterEncoding as E};
use keramics_types::constants::UCS2_CASE_MAPPINGS;
use keramics_types::{ByteString, Ucs2String, Utf16String, Uuid};
use mon_common::*;

use crate::codecs;

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// RFC 4648 encoder.
fn b64(data: &[u8], padding: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(ALPHABET[((v >> (18 - 6 * i)) & 63) as usize]);
            } else if padding {
                o.push(b'=');
            }
        }
    }
    o
}

fn b64_stream(data: &[u8], at: usize, skip: bool) -> Result<Result<Vec<u8>, String>, Violation> {
    no_panic("Base64 stream", || {
        let mut s = Base64Stream::new(data, at, skip);
        let mut o = Vec::new();
        loop {
            match s.get_value() {
                Ok(Some(b)) => o.push(b),
                Ok(None) => {
                    // The end stays the end.
                    return match (s.get_value(), s.get_value()) {
                        (Ok(None), Ok(None)) => Ok(o),
                        _ => Err(String::from("more after the end")),
                    };
                }
                Err(e) => return Err(e.to_string()),
            }
            if o.len() > data.len() {
                return Err(String::from("more bytes out than in"));
            }
        }
    })
}

fn base64(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.index % 2000 == 1 {
        ctx.rng.size(3_000_000)
    } else if ctx.rng.chance(3, 4) {
        ctx.rng.usize(0, 40)
    } else {
        ctx.rng.size(3000)
    };
    if n > 1 << 20 {
        ctx.count("more than a MiB of data");
    }
    let data = if ctx.rng.chance(1, 2) { ctx.rng.bytes(n) } else { ctx.rng.data(n) };
    let padding = ctx.rng.chance(1, 2);
    let encoded = b64(&data, padding);
    ctx.detail(format!("{} bytes {} = {}", n, hex(&data[..n.min(3000)]), String::from_utf8_lossy(&encoded[..encoded.len().min(5000)])));
    ctx.distinct(&encoded);
    ctx.sample(|| String::from_utf8_lossy(&encoded[..encoded.len().min(400)]).to_string());
    ctx.count(match (padding, n % 3) {
        (true, 1) => "two padding characters",
        (true, 2) => "one padding character",
        (false, 1 | 2) => "padding left out",
        _ => "no padding needed",
    });
    // Whole buffer decode, into a buffer that is exactly large enough or larger.
    let slack = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.usize(1, 20) };
    let mut out = vec![0xa5u8; n + slack];
    let mut context = Base64Context::new();
    match no_panic("Base64 decode", || context.decode(&encoded, &mut out))? {
        Ok(()) => {
            require_eq!(context.data_size, n, "base64:size", "decoded size");
            require!(out[..n] == data[..], "base64:data", "decoded data differ");
            require!(out[n..].iter().all(|b| *b == 0xa5), "base64:overrun", "bytes beyond the decoded size were written");
        }
        Err(e) => fail!("base64:refused", "valid data refused: {}", e.to_string()),
    }
    if ctx.rng.chance(1, 8) {
        // The same context again, for less data; and after something it refused.
        let k = ctx.rng.usize(0, n.min(5000));
        if ctx.rng.chance(1, 2) {
            let _ = no_panic("Base64 decode", || context.decode(b"QUJD*", &mut out[..n]).is_ok())?;
        }
        out.fill(0xa5);
        let again = b64(&data[..k], padding);
        let r = no_panic("Base64 decode", || context.decode(&again, &mut out).is_ok())?;
        require!(r && context.data_size == k && out[..k] == data[..k], "base64:again", "{} bytes with a context used before: size {}", k, context.data_size);
        require!(out[k..].iter().all(|b| *b == 0xa5), "base64:overrun", "bytes beyond the decoded size were written");
        ctx.count("context reused");
    }
    // Streaming decode, from an offset, with and without white space.
    let lead = if n > 100_000 { ctx.rng.size(200_000) } else { ctx.rng.usize(0, 5) };
    let mut shifted = ctx.rng.bytes(lead);
    shifted.extend_from_slice(&encoded);
    let skip = ctx.rng.chance(1, 2);
    match b64_stream(&shifted, lead, skip)? {
        Ok(o) => require!(o == data, "base64:stream", "streamed data differ: {} expected {}", hex(&o[..o.len().min(3000)]), hex(&data[..n.min(3000)])),
        Err(e) => fail!("base64:refused", "valid data refused: {}", e),
    }
    let mut spaced = Vec::new();
    let white = [0x09u8, 0x0a, 0x0b, 0x0d, 0x20];
    let every = ctx.rng.range(1, 80);
    for c in encoded.iter() {
        while ctx.rng.below(every) == 0 && spaced.len() < 20_000 + 2 * encoded.len() {
            spaced.push(*ctx.rng.pick(&white));
            if every == 1 && ctx.rng.chance(1, 2) {
                break;
            }
        }
        spaced.push(*c);
    }
    match b64_stream(&spaced, 0, true)? {
        Ok(o) => require!(o == data, "base64:white-space", "white space changed the data"),
        Err(e) => fail!("base64:white-space-refused", "white space refused: {}", e),
    }
    // Where an error is due.
    let significant = b64(&data, false).len();
    if significant > 0 {
        let at = ctx.rng.usize(0, significant - 1);
        let mut bad = encoded.clone();
        bad[at] = loop {
            let b = ctx.rng.byte();
            if !ALPHABET.contains(&b) && b != b'=' && !white.contains(&b) {
                break b;
            }
        };
        require!(b64_stream(&bad, 0, true)?.is_err(), "base64:invalid-accepted", "byte {:02x} at {} accepted", bad[at], at);
        let mut c = Base64Context::new();
        let mut out = vec![0u8; n + 8];
        require!(no_panic("Base64 decode", || c.decode(&bad, &mut out))?.is_err(), "base64:invalid-accepted", "byte {:02x} at {} accepted", bad[at], at);
        bad[at] = *ctx.rng.pick(&white);
        require!(b64_stream(&bad, 0, false)?.is_err(), "base64:white-space-accepted", "white space {:02x} at {} accepted", bad[at], at);
        let mut c = Base64Context::new();
        require!(no_panic("Base64 decode", || c.decode(&bad, &mut out))?.is_err(), "base64:white-space-accepted", "white space {:02x} at {} accepted by the whole-buffer interface", bad[at], at);
        ctx.count("invalid character refused");
    }
    if padding && n % 3 != 0 {
        let mut c = Base64Context::new();
        let mut out = vec![0u8; n + 8];
        if n % 3 == 1 {
            let r = no_panic("Base64 decode", || c.decode(&encoded[..encoded.len() - 1], &mut out))?;
            require!(r.is_err(), "base64:short-padding", "half of the padding accepted");
            let mut bad = encoded.clone();
            let l = bad.len();
            bad[l - 1] = loop {
                let b = ctx.rng.byte();
                if b != b'=' {
                    break b;
                }
            };
            let r = no_panic("Base64 decode", || c.decode(&bad, &mut out))?;
            require!(r.is_err(), "base64:bad-padding", "byte {:02x} accepted as padding", bad[l - 1]);
            ctx.count("bad padding refused");
        }
    }
    if n > 0 {
        let small = ctx.rng.usize(0, n - 1);
        let mut out = vec![0u8; small];
        let mut c = Base64Context::new();
        let r = no_panic("Base64 decode", || c.decode(&encoded, &mut out))?;
        require!(r.is_err(), "base64:small-buffer", "a buffer of {} bytes accepted for {} bytes of data", small, n);
        ctx.count("small buffer refused");
    }
    Ok(())
}

fn base64_hostile(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.rng.usize(0, 60);
    let data: Vec<u8> = (0..n)
        .map(|_| match ctx.rng.below(8) {
            0 => b'=',
            1 => b'\n',
            2 => ctx.rng.byte(),
            _ => *ctx.rng.pick(ALPHABET),
        })
        .collect();
    ctx.detail(hex(&data));
    ctx.distinct(&data);
    ctx.sample(|| hex(&data));
    for skip in [true, false] {
        let clean = data.iter().take_while(|b| **b != b'=').collect::<Vec<_>>();
        let space = clean.iter().any(|b| [9u8, 10, 11, 13, 32].contains(b));
        let bad = clean.iter().any(|b| !ALPHABET.contains(b) && ![9u8, 10, 11, 13, 32].contains(b));
        match b64_stream(&data, 0, skip)? {
            Ok(o) => {
                require!(!bad && (skip || !space), "base64:invalid-accepted", "accepted");
                let digits: Vec<u8> = clean.iter().filter_map(|b| ALPHABET.iter().position(|a| a == *b)).map(|p| p as u8).collect();
                let mut want = Vec::new();
                let mut acc = 0u32;
                let mut bits = 0;
                for d in digits {
                    acc = (acc << 6 | d as u32) & 0xffff;
                    bits += 6;
                    if bits >= 8 {
                        bits -= 8;
                        want.push((acc >> bits) as u8);
                    }
                }
                require!(o == want, "base64:stream", "observed {} expected {}", hex(&o), hex(&want));
            }
            Err(_) => require!(bad || (!skip && space), "base64:refused", "valid data refused"),
        }
    }
    let mut out = vec![0u8; ctx.rng.usize(0, 60)];
    let mut c = Base64Context::new();
    let accepted = no_panic("Base64 decode", || c.decode(&data, &mut out).is_ok())?;
    let digits: Vec<u8> = data.iter().take_while(|b| **b != b'=').copied().collect();
    let rest = &data[digits.len()..];
    let need = if rest.is_empty() { 0 } else { (4 - digits.len() % 4) % 4 };
    let bad = digits.iter().any(|b| !ALPHABET.contains(b)) || rest.len() < need || rest.iter().take(need).any(|b| *b != b'=');
    let size = digits.len() * 6 / 8;
    if bad || out.len() < size {
        require!(!accepted, "base64:invalid-accepted", "accepted by the whole-buffer interface");
        ctx.count("soup refused");
    } else if digits.len() % 4 != 1 && rest.len() == need {
        require!(accepted && c.data_size == size, "base64:refused", "valid data refused by the whole-buffer interface, or size {} for {}", c.data_size, size);
        ctx.count("soup accepted");
    }
    Ok(())
}

fn text(rng: &mut Rng, n: usize, nul: bool) -> String {
    (0..n)
        .map(|_| match rng.below(8) {
            0 => '\\',
            1 if nul => '\0',
            2 => loop {
                if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                    if c != '\0' {
                        break c;
                    }
                }
            },
            3 => loop {
                if let Some(c) = char::from_u32(rng.range(1, 0x3000) as u32) {
                    break c;
                }
            },
            _ => rng.range(0x20, 0x7e) as u8 as char,
        })
        .collect()
}

/// The string conversions double the backslash, so that it can announce an escape.
pub fn escaped(s: &str) -> String {
    s.replace('\\', "\\\\")
}

fn byte_string(ctx: &mut Ctx) -> CaseResult {
    let long = ctx.index % 1000 == 1;
    let n = if long { ctx.rng.size(300_000) } else { ctx.rng.size(60) };
    let t = text(&mut ctx.rng, n, false);
    ctx.detail(format!("{} characters {:?}", n, t.chars().take(3000).collect::<String>()));
    ctx.distinct(t.as_bytes());
    ctx.sample(|| format!("{:?}", t.chars().take(80).collect::<String>()));
    if n > 1 << 16 {
        ctx.count("more than 2^16 characters");
    }
    // From text, through a NUL-terminated field.
    let mut field = t.as_bytes().to_vec();
    if ctx.rng.chance(1, 2) {
        field.push(0);
        let k = ctx.rng.usize(0, 12);
        field.extend(ctx.rng.bytes(k));
    }
    let mut s = ByteString::new();
    no_panic("read_data", || s.read_data(&field))?;
    require!(s.elements == t.as_bytes(), "byte-string:read", "read_data kept {} of {}", hex(&s.elements), hex(&field));
    require!(s.len() == t.len() && s.is_empty() == t.is_empty(), "byte-string:len", "length {} of {}", s.len(), t.len());
    require!(no_panic("from", || ByteString::from(field.as_slice()))? == s, "byte-string:from", "From<&[u8]> differs from read_data");
    require!(ByteString::from(t.as_str()) == s && ByteString::from(&t) == s && ByteString::from(&field) == s, "byte-string:from", "conversions differ");
    require!(s == t.as_str() && s == t.as_bytes(), "byte-string:eq", "comparison with its own text fails");
    let more = format!("{}x", t);
    require!(!(s == more.as_str()) && !(s == more.as_bytes()), "byte-string:eq", "equal to a longer text");
    if let Some(last) = t.chars().last() {
        let less = &t[..t.len() - last.len_utf8()];
        require!(!(s == less) && !(s == less.as_bytes()), "byte-string:eq", "equal to a shorter text");
        let mut chars: Vec<char> = t.chars().collect();
        let at = ctx.rng.usize(0, chars.len() - 1);
        chars[at] = if chars[at].is_ascii_alphabetic() { (chars[at] as u8 ^ 0x20) as char } else { 'q' };
        let different: String = chars.into_iter().collect();
        require!((s == different.as_str()) == (t == different) && (s == different.as_bytes()) == (t == different), "byte-string:eq", "compared with a text different at {}", at);
        // Two byte strings are ordered and equal as their elements are, and equal ones hash alike.
        let d = ByteString::from(&different);
        require!((s == d) == (t == different) && s.cmp(&d) == t.as_bytes().cmp(different.as_bytes()), "byte-string:order", "compared with a text different at {}", at);
        require!(s != d || hash_of(&s) == hash_of(&d), "byte-string:hash", "equal byte strings hash differently");
    }
    require_eq!(no_panic("to_string", || s.to_string())?, escaped(&t), "byte-string:to-string", "text of {:?}", t);
    ctx.count("UTF-8 text");
    // Arbitrary bytes in every supported encoding: items of the decoder, each shown as its
    // character or as one replacement.
    let pages = codecs::pages();
    let p = &pages[ctx.rng.below(36) as usize];
    let k = if long { ctx.rng.size(20_000) } else { ctx.rng.size(40) };
    let bytes = ctx.rng.bytes(k);
    let encoding = if ctx.rng.chance(1, 3) { E::Utf8 } else { p.encoding.clone() };
    let mut b = ByteString::new_with_encoding(&encoding);
    b.elements = bytes.clone();
    let shown = no_panic("to_string", || b.to_string())?;
    let items = codecs::decode(&encoding, &bytes)?;
    let mut pos = 0;
    for (i, item) in items.iter().enumerate() {
        if let Some(c) = item {
            let want = escaped(&char::from_u32(*c).map(|c| c.to_string()).unwrap_or_default());
            require!(
                shown[pos..].starts_with(&want),
                "byte-string:to-string", "{:?} {}: item {} is U+{:04x}, shown {:?}", encoding, hex(&bytes), i, c, shown
            );
            pos += want.len();
            ctx.count("decoded character shown");
        } else {
            // some marker stands for what cannot be decoded
            let l = shown[pos..].chars().next().map(|c| c.len_utf8());
            require!(l.is_some(), "byte-string:to-string", "{:?} {}: item {} cannot be decoded and is not shown", encoding, hex(&bytes), i);
            pos += l.unwrap();
            ctx.count("undecodable byte shown");
        }
    }
    require!(pos == shown.len(), "byte-string:to-string", "{:?} {}: shown {:?}", encoding, hex(&bytes), shown);
    // Text of another encoding, with characters that cannot be decoded or represented, and code
    // points themselves.
    let mut target = ByteString::new_with_encoding(&encoding_with_encoder(&mut ctx.rng));
    target.elements = ctx.rng.bytes(2);
    let before = target.elements.clone();
    let kind = target.encoding.clone();
    let points: Option<Vec<u32>> = items.iter().copied().collect();
    let want: Option<Vec<u8>> = if kind == encoding {
        Some(bytes.clone())
    } else {
        match &points {
            Some(points) => codecs::encode(&kind, points)?.into_iter().collect::<Option<Vec<Vec<u8>>>>().map(|v| v.concat()),
            None => None,
        }
    };
    let r = no_panic("extend", || target.extend(&b).is_ok())?;
    require!(r == want.is_some(), "byte-string:extend", "{:?} extended with {:?} {}: {}", kind, encoding, hex(&bytes), if r { "succeeded" } else { "failed" });
    if let Some(w) = want {
        require!(target.elements == [before.clone(), w.clone()].concat(), "byte-string:extend", "{:?} extended with {:?} {}: {} expected {} more", kind, encoding, hex(&bytes), hex(&target.elements), hex(&w));
        ctx.count("extended from another encoding");
    }
    let points: Vec<u32> = (0..ctx.rng.usize(0, 6))
        .map(|_| match ctx.rng.below(4) {
            0 => ctx.rng.range(1, 0x10ffff) as u32,
            1 => ctx.rng.range(0x80, 0x2fff) as u32,
            _ => ctx.rng.range(0x20, 0x7e) as u32,
        })
        .collect();
    let want: Option<Vec<u8>> = codecs::encode(&kind, &points)?.into_iter().collect::<Option<Vec<Vec<u8>>>>().map(|v| v.concat());
    target.elements = before.clone();
    let r = no_panic("extend_from_codepoints", || target.extend_from_codepoints(&points).is_ok())?;
    require!(r == want.is_some(), "byte-string:extend", "{:?} extended with code points {:04x?}: {}", kind, points, if r { "succeeded" } else { "failed" });
    if let Some(w) = want {
        require!(target.elements == [before, w].concat(), "byte-string:extend", "{:?} extended with code points {:04x?}: {}", kind, points, hex(&target.elements));
        ctx.count("extended from code points");
    }
    // Extending re-encodes.
    let mut a = ByteString::new_with_encoding(&encoding_with_encoder(&mut ctx.rng));
    let kind = a.encoding.clone();
    let before = ctx.rng.bytes(3);
    a.elements = before.clone();
    let ascii: String = t.chars().filter(|c| c.is_ascii()).collect();
    let mut other = ByteString::new_with_encoding(&if ctx.rng.chance(1, 2) { E::Utf8 } else { kind.clone() });
    let source = if kind == E::Utf8 || ctx.rng.chance(1, 2) { ascii.clone() } else { t.clone() };
    other.elements = if other.encoding == E::Utf8 { source.as_bytes().to_vec() } else { ascii.as_bytes().to_vec() };
    let same = kind == other.encoding;
    let code_points: Vec<u32> = source.chars().map(|c| c as u32).collect();
    let want: Option<Vec<u8>> = if same {
        Some(other.elements.clone())
    } else {
        let e = codecs::encode(&kind, &code_points)?;
        if e.iter().all(|x| x.is_some()) { Some(e.into_iter().flatten().flatten().collect()) } else { None }
    };
    let r = no_panic("extend", || a.extend(&other).is_ok())?;
    match want {
        Some(w) => {
            let mut all = before.clone();
            all.extend(w);
            require!(r && a.elements == all, "byte-string:extend", "{:?} extended with {:?} {:?}: {} expected {}", kind, other.encoding, source, hex(&a.elements), hex(&all));
            ctx.count("extended");
        }
        None => {
            require!(!r, "byte-string:extend-lossy", "{:?} extended with {:?}, which it cannot represent", kind, source);
            ctx.count("extension refused");
        }
    }
    Ok(())
}

fn hash_of(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn encoding_with_encoder(rng: &mut Rng) -> E {
    codecs::pages()[rng.below(36) as usize].encoding.clone()
}

fn upcase() -> HashMap<u16, u16> {
    include_str!("../data/upcase.txt")
        .lines()
        .map(|l| {
            let (a, b) = l.split_once(' ').unwrap();
            (u16::from_str_radix(a, 16).unwrap(), u16::from_str_radix(b, 16).unwrap())
        })
        .collect()
}

fn case_table(ctx: &mut Ctx) -> CaseResult {
    let reference = upcase();
    let table: HashMap<u16, u16> = UCS2_CASE_MAPPINGS.iter().copied().collect();
    require_eq!(table.len(), UCS2_CASE_MAPPINGS.len(), "case:duplicate", "entries per element");
    for c in 1..=0xffffu32 {
        let c = c as u16;
        let s = Ucs2String { elements: vec![c] };
        let f = no_panic("case folding", || Ucs2String::new_with_case_folding(&s, &table))?;
        let want = reference.get(&c).copied().unwrap_or(c);
        require!(f.elements == vec![want], "case:mapping", "U+{:04x} folds to {:04x?} expected {:04x}", c, f.elements, want);
        let g = Ucs2String::new_with_case_folding(&f, &table);
        require!(g == f, "case:idempotent", "U+{:04x} folds twice to {:04x?}", c, g.elements);
        // independent of the recorded table: what folds is a lower case letter of the result
        if let (Some(a), Some(b)) = (char::from_u32(c as u32), char::from_u32(want as u32)) {
            let upper: Vec<char> = a.to_uppercase().collect();
            if want != c && upper.len() == 1 {
                require!(upper[0] == b, "case:upper", "U+{:04x} folds to U+{:04x}, its upper case is U+{:04x}", c, want, upper[0] as u32);
            }
            if a.is_ascii_lowercase() {
                require!(want == c - 32, "case:ascii", "U+{:04x}", c);
            }
        }
        ctx.count("element folded");
        ctx.distinct(&c.to_le_bytes());
    }
    ctx.sample(|| String::from("case folding of U+0001 to U+FFFF"));
    Ok(())
}

fn wide_strings(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.index % 1000 == 1 { ctx.rng.size(200_000) } else { ctx.rng.size(40) };
    if n > 1 << 16 {
        ctx.count("more than 2^16 elements");
    }
    let t = text(&mut ctx.rng, n, false);
    let mut units: Vec<u16> = t.encode_utf16().collect();
    if ctx.rng.chance(1, 2) {
        // lone surrogates and arbitrary elements
        for _ in 0..ctx.rng.usize(1, 5) {
            let at = ctx.rng.usize(0, units.len());
            let u = if ctx.rng.chance(1, 2) { ctx.rng.range(0xd800, 0xdfff) } else { ctx.rng.range(1, 0xffff) } as u16;
            units.insert(at, u);
        }
    }
    ctx.detail(format!("{} elements {:04x?}", units.len(), &units[..units.len().min(2000)]));
    let key: Vec<u8> = units.iter().flat_map(|u| u.to_le_bytes()).collect();
    ctx.distinct(&key);
    ctx.sample(|| format!("{:04x?}", &units[..units.len().min(12)]));
    let tail: Vec<u16> = if ctx.rng.chance(1, 2) {
        let k = ctx.rng.usize(0, 6);
        let mut v = vec![0u16];
        v.extend((0..k).map(|_| ctx.rng.next() as u16));
        v
    } else {
        Vec::new()
    };
    let odd = ctx.rng.chance(1, 4);
    let mut le: Vec<u8> = units.iter().chain(tail.iter()).flat_map(|u| u.to_le_bytes()).collect();
    let mut be: Vec<u8> = units.iter().chain(tail.iter()).flat_map(|u| u.to_be_bytes()).collect();
    if odd {
        le.push(0x41);
        be.push(0x41);
        ctx.count("odd number of bytes");
    }
    let a = no_panic("Ucs2String::from_le_bytes", || Ucs2String::from_le_bytes(&le))?;
    let b = no_panic("Ucs2String::from_be_bytes", || Ucs2String::from_be_bytes(&be))?;
    let mut c = Ucs2String::new();
    no_panic("Ucs2String::read_data_le", || c.read_data_le(&le))?;
    let whole: Vec<u16> = units.iter().chain(tail.iter()).copied().collect();
    let d = Ucs2String::from(whole.as_slice());
    let e = Ucs2String::from(&whole);
    for (what, s) in [("from_le_bytes", &a), ("from_be_bytes", &b), ("read_data_le", &c), ("From<&[u16]>", &d), ("From<&Vec<u16>>", &e)] {
        require!(s.elements == units, "ucs2:elements", "{}: {:04x?} expected {:04x?}", what, s.elements, units);
        require!(s.len() == units.len() && s.is_empty() == units.is_empty(), "ucs2:len", "{}", s.len());
    }
    let f = no_panic("Utf16String::from_le_bytes", || Utf16String::from_le_bytes(&le))?;
    let g = no_panic("Utf16String::from_be_bytes", || Utf16String::from_be_bytes(&be))?;
    require!(f.elements == units && g.elements == units, "utf16:elements", "{:04x?} / {:04x?} expected {:04x?}", f.elements, g.elements, units);
    ctx.count("string read");
    // Text of it.
    let want: String = units
        .iter()
        .map(|u| match char::from_u32(*u as u32) {
            Some('\\') => String::from("\\\\"),
            Some(c) => c.to_string(),
            None => format!("\\{{{:04x}}}", u),
        })
        .collect();
    require_eq!(no_panic("Ucs2String::to_string", || a.to_string())?, want, "ucs2:to-string", "{:04x?}", units);
    let shown = no_panic("Utf16String::to_string", || f.to_string())?;
    let mut want = String::new();
    let mut at = 0;
    let mut unpaired = false;
    while at < units.len() {
        let u = units[at] as u32;
        let next = units.get(at + 1).copied().unwrap_or(0) as u32;
        let c = if (0xd800..0xdc00).contains(&u) && (0xdc00..0xe000).contains(&next) {
            at += 1;
            char::from_u32(0x10000 + ((u - 0xd800) << 10) + (next - 0xdc00))
        } else {
            char::from_u32(u)
        };
        unpaired |= c.is_none();
        want.push(c.unwrap_or('\u{fffd}'));
        at += 1;
    }
    require_eq!(shown, want, "utf16:to-string", "{:04x?}", units);
    if unpaired {
        ctx.count("unpaired surrogate");
    }
    let s = Ucs2String::from(t.as_str());
    require!(s.elements == t.encode_utf16().collect::<Vec<u16>>() && s == Ucs2String::from(&t), "ucs2:from-str", "{:?}", t);
    // Order: element-wise, shorter first; total and consistent with equality.
    let mut other = units.clone();
    match ctx.rng.below(5) {
        0 => {}
        1 => {
            other.pop();
        }
        2 => other.push(1),
        _ => {
            if !other.is_empty() {
                let at = ctx.rng.usize(0, other.len() - 1);
                other[at] = match ctx.rng.below(3) {
                    0 => other[at].wrapping_add(1).max(1),
                    1 => other[at].swap_bytes().max(1),
                    _ => ctx.rng.range(1, 0xffff) as u16,
                };
            }
        }
    }
    let o = Ucs2String { elements: other.clone() };
    let want = units.cmp(&other);
    require_eq!(no_panic("compare", || a.compare(&o))?, want, "ucs2:compare", "{:04x?} with {:04x?}", units, other);
    require_eq!(o.compare(&a), want.reverse(), "ucs2:compare", "{:04x?} with {:04x?} reversed", units, other);
    require!((a == o) == (want == Ordering::Equal), "ucs2:compare", "equality and comparison disagree");
    require!(a.cmp(&o) == want && a.partial_cmp(&o) == Some(want) && (a != o || hash_of(&a) == hash_of(&o)), "ucs2:compare", "the order of Ord, or the hash");
    ctx.count(match want {
        Ordering::Less => "less",
        Ordering::Greater => "greater",
        Ordering::Equal => "equal",
    });
    // Folding is element-wise.
    let table = upcase();
    let folded = no_panic("case folding", || Ucs2String::new_with_case_folding(&a, &table))?;
    let want: Vec<u16> = units.iter().map(|u| table.get(u).copied().unwrap_or(*u)).collect();
    require!(folded.elements == want, "case:mapping", "{:04x?} folds to {:04x?}", units, folded.elements);
    // Any other table, which may map to further keys, to NUL, or nothing.
    let table: HashMap<u16, u16> = (0..ctx.rng.usize(0, 12))
        .map(|_| {
            let key = if units.is_empty() || ctx.rng.chance(1, 4) { ctx.rng.next() as u16 } else { *ctx.rng.pick(&units) };
            let value = if units.is_empty() || ctx.rng.chance(1, 2) { ctx.rng.next() as u16 } else { *ctx.rng.pick(&units) };
            (key, value)
        })
        .collect();
    let folded = no_panic("case folding", || Ucs2String::new_with_case_folding(&a, &table))?;
    let want: Vec<u16> = units.iter().map(|u| table.get(u).copied().unwrap_or(*u)).collect();
    require!(folded.elements == want, "case:table", "{:04x?} folds to {:04x?} with {:04x?}", units, folded.elements, table);
    ctx.count("folded with another table");
    // A string read into continues.
    let before = a.len();
    let mut c = a.clone();
    no_panic("Ucs2String::read_data_le", || c.read_data_le(&le))?;
    require!(c.len() == 2 * before && c.elements[..before] == units[..] && c.elements[before..] == units[..], "ucs2:read-again", "{} elements after reading {} twice", c.len(), before);
    Ok(())
}

fn uuid(ctx: &mut Ctx) -> CaseResult {
    let mut bytes = ctx.rng.bytes(16);
    match ctx.rng.below(12) {
        0 => bytes = vec![0; 16],
        1 => bytes = vec![0xff; 16],
        2 => {
            bytes = vec![0; 16];
            let at = ctx.rng.usize(0, 15);
            bytes[at] = 1 << ctx.rng.below(8);
        }
        3 => {
            bytes = vec![0xff; 16];
            let at = ctx.rng.usize(0, 15);
            bytes[at] ^= 1 << ctx.rng.below(8);
        }
        _ => {}
    }
    ctx.detail(hex(&bytes));
    ctx.distinct(&bytes);
    let h = hex(&bytes);
    let be = format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32]);
    let mut sw = bytes.clone();
    sw[0..4].reverse();
    sw[4..6].reverse();
    sw[6..8].reverse();
    let mut long = bytes.clone();
    let k = ctx.rng.usize(0, 4);
    long.extend(ctx.rng.bytes(k));
    let a = no_panic("from_be_bytes", || Uuid::from_be_bytes(&long))?;
    let b = no_panic("from_le_bytes", || Uuid::from_le_bytes(&sw))?;
    require_eq!(a.to_string(), be, "uuid:be", "{}", h);
    require_eq!(b.to_string(), be, "uuid:le", "{}", h);
    require_eq!(format!("{}", a), be, "uuid:display", "{}", h);
    require!(a == b, "uuid:eq", "the two byte orders of {} differ", be);
    let nil = bytes.iter().all(|b| *b == 0);
    let max = bytes.iter().all(|b| *b == 0xff);
    require!(a.is_nil() == nil && a.is_max() == max, "uuid:nil-max", "{}: nil {} max {}", be, a.is_nil(), a.is_max());
    ctx.count(if nil { "nil" } else if max { "max" } else { "ordinary" });
    let mut spelled = be.clone();
    if ctx.rng.chance(1, 2) {
        spelled = spelled.chars().map(|c| if ctx.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
    }
    let braces = ctx.rng.chance(1, 2);
    let spelling = if braces { format!("{{{}}}", spelled) } else { spelled.clone() };
    let mut c = Uuid::new();
    let r = no_panic("from_string", || c.from_string(&spelling).is_ok())?;
    require!(r && c == a, "uuid:parse", "{:?} parsed as {}", spelling, c);
    ctx.sample(|| spelling.clone());
    // A damaged spelling is refused.
    let mut chars: Vec<char> = spelling.chars().collect();
    match ctx.rng.below(5) {
        0 => {
            let at = ctx.rng.usize(0, chars.len() - 1);
            chars.remove(at);
        }
        1 => {
            let at = ctx.rng.usize(0, chars.len());
            chars.insert(at, *ctx.rng.pick(&['0', '-', 'f', '{', ' ']));
        }
        2 => {
            // same byte length, character boundaries elsewhere
            let at = ctx.rng.usize(0, chars.len() - 2);
            chars.remove(at);
            chars[at] = 'é';
        }
        3 => {
            let at = ctx.rng.usize(0, chars.len() - 1);
            chars[at] = *ctx.rng.pick(&['g', 'G', '+', ' ', '_', '/', ':', '@', '`', 'x', '.', '\0', 'ä']);
        }
        _ => {
            let dashes: Vec<usize> = (0..chars.len()).filter(|i| chars[*i] == '-').collect();
            let at = *ctx.rng.pick(&dashes);
            if ctx.rng.chance(1, 2) && at + 1 < chars.len() {
                chars.swap(at, at + 1);
            } else {
                chars[at] = '0';
            }
        }
    }
    let damaged: String = chars.iter().collect();
    let inner: &str = if damaged.starts_with('{') && damaged.ends_with('}') && damaged.len() > 1 { &damaged[1..damaged.len() - 1] } else { &damaged };
    let valid = inner.len() == 36
        && inner.bytes().enumerate().all(|(i, b)| if [8, 13, 18, 23].contains(&i) { b == b'-' } else { b.is_ascii_hexdigit() });
    // The identifier that is replaced has no influence.
    let reused = ctx.rng.chance(1, 2);
    let mut d = if reused { b.clone() } else { Uuid::new() };
    let r = no_panic("from_string", || d.from_string(&damaged).is_ok())?;
    let mut other = ctx.rng.bytes(16);
    if ctx.rng.chance(1, 2) {
        other = bytes.clone();
        let at = ctx.rng.usize(0, 15);
        other[at] ^= 1 << ctx.rng.below(8);
    }
    let o = Uuid::from_be_bytes(&other);
    require!((o == a) == (other == bytes) && hash_of(&a) == hash_of(&b), "uuid:eq", "{} and {}", a, o);
    require!(no_panic("from_string", || d.from_string(&o.to_string()).is_ok())? && d == o, "uuid:parse-again", "{} parsed over another identifier gives {}", o, d);
    require!(r == valid, "uuid:parse-damaged", "{:?}: accepted {} expected {}", damaged, r, valid);
    ctx.count(if r { "still valid" } else { "damaged spelling refused" });
    Ok(())
}

/// Proleptic Gregorian date of a day number relative to 1970-01-01 (days-to-civil).
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

fn iso(seconds: i64, epoch_days: i64) -> (i64, String) {
    let days = seconds.div_euclid(86400) + epoch_days;
    let s = seconds.rem_euclid(86400);
    let (y, m, d) = civil(days);
    (y, format!("-{:02}-{:02}T{:02}:{:02}:{:02}", m, d, s / 3600, s / 60 % 60, s % 60))
}

/// Years 0000-9999 have four digits; the spelling of other years is only required to end alike.
fn check_iso(ctx: &mut Ctx, what: &str, got: &str, year: i64, rest: &str) -> CaseResult {
    if (0..=9999).contains(&year) {
        let want = format!("{:04}{}", year, rest);
        require!(got == want, &format!("{}:iso", what), "{}: observed {} expected {}", what, got, want);
        ctx.count("date compared");
    } else {
        let want = if year > 9999 { format!("{}{}", year, rest) } else { rest.to_string() };
        require!(got.ends_with(&want), &format!("{}:iso", what), "{}: observed {} expected {}{}", what, got, year, rest);
        ctx.count("date outside the years 0 to 9999");
    }
    Ok(())
}

/// Every day of the 400-year cycle and beyond, one block of days per case.
fn days(ctx: &mut Ctx) -> CaseResult {
    // 24855 days either side of the epoch fit 32 bits; 64-bit covers years -400 to 10400
    let block = 1000;
    let first = -865_000 + ctx.index as i64 * block;
    for day in first..first + block {
        let s = day * 86400 + ctx.rng.below(86400) as i64;
        let (y, rest) = iso(s, 0);
        if let Ok(t) = i32::try_from(s) {
            let got = no_panic("PosixTime32", || PosixTime32::new(t).to_iso8601_string())?;
            check_iso(ctx, "posix32", &got, y, &rest)?;
        }
        let ns = ctx.rng.below(1_000_000_000) as u32;
        let got = no_panic("PosixTime64Ns", || PosixTime64Ns::new(s, ns).to_iso8601_string())?;
        check_iso(ctx, "posix64", &got, y, &format!("{}.{:09}", rest, ns))?;
        let f = s + 11644473600;
        if f >= 0 {
            let frac = ctx.rng.below(10_000_000);
            let t = f as u64 * 10_000_000 + frac;
            let got = no_panic("Filetime", || Filetime::new(t).to_iso8601_string())?;
            check_iso(ctx, "filetime", &got, y, &format!("{}.{:07}", rest, frac))?;
        }
        if s < 0 {
            ctx.count("before the epoch");
        }
        ctx.distinct(&day.to_le_bytes());
    }
    ctx.sample(|| format!("days {} to {} relative to 1970-01-01, at a random second each", first, first + block - 1));
    Ok(())
}

fn timestamps(ctx: &mut Ctx) -> CaseResult {
    // 32-bit time, in both byte orders
    let t = match ctx.rng.below(4) {
        0 => *ctx.rng.pick(&[0, -1, 1, i32::MAX, i32::MIN, i32::MIN + 1, 951782400, 951868799, 951868800, -2203891200i64 as i32]),
        1 => (ctx.rng.i64(-24855, 24854) * 86400 + ctx.rng.i64(-2, 2)) as i32,
        _ => ctx.rng.next() as i32,
    };
    ctx.detail(format!("posix32 {}", t));
    let (y, rest) = iso(t as i64, 0);
    let mut le = t.to_le_bytes().to_vec();
    let mut be = t.to_be_bytes().to_vec();
    le.push(ctx.rng.byte());
    be.push(ctx.rng.byte());
    let a = no_panic("from_le_bytes", || PosixTime32::from_le_bytes(&le))?;
    let b = no_panic("from_be_bytes", || PosixTime32::from_be_bytes(&be))?;
    require!(a.timestamp == t && b.timestamp == t, "posix32:bytes", "{} read as {} and {}", t, a.timestamp, b.timestamp);
    check_iso(ctx, "posix32", &a.to_iso8601_string(), y, &rest)?;
    require_eq!(format!("{}", a), format!("{:04}{} ({})", y, rest, t), "posix32:display", "{}", t);
    // FILETIME: the whole range
    let f = match ctx.rng.below(5) {
        0 => ctx.rng.edge_u64(),
        1 => ctx.rng.below(10_000_000u64 * 86400 * 400 * 366),
        2 => (1u64 << 32).wrapping_mul(ctx.rng.below(1 << 32)).wrapping_sub(ctx.rng.below(3)),
        _ => ctx.rng.next(),
    };
    ctx.detail(format!("filetime {}", f));
    let (y, rest) = iso((f / 10_000_000) as i64, -134774);
    let mut bytes = f.to_le_bytes().to_vec();
    bytes.push(ctx.rng.byte());
    let v = no_panic("from_bytes", || Filetime::from_bytes(&bytes))?;
    require!(v.timestamp == f, "filetime:bytes", "{:x} read as {:x}", f, v.timestamp);
    let got = no_panic("Filetime", || v.to_iso8601_string())?;
    let rest = format!("{}.{:07}", rest, f % 10_000_000);
    check_iso(ctx, "filetime", &got, y, &rest)?;
    let d = format!("{}", v);
    require!(d == format!("{} (0x{:08x}:0x{:08x})", got, f >> 32, f as u32), "filetime:display", "{:?}", d);
    // 64-bit seconds and nanoseconds
    let s = if ctx.rng.chance(1, 2) { ctx.rng.edge_u64() as i64 } else { ctx.rng.i64(-62_167_219_200, 253_402_300_799) };
    let ns = ctx.rng.below(1_000_000_000) as u32;
    ctx.detail(format!("posix64 {} {}", s, ns));
    let (y, rest) = iso(s, 0);
    let v = PosixTime64Ns::new(s, ns);
    let got = no_panic("PosixTime64Ns", || v.to_iso8601_string())?;
    let d = no_panic("PosixTime64Ns", || format!("{}", v))?;
    require!(d.starts_with(&format!("{} ({}.", got, s)), "posix64:display", "{} {} displayed as {:?}", s, ns, d);
    require!(v == PosixTime64Ns::new(s, ns) && v != PosixTime64Ns::new(s, ns ^ 1) && v != PosixTime64Ns::new(s ^ 1, ns), "posix64:eq", "{} {}", s, ns);
    check_iso(ctx, "posix64", &got, y, &format!("{}.{:09}", rest, ns))?;
    ctx.distinct(&[t.to_le_bytes().as_slice(), &f.to_le_bytes(), &s.to_le_bytes()].concat());
    ctx.sample(|| format!("POSIX {}, FILETIME {}, POSIX ns {}.{}", t, f, s, ns));
    Ok(())
}

/// All FAT dates and, over the run, all FAT times.
fn fat_times(ctx: &mut Ctx) -> CaseResult {
    let date = ctx.index as u16;
    for _ in 0..8 {
        let time = ctx.rng.next() as u16;
        let tenths = ctx.rng.below(200) as u8;
        ctx.detail(format!("date {:04x} time {:04x} tenths {}", date, time, tenths));
        let mut bytes = time.to_le_bytes().to_vec();
        bytes.extend(date.to_le_bytes());
        let d = format!("{:04}-{:02}-{:02}", 1980 + (date >> 9), date >> 5 & 15, date & 31);
        let hm = format!("T{:02}:{:02}", time >> 11, time >> 5 & 63);
        let s = (time & 31) * 2;
        let a = no_panic("FatDate", || FatDate::from_bytes(&bytes[2..]))?;
        require!(a.date == date && a == FatDate::new(date), "fat:bytes", "{:04x}", a.date);
        require_eq!(a.to_iso8601_string(), d, "fat:date", "{:04x}", date);
        require_eq!(format!("{}", a), format!("{} (0x{:04x})", d, date), "fat:display", "{:04x}", date);
        let b = no_panic("FatTimeDate", || FatTimeDate::from_bytes(&bytes))?;
        require!(b.date == date && b.time == time && b == FatTimeDate::new(date, time), "fat:bytes", "{:04x} {:04x}", b.date, b.time);
        let t = format!("{}{}:{:02}", d, hm, s);
        require_eq!(b.to_iso8601_string(), t, "fat:time-date", "{:04x} {:04x}", date, time);
        require_eq!(format!("{}", b), format!("{} (0x{:04x}:0x{:04x})", t, date, time), "fat:display", "{:04x} {:04x}", date, time);
        let mut with = vec![tenths];
        with.extend_from_slice(&bytes);
        let c = no_panic("FatTimeDate10Ms", || FatTimeDate10Ms::from_bytes(&with))?;
        require!(c.date == date && c.time == time && c.fraction == tenths && c == FatTimeDate10Ms::new(date, time, tenths), "fat:bytes", "{:04x} {:04x} {}", c.date, c.time, c.fraction);
        let f = format!("{}{}:{:02}.{:02}", d, hm, s + tenths as u16 / 100, tenths % 100);
        require_eq!(no_panic("FatTimeDate10Ms", || c.to_iso8601_string())?, f, "fat:10ms", "{:04x} {:04x} {}", date, time, tenths);
        require_eq!(format!("{}", c), format!("{} (0x{:04x}:0x{:04x}:0x{:02x})", f, date, time, tenths), "fat:display", "10 ms");
        ctx.count("FAT timestamp compared");
        ctx.distinct(&with);
    }
    let _ = no_panic("FatTimeDate10Ms", || FatTimeDate10Ms::new(date, 0xffff, 255).to_iso8601_string())?;
    ctx.sample(|| format!("FAT date {:04x} with 8 random times", date));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            level: "exploration",
            rule: "random data encoded by an independent RFC 4648 encoder (with, without padding, with white space, from an offset) and decoded through both interfaces; single-character damage, damaged padding, small buffers, random character soup; non-trivial = distinct encoded text",
            assumptions: &["text after padding and white space around padding are left unspecified"],
            sections: vec![
                Section { name: "encoded", quick: 400_000, thorough: 12_000_000, run: base64 },
                Section { name: "soup", quick: 400_000, thorough: 12_000_000, run: base64_hostile },
            ],
            must_observe: &["two padding characters", "one padding character", "padding left out", "more than a MiB of data", "context reused", "invalid character refused", "bad padding refused", "small buffer refused"],
            case_cpu_limit: 30,
        },
        Property {
            id: "C08",
            level: "exploration",
            rule: "random Unicode text and random bytes in all supported encodings: NUL-terminated fields, conversions, comparison, display and re-encoding extension, against models built on the checked codecs; non-trivial = distinct text",
            assumptions: &["the codecs themselves are decided by C04 to C06"],
            sections: vec![Section { name: "byte-strings", quick: 500_000, thorough: 15_000_000, run: byte_string }],
            must_observe: &["UTF-8 text", "decoded character shown", "undecodable byte shown", "extended", "extension refused", "more than 2^16 characters"],
            case_cpu_limit: 30,
        },
        Property {
            id: "C09",
            level: "exploration",
            rule: "random 16-bit strings (text, lone surrogates, terminators, odd sizes) read in both byte orders, displayed, compared and case folded against models; case folding of every 16-bit value against a recorded table and Unicode upper case; non-trivial = distinct string",
            assumptions: &["the case mapping is the NTFS upcase table of the pinned commit, cross-checked with Unicode simple upper case"],
            sections: vec![
                Section { name: "case-table", quick: 8, thorough: 8, run: case_table },
                Section { name: "strings", quick: 400_000, thorough: 12_000_000, run: wide_strings },
            ],
            must_observe: &["element folded", "string read", "unpaired surrogate", "odd number of bytes", "folded with another table", "more than 2^16 elements", "less", "greater", "equal"],
            case_cpu_limit: 60,
        },
        Property {
            id: "C10",
            level: "exploration",
            rule: "random, nil, max and one-bit-off identifiers through both byte orders, formatting, parsing of upper/lower case and braced spellings, and damaged spellings; non-trivial = distinct identifier",
            assumptions: &[],
            sections: vec![Section { name: "uuid", quick: 1_000_000, thorough: 30_000_000, run: uuid }],
            must_observe: &["nil", "max", "ordinary", "damaged spelling refused"],
            case_cpu_limit: 30,
        },
        Property {
            id: "C11",
            level: "exploration",
            rule: "every day from the year -399 to 10400 at a random second in each timestamp type, boundary and random timestamps over the full ranges, every FAT date; oracle: an independent proleptic Gregorian conversion; non-trivial = distinct day or timestamp",
            assumptions: &["the spelling of years outside 0000-9999 is only partly specified"],
            sections: vec![
                Section { name: "days", quick: 3943, thorough: 3943, run: days },
                Section { name: "timestamps", quick: 400_000, thorough: 10_000_000, run: timestamps },
                Section { name: "fat", quick: 65536, thorough: 65536, run: fat_times },
            ],
            must_observe: &["date compared", "before the epoch", "date outside the years 0 to 9999", "FAT timestamp compared"],
            case_cpu_limit: 30,
        },
    ]
}
