use encoders::{Limits, Tok, bzip2, deflate, lz, lzfse, lzx, tokens};
use keramics_compression::*;
use keramics_core::mediator::Mediator;
use mon_common::{CaseResult, Ctx, Property, Rng, Section, fail, fnv, hex, no_panic, require, require_eq};

/// A decoder: compressed data and output buffer to the number of bytes it says it produced.
type Decoder = fn(&[u8], &mut [u8]) -> Result<usize, String>;

macro_rules! decoder {
    ($name:ident, $context:ident) => {
        fn $name(data: &[u8], out: &mut [u8]) -> Result<usize, String> {
            let mut c = $context::new();
            c.decompress(data, out).map_err(|e| e.to_string())?;
            Ok(c.uncompressed_data_size)
        }
    };
}
decoder!(d_deflate, DeflateContext);
decoder!(d_zlib, ZlibContext);
decoder!(d_bzip2, Bzip2Context);
decoder!(d_lznt1, Lznt1Context);
decoder!(d_lzvn, LzvnContext);
decoder!(d_lzfse, LzfseContext);
decoder!(d_adc, AdcContext);
decoder!(d_lzx, LzxContext);

fn sentinel(rng: &mut Rng, n: usize) -> Vec<u8> {
    vec![rng.byte(); n]
}

/// Decodes valid data and compares: exact buffer, larger buffer (if the format knows its end),
/// smaller buffer.
fn check(ctx: &mut Ctx, what: &str, dec: Decoder, enc: &[u8], expected: &[u8], larger: bool) -> CaseResult {
    ctx.distinct(enc);
    if enc.len() < 3000 {
        ctx.detail(format!("{what} data: {}", hex(enc)));
    }
    let style = ctx.rng.below(10);
    let n = expected.len();
    let size = if larger && style < 3 { n + ctx.rng.usize(1, 5000) } else { n };
    let mut buf = sentinel(&mut ctx.rng, size);
    let fill = buf.first().copied().unwrap_or(0);
    let r = no_panic(what, || dec(enc, &mut buf))?;
    match r {
        Ok(got) => {
            require_eq!(got, n, &format!("{what}:size"), "{what} data of {} bytes, buffer of {size}: uncompressed size", enc.len());
            if let Some(i) = (0..n).find(|&i| buf[i] != expected[i]) {
                fail!(&format!("{what}:data"), "{what} data of {} bytes: byte {i} of {n} is {:#04x}, expected {:#04x}", enc.len(), buf[i], expected[i]);
            }
            require!(buf[n..].iter().all(|b| *b == fill), &format!("{what}:beyond"), "{what}: bytes beyond the uncompressed data of {n} bytes were written");
        }
        Err(e) => fail!(&format!("{what}:refused"), "{what} data of {} bytes for {n} bytes (buffer {size}) refused: {e}", enc.len()),
    }
    ctx.count("valid streams decoded");
    ctx.add("bytes produced", n as u64);
    if style == 9 && n > 0 {
        // too small a buffer: refused, or the data that fits
        let small = if ctx.rng.chance(1, 2) { n - 1 } else { ctx.rng.usize(0, n - 1) };
        let mut buf = sentinel(&mut ctx.rng, small);
        match no_panic(what, || dec(enc, &mut buf))? {
            Ok(got) => {
                require!(got <= small, &format!("{what}:small-size"), "{what}: {got} bytes said to be in a buffer of {small}");
                // calls in the last 10 bytes of LZX data are not translated
                let kept = if what == "LZX" { got.saturating_sub(10) } else { got };
                require!(buf[..kept] == expected[..kept], &format!("{what}:small-data"), "{what}: wrong data in a buffer of {small} of {n} bytes");
                ctx.count("small buffers filled");
            }
            Err(_) => ctx.count("small buffers refused"),
        }
    }
    Ok(())
}

fn length(rng: &mut Rng, max: usize) -> usize {
    match rng.below(10) {
        0 => rng.usize(0, 20),
        1..=5 => rng.usize(1, 2000.min(max)),
        6..=8 => rng.usize(1, 20_000.min(max)),
        _ => rng.usize(1, max),
    }
}

fn deflate_stream(rng: &mut Rng, max: usize, window: usize) -> (Vec<u8>, Vec<u8>, deflate::Used) {
    let n = length(rng, max);
    let (toks, out) = tokens(rng, n, Limits { max_dist: window, ..deflate::LIMITS });
    let (enc, used) = deflate::encode(rng, &toks, &out);
    (enc, out, used)
}

fn deflate_case(ctx: &mut Ctx) -> CaseResult {
    let (enc, out, used) = deflate_stream(&mut ctx.rng, 150_000, 32768);
    ctx.add("DEFLATE stored blocks", used.stored);
    ctx.add("DEFLATE fixed blocks", used.fixed);
    ctx.add("DEFLATE dynamic blocks", used.dynamic);
    ctx.add("DEFLATE blocks without distance codes", used.no_distances);
    ctx.add("DEFLATE blocks with one distance code", used.one_distance);
    ctx.add("DEFLATE code size repeats", used.repeats);
    ctx.add("DEFLATE code size repeats from literals into distances", used.crossing);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    check(ctx, "DEFLATE", d_deflate, &enc, &out, true)
}

fn zlib_case(ctx: &mut Ctx) -> CaseResult {
    let window = *ctx.rng.pick(&[256usize, 512, 4096, 32768, 32768, 32768]);
    let (enc, out, _) = deflate_stream(&mut ctx.rng, 60_000, window);
    let z = deflate::zlib(&mut ctx.rng, window, &enc, &out);
    check(ctx, "zlib", d_zlib, &z, &out, true)?;
    // a damaged checksum is refused
    let mut bad = z.clone();
    let n = bad.len();
    let i = ctx.rng.usize(n - 4, n - 1);
    bad[i] ^= 1 << ctx.rng.below(8);
    let mut buf = vec![0; out.len()];
    let r = no_panic("zlib", || d_zlib(&bad, &mut buf))?;
    require!(r.is_err(), "zlib:checksum", "zlib data with a damaged checksum was accepted");
    ctx.count("damaged zlib checksums refused");
    // damaged content of stored blocks is refused
    let content = { let n = ctx.rng.usize(1, 3000); ctx.rng.data(n) };
    let toks: Vec<Tok> = content.iter().map(|b| Tok::Lit(*b)).collect();
    let mut z = vec![0x78, 0x01, 1];
    z.extend_from_slice(&(toks.len() as u16).to_le_bytes());
    z.extend_from_slice(&(!(toks.len() as u16)).to_le_bytes());
    z.extend_from_slice(&content);
    z.extend_from_slice(&deflate::adler32(&content).to_be_bytes());
    let i = 7 + ctx.rng.usize(0, content.len() - 1);
    z[i] ^= 1 << ctx.rng.below(8);
    let mut buf = vec![0; content.len()];
    let r = no_panic("zlib", || d_zlib(&z, &mut buf))?;
    require!(r.is_err(), "zlib:damage", "zlib data with damaged content was accepted");
    ctx.count("damaged zlib content refused");
    Ok(())
}

fn bzip2_case(ctx: &mut Ctx) -> CaseResult {
    let level = ctx.rng.range(1, 9) as u8;
    let n = length(&mut ctx.rng, 40_000).max(1);
    let data = if ctx.rng.chance(1, 4) {
        // runs around the limits of the run-length encoding
        let mut v = Vec::new();
        while v.len() < n {
            let b = ctx.rng.below(3) as u8 + 65;
            let run = *ctx.rng.pick(&[1usize, 2, 3, 4, 5, 6, 254, 255, 258, 259, 260, 263, 600]);
            v.extend(std::iter::repeat_n(b, run));
        }
        v
    } else {
        ctx.rng.data(n)
    };
    let limit = if ctx.rng.chance(1, 3) { ctx.rng.usize(5, 5000) } else { 900_000 };
    bzip2_check(ctx, level, &data, limit)
}

fn bzip2_check(ctx: &mut Ctx, level: u8, data: &[u8], limit: usize) -> CaseResult {
    let (enc, used) = bzip2::encode(&mut ctx.rng, level, data, limit);
    ctx.add("bzip2 blocks", used.blocks);
    ctx.add("bzip2 trees", used.trees);
    ctx.add("bzip2 symbols", used.symbols);
    if used.blocks > 1 {
        ctx.count("bzip2 streams of several blocks");
    }
    if used.longest_code == 20 {
        ctx.count("bzip2 streams with codes of 20 bits");
    }
    ctx.sample(|| format!("level {level}, {} bytes to {}: {:?}", enc.len(), data.len(), used));
    check(ctx, "bzip2", d_bzip2, &enc, data, true)?;
    if enc.len() < 20_000 {
        for _ in 0..3 {
            let mut bad = enc.clone();
            let i = ctx.rng.usize(0, bad.len() - 1);
            let bit = 1u8 << ctx.rng.below(8);
            bad[i] ^= bit;
            let mut buf = vec![0; data.len() + 100];
            match no_panic("bzip2", || d_bzip2(&bad, &mut buf))? {
                Ok(n) => {
                    require!(buf[..n] == *data, "bzip2:damage", "bzip2 data with bit {bit:#x} of byte {i} of {} inverted was accepted with other content", bad.len());
                    ctx.count("damaged bzip2 data with the same content");
                }
                Err(_) => ctx.count("damaged bzip2 data refused"),
            }
        }
    }
    Ok(())
}

fn bzip2_large(ctx: &mut Ctx) -> CaseResult {
    // blocks filled to the size the level allows
    let level = 1 + (ctx.index % 9) as u8;
    let n = level as usize * 100_000 + ctx.rng.usize(0, 60_000);
    let data = ctx.rng.data(n);
    let limit = 900_000;
    ctx.count("bzip2 full blocks");
    bzip2_check(ctx, level, &data, limit)
}

fn lznt1_case(ctx: &mut Ctx) -> CaseResult {
    let n = length(&mut ctx.rng, 70_000).max(1);
    let (enc, out, used) = lz::lznt1(&mut ctx.rng, n);
    ctx.add("LZNT1 chunks", used.chunks);
    ctx.add("LZNT1 raw chunks", used.raw_chunks);
    ctx.add("LZNT1 matches", used.short_matches + used.long_matches);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    let ended = enc.len() >= 2;
    check(ctx, "LZNT1", d_lznt1, &enc, &out, ended)
}

fn lznt1_full(ctx: &mut Ctx) -> CaseResult {
    // one literal, then matches of every size and distance at chosen positions
    let mut toks = Vec::new();
    let pos = *ctx.rng.pick(&[16usize, 17, 32, 33, 64, 65, 128, 129, 256, 257, 512, 513, 1024, 1025, 2048, 2049, 4000]);
    let n = ctx.rng.usize(1, 8.min(pos));
    for _ in 0..n {
        toks.push(Tok::Lit(ctx.rng.byte()));
    }
    let mut at = n;
    while at < pos {
        if pos - at >= 3 && ctx.rng.chance(1, 2) {
            let len = ctx.rng.usize(3, (pos - at).min(18));
            toks.push(Tok::Match { dist: ctx.rng.usize(1, at.min(16)), len });
            at += len;
        } else {
            toks.push(Tok::Lit(ctx.rng.byte()));
            at += 1;
        }
    }
    let bits = (4..=12).find(|b| pos <= 1 << b).unwrap();
    let most = ((1usize << (16 - bits)) + 2).min(4096 - pos);
    let len = if ctx.rng.chance(1, 2) { most } else { ctx.rng.usize(3, most) };
    let dist = if ctx.rng.chance(1, 2) { pos } else { ctx.rng.usize(1, pos) };
    toks.push(Tok::Match { dist, len });
    let out = encoders::expand(&toks);
    let mut used = lz::Used::default();
    let body = lz::lznt1_chunk(&toks, &out, &mut used);
    if body.len() > 4096 {
        return Ok(());
    }
    let mut enc = (0xb000u16 | (body.len() - 1) as u16).to_le_bytes().to_vec();
    enc.extend(body);
    ctx.count("LZNT1 boundary matches");
    check(ctx, "LZNT1", d_lznt1, &enc, &out, true)
}

fn lzvn_case(ctx: &mut Ctx) -> CaseResult {
    let n = length(&mut ctx.rng, 200_000).max(1);
    let (toks, out) = tokens(&mut ctx.rng, n, lz::LZVN);
    let end = ctx.rng.chance(3, 4);
    let (enc, used) = lz::lzvn(&mut ctx.rng, &toks, end);
    ctx.add("LZVN small matches", used.short_matches);
    ctx.add("LZVN medium and large matches", used.long_matches);
    ctx.add("LZVN matches with the previous distance", used.previous);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    check(ctx, "LZVN", d_lzvn, &enc, &out, true)
}

fn lzfse_case(ctx: &mut Ctx) -> CaseResult {
    let n = length(&mut ctx.rng, 200_000).max(1);
    let (toks, out) = tokens(&mut ctx.rng, n, lzfse::LIMITS);
    let kinds: &[u64] = *ctx.rng.pick(&[&[2u64] as &[u64], &[2], &[0, 1, 2], &[1], &[2, 3]]);
    let (enc, used) = lzfse::encode(&mut ctx.rng, &toks, &out, kinds);
    ctx.add("LZFSE entropy coded blocks", used.fse_blocks);
    ctx.add("LZFSE LZVN blocks", used.lzvn_blocks);
    ctx.add("LZFSE uncompressed blocks", used.raw_blocks);
    ctx.add("LZFSE triples", used.triples);
    ctx.add("LZFSE repeated distances", used.same_distance);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    check(ctx, "LZFSE", d_lzfse, &enc, &out, true)
}

fn adc_case(ctx: &mut Ctx) -> CaseResult {
    let n = length(&mut ctx.rng, 200_000).max(1);
    let (toks, out) = tokens(&mut ctx.rng, n, lz::ADC);
    let (enc, used) = lz::adc(&mut ctx.rng, &toks, &out);
    ctx.add("ADC literal runs", used.literals);
    ctx.add("ADC short matches", used.short_matches);
    ctx.add("ADC long matches", used.long_matches);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    check(ctx, "ADC", d_adc, &enc, &out, true)
}

fn lzx_case(ctx: &mut Ctx) -> CaseResult {
    let n = match ctx.rng.below(6) {
        0 => ctx.rng.usize(1, 30),
        1 | 2 => ctx.rng.usize(1, 3000),
        3 => 32768,
        _ => ctx.rng.usize(1, 32768),
    };
    let most = if ctx.rng.chance(1, 5) { 8 } else { 257 };
    let (toks, mut out) = tokens(&mut ctx.rng, n, Limits { max_len: most, ..lzx::LIMITS });
    let mut toks = toks;
    if ctx.rng.chance(1, 2) {
        // call instructions
        let k = ctx.rng.usize(1, 1 + n / 12);
        let mut lit: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Lit(_))).collect();
        ctx.rng.shuffle(&mut lit);
        for i in lit.into_iter().take(k) {
            toks[i] = Tok::Lit(0xe8);
            if ctx.rng.chance(1, 2) {
                for (d, b) in [(3usize, *ctx.rng.pick(&[0u8, 0, 0xff])), (4, *ctx.rng.pick(&[0u8, 0, 0xff]))] {
                    if let Some(Tok::Lit(x)) = toks.get_mut(i + d) {
                        *x = b;
                    }
                }
            }
        }
        out = encoders::expand(&toks);
    }
    let kinds: &[u64] = *ctx.rng.pick(&[&[1u64] as &[u64], &[2], &[1, 2], &[1, 2, 3], &[3]]);
    let no_lengths = ctx.rng.chance(1, 2);
    let (enc, mut used) = lzx::encode(&mut ctx.rng, &toks, &out, kinds, no_lengths);
    used.translated = lzx::untranslate(&mut out);
    ctx.add("LZX verbatim blocks", used.verbatim);
    ctx.add("LZX aligned blocks", used.aligned);
    ctx.add("LZX uncompressed blocks", used.raw);
    ctx.add("LZX uncompressed blocks at a word boundary", used.word_aligned_raw);
    ctx.add("LZX blocks without match size codes", used.no_lengths);
    ctx.add("LZX recent distances", used.recent);
    ctx.add("LZX call instructions", used.translated);
    ctx.sample(|| format!("{} bytes to {}: {:?}", enc.len(), out.len(), used));
    check(ctx, "LZX", d_lzx, &enc, &out, false)
}

/// Reuse of one context for several streams, good and bad.
fn reuse_case(ctx: &mut Ctx) -> CaseResult {
    let mut deflate_context = DeflateContext::new();
    let mut zlib_context = ZlibContext::new();
    let mut bzip2_context = Bzip2Context::new();
    let mut lzfse_context = LzfseContext::new();
    let mut lznt1_context = Lznt1Context::new();
    let mut lzvn_context = LzvnContext::new();
    let mut adc_context = AdcContext::new();
    let mut lzx_context = LzxContext::new();
    for _ in 0..12 {
        let kind = ctx.rng.below(8);
        let (name, mut enc, out) = valid(&mut ctx.rng, kind);
        let damaged = ctx.rng.chance(1, 3);
        if damaged {
            mutate(&mut ctx.rng, &mut enc);
        }
        let mut buf = vec![0xaa; out.len()];
        macro_rules! run {
            ($c:ident) => {
                no_panic(name, || $c.decompress(&enc, &mut buf).map(|_| $c.uncompressed_data_size).map_err(|e| e.to_string()))?
            };
        }
        let r: Result<usize, String> = match kind {
            0 => run!(deflate_context),
            1 => run!(zlib_context),
            2 => run!(bzip2_context),
            3 => run!(lznt1_context),
            4 => run!(lzvn_context),
            5 => run!(lzfse_context),
            6 => run!(adc_context),
            _ => run!(lzx_context),
        };
        ctx.distinct(&enc);
        if !damaged {
            match r {
                Ok(n) => require!(n == out.len() && buf == out, "reuse:data", "{name} context used again: other data than the first time"),
                Err(e) => fail!("reuse:refused", "{name} context used again refused valid data: {e}"),
            }
            ctx.count("contexts used again");
        }
    }
    Ok(())
}

/// Small valid streams of every format.
fn valid(rng: &mut Rng, kind: u64) -> (&'static str, Vec<u8>, Vec<u8>) {
    let n = rng.usize(1, 600);
    match kind {
        0 => {
            let (e, o, _) = deflate_stream(rng, 600, 32768);
            ("DEFLATE", e, o)
        }
        1 => {
            let (e, o, _) = deflate_stream(rng, 600, 32768);
            let z = deflate::zlib(rng, 32768, &e, &o);
            ("zlib", z, o)
        }
        2 => {
            let d = rng.data(n);
            let limit = rng.usize(5, 1000);
            let level = rng.range(1, 9) as u8;
            ("bzip2", bzip2::encode(rng, level, &d, limit).0, d)
        }
        3 => {
            let (e, o, _) = lz::lznt1(rng, n);
            ("LZNT1", e, o)
        }
        4 => {
            let (t, o) = tokens(rng, n, lz::LZVN);
            let end = rng.chance(1, 2);
            ("LZVN", lz::lzvn(rng, &t, end).0, o)
        }
        5 => {
            let (t, o) = tokens(rng, n, lzfse::LIMITS);
            ("LZFSE", lzfse::encode(rng, &t, &o, &[0, 1, 2, 2, 2, 3]).0, o)
        }
        6 => {
            let (t, o) = tokens(rng, n, lz::ADC);
            ("ADC", lz::adc(rng, &t, &o).0, o)
        }
        _ => {
            let n = n.max(12);
            let (t, mut o) = tokens(rng, n, lzx::LIMITS);
            let e = lzx::encode(rng, &t, &o, &[1, 2, 3], false).0;
            lzx::untranslate(&mut o);
            ("LZX", e, o)
        }
    }
}

fn decoder_of(kind: u64) -> Decoder {
    [d_deflate, d_zlib, d_bzip2, d_lznt1, d_lzvn, d_lzfse, d_adc, d_lzx][kind as usize]
}

fn mutate(rng: &mut Rng, v: &mut Vec<u8>) {
    let k = rng.usize(1, 6);
    for _ in 0..k {
        if v.is_empty() {
            v.push(rng.byte());
        }
        let i = if rng.chance(1, 3) { rng.usize(0, v.len().min(60) - 1) } else { rng.usize(0, v.len() - 1) };
        match rng.below(9) {
            0 | 1 => v[i] ^= 1 << rng.below(8),
            2 => v[i] = rng.byte(),
            3 => v[i] = *rng.pick(&[0, 0xff, 0x7f, 0x80, 1]),
            4 => v.truncate(i),
            5 => v.insert(i, rng.byte()),
            6 => {
                v.remove(i);
            }
            7 => {
                let n = rng.usize(1, 8).min(v.len() - i);
                let f = *rng.pick(&[0u8, 0xff]);
                v[i..i + n].fill(f);
            }
            _ => {
                let n = rng.usize(1, 30);
                let b = rng.bytes(n);
                v.extend(b);
            }
        }
    }
}

/// Damaged and random data: no panic, the same result with debug output, nothing taken from or
/// written to the buffer beyond what is produced.
fn hostile_case(ctx: &mut Ctx) -> CaseResult {
    let kind = ctx.index % 8;
    let (name, mut enc, out) = valid(&mut ctx.rng, kind);
    if ctx.rng.chance(1, 8) {
        let n = ctx.rng.usize(0, 200);
        enc = ctx.rng.bytes(n);
        if kind == 5 && enc.len() > 8 {
            let m = *ctx.rng.pick(&[b"bvx1", b"bvx2", b"bvxn", b"bvx-"]);
            enc[..4].copy_from_slice(m);
            enc[6] = 0;
            enc[7] = 0;
        }
        if kind == 2 && enc.len() > 20 {
            enc[..10].copy_from_slice(b"BZh9\x31\x41\x59\x26\x53\x59");
        }
    } else {
        mutate(&mut ctx.rng, &mut enc);
    }
    let dec = decoder_of(kind);
    ctx.distinct(&enc);
    ctx.detail(format!("{name} data: {}", hex(&enc)));
    let size = match ctx.rng.below(4) {
        0 => ctx.rng.usize(0, 40),
        1 => out.len() + ctx.rng.usize(1, 400),
        _ => out.len(),
    };
    ctx.detail(format!("buffer size: {size}"));
    let mut first = vec![0x5a; size];
    Mediator::new(false).make_current();
    let r1 = no_panic(name, || dec(&enc, &mut first))?;
    let mut second = vec![0xa5; size];
    let debug = ctx.rng.chance(1, 4);
    Mediator::new(debug).make_current();
    let r2 = no_panic(name, || dec(&enc, &mut second));
    Mediator::new(false).make_current();
    let r2 = r2?;
    if debug {
        ctx.count("damaged data decoded with debug output");
    }
    match (&r1, &r2) {
        (Ok(a), Ok(b)) => {
            require!(a == b && *a <= size, "hostile:size", "{name}: {a} and {b} bytes produced from the same data (buffer of {size}, debug output {debug})");
            require!(first[..*a] == second[..*b], "hostile:leak", "{name}: what is produced from damaged data depends on the previous content of the buffer or debug output");
            require!(first[*a..].iter().all(|x| *x == 0x5a), "hostile:beyond", "{name}: bytes beyond the {a} produced ones were written");
            ctx.count("damaged data accepted");
        }
        (Err(_), Err(_)) => ctx.count("damaged data refused"),
        _ => fail!("hostile:verdict", "{name}: {r1:?} without and {r2:?} with debug output {debug}"),
    }
    let _ = fnv(&first);
    Ok(())
}

/// Valid data with debug output.
fn debug_case(ctx: &mut Ctx) -> CaseResult {
    let kind = ctx.index % 8;
    let (name, enc, out) = valid(&mut ctx.rng, kind);
    let dec = decoder_of(kind);
    let mut buf = vec![0; out.len()];
    ctx.distinct(&enc);
    ctx.detail(format!("{name} data: {}", hex(&enc)));
    Mediator::new(true).make_current();
    let r = no_panic(name, || dec(&enc, &mut buf));
    Mediator::new(false).make_current();
    match r? {
        Ok(n) => require!(n == out.len() && buf == out, "debug:data", "{name}: other data with debug output"),
        Err(e) => fail!("debug:refused", "{name}: valid data refused with debug output: {e}"),
    }
    ctx.count("valid data decoded with debug output");
    Ok(())
}

fn p(id: &'static str, rule: &'static str, must: &'static [&'static str], sections: Vec<Section>) -> Property {
    Property {
        id,
        level: "exploration",
        rule,
        assumptions: &["the encoders of the monitors follow the published format descriptions"],
        sections,
        must_observe: must,
        case_cpu_limit: 120,
    }
}

fn s(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx) -> CaseResult) -> Section {
    Section { name, quick, thorough, run }
}

fn main() {
    let rule = "compressed streams with distinct content that were decoded and compared with the data they were made from";
    mon_common::main_with(vec![
        p("C16", rule, &["DEFLATE stored blocks", "DEFLATE fixed blocks", "DEFLATE dynamic blocks", "DEFLATE blocks without distance codes", "DEFLATE code size repeats from literals into distances", "damaged zlib checksums refused"],
            vec![s("deflate", 4000, 200_000, deflate_case), s("zlib", 1500, 60_000, zlib_case)]),
        p("C17", rule, &["bzip2 streams of several blocks", "bzip2 streams with codes of 20 bits", "damaged bzip2 data refused"],
            vec![s("bzip2", 1200, 40_000, bzip2_case), s("full", 9, 200, bzip2_large)]),
        p("C18", rule, &["LZNT1 raw chunks", "LZNT1 matches", "LZNT1 boundary matches"],
            vec![s("lznt1", 3000, 150_000, lznt1_case), s("boundaries", 8000, 400_000, lznt1_full)]),
        p("C19", rule, &["LZFSE entropy coded blocks", "LZFSE LZVN blocks", "LZFSE repeated distances", "LZVN matches with the previous distance"],
            vec![s("lzvn", 3000, 100_000, lzvn_case), s("lzfse", 2000, 60_000, lzfse_case)]),
        p("C20", rule, &["ADC short matches", "ADC long matches"], vec![s("adc", 4000, 150_000, adc_case)]),
        p("C21", rule, &["LZX verbatim blocks", "LZX aligned blocks", "LZX uncompressed blocks", "LZX recent distances", "LZX call instructions"],
            vec![s("lzx", 4000, 150_000, lzx_case)]),
        p("C22", "damaged or valid compressed streams with distinct content decoded twice, into differently filled buffers and with and without debug output",
            &["damaged data refused", "damaged data accepted", "damaged data decoded with debug output", "valid data decoded with debug output", "contexts used again"],
            vec![s("hostile", 60_000, 4_000_000, hostile_case), s("debug", 1500, 30_000, debug_case), s("reuse", 1500, 60_000, reuse_case)]),
    ]);
}
