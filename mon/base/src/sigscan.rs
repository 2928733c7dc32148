//! C12: the signature scanner against a naive matcher.

use std::collections::HashSet;

use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};
use mon_common::*;

#[derive(Clone, Debug)]
pub struct Sig {
    id: String,
    kind: u8, // 0 start, 1 end, 2 unbound
    offset: usize,
    pattern: Vec<u8>,
}

impl Sig {
    pub fn span(&self) -> usize {
        self.offset + self.pattern.len()
    }
    pub fn plant(&self, data: &mut [u8]) {
        let at = place(self, data.len()).unwrap_or(0);
        for (i, b) in self.pattern.iter().enumerate() {
            if at + i < data.len() {
                data[at + i] = *b;
            }
        }
    }
}

/// Where in the data the signature demands its pattern.
fn place(s: &Sig, n: usize) -> Option<usize> {
    match s.kind {
        0 => Some(s.offset),
        1 => n.checked_sub(s.offset),
        _ => None,
    }
}

fn occurs(s: &Sig, data: &[u8], at: usize) -> bool {
    data.len() >= s.pattern.len() && at <= data.len() - s.pattern.len() && data[at..at + s.pattern.len()] == s.pattern[..]
}

/// Many signatures of formats that have little in common, the way a scanner for formats is set up.
fn many(rng: &mut Rng) -> Vec<Sig> {
    let count = rng.usize(10, 40);
    let offsets = [0usize, 0, 0, 2, 3, 4, 8, 32, 40, 54, 54, 257, 510, 510, 512, 1024, 1080, 4096, 32769];
    let shortest = rng.usize(2, 4);
    let mut r: Vec<Sig> = Vec::new();
    let mut seen: HashSet<(u8, usize, Vec<u8>)> = HashSet::new();
    for i in 0..count {
        let kind = *rng.pick(&[0u8, 0, 0, 0, 1, 1, 2]);
        let l = if rng.chance(1, 6) { rng.usize(8, 20) } else { rng.usize(shortest, 8) };
        let pattern = rng.bytes(l);
        let offset = match kind {
            0 => *rng.pick(&offsets),
            1 => pattern.len().max(*rng.pick(&[512, 512, 64, 72, 4, 100])),
            _ => 0,
        };
        if seen.insert((kind, offset, pattern.clone())) {
            r.push(Sig { id: format!("s{}", i), kind, offset, pattern });
        }
    }
    r
}

pub fn signatures(rng: &mut Rng) -> Vec<Sig> {
    if rng.chance(1, 10) {
        return many(rng);
    }
    let kinds: &[u8] = *rng.pick(&[&[0u8][..], &[1], &[2], &[0, 1], &[0, 1, 2], &[0, 0, 0, 1]]);
    let count = match rng.below(4) {
        0 => 1,
        1 => 2,
        2 => rng.usize(3, 6),
        _ => rng.usize(2, 24),
    };
    let alphabet: Vec<u8> = match rng.below(4) {
        0 => vec![0x41, 0x42],
        1 => (0x80..0x90).collect(), // none of them a "common" byte value
        2 => vec![0, 1, 0xff, 0x20, 0x41, 0x81],
        _ => (0..=255).collect(),
    };
    let max_offset = *rng.pick(&[0usize, 4, 40, 600, 600, 4, 40, 40_000]);
    // The number of scan tree nodes is exponential in the number of signatures at different
    // offsets that have byte values in common.
    let count = if max_offset > 0 { count.min(9) } else { count.min(20) };
    let max_len = *rng.pick(&[1usize, 2, 4, 9, 32, 2, 9, 300]);
    let count = if max_len > 32 { count.min(2) } else if max_offset > 600 { count.min(4) } else { count };
    let mut r: Vec<Sig> = Vec::new();
    let mut seen: HashSet<(u8, usize, Vec<u8>)> = HashSet::new();
    let shared = rng.chance(1, 4);
    for i in 0..count {
        let kind = *rng.pick(kinds);
        let pattern: Vec<u8> = if !r.is_empty() && rng.chance(1, 3) {
            // the same or a related pattern, perhaps at another offset
            let mut p = rng.pick(&r).pattern.clone();
            match rng.below(4) {
                0 => {
                    let at = rng.usize(0, p.len() - 1);
                    p[at] = *rng.pick(&alphabet);
                }
                1 => p.push(*rng.pick(&alphabet)),
                2 if p.len() > 1 => {
                    p.pop();
                }
                _ => {}
            }
            p
        } else {
            let l = rng.usize(1, max_len);
            (0..l).map(|_| *rng.pick(&alphabet)).collect()
        };
        let offset = match kind {
            2 => 0,
            1 => pattern.len() + rng.usize(0, max_offset),
            _ => rng.usize(0, max_offset),
        };
        if seen.insert((kind, offset, pattern.clone())) {
            // Several signatures can stand for the same thing.
            let id = match r.last() {
                Some(p) if shared && rng.chance(1, 2) => p.id.clone(),
                _ => format!("s{}", i),
            };
            r.push(Sig { id, kind, offset, pattern });
        }
    }
    r
}

fn scan(ctx: &mut Ctx) -> CaseResult {
    let sigs = signatures(&mut ctx.rng);
    let header = sigs.iter().filter(|s| s.kind == 0).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    let footer = sigs.iter().filter(|s| s.kind == 1).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    let unbound = sigs.iter().filter(|s| s.kind == 2).map(|s| s.pattern.len()).max().unwrap_or(0);
    let span = header.max(footer).max(unbound).max(1);
    let small = ctx.rng.chance(1, 8);
    let n = if small {
        ctx.rng.usize(1, span)
    } else if ctx.index % 500 == 1 {
        span + ctx.rng.size(300_000)
    } else {
        span + ctx.rng.usize(0, 300)
    };
    let mut data: Vec<u8> = match ctx.rng.below(3) {
        0 => vec![0; n],
        1 => {
            let a: Vec<u8> = sigs.iter().flat_map(|s| s.pattern.clone()).collect();
            (0..n).map(|_| *ctx.rng.pick(&a)).collect()
        }
        _ => ctx.rng.bytes(n),
    };
    let plants = ctx.rng.usize(0, 6);
    for _ in 0..plants {
        let s = ctx.rng.pick(&sigs).clone();
        let at = match place(&s, n) {
            Some(p) => p,
            None => ctx.rng.usize(0, n - 1),
        };
        let near = ctx.rng.chance(1, 8);
        for (i, b) in s.pattern.iter().enumerate() {
            if at + i < n {
                data[at + i] = *b;
            }
        }
        if near && at < n {
            let i = at + ctx.rng.usize(0, s.pattern.len() - 1);
            if i < n {
                data[i] ^= 1 << ctx.rng.below(8);
            }
        }
    }
    ctx.detail(format!("{} signatures {:?}", sigs.len(), sigs));
    ctx.detail(format!("{} bytes of data {}", n, hex(&data[..n.min(3000)])));
    let mut key = data.clone();
    for s in sigs.iter() {
        key.extend_from_slice(&s.pattern);
        key.push(s.offset as u8);
    }
    ctx.distinct(&key);
    ctx.sample(|| format!("{} signatures over {} bytes: {:?}", sigs.len(), n, &sigs[..sigs.len().min(3)]));

    let mut scanner = Scanner::new();
    for s in sigs.iter() {
        let kind = match s.kind {
            0 => PatternType::BoundToStart,
            1 => PatternType::BoundToEnd,
            _ => PatternType::Unbound,
        };
        scanner.add_signature(Signature::new(&s.id, kind, s.offset, &s.pattern));
    }
    let built = no_panic("Scanner build", || scanner.build().is_ok())?;
    require!(built, "sigscan:build", "distinct signatures do not build");

    // Buffers: all at once; header part, middle pieces, footer part; or just the header and the
    // footer range, the way the format scanner reads.
    let style = if n < header.max(footer) { 0 } else { ctx.rng.below(3) };
    let mut buffers: Vec<(usize, usize)> = Vec::new();
    match style {
        0 => buffers.push((0, n)),
        1 => {
            let last = n - footer;
            if last >= header {
                let mut at = 0;
                let first = ctx.rng.usize(header, last);
                if first > 0 {
                    buffers.push((0, first));
                    at = first;
                }
                while at < last {
                    let next = ctx.rng.usize(at + 1, last);
                    buffers.push((at, next));
                    at = next;
                }
                if at < n {
                    buffers.push((at, n));
                }
            } else {
                buffers.push((0, n));
            }
        }
        _ => {
            if header > 0 {
                buffers.push((0, header));
            }
            if footer > 0 {
                buffers.push((n - footer, n));
            }
        }
    }
    // Nothing but the first buffer is at the beginning of large data: the others follow data that
    // is not looked at.
    let gap: u64 = if buffers.len() > 1 && buffers[0].0 == 0 && buffers[1].0 >= buffers[0].1 && ctx.rng.chance(1, 4) {
        let bits = ctx.rng.range(1, 62);
        ctx.rng.below(1 << bits)
    } else {
        0
    };
    let gap_at = if gap > 0 { buffers[0].1 } else { n };
    if gap > u32::MAX as u64 {
        ctx.count("data beyond 4 GiB");
    }
    if sigs.windows(2).any(|w| w[0].id == w[1].id) {
        ctx.count("identifier of several signatures");
    }
    if sigs.len() > 20 {
        ctx.count("more than 20 signatures");
    }
    if span > 1 << 15 {
        ctx.count("signature beyond 32 KiB");
    }
    if sigs.iter().any(|s| s.pattern.len() > 255) {
        ctx.count("pattern of more than 255 bytes");
    }
    let whole = n as u64 + gap;
    ctx.detail(format!("gap of {} bytes, buffers {:?} header range {} footer range {}", gap, buffers, header, footer));
    // A context moves on by itself over consecutive buffers.
    let explicit = ctx.rng.chance(1, 4);
    let results: Vec<(u64, usize)> = no_panic("scan", || {
        let mut end = 0;
        let mut c = ScanContext::new(&scanner, whole);
        if c.header_range_size != header as u64 || c.footer_range_size != footer as u64 {
            return Err((c.header_range_size, c.footer_range_size));
        }
        for (a, b) in buffers.iter() {
            if explicit || *a != end || (gap > 0 && *a == gap_at) {
                c.data_offset = *a as u64 + if *a >= gap_at { gap } else { 0 };
            }
            c.scan_buffer(&data[*a..*b]);
            end = *b;
        }
        let mut r: Vec<(u64, usize)> = c
            .results
            .iter()
            .map(|(k, v)| {
                let kind = match v.pattern_type {
                    PatternType::BoundToStart => 0,
                    PatternType::BoundToEnd => 1,
                    PatternType::Unbound => 2,
                };
                let is = |s: &Sig| s.id == v.identifier && s.kind == kind && s.offset == v.pattern_offset && s.pattern == v.pattern && s.pattern.len() == v.pattern_size;
                (*k, sigs.iter().position(is).unwrap_or(usize::MAX))
            })
            .collect();
        r.sort();
        Ok(r)
    })?
    .map_err(|r| violation("sigscan:range", format!("range sizes {:?} expected {} and {}", r, header, footer)))?;

    // Soundness: everything reported is there.
    let mut results = results;
    for (k, id) in results.iter_mut() {
        if gap > 0 && *k >= gap_at as u64 {
            require!(*k >= gap_at as u64 + gap, "sigscan:unsound", "{} reported at {}, which was not looked at", id, k);
            *k -= gap;
        }
    }
    for (at, id) in results.iter() {
        let s = match sigs.get(*id) {
            Some(s) => s,
            None => fail!("sigscan:identifier", "unknown signature"),
        };
        let ok = occurs(s, &data, *at as usize) && place(s, n).map(|p| p as u64 == *at).unwrap_or(true);
        require!(ok, "sigscan:unsound", "{:?} reported at {} where it does not occur", s, at);
        ctx.count(match s.kind {
            0 => "header signature reported",
            1 => "footer signature reported",
            _ => "unbound signature reported",
        });
    }
    let at = |o: usize| results.iter().find(|(k, _)| *k == o as u64).map(|(_, id)| &sigs[*id]);
    // Completeness.
    for kind in [0u8, 1] {
        if kind == 1 && n < footer {
            continue;
        }
        let matching: Vec<&Sig> = sigs.iter().filter(|s| s.kind == kind && place(s, n).map(|p| occurs(s, &data, p)).unwrap_or(false)).collect();
        if matching.is_empty() {
            ctx.count("no signature there");
            continue;
        }
        // one of them is reported (at an offset another kind of signature may have taken)
        let found = matching.iter().any(|s| at(place(s, n).unwrap()).is_some());
        require!(found, "sigscan:missed", "kind {}: {:?} occurs and is not reported; results {:?}", kind, matching[0], results);
        if matching.len() == 1 {
            ctx.count("single matching signature");
        } else {
            ctx.count("several matching signatures");
        }
    }
    if style != 2 {
        let mut reported = vec![false; n];
        for (k, id) in results.iter() {
            let t = &sigs[*id];
            reported[*k as usize..*k as usize + t.pattern.len()].fill(true);
        }
        for s in sigs.iter().filter(|s| s.kind == 2) {
            for (a, b) in buffers.iter() {
                let mut o = *a;
                while o + s.pattern.len() <= *b {
                    if occurs(s, &data, o) {
                        require!(reported[o], "sigscan:missed-unbound", "{:?} occurs at {} and nothing is reported there; results {:?}", s, o, &results[..results.len().min(50)]);
                        ctx.count("unbound occurrence covered");
                    }
                    o += 1;
                }
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "random sets of distinct signatures (shared patterns at different offsets, one-byte edits, prefixes, byte values outside the common set) over random data with planted and nearly planted patterns, scanned whole, in pieces, or header and footer range only; oracle: a naive matcher (nothing false reported, a match never missed); non-trivial = distinct signature set and data",
        assumptions: &[
            "one buffer holds the whole header range and one the whole footer range; data is no smaller than the footer range",
            "sets are small enough for the scan tree to stay small (up to 20 signatures at the same offset, 9 otherwise)",
            "when several header (footer) signatures match, one of them is reported; unbound matches inside a reported match need not be reported",
        ],
        sections: vec![Section { name: "scan", quick: 500_000, thorough: 12_000_000, run: scan }],
        must_observe: &[
            "header signature reported",
            "footer signature reported",
            "unbound signature reported",
            "several matching signatures",
            "single matching signature",
            "no signature there",
            "more than 20 signatures",
            "identifier of several signatures",
            "data beyond 4 GiB",
            "signature beyond 32 KiB",
            "pattern of more than 255 bytes",
        ],
        case_cpu_limit: 30,
    }
}

/// Scans the data in one buffer, for the comparison with and without debug output.
pub fn results_of(sigs: &[Sig], data: &[u8]) -> Result<Vec<(u64, String)>, Violation> {
    no_panic("scan", || {
        let mut scanner = Scanner::new();
        for s in sigs.iter() {
            let kind = match s.kind {
                0 => PatternType::BoundToStart,
                1 => PatternType::BoundToEnd,
                _ => PatternType::Unbound,
            };
            scanner.add_signature(Signature::new(&s.id, kind, s.offset, &s.pattern));
        }
        let _ = scanner.build();
        let mut c = ScanContext::new(&scanner, data.len() as u64);
        c.scan_buffer(data);
        let mut r: Vec<(u64, String)> = c.results.iter().map(|(k, v)| (*k, v.identifier.clone())).collect();
        r.sort();
        r
    })
}
