//! C13: structures of every kind, written by build.rs, read by their descriptions.
use std::io::SeekFrom;
use std::sync::{Arc, RwLock};

use keramics_core::{DataStreamReference, ErrorTrace, FakeDataStream};
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32};
use keramics_layout_map::LayoutMap;
use mon_common::*;

use crate::debug::{array, uuid_text, wide_text};

pub enum Kind {
    Unsigned(usize),
    Signed(usize),
    Uuid,
    FatDate,
    FatTimeDate,
    FatTimeDate10Ms,
    Filetime,
    PosixTime32,
    Bytes(usize),
    Wide(usize),
    Nested(usize, usize),
}

#[derive(PartialEq)]
pub enum Format {
    Plain,
    Hexadecimal,
    Character,
}

#[allow(dead_code)]
pub enum Modifier {
    Keep,
    Add(u64),
    Subtract(u64),
    Multiply(u64),
    Divide(u64),
    Xor(u64),
    And(u64),
    Or(u64),
    /// Subtraction of a signed value.
    Below(i64),
}

pub struct Field {
    name: &'static str,
    kind: Kind,
    count: usize,
    big: bool,
    format: Format,
    modifier: Modifier,
}

pub struct Bit {
    name: &'static str,
    bits: u32,
    hexadecimal: bool,
    modifier: Modifier,
}

pub enum Member {
    Plain(Field),
    Group { condition: &'static str, limit: usize, fields: &'static [Field] },
    Bits { size: usize, big: bool, fields: &'static [Bit] },
}

pub struct Layout {
    pub name: &'static str,
    pub size: usize,
    members: &'static [Member],
    pub show: fn(&[u8]) -> String,
    pub read: fn(&DataStreamReference, SeekFrom) -> Result<Vec<u8>, ErrorTrace>,
}

include!(concat!(env!("OUT_DIR"), "/layouts.rs"));

fn unsigned(b: &[u8], big: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..b.len() {
        v = v << 8 | b[if big { i } else { b.len() - 1 - i }] as u64;
    }
    v
}

fn modified(v: u64, size: usize, m: &Modifier) -> u64 {
    let r = match m {
        Modifier::Keep | Modifier::Below(_) => v,
        Modifier::Add(n) => v.wrapping_add(*n),
        Modifier::Subtract(n) => v.wrapping_sub(*n),
        Modifier::Multiply(n) => v.wrapping_mul(*n),
        Modifier::Divide(n) => v / n,
        Modifier::Xor(n) => v ^ n,
        Modifier::And(n) => v & n,
        Modifier::Or(n) => v | n,
    };
    if size == 8 { r } else { r & ((1 << (8 * size)) - 1) }
}

/// The text of one value.
fn value(f: &Field, b: &[u8]) -> String {
    let le = if b.len() <= 8 { unsigned(b, false) } else { 0 };
    match f.kind {
        Kind::Unsigned(n) => {
            let v = modified(unsigned(b, f.big), n, &f.modifier);
            match f.format {
                Format::Plain => v.to_string(),
                Format::Hexadecimal => format!("0x{:0w$x}", v, w = 2 * n),
                Format::Character => (v as u8 as char).to_string(),
            }
        }
        Kind::Signed(n) => {
            let v = modified(unsigned(b, f.big), n, &f.modifier);
            let shift = 64 - 8 * n as u32;
            if f.format == Format::Hexadecimal {
                format!("0x{:0w$x}", v, w = 2 * n)
            } else {
                ((v << shift) as i64 >> shift).to_string()
            }
        }
        Kind::Uuid => uuid_text(b, f.big),
        Kind::FatDate => format!("{} (0x{:04x})", FatDate::from_bytes(b).to_iso8601_string(), le),
        Kind::FatTimeDate => format!("{} (0x{:04x}:0x{:04x})", FatTimeDate::from_bytes(b).to_iso8601_string(), le >> 16, le & 0xffff),
        Kind::FatTimeDate10Ms => format!(
            "{} (0x{:04x}:0x{:04x}:0x{:02x})",
            FatTimeDate10Ms::from_bytes(b).to_iso8601_string(),
            le >> 24,
            le >> 8 & 0xffff,
            b[0]
        ),
        Kind::Filetime => format!("{} (0x{:08x}:0x{:08x})", Filetime::from_bytes(b).to_iso8601_string(), le >> 32, le & 0xffffffff),
        Kind::PosixTime32 => {
            let t = if f.big { PosixTime32::from_be_bytes(b) } else { PosixTime32::from_le_bytes(b) };
            format!("{} ({})", t.to_iso8601_string(), unsigned(b, f.big) as u32 as i32)
        }
        Kind::Bytes(_) => {
            let e = b.iter().position(|c| *c == 0).unwrap_or(b.len());
            format!("\"{}\"", crate::text::escaped(&String::from_utf8_lossy(&b[..e])))
        }
        Kind::Wide(_) => format!("\"{}\"", wide_text(b, f.big)),
        Kind::Nested(..) => unreachable!(),
    }
}

impl Field {
    fn element(&self) -> usize {
        match self.kind {
            Kind::Unsigned(n) | Kind::Signed(n) | Kind::Bytes(n) => n,
            Kind::Wide(n) => 2 * n,
            Kind::Uuid => 16,
            Kind::FatDate => 2,
            Kind::FatTimeDate | Kind::PosixTime32 => 4,
            Kind::FatTimeDate10Ms => 5,
            Kind::Filetime => 8,
            Kind::Nested(_, n) => n,
        }
    }
    fn size(&self) -> usize {
        self.element() * self.count
    }
    fn show(&self, b: &[u8], out: &mut String) {
        let n = self.element();
        if let Kind::Nested(index, _) = self.kind {
            let indent = if self.count == 1 { "    " } else { "        " };
            out.push_str(&format!("    {}: {}", self.name, if self.count == 1 { "" } else { "[\n" }));
            for e in b.chunks(n) {
                for line in LAYOUTS[index].expected(e).lines() {
                    out.push_str(&format!("{indent}{line}\n"));
                }
            }
            if self.count != 1 {
                out.push_str("    ],\n");
            }
            return;
        }
        let text = if self.count == 1 { value(self, b) } else { array(&b.chunks(n).map(|e| value(self, e)).collect::<Vec<_>>()) };
        out.push_str(&format!("    {}: {},\n", self.name, text));
    }
    /// Puts text where strings are.
    fn fill(&self, b: &mut [u8], rng: &mut Rng) {
        let n = self.element();
        match self.kind {
            Kind::Bytes(_) => b.iter_mut().for_each(|c| *c = if rng.chance(1, 12) { 0 } else { rng.range(0x20, 0x7e) as u8 }),
            Kind::Wide(_) => {
                for c in b.chunks_mut(2) {
                    let unit = if rng.chance(1, 12) { 0 } else { rng.range(0x5d, 0xd7ff) as u16 };
                    c.copy_from_slice(&if self.big { unit.to_be_bytes() } else { unit.to_le_bytes() });
                }
            }
            Kind::Nested(index, _) => b.chunks_mut(n).for_each(|e| LAYOUTS[index].fill(e, rng)),
            _ => {}
        }
    }
}

fn holds(condition: &str, limit: usize, size: usize) -> bool {
    match condition {
        ">=" => size >= limit,
        ">" => size > limit,
        "!=" => size != limit,
        "==" => size == limit,
        "<=" => size <= limit,
        _ => size < limit,
    }
}

impl Layout {
    /// The text the data is shown as.
    pub fn expected(&self, data: &[u8]) -> String {
        let mut out = format!("{} {{\n", self.name);
        let mut at = 0;
        for m in self.members {
            match m {
                Member::Plain(f) => {
                    f.show(&data[at..at + f.size()], &mut out);
                    at += f.size();
                }
                Member::Group { condition, limit, fields } => {
                    let shown = holds(condition, *limit, data.len());
                    for f in *fields {
                        if shown {
                            f.show(&data[at..at + f.size()], &mut out);
                        }
                        at += f.size();
                    }
                }
                Member::Bits { size, big, fields } => {
                    let mut v = unsigned(&data[at..at + size], *big) as u128;
                    for f in *fields {
                        let n = (v & ((1 << f.bits) - 1)) as u64;
                        v >>= f.bits;
                        let n = modified(n, *size, &f.modifier);
                        let text = match f.modifier {
                            Modifier::Below(k) => (n as i64 - k).to_string(),
                            _ if f.hexadecimal => format!("0x{:0w$x}", n, w = f.bits.div_ceil(4) as usize),
                            _ => n.to_string(),
                        };
                        out.push_str(&format!("    {}: {},\n", f.name, text));
                    }
                    at += size;
                }
            }
        }
        out + "}\n\n"
    }
    pub fn fill(&self, data: &mut [u8], rng: &mut Rng) {
        let mut at = 0;
        let mut each = |f: &Field, at: &mut usize| {
            f.fill(&mut data[*at..*at + f.size()], rng);
            *at += f.size();
        };
        for m in self.members {
            match m {
                Member::Plain(f) => each(f, &mut at),
                Member::Group { fields, .. } => fields.iter().for_each(|f| each(f, &mut at)),
                Member::Bits { size, .. } => at += size,
            }
        }
    }
    /// Whether what is shown of so many bytes is all in them.
    fn fits(&self, size: usize) -> bool {
        let mut at = 0;
        for m in self.members {
            let (n, shown) = match m {
                Member::Plain(f) => (f.size(), true),
                Member::Group { condition, limit, fields } => (fields.iter().map(Field::size).sum(), holds(condition, *limit, size)),
                Member::Bits { size, .. } => (*size, true),
            };
            at += n;
            if shown && at > size {
                return false;
            }
        }
        true
    }
}

/// Data for a layout.
pub fn data(rng: &mut Rng, layout: &Layout) -> Vec<u8> {
    let n = layout.size;
    let mut data = match rng.below(5) {
        0 => vec![*rng.pick(&[0u8, 1, 0x41, 0x7f, 0x80, 0xff]); n],
        1 => (0..n).map(|_| *rng.pick(&[0u8, 0x41, 0x80, 0xff])).collect(),
        2 => {
            let p = rng.usize(1, 9);
            let pattern = rng.bytes(p);
            (0..n).map(|i| pattern[i % p]).collect()
        }
        _ => rng.bytes(n),
    };
    layout.fill(&mut data, rng);
    data
}

pub fn some(rng: &mut Rng) -> Option<&'static Layout> {
    Some(&LAYOUTS[rng.usize(0, LAYOUTS.len() - 1)])
}

pub fn generated(ctx: &mut Ctx) -> CaseResult {
    let which = ctx.index as usize % LAYOUTS.len();
    let layout = &LAYOUTS[which];
    let mut data = data(&mut ctx.rng, layout);
    ctx.detail(format!("{} data {}", layout.name, hex(&data)));
    ctx.distinct(&data);
    ctx.sample(|| format!("{} of {} bytes, {} members", layout.name, layout.size, layout.members.len()));
    let whole = data.clone();
    if ctx.rng.chance(1, 2) {
        // fewer bytes, where groups depend on them, or more
        let n = ctx.rng.usize(0, layout.size + 9);
        let r = ctx.rng.bytes(9);
        data.extend(r);
        data.truncate(n.max(1));
        if !layout.fits(data.len()) {
            data = whole.clone();
        } else if data.len() < whole.len() {
            ctx.count("generated structure without its last group");
        }
    }
    let expected = layout.expected(&data);
    let got = no_panic("debug_read_data", || (layout.show)(&data))?;
    for (g, e) in got.split_inclusive('\n').zip(expected.split_inclusive('\n')) {
        require_eq!(g, e, "layout:shown", "line of {} shown", layout.name);
    }
    require_eq!(got, expected, "layout:shown", "{} shown", layout.name);
    ctx.count("generated structure shown");

    let mut file = { let n = ctx.rng.usize(0, 40); ctx.rng.bytes(n) };
    let at = file.len();
    file.extend_from_slice(&whole);
    let extra = ctx.rng.usize(0, 9);
    file.extend(ctx.rng.bytes(extra));
    let cut = ctx.rng.chance(1, 4);
    if cut {
        file.truncate(at + ctx.rng.usize(0, layout.size - 1));
    }
    let stream: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&file, file.len() as u64)));
    let position = match ctx.rng.below(3) {
        0 => SeekFrom::Start(at as u64),
        1 => SeekFrom::Current(at as i64),
        _ => SeekFrom::End(at as i64 - file.len() as i64),
    };
    let r = no_panic("read_at_position", || (layout.read)(&stream, position).map_err(|e| e.to_string()))?;
    if cut {
        require!(r.is_err(), "layout:short", "{} read at {} of {} bytes", layout.name, at, file.len());
        ctx.count("generated structure past the end refused");
    } else {
        let r = r.map_err(|e| violation("layout:refused", format!("{} at {}: {}", layout.name, at, e)))?;
        require_eq!(r, whole, "layout:read", "{} read at {}", layout.name, at);
        ctx.count("generated structure read at a position");
    }
    Ok(())
}
