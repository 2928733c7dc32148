//! C13: structures read through layout maps; C14: formatting of data and arrays; C15: debug
//! output and error traces.

use std::io::SeekFrom;
use std::sync::{Arc, RwLock};

use keramics_core::mediator::Mediator;
use keramics_core::formatters::{debug_format_array, format_as_hexdump, format_as_string};
use keramics_core::{DataStreamReference, ErrorTrace, FakeDataStream};
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32};
use keramics_layout_map::LayoutMap;
use keramics_types::{bytes_to_i16_be, bytes_to_i16_le, bytes_to_i32_be, bytes_to_i32_le, bytes_to_i64_be, bytes_to_i64_le};
use keramics_types::{bytes_to_u16_be, bytes_to_u16_le, bytes_to_u32_be, bytes_to_u32_le, bytes_to_u64_be, bytes_to_u64_le};
use mon_common::*;

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little",
        field(name = "a", data_type = "u8"),
        field(name = "b", data_type = "u16"),
        field(name = "c", data_type = "u32", format = "hex"),
        field(name = "d", data_type = "u64"),
        field(name = "e", data_type = "i8"),
        field(name = "f", data_type = "i16"),
        field(name = "g", data_type = "i32"),
        field(name = "h", data_type = "i64"),
        field(name = "i", data_type = "u16", byte_order = "big", format = "hex"),
        field(name = "j", data_type = "u32", byte_order = "big"),
        field(name = "k", data_type = "u64", byte_order = "big", format = "hex"),
        field(name = "l", data_type = "i16", byte_order = "big"),
        field(name = "m", data_type = "i32", byte_order = "big"),
        field(name = "n", data_type = "i64", byte_order = "big"),
        field(name = "o", data_type = "u8", format = "hex"),
        field(name = "p", data_type = "u8", format = "char"),
        field(name = "q", data_type = "u16", modifier = "as u16 ^ 0x1234"),
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
struct Integers {
    read: Vec<u8>,
}

impl Integers {
    fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
        self.read = data.to_vec();
        Ok(())
    }
}

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big",
        field(name = "a", data_type = "Uuid"),
        field(name = "b", data_type = "Uuid", byte_order = "little"),
        field(name = "c", data_type = "FatDate"),
        field(name = "d", data_type = "FatTimeDate"),
        field(name = "e", data_type = "FatTimeDate10Ms"),
        field(name = "f", data_type = "Filetime"),
        field(name = "g", data_type = "PosixTime32"),
        field(name = "h", data_type = "PosixTime32", byte_order = "little"),
        field(name = "i", data_type = "ByteString<7>"),
        field(name = "j", data_type = "Ucs2String<5>"),
        field(name = "k", data_type = "Utf16String<5>", byte_order = "little"),
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
struct Values {
    read: Vec<u8>,
}

impl Values {
    fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
        self.read = data.to_vec();
        Ok(())
    }
}

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little",
        field(name = "a", data_type = "[u8; 3]"),
        field(name = "b", data_type = "[u16; 17]"),
        field(name = "c", data_type = "[u32; 33]", format = "hex"),
        field(name = "d", data_type = "[u16; 4]", byte_order = "big", format = "hex"),
        field(name = "e", data_type = "[i32; 20]"),
        field(name = "f", data_type = "[u8; 5]", format = "char"),
        field(name = "g", data_type = "Struct<Small; 3>"),
        field(name = "h", data_type = "[Struct<Small; 3>; 3]"),
        field(name = "i", data_type = "u8"),
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
struct Sequences {
    read: Vec<u8>,
}

impl Sequences {
    fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
        self.read = data.to_vec();
        Ok(())
    }
}

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little",
        field(name = "x", data_type = "u8"),
        field(name = "y", data_type = "u16", format = "hex"),
    ),
    method(name = "debug_read_data")
)]
struct Small {}

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "big",
        field(name = "z", data_type = "u8"),
        field(name = "a", data_type = "BitField8<1>"),
        field(name = "b", data_type = "BitField8<5>"),
        field(name = "c", data_type = "BitField8<2>", format = "hex"),
        field(name = "d", data_type = "BitField16<9>", format = "hex"),
        field(name = "e", data_type = "BitField16<7>"),
        field(name = "f", data_type = "BitField32<3>", byte_order = "little"),
        field(name = "g", data_type = "BitField32<28>", format = "hex"),
        field(name = "h", data_type = "BitField32<1>"),
        field(name = "i", data_type = "BitField64<40>", format = "hex"),
        field(name = "j", data_type = "BitField64<23>"),
        field(name = "k", data_type = "BitField64<1>"),
        field(name = "l", data_type = "BitField64<64>", byte_order = "little"),
        field(name = "m", data_type = "u16"),
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
struct Bits {
    read: Vec<u8>,
}

impl Bits {
    fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
        self.read = data.to_vec();
        Ok(())
    }
}

#[derive(LayoutMap)]
#[layout_map(
    structure(
        byte_order = "little",
        member(field(name = "a", data_type = "u16")),
        member(group(
            size_condition = "> 4",
            field(name = "b", data_type = "u8"),
            field(name = "c", data_type = "u16", format = "hex"),
        )),
        member(field(name = "d", data_type = "u8")),
        member(group(size_condition = ">= 10", field(name = "e", data_type = "u32"))),
    ),
    method(name = "debug_read_data"),
    method(name = "read_at_position")
)]
struct Groups {
    read: Vec<u8>,
}

impl Groups {
    fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
        self.read = data.to_vec();
        Ok(())
    }
}

/// Reads values one after another and writes down what the structure shows.
struct Model<'a> {
    data: &'a [u8],
    at: usize,
    out: String,
}

impl<'a> Model<'a> {
    fn new(name: &str, data: &'a [u8]) -> Self {
        Model { data, at: 0, out: format!("{} {{\n", name) }
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let r = &self.data[self.at..self.at + n];
        self.at += n;
        r
    }
    fn unsigned(&mut self, n: usize, big: bool) -> u64 {
        let b = self.take(n);
        let mut v = 0u64;
        for i in 0..n {
            v = v << 8 | b[if big { i } else { n - 1 - i }] as u64;
        }
        v
    }
    fn signed(&mut self, n: usize, big: bool) -> i64 {
        let shift = 64 - 8 * n as u32;
        (self.unsigned(n, big) << shift) as i64 >> shift
    }
    fn show(&mut self, name: &str, value: String) {
        self.out.push_str(&format!("    {}: {},\n", name, value));
    }
    fn u(&mut self, name: &str, n: usize, big: bool) {
        let v = self.unsigned(n, big);
        self.show(name, v.to_string());
    }
    fn x(&mut self, name: &str, n: usize, big: bool) {
        let v = self.unsigned(n, big);
        self.show(name, format!("0x{:0w$x}", v, w = 2 * n));
    }
    fn i(&mut self, name: &str, n: usize, big: bool) {
        let v = self.signed(n, big);
        self.show(name, v.to_string());
    }
    fn end(mut self) -> String {
        self.out.push_str("}\n\n");
        self.out
    }
}

pub fn array(values: &[String]) -> String {
    if values.is_empty() {
        return String::from("[]");
    }
    if values.iter().all(|v| *v == values[0]) {
        return format!("[{}; {}]", values[0], values.len());
    }
    if values.len() <= 16 {
        return format!("[{}]", values.join(", "));
    }
    let lines: Vec<String> = values.chunks(16).map(|c| c.join(", ")).collect();
    format!("[\n        {}\n    ]", lines.join(",\n        "))
}

fn small(data: &[u8]) -> Vec<String> {
    vec![
        String::from("Small {"),
        format!("    x: {},", data[0]),
        format!("    y: 0x{:04x},", u16::from_le_bytes([data[1], data[2]])),
        String::from("}"),
        String::new(),
    ]
}

pub fn uuid_text(b: &[u8], big: bool) -> String {
    let mut o = b.to_vec();
    if !big {
        o[0..4].reverse();
        o[4..6].reverse();
        o[6..8].reverse();
    }
    let h: String = o.iter().map(|v| format!("{:02x}", v)).collect();
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

pub fn wide_text(b: &[u8], big: bool) -> String {
    let units: Vec<u16> = b
        .chunks(2)
        .map(|c| if big { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) })
        .take_while(|u| *u != 0)
        .collect();
    String::from_utf16_lossy(&units)
}

/// Structure number, its data size, what it shows.
fn model(which: u64, data: &[u8]) -> String {
    match which {
        0 => {
            let mut m = Model::new("Integers", data);
            m.u("a", 1, false);
            m.u("b", 2, false);
            m.x("c", 4, false);
            m.u("d", 8, false);
            m.i("e", 1, false);
            m.i("f", 2, false);
            m.i("g", 4, false);
            m.i("h", 8, false);
            m.x("i", 2, true);
            m.u("j", 4, true);
            m.x("k", 8, true);
            m.i("l", 2, true);
            m.i("m", 4, true);
            m.i("n", 8, true);
            m.x("o", 1, false);
            let c = m.unsigned(1, false) as u8;
            m.show("p", (c as char).to_string());
            let q = m.unsigned(2, false) ^ 0x1234;
            m.show("q", q.to_string());
            m.end()
        }
        1 => {
            let mut m = Model::new("Values", data);
            let b = m.take(16);
            m.show("a", uuid_text(b, true));
            let b = m.take(16);
            m.show("b", uuid_text(b, false));
            let b = m.take(2);
            let v = u16::from_le_bytes([b[0], b[1]]);
            m.show("c", format!("{} (0x{:04x})", FatDate::from_bytes(b).to_iso8601_string(), v));
            let b = m.take(4);
            let (t, d) = (u16::from_le_bytes([b[0], b[1]]), u16::from_le_bytes([b[2], b[3]]));
            m.show("d", format!("{} (0x{:04x}:0x{:04x})", FatTimeDate::from_bytes(b).to_iso8601_string(), d, t));
            let b = m.take(5);
            let (t, d) = (u16::from_le_bytes([b[1], b[2]]), u16::from_le_bytes([b[3], b[4]]));
            m.show("e", format!("{} (0x{:04x}:0x{:04x}:0x{:02x})", FatTimeDate10Ms::from_bytes(b).to_iso8601_string(), d, t, b[0]));
            let b = m.take(8);
            let v = u64::from_le_bytes(b.try_into().unwrap());
            m.show("f", format!("{} (0x{:08x}:0x{:08x})", Filetime::from_bytes(b).to_iso8601_string(), v >> 32, v & 0xffffffff));
            let b = m.take(4);
            let v = i32::from_be_bytes(b.try_into().unwrap());
            m.show("g", format!("{} ({})", PosixTime32::from_be_bytes(b).to_iso8601_string(), v));
            let b = m.take(4);
            let v = i32::from_le_bytes(b.try_into().unwrap());
            m.show("h", format!("{} ({})", PosixTime32::from_le_bytes(b).to_iso8601_string(), v));
            let b = m.take(7);
            let e = b.iter().position(|c| *c == 0).unwrap_or(7);
            m.show("i", format!("\"{}\"", crate::text::escaped(&String::from_utf8_lossy(&b[..e]))));
            let b = m.take(10);
            m.show("j", format!("\"{}\"", wide_text(b, true)));
            let b = m.take(10);
            m.show("k", format!("\"{}\"", wide_text(b, false)));
            m.end()
        }
        2 => {
            let mut m = Model::new("Sequences", data);
            let v: Vec<String> = (0..3).map(|_| m.unsigned(1, false).to_string()).collect();
            m.show("a", array(&v));
            let v: Vec<String> = (0..17).map(|_| m.unsigned(2, false).to_string()).collect();
            m.show("b", array(&v));
            let v: Vec<String> = (0..33).map(|_| format!("0x{:08x}", m.unsigned(4, false))).collect();
            m.show("c", array(&v));
            let v: Vec<String> = (0..4).map(|_| format!("0x{:04x}", m.unsigned(2, true))).collect();
            m.show("d", array(&v));
            let v: Vec<String> = (0..20).map(|_| m.signed(4, false).to_string()).collect();
            m.show("e", array(&v));
            let v: Vec<String> = (0..5).map(|_| (m.unsigned(1, false) as u8 as char).to_string()).collect();
            m.show("f", array(&v));
            let b = m.take(3);
            m.out.push_str("    g: ");
            for l in small(b) {
                m.out.push_str(&format!("    {}\n", l));
            }
            m.out.push_str("    h: [\n");
            for _ in 0..3 {
                let b = m.take(3);
                for l in small(b) {
                    m.out.push_str(&format!("        {}\n", l));
                }
            }
            m.out.push_str("    ],\n");
            m.u("i", 1, false);
            m.end()
        }
        3 => {
            let mut m = Model::new("Bits", data);
            m.u("z", 1, true);
            let groups: [(usize, bool, &[(&str, u32, bool)]); 5] = [
                (1, true, &[("a", 1, false), ("b", 5, false), ("c", 2, true)]),
                (2, true, &[("d", 9, true), ("e", 7, false)]),
                (4, false, &[("f", 3, false), ("g", 28, true), ("h", 1, false)]),
                (8, true, &[("i", 40, true), ("j", 23, false), ("k", 1, false)]),
                (8, false, &[("l", 64, false)]),
            ];
            for (n, big, fields) in groups {
                let mut v = m.unsigned(n, big) as u128;
                for (name, bits, hexadecimal) in fields {
                    let f = v & ((1u128 << bits) - 1);
                    v >>= bits;
                    if *hexadecimal {
                        m.show(name, format!("0x{:0w$x}", f, w = bits.div_ceil(4) as usize));
                    } else {
                        m.show(name, f.to_string());
                    }
                }
            }
            m.u("m", 2, true);
            m.end()
        }
        _ => {
            let mut m = Model::new("Groups", data);
            m.u("a", 2, false);
            if data.len() > 4 {
                m.u("b", 1, false);
                m.x("c", 2, false);
            } else {
                m.take(3);
            }
            m.u("d", 1, false);
            if data.len() >= 10 {
                m.u("e", 4, false);
            }
            m.end()
        }
    }
}

const SIZES: [usize; 5] = [
    1 + 2 + 4 + 8 + 1 + 2 + 4 + 8 + 2 + 4 + 8 + 2 + 4 + 8 + 1 + 1 + 2,
    16 + 16 + 2 + 4 + 5 + 8 + 4 + 4 + 7 + 10 + 10,
    3 + 34 + 132 + 8 + 80 + 5 + 3 + 9 + 1,
    1 + 1 + 2 + 4 + 8 + 8 + 2,
    2 + 3 + 1 + 4,
];

fn layouts(ctx: &mut Ctx) -> CaseResult {
    let which = ctx.rng.below(5);
    let size = SIZES[which as usize];
    let mut n = size;
    if which == 4 && ctx.rng.chance(1, 2) {
        n = ctx.rng.usize(6, 9);
    }
    let extra = if which == 4 { 0 } else { ctx.rng.usize(0, 9) };
    let mut data = match ctx.rng.below(4) {
        0 => vec![*ctx.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); n],
        1 => (0..n).map(|_| *ctx.rng.pick(&[0u8, 0x41, 0x80, 0xff])).collect(),
        _ => ctx.rng.bytes(n),
    };
    if which == 1 {
        // valid text: the strings themselves are the subject of C08 and C09
        let at = 16 + 16 + 2 + 4 + 5 + 8 + 4 + 4;
        for i in 0..7 {
            data[at + i] = if ctx.rng.chance(1, 8) { 0 } else { ctx.rng.range(0x20, 0x7e) as u8 };
        }
        for i in 0..10 {
            let unit = if ctx.rng.chance(1, 8) { 0 } else { ctx.rng.range(0x5d, 0xd7ff) as u16 };
            let b = if i < 5 { unit.to_be_bytes() } else { unit.to_le_bytes() };
            data[at + 7 + 2 * i..at + 9 + 2 * i].copy_from_slice(&b);
        }
    }
    ctx.detail(format!("structure {} data {}", which, hex(&data)));
    ctx.distinct(&data);
    ctx.sample(|| format!("structure {} data {}", which, hex(&data)));
    let expected = model(which, &data);
    let mut longer = data.clone();
    longer.extend(ctx.rng.bytes(extra));
    let got = no_panic("debug_read_data", || match which {
        0 => Integers::debug_read_data(&longer),
        1 => Values::debug_read_data(&longer),
        2 => Sequences::debug_read_data(&longer),
        3 => Bits::debug_read_data(&longer),
        _ => Groups::debug_read_data(&longer),
    })?;
    for (g, e) in got.split_inclusive('\n').zip(expected.split_inclusive('\n')) {
        require_eq!(g, e, "layout:shown", "structure {} line shown", which);
    }
    require_eq!(got, expected, "layout:shown", "structure {} shown", which);
    ctx.count(["integers shown", "values shown", "sequences shown", "bit fields shown", "groups shown"][which as usize]);

    // Reading at a position hands exactly the bytes of the structure there to read_data.
    let mut file = ctx.rng.bytes(ctx.index as usize % 40);
    let mut at = file.len();
    file.extend_from_slice(&data);
    file.extend(ctx.rng.bytes(extra));
    let short = ctx.rng.chance(1, 4);
    if short {
        let k = ctx.rng.usize(1, size);
        let l = (at + size).saturating_sub(k);
        if l < file.len() {
            file.truncate(l);
        }
        if ctx.rng.chance(1, 6) {
            at = file.len() + ctx.rng.usize(0, 9);
        }
    }
    if at + size <= file.len() || at > file.len() || file.len() - at < size {
        let stream: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&file, file.len() as u64)));
        let position = if ctx.rng.chance(1, 2) { SeekFrom::Start(at as u64) } else { SeekFrom::End(at as i64 - file.len() as i64) };
        let r: Result<Vec<u8>, String> = no_panic("read_at_position", || {
            macro_rules! read {
                ($t:ident) => {{
                    let mut s = $t { read: Vec::new() };
                    s.read_at_position(&stream, position).map(|_| s.read).map_err(|e| e.to_string())
                }};
            }
            match which {
                0 => read!(Integers),
                1 => read!(Values),
                2 => read!(Sequences),
                3 => read!(Bits),
                _ => read!(Groups),
            }
        })?;
        if at + size <= file.len() {
            let r = r.map_err(|e| violation("layout:refused", format!("structure {} at {}: {}", which, at, e)))?;
            require_eq!(r, file[at..at + size].to_vec(), "layout:read", "structure {} read at {}", which, at);
            ctx.count("structure read at a position");
        } else {
            require!(r.is_err(), "layout:short", "structure {} of {} bytes read at {} of {} bytes", which, size, at, file.len());
            ctx.count("structure past the end refused");
        }
    }
    Ok(())
}

/// Structures whose last field is of each type in turn: nothing beyond a field is looked at.
macro_rules! ends {
    ($($name:ident, $kind:literal, $order:literal, $size:expr;)*) => {
        $(
            #[derive(LayoutMap)]
            #[layout_map(
                structure(byte_order = $order, field(name = "z", data_type = "u8"), field(name = "a", data_type = $kind)),
                method(name = "debug_read_data"),
                method(name = "read_at_position")
            )]
            struct $name {
                read: Vec<u8>,
            }
            impl $name {
                fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
                    self.read = data.to_vec();
                    Ok(())
                }
            }
        )*
        fn ends(ctx: &mut Ctx) -> CaseResult {
            $({
                let mut data = ctx.rng.bytes(1 + $size);
                if $kind.contains("String") {
                    for b in data.iter_mut() {
                        *b = ctx.rng.range(0x21, 0x7e) as u8;
                    }
                }
                let shown = no_panic(concat!("a structure that ends with ", $kind), || $name::debug_read_data(&data))?;
                let e = &data[1..];
                let (be, le) = if e.len() <= 8 {
                    let v = |x: &mut dyn Iterator<Item = &u8>| x.fold(0u64, |a, b| a << 8 | *b as u64);
                    (v(&mut e.iter()), v(&mut e.iter().rev()))
                } else {
                    (0, 0)
                };
                let v = if $order == "big" { be } else { le };
                let sign = 64 - 8 * e.len().min(8) as u32;
                let text = match $kind {
                    "u8" | "u16" | "u32" | "u64" => v.to_string(),
                    "i8" | "i16" | "i32" | "i64" => ((v << sign) as i64 >> sign).to_string(),
                    "Uuid" => uuid_text(e, $order == "big"),
                    "FatDate" => format!("{} (0x{:04x})", FatDate::from_bytes(e).to_iso8601_string(), le),
                    "FatTimeDate" => format!("{} (0x{:04x}:0x{:04x})", FatTimeDate::from_bytes(e).to_iso8601_string(), le >> 16, le & 0xffff),
                    "FatTimeDate10Ms" => format!("{} (0x{:04x}:0x{:04x}:0x{:02x})", FatTimeDate10Ms::from_bytes(e).to_iso8601_string(), le >> 24, (le >> 8) & 0xffff, e[0]),
                    "Filetime" => format!("{} (0x{:08x}:0x{:08x})", Filetime::from_bytes(e).to_iso8601_string(), le >> 32, le & 0xffffffff),
                    "PosixTime32" if $order == "big" => format!("{} ({})", PosixTime32::from_be_bytes(e).to_iso8601_string(), v as u32 as i32),
                    "PosixTime32" => format!("{} ({})", PosixTime32::from_le_bytes(e).to_iso8601_string(), v as u32 as i32),
                    "ByteString<7>" => format!("\"{}\"", crate::text::escaped(&String::from_utf8_lossy(e))),
                    "Ucs2String<5>" | "Utf16String<5>" => format!("\"{}\"", wide_text(e, $order == "big")),
                    _ => format!("[{}, {}]", if $order == "big" { u16::from_be_bytes([e[0], e[1]]) } else { u16::from_le_bytes([e[0], e[1]]) },
                        if $order == "big" { u16::from_be_bytes([e[2], e[3]]) } else { u16::from_le_bytes([e[2], e[3]]) }),
                };
                let same = $kind == "[u16; 2]" && e[..2] == e[2..];
                let expected = format!("{} {{\n    z: {},\n    a: {},\n}}\n\n", stringify!($name), data[0], text);
                if !same {
                    require_eq!(shown, expected, "layout:end-shown", "{} of {} at the end of a structure", $kind, hex(e));
                }
                let stream: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&data, data.len() as u64)));
                let mut s = $name { read: Vec::new() };
                let r = no_panic("read_at_position", || s.read_at_position(&stream, SeekFrom::Start(0)).map_err(|e| e.to_string()))?;
                require!(r.is_ok() && s.read == data, "layout:end-read", "structure ending in {} at the end of the data: {:?}", $kind, r);
                ctx.distinct(&data);
                ctx.count("last field shown");
            })*
            Ok(())
        }
    };
}

ends! {
    E01, "u8", "big", 1; E02, "u16", "big", 2; E03, "u32", "big", 4; E04, "u64", "big", 8;
    E05, "i8", "big", 1; E06, "i16", "big", 2; E07, "i32", "big", 4; E08, "i64", "big", 8;
    E09, "u8", "little", 1; E10, "u16", "little", 2; E11, "u32", "little", 4; E12, "u64", "little", 8;
    E13, "i8", "little", 1; E14, "i16", "little", 2; E15, "i32", "little", 4; E16, "i64", "little", 8;
    E17, "Uuid", "big", 16; E18, "Uuid", "little", 16;
    E19, "FatDate", "little", 2; E20, "FatTimeDate", "little", 4; E21, "FatTimeDate10Ms", "little", 5;
    E22, "Filetime", "little", 8; E23, "PosixTime32", "big", 4; E24, "PosixTime32", "little", 4;
    E25, "ByteString<7>", "little", 7; E26, "Ucs2String<5>", "big", 10; E27, "Ucs2String<5>", "little", 10;
    E28, "Utf16String<5>", "big", 10; E29, "Utf16String<5>", "little", 10;
    E30, "[u16; 2]", "big", 4; E31, "[u16; 2]", "little", 4;
}

fn integers(ctx: &mut Ctx) -> CaseResult {
    for _ in 0..64 {
        let n = ctx.rng.usize(8, 24);
        let mut data = ctx.rng.bytes(n);
        if ctx.rng.chance(1, 4) {
            for b in data.iter_mut() {
                *b = *ctx.rng.pick(&[0, 0x7f, 0x80, 0xff]);
            }
        }
        let o = ctx.rng.usize(0, data.len() - 8);
        let mut m = Model { data: &data, at: 0, out: String::new() };
        let mut u = |n: usize, big: bool| {
            m.at = o;
            m.unsigned(n, big)
        };
        macro_rules! same {
            ($e:expr, $n:expr, $big:expr, $t:ty) => {
                let v: $t = no_panic(stringify!($e), || $e)?;
                require_eq!(v, u($n, $big) as $t, concat!("integer:", stringify!($t)), "{} of {} at {}", stringify!($e), hex(&data), o);
            };
        }
        same!(bytes_to_u16_be!(data, o), 2, true, u16);
        same!(bytes_to_u16_le!(data, o), 2, false, u16);
        same!(bytes_to_u32_be!(data, o), 4, true, u32);
        same!(bytes_to_u32_le!(data, o), 4, false, u32);
        same!(bytes_to_u64_be!(data, o), 8, true, u64);
        same!(bytes_to_u64_le!(data, o), 8, false, u64);
        same!(bytes_to_i16_be!(data, o), 2, true, i16);
        same!(bytes_to_i16_le!(data, o), 2, false, i16);
        same!(bytes_to_i32_be!(data, o), 4, true, i32);
        same!(bytes_to_i32_le!(data, o), 4, false, i32);
        same!(bytes_to_i64_be!(data, o), 8, true, i64);
        same!(bytes_to_i64_le!(data, o), 8, false, i64);
        let key: Vec<u8> = data[o..o + 8].to_vec();
        ctx.distinct(&key);
        ctx.count("integer converted");
    }
    Ok(())
}

fn row(at: usize, b: &[u8]) -> String {
    let mut s = format!("{:08x}  ", at);
    for i in 0..16 {
        match b.get(i) {
            Some(v) => s.push_str(&format!("{:02x} ", v)),
            None => s.push_str("   "),
        }
        if i == 7 {
            s.push(' ');
        }
    }
    s.push(' ');
    s.extend(b.iter().map(|v| if (32..127).contains(v) { *v as char } else { '.' }));
    s.push('\n');
    s
}

/// Text with characters that printing or joining could take for something else.
fn unusual_text(rng: &mut Rng, max: usize) -> String {
    let n = rng.usize(0, max);
    (0..n)
        .map(|_| match rng.below(5) {
            0 => *rng.pick(&['\0', '\n', '\r', '\t', ' ', '{', '}', '"', '\\', '#', ',', '%', '\u{1b}', '\u{7f}']),
            1 => *rng.pick(&['\u{85}', '\u{a0}', '\u{e9}', '\u{20ac}', '\u{feff}', '\u{fffd}', '\u{1f600}', '\u{10ffff}']),
            _ => rng.range(0x20, 0x7e) as u8 as char,
        })
        .collect()
}

fn hexdump(ctx: &mut Ctx) -> CaseResult {
    let rows = match ctx.index {
        i if i % 4000 == 1 => ctx.rng.size(140_000),
        i if i % 100 == 1 => ctx.rng.size(3000),
        _ => ctx.rng.size(12),
    };
    let repeats = *ctx.rng.pick(&[2, 2, 2, 3000, 0]);
    let mut data: Vec<u8> = Vec::new();
    for _ in 0..rows {
        let r = if !data.is_empty() && (if repeats == 2 { ctx.rng.chance(2, 3) } else { ctx.rng.chance(repeats, repeats + 1) }) {
            let n = data.len() / 16;
            let k = if ctx.rng.chance(3, 4) { n - 1 } else { ctx.rng.usize(0, n - 1) };
            data[16 * k..16 * k + 16].to_vec()
        } else {
            ctx.rng.bytes(16)
        };
        data.extend(r);
    }
    let tail = match ctx.rng.below(3) {
        0 => 0,
        1 => 1,
        _ => ctx.rng.usize(1, 15),
    };
    let t = ctx.rng.bytes(tail);
    data.extend(t);
    let group = ctx.rng.chance(1, 2);
    let begin = &data[..data.len().min(1024)];
    ctx.detail(format!("group {} {} bytes of data {}", group, data.len(), hex(begin)));
    ctx.distinct(&data);
    ctx.sample(|| format!("group {} {} bytes of data {}", group, data.len(), hex(begin)));
    if data.len() >= 1 << 16 {
        ctx.count("more than 64 KiB of data");
    }
    let got = no_panic("format_as_hexdump", || format_as_hexdump(&data, group))?;
    // Rows that repeat the row shown last stand as one "..." line; the last whole row is shown.
    let mut expected = String::new();
    let full = data.len() / 16;
    let mut shown: Option<usize> = None;
    let mut dots = false;
    for k in 0..full {
        let same = shown.map(|s| data[16 * s..16 * s + 16] == data[16 * k..16 * k + 16]).unwrap_or(false);
        if group && same && k + 1 < full {
            if !dots {
                expected.push_str("...\n");
                dots = true;
            }
            ctx.count("repeated row left out");
            continue;
        }
        expected.push_str(&row(16 * k, &data[16 * k..16 * k + 16]));
        shown = Some(k);
        dots = false;
        ctx.count("row shown");
    }
    if data.len() % 16 != 0 {
        expected.push_str(&row(16 * full, &data[16 * full..]));
        ctx.count("partial row shown");
    }
    expected.push('\n');
    if got.len() > 4096 && got != expected {
        let at = got.lines().zip(expected.lines()).position(|(a, b)| a != b);
        return Err(violation("hexdump", format!("hexdump of {} bytes: line {:?} differs: {:?} and not {:?}", data.len(), at, at.and_then(|l| got.lines().nth(l)), at.and_then(|l| expected.lines().nth(l)))));
    }
    require_eq!(got, expected, "hexdump", "hexdump of {} bytes", data.len());
    let h = no_panic("format_as_string", || format_as_string(&data))?;
    let e: String = data.iter().map(|b| format!("{:02x}", b)).collect();
    require_eq!(h, e, "hexstring", "hexadecimal string");
    Ok(())
}

fn arrays(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.index % 100 == 1 { ctx.rng.size(5000) } else { ctx.rng.size(80) };
    let uniform = ctx.rng.chance(1, 5);
    let first = ctx.rng.next() as u8;
    let mut values: Vec<String> = (0..n).map(|_| if uniform { first } else { ctx.rng.next() as u8 }.to_string()).collect();
    if uniform && n > 1 && ctx.rng.chance(1, 3) {
        let k = if ctx.rng.chance(1, 2) { n - 1 } else { ctx.rng.usize(0, n - 1) };
        values[k] = String::from("other");
        ctx.count("one value different");
    } else if !uniform && ctx.rng.chance(1, 4) {
        for v in values.iter_mut() {
            *v = unusual_text(&mut ctx.rng, 8);
        }
    }
    ctx.distinct(values.join(",").as_bytes());
    ctx.detail(format!("{} values {:?}", n, &values[..n.min(200)]));
    ctx.sample(|| format!("{} values", n));
    let got = no_panic("debug_format_array", || debug_format_array(&values))?;
    require_eq!(got, array(&values), "array", "array of {} values", n);
    ctx.count(if n == 0 { "empty array" } else if n > 16 { "array of several lines" } else { "array of one line" });
    Ok(())
}

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Runs f with standard output going to a file, and returns what was written.
fn captured<T>(ctx: &Ctx, f: impl FnOnce() -> T) -> (T, String) {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let path = ctx.scratch.join("output");
    let file = std::fs::File::create(&path).unwrap();
    std::io::stdout().flush().unwrap();
    let saved = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = f();
    std::io::stdout().flush().unwrap();
    unsafe {
        dup2(saved, 1);
        close(saved);
    }
    let text = std::fs::read(&path).unwrap();
    (r, String::from_utf8_lossy(&text).into_owned())
}

fn output(ctx: &mut Ctx) -> CaseResult {
    let generated = if ctx.rng.chance(1, 2) { crate::layouts::some(&mut ctx.rng) } else { None };
    let which = ctx.rng.below(5);
    let size = generated.map(|g| g.size).unwrap_or(SIZES[which as usize]);
    let lead = ctx.rng.usize(0, 40);
    let mut file = ctx.rng.bytes(lead + size);
    if let Some(g) = generated {
        let data = crate::layouts::data(&mut ctx.rng, g);
        file[lead..].copy_from_slice(&data);
    } else if which == 1 {
        for b in file[lead + 59..].iter_mut() {
            *b = 0;
        }
    }
    let on = ctx.rng.chance(2, 3);
    let text = if ctx.index % 200 == 1 { unusual_text(&mut ctx.rng, 100_000) } else { unusual_text(&mut ctx.rng, 20) };
    let group = ctx.rng.chance(1, 2);
    let printed = if ctx.index % 400 == 1 {
        let n = ctx.rng.size(300_000);
        if n >= 1 << 16 {
            ctx.count("more than 64 KiB of data printed");
        }
        ctx.rng.data(n)
    } else {
        file.clone()
    };
    ctx.detail(format!("structure {} debug output {} at {} in {}", which, on, lead, hex(&file)));
    ctx.distinct(&file);
    ctx.sample(|| format!("structure {} debug output {} at {} in {}", which, on, lead, hex(&file)));
    let stream: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&file, file.len() as u64)));
    let position = SeekFrom::Start(lead as u64);
    let (r, shown) = captured(ctx, || {
        no_panic("read_at_position with debug output", || {
            Mediator::new(on).make_current();
            macro_rules! read {
                ($t:ident) => {{
                    let mut s = $t { read: Vec::new() };
                    s.read_at_position(&stream, position).map(|_| s.read).map_err(|e| e.to_string())
                }};
            }
            let r = match which {
                _ if generated.is_some() => (generated.unwrap().read)(&stream, position).map_err(|e| e.to_string()),
                0 => read!(Integers),
                1 => read!(Values),
                2 => read!(Sequences),
                3 => read!(Bits),
                _ => read!(Groups),
            };
            let m = Mediator::current();
            m.debug_print(text.clone());
            m.debug_print_data(&printed, group);
            Mediator::new(false).make_current();
            r
        })
    });
    let r = r?.map_err(|e| violation("debug:refused", format!("structure {}: {}", which, e)))?;
    let data = &file[lead..];
    require_eq!(r, data.to_vec(), "debug:read", "structure {} read", which);
    let mut expected = String::new();
    if on {
        let name = generated.map(|g| g.name).unwrap_or(["Integers", "Values", "Sequences", "Bits", "Groups"][which as usize]);
        expected.push_str(&format!("{} data of size: {} at offset: {} (0x{:08x})\n", name, size, lead, lead));
        expected.push_str(&format_as_hexdump(data, true));
        expected.push_str(&generated.map(|g| g.expected(data)).unwrap_or_else(|| model(which, data)));
        expected.push_str(&text);
        expected.push_str(&format_as_hexdump(&printed, group));
    }
    if expected.len() > 20_000 && shown != expected {
        let at = shown.bytes().zip(expected.bytes()).position(|(a, b)| a != b);
        return Err(violation("debug:output", format!("structure {} debug output {}: {} bytes shown, {} expected, different at {:?}", which, on, shown.len(), expected.len(), at)));
    }
    require_eq!(shown, expected, "debug:output", "structure {} debug output {}", which, on);
    ctx.count(if on { "output compared" } else { "no output without debug output" });
    Ok(())
}

fn same_results(ctx: &mut Ctx) -> CaseResult {
    let sigs = crate::sigscan::signatures(&mut ctx.rng);
    let span = sigs.iter().map(|s| s.span()).max().unwrap_or(1);
    let n = span + ctx.rng.usize(0, 60);
    let mut data = ctx.rng.bytes(n);
    for s in sigs.iter() {
        if ctx.rng.chance(1, 2) {
            s.plant(&mut data);
        }
    }
    ctx.detail(format!("{:?} data {}", sigs, hex(&data)));
    ctx.distinct(&data);
    let quiet = crate::sigscan::results_of(&sigs, &data)?;
    let (loud, shown) = captured(ctx, || {
        Mediator::new(true).make_current();
        let r = crate::sigscan::results_of(&sigs, &data);
        Mediator::new(false).make_current();
        r
    });
    let loud = loud?;
    require_eq!(loud, quiet, "debug:scan", "scan results with debug output");
    if !shown.is_empty() {
        ctx.count("scan with debug output");
    }
    Ok(())
}

fn traces(ctx: &mut Ctx) -> CaseResult {
    let n = if ctx.index % 50 == 1 { ctx.rng.usize(1, 400) } else { ctx.rng.usize(1, 8) };
    let longest = if ctx.index % 100 == 3 { 3000 } else { 12 };
    let mut frames: Vec<String> = (0..n).map(|_| unusual_text(&mut ctx.rng, longest)).collect();
    if n > 1 && ctx.rng.chance(1, 4) {
        let k = ctx.rng.usize(1, n - 1);
        frames[k] = frames[k - 1].clone();
    }
    if n > 100 {
        ctx.count("trace of more than a hundred messages");
    }
    ctx.distinct(frames.join("\n").as_bytes());
    ctx.detail(format!("{:?}", frames));
    let mut e = ErrorTrace::new(frames[0].clone());
    for f in frames[1..].iter() {
        e.add_frame(f.clone());
    }
    require_eq!(e.to_string(), frames.join("\n"), "trace:text", "text of the error");
    let numbered: Vec<String> = frames.iter().enumerate().map(|(i, f)| format!("#{} {}", i, f)).collect();
    require_eq!(format!("{}", e), numbered.join("\n"), "trace:display", "display of the error");
    // A mediator counts in its own thread only.
    let values: Vec<bool> = (0..4).map(|_| ctx.rng.chance(1, 2)).collect();
    let barrier = std::sync::Barrier::new(values.len());
    let seen: Vec<(bool, bool)> = std::thread::scope(|scope| {
        let handles: Vec<_> = values
            .iter()
            .map(|v| {
                let barrier = &barrier;
                scope.spawn(move || {
                    let first = Mediator::current().debug_output;
                    barrier.wait();
                    Mediator::new(*v).make_current();
                    barrier.wait();
                    (first, Mediator::current().debug_output)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (v, (first, own)) in values.iter().zip(seen.iter()) {
        require!(!*first, "mediator:default", "debug output is on in a new thread");
        require!(v == own, "mediator:thread", "the mediator of another thread is in effect");
    }
    ctx.count("trace compared");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C15",
            level: "exploration",
            rule: "structures read with debug output on and off, standard output captured and compared with a model; random signature scans with and without debug output; random error traces; mediators set in several threads at once; non-trivial = distinct data or trace",
            assumptions: &["hexdumps and structures are shown the way C13 and C14 demand"],
            sections: vec![
                Section { name: "output", quick: 40_000, thorough: 1_000_000, run: output },
                Section { name: "scan", quick: 15_000, thorough: 400_000, run: same_results },
                Section { name: "traces", quick: 15_000, thorough: 300_000, run: traces },
            ],
            must_observe: &["more than 64 KiB of data printed", "trace of more than a hundred messages", "output compared", "no output without debug output", "scan with debug output", "trace compared"],
            case_cpu_limit: 30,
        },
        Property {
            id: "C13",
            level: "exploration",
            rule: "random and extreme data read through derived structures that use every supported data type, byte order, format, modifier, bit field width, sequence, nested structure and size condition; oracle: an independent sequential reader and formatter; the same integers through the byte conversion macros; non-trivial = distinct data",
            assumptions: &["string fields hold valid text, which C08 and C09 do not assume", "timestamps are shown the way C11 demands"],
            sections: vec![
                Section { name: "layouts", quick: 400_000, thorough: 10_000_000, run: layouts },
                Section { name: "generated", quick: 250_000, thorough: 8_000_000, run: crate::layouts::generated },
                Section { name: "refusals", quick: 1, thorough: 1, run: crate::refusals::refusals },
                Section { name: "ends", quick: 8_000, thorough: 200_000, run: ends },
                Section { name: "integers", quick: 30_000, thorough: 1_000_000, run: integers },
            ],
            must_observe: &["integers shown", "values shown", "sequences shown", "bit fields shown", "groups shown", "layout map refused", "generated structure shown", "generated structure without its last group", "generated structure read at a position", "generated structure past the end refused", "last field shown", "structure read at a position", "structure past the end refused", "integer converted"],
            case_cpu_limit: 30,
        },
        Property {
            id: "C14",
            level: "exploration",
            rule: "random data with repeated rows and every length of last row, grouped and not; arrays of 0 to 80 values, uniform, nearly uniform and mixed; oracle: an independent formatter; non-trivial = distinct data",
            assumptions: &["grouping leaves out rows equal to the last one shown, other than the last whole row"],
            sections: vec![
                Section { name: "hexdump", quick: 240_000, thorough: 6_000_000, run: hexdump },
                Section { name: "arrays", quick: 240_000, thorough: 6_000_000, run: arrays },
            ],
            must_observe: &["row shown", "repeated row left out", "partial row shown", "empty array", "array of several lines", "array of one line", "one value different", "more than 64 KiB of data"],
            case_cpu_limit: 30,
        },
    ]
}
