//! Writes structures with layout maps of every kind, and a description of each that the monitor
//! reads them by.
use std::fmt::Write;

struct Rng(u64);

impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) % n
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }
}

const COUNT: usize = 220;
/// The first structures are small ones that others contain.
const SMALL: usize = 24;

/// The attribute of a field, its description, its size.
type Field = (String, String, usize);

const INTEGERS: [(&str, usize, bool, [&str; 3]); 8] = [
    ("u", 1, false, ["u8", "uint8", "UnsignedInteger8Bit"]),
    ("u", 2, false, ["u16", "uint16", "UnsignedInteger16Bit"]),
    ("u", 4, false, ["u32", "uint32", "UnsignedInteger32Bit"]),
    ("u", 8, false, ["u64", "uint64", "UnsignedInteger64Bit"]),
    ("i", 1, true, ["i8", "int8", "SignedInteger8Bit"]),
    ("i", 2, true, ["i16", "int16", "SignedInteger16Bit"]),
    ("i", 4, true, ["i32", "int32", "SignedInteger32Bit"]),
    ("i", 8, true, ["i64", "int64", "SignedInteger64Bit"]),
];

fn order_name(rng: &mut Rng, big: bool) -> &'static str {
    if big { *rng.pick(&["big", "be", "BigEndian"]) } else { *rng.pick(&["little", "le", "LittleEndian"]) }
}

fn name(rng: &mut Rng, k: usize) -> String {
    let stem = *rng.pick(&["a", "field", "value", "number_of_things", "r#type", "offset", "size", "s", "unknown", "x1"]);
    format!("{}{}", stem.replace("r#type", "kind"), k)
}

/// A field or sequence; in a group, fields only.
fn field(rng: &mut Rng, k: usize, order: Option<bool>, group: bool, small: &[(usize, usize)]) -> Field {
    let name = name(rng, k);
    let mut big = order.unwrap_or(false);
    let mut options = String::new();
    let own = order.is_none() || rng.chance(1, 3);
    if own {
        big = rng.chance(1, 2);
        write!(options, ", byte_order = \"{}\"", order_name(rng, big)).unwrap();
    }
    let mut sequence = false;
    let count = if group || rng.chance(3, 5) {
        1
    } else if rng.chance(1, 10) {
        sequence = true;
        *rng.pick(&[64usize, 100, 255, 256, 257, 420, 515, 1030, 4100])
    } else {
        sequence = true;
        *rng.pick(&[0usize, 1, 2, 3, 4, 5, 15, 16, 17, 18, 31, 32, 33, 48, 49])
    };
    let kind = rng.below(if small.is_empty() { 17 } else { 19 });
    let (ty, description, size): (String, String, usize);
    let mut format = "Plain";
    let mut modifier = String::from("Keep");
    match kind {
        0..=9 => {
            let (_, n, signed, names) = *rng.pick(&INTEGERS);
            ty = rng.pick(&names).to_string();
            description = format!("Kind::{}({})", if signed { "Signed" } else { "Unsigned" }, n);
            size = n;
            if rng.chance(1, 3) {
                format = "Hexadecimal";
                write!(options, ", format = \"{}\"", rng.pick(&["hex", "Hexadecimal"])).unwrap();
            } else if n == 1 && !signed && rng.chance(1, 3) {
                format = "Character";
                write!(options, ", format = \"{}\"", rng.pick(&["char", "Character"])).unwrap();
            }
            if order.is_none() && n == 1 && rng.chance(1, 2) {
                // one byte needs no order
                options = options.split_once("\"").map_or(String::new(), |o| o.1.split_once("\"").map_or(String::new(), |o| o.1.to_string()));
            }
            if count == 1 && signed && rng.chance(1, 4) {
                let v = 1 + rng.below(100);
                let (text, d) = match rng.below(3) {
                    0 => (format!(".wrapping_add({v})"), format!("Add({v})")),
                    1 => (format!(".wrapping_sub({v})"), format!("Subtract({v})")),
                    _ => (format!("^ {v}"), format!("Xor({v})")),
                };
                write!(options, ", modifier = \"{}\"", text).unwrap();
                modifier = format!("Modifier::{}", d);
            }
            if count == 1 && !signed && rng.chance(1, 4) {
                let v = 1 + rng.below(100);
                let (text, d) = match rng.below(6) {
                    0 => (format!(".wrapping_add({v})"), format!("Add({v})")),
                    1 => (format!(".wrapping_sub({v})"), format!("Subtract({v})")),
                    2 => (format!("^ {v}"), format!("Xor({v})")),
                    3 => (format!("& {v}"), format!("And({v})")),
                    4 => (format!("/ {v}"), format!("Divide({v})")),
                    _ => (String::from(">> 3"), String::from("Divide(8)")),
                };
                write!(options, ", modifier = \"{}\"", text).unwrap();
                modifier = format!("Modifier::{}", d);
            }
        }
        10 => (ty, description, size) = ((*rng.pick(&["Uuid", "uuid"])).into(), "Kind::Uuid".into(), 16),
        11 => (ty, description, size) = ("FatDate".into(), "Kind::FatDate".into(), 2),
        12 => (ty, description, size) = ("FatTimeDate".into(), "Kind::FatTimeDate".into(), 4),
        13 => (ty, description, size) = ("FatTimeDate10Ms".into(), "Kind::FatTimeDate10Ms".into(), 5),
        14 => (ty, description, size) = ("Filetime".into(), "Kind::Filetime".into(), 8),
        15 => (ty, description, size) = ("PosixTime32".into(), "Kind::PosixTime32".into(), 4),
        16 if group => (ty, description, size) = ("u8".into(), "Kind::Unsigned(1)".into(), 1),
        16 => {
            let n = *rng.pick(&[1usize, 2, 3, 8, 11, 16, 36, 64, 127, 260]);
            let (t, d, unit) = *rng.pick(&[("ByteString", "Bytes", 1), ("Ucs2String", "Wide", 2), ("Utf16String", "Wide", 2)]);
            // the units are part of the kind
            return (
                format!("field(name = \"{name}\", data_type = \"{t}<{n}>\"{options})"),
                format!("Field {{ name: \"{name}\", kind: Kind::{d}({n}), count: 1, big: {big}, format: Format::Plain, modifier: Modifier::Keep }}"),
                n * unit,
            );
        }
        _ => {
            let (index, n) = *rng.pick(small);
            let ty_name = match rng.below(3) {
                0 => format!("Struct<G{index}; {n}>"),
                1 => format!("Struct<G{index};{n}>"),
                _ => format!("Struct< G{index} ; {n} >"),
            };
            (ty, description, size) = (ty_name, format!("Kind::Nested({index}, {n})"), n);
        }
    }
    if modifier == "Keep" {
        modifier = "Modifier::Keep".into();
    }
    let ty = if !sequence { ty } else if rng.chance(1, 4) { format!("[{ty};{count}]") } else { format!("[{ty}; {count}]") };
    (
        format!("field(name = \"{name}\", data_type = \"{ty}\"{options})"),
        format!("Field {{ name: \"{name}\", kind: {description}, count: {count}, big: {big}, format: Format::{format}, modifier: {modifier} }}"),
        size * count,
    )
}

fn bits(rng: &mut Rng, k: &mut usize, order: Option<bool>) -> (Vec<String>, String, usize) {
    let bytes = *rng.pick(&[1usize, 2, 4, 8]);
    let mut big = order.unwrap_or(false);
    let mut left = bytes as u64 * 8;
    let mut fields = Vec::new();
    let mut description = String::new();
    while left > 0 {
        let n = match rng.below(4) {
            0 if rng.chance(1, 2) => left,
            0 => left.div_ceil(2).max(left - 1),
            1 => 1,
            _ => 1 + rng.below(left),
        };
        let name = name(rng, *k);
        *k += 1;
        let mut options = String::new();
        if fields.is_empty() && (order.is_none() || rng.chance(1, 3)) {
            big = rng.chance(1, 2);
            write!(options, ", byte_order = \"{}\"", order_name(rng, big)).unwrap();
        }
        let hexadecimal = rng.chance(1, 3);
        if hexadecimal {
            write!(options, ", format = \"{}\"", rng.pick(&["hex", "Hexadecimal"])).unwrap();
        }
        let mut modifier = String::from("Modifier::Keep");
        if rng.chance(1, 4) && n < bytes as u64 * 8 {
            let (text, d) = match rng.below(5) {
                0 => ("+ 1".to_string(), "Add(1)".to_string()),
                1 => ("* 2".to_string(), "Multiply(2)".to_string()),
                2 => ("^ 3".to_string(), "Xor(3)".to_string()),
                3 => ("/ 3".to_string(), "Divide(3)".to_string()),
                _ if hexadecimal => ("| 4".to_string(), "Or(4)".to_string()),
                _ => ("as i64 - 7".to_string(), "Below(7)".to_string()),
            };
            write!(options, ", modifier = \"{}\"", text).unwrap();
            modifier = format!("Modifier::{}", d);
        }
        fields.push(format!("field(name = \"{name}\", data_type = \"BitField{}<{n}>\"{options})", bytes * 8));
        write!(description, "Bit {{ name: \"{name}\", bits: {n}, hexadecimal: {hexadecimal}, modifier: {modifier} }}, ").unwrap();
        left -= n;
    }
    (fields, format!("Member::Bits {{ size: {bytes}, big: {big}, fields: &[{description}] }}"), bytes)
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut rng = Rng(20260519);
    let mut code = String::new();
    let mut table = String::new();
    let mut small: Vec<(usize, usize)> = Vec::new();
    for index in 0..COUNT {
        let big = if rng.chance(1, 8) { None } else { Some(rng.chance(1, 2)) };
        let with_groups = index % 4 == 3;
        let members = if index < SMALL { 1 + rng.below(3) } else { 1 + rng.below(9) };
        let mut attributes: Vec<String> = Vec::new();
        let mut descriptions: Vec<String> = Vec::new();
        let mut size = 0;
        let mut k = 0;
        for _ in 0..members {
            if with_groups && rng.chance(1, 2) {
                let mut fields = Vec::new();
                let mut d = String::new();
                let start = size;
                for _ in 0..1 + if rng.chance(1, 3) { rng.below(20) } else { rng.below(4) } {
                    let f = field(&mut rng, k, big, true, &small);
                    k += 1;
                    fields.push(f.0);
                    write!(d, "{}, ", f.1).unwrap();
                    size += f.2;
                }
                let (condition, limit) = match rng.below(7) {
                    5 => ("==", size),
                    6 => ("<=", size + 1),
                    0 => (">=", size),
                    1 => (">", start.max(1)),
                    2 => ("!=", start),
                    3 => ("<", size + 3),
                    _ => (">", size - 1),
                };
                attributes.push(format!("member(group(size_condition = \"{condition} {limit}\", {}))", fields.join(", ")));
                descriptions.push(format!("Member::Group {{ condition: \"{condition}\", limit: {limit}, fields: &[{d}] }}"));
            } else if !with_groups && rng.chance(1, 4) {
                let (f, d, n) = bits(&mut rng, &mut k, big);
                attributes.extend(f);
                descriptions.push(d);
                size += n;
            } else {
                let f = field(&mut rng, k, big, false, if index < SMALL { &[] } else { &small });
                k += 1;
                attributes.push(if with_groups { format!("member({})", f.0) } else { f.0 });
                descriptions.push(format!("Member::Plain({})", f.1));
                size += f.2;
            }
        }
        let order = big.map_or(String::new(), |big| format!("byte_order = \"{}\", ", order_name(&mut rng, big)));
        writeln!(
            code,
            "#[derive(LayoutMap)]\n#[layout_map(structure({order}{}), method(name = \"debug_read_data\"), method(name = \"read_at_position\"))]\npub struct G{index} {{ pub read: Vec<u8> }}\nimpl G{index} {{ fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {{ self.read = data.to_vec(); Ok(()) }} }}",
            attributes.join(", ")
        )
        .unwrap();
        writeln!(
            table,
            "Layout {{ name: \"G{index}\", size: {size}, members: &[{}], show: G{index}::debug_read_data, read: |s, p| {{ let mut g = G{index} {{ read: Vec::new() }}; g.read_at_position(s, p).map(|_| g.read) }} }},",
            descriptions.join(", ")
        )
        .unwrap();
        if index < SMALL && size <= 40 {
            small.push((index, size));
        }
    }
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("layouts.rs");
    std::fs::write(out, format!("{code}\npub static LAYOUTS: [Layout; {COUNT}] = [\n{table}];\n")).unwrap();
}
