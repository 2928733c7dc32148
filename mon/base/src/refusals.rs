//! C13: layout maps that say something impossible do not compile, and what comes closest to them
//! does.
use std::path::{Path, PathBuf};
use std::process::Command;

use mon_common::*;

/// What is wrong, the layout map, one that is right. `S {}` is a structure of one byte.
const LAYOUTS: &[(&str, &str, &str)] = &[
    ("integer type", "field(name = \"a\", data_type = \"u24\")", "field(name = \"a\", data_type = \"u32\")"),
    ("type of nothing", "field(name = \"a\")", "field(name = \"a\", data_type = \"u8\")"),
    ("order of a structure", "byte_order = \"middle\", field(name = \"a\", data_type = \"u16\")", "byte_order = \"big\", field(name = \"a\", data_type = \"u16\")"),
    ("order of a field", "field(name = \"a\", data_type = \"u16\", byte_order = \"bg\")", "field(name = \"a\", data_type = \"u16\", byte_order = \"be\")"),
    ("order of an array", "field(name = \"a\", data_type = \"[u16; 2]\", byte_order = \"bg\")", "field(name = \"a\", data_type = \"[u16; 2]\", byte_order = \"be\")"),
    ("order of bits", "field(name = \"a\", data_type = \"BitField16<16>\", byte_order = \"bg\")", "field(name = \"a\", data_type = \"BitField16<16>\", byte_order = \"be\")"),
    ("format of a field", "field(name = \"a\", data_type = \"u16\", format = \"octal\")", "field(name = \"a\", data_type = \"u16\", format = \"hex\")"),
    ("format of an array", "field(name = \"a\", data_type = \"[u16; 3]\", format = \"octal\")", "field(name = \"a\", data_type = \"[u16; 3]\", format = \"hex\")"),
    ("format of bits", "field(name = \"a\", data_type = \"BitField8<8>\", format = \"octal\")", "field(name = \"a\", data_type = \"BitField8<8>\", format = \"hex\")"),
    ("number of values", "field(name = \"a\", data_type = \"[u8; x]\")", "field(name = \"a\", data_type = \"[u8; 7]\")"),
    ("negative number of values", "field(name = \"a\", data_type = \"[u8; -1]\")", "field(name = \"a\", data_type = \"[u8; 1]\")"),
    ("number of bits", "field(name = \"a\", data_type = \"BitField8<x>\")", "field(name = \"a\", data_type = \"BitField8<8>\")"),
    ("size of a string", "field(name = \"a\", data_type = \"ByteString<x>\")", "field(name = \"a\", data_type = \"ByteString<8>\")"),
    ("size of a wide string", "field(name = \"a\", data_type = \"Utf16String<1.5>\")", "field(name = \"a\", data_type = \"Utf16String<1>\")"),
    ("size of a structure", "field(name = \"a\", data_type = \"Struct<S; x>\")", "field(name = \"a\", data_type = \"Struct<S; 1>\")"),
    ("name of a field", "field(name = \"\", data_type = \"u8\")", "field(name = \"a\", data_type = \"u8\")"),
    ("name of an array", "field(data_type = \"[u8; 2]\")", "field(name = \"a\", data_type = \"[u8; 2]\")"),
    ("name of bits", "field(data_type = \"BitField8<8>\")", "field(name = \"a\", data_type = \"BitField8<8>\")"),
    ("name in a group", "member(field(name = \"a\", data_type = \"u8\")), member(group(size_condition = \"> 1\", field(data_type = \"u8\")))", "member(field(name = \"a\", data_type = \"u8\")), member(group(size_condition = \"> 1\", field(name = \"b\", data_type = \"u8\")))"),
    ("modifier of an array", "field(name = \"a\", data_type = \"[u8; 2]\", modifier = \"/ 2\")", "field(name = \"a\", data_type = \"u8\", modifier = \"/ 2\")"),
    ("modifier of a string", "field(name = \"a\", data_type = \"ByteString<2>\", modifier = \"/ 2\")", "field(name = \"a\", data_type = \"u8\", modifier = \"/ 2\")"),
    ("too few bits", "field(name = \"a\", data_type = \"BitField8<3>\"), field(name = \"b\", data_type = \"BitField8<4>\")", "field(name = \"a\", data_type = \"BitField8<3>\"), field(name = \"b\", data_type = \"BitField8<5>\")"),
    ("too many bits", "field(name = \"a\", data_type = \"BitField16<3>\"), field(name = \"b\", data_type = \"BitField16<14>\")", "field(name = \"a\", data_type = \"BitField16<3>\"), field(name = \"b\", data_type = \"BitField16<13>\")"),
    ("too many bits at once", "field(name = \"a\", data_type = \"BitField32<33>\")", "field(name = \"a\", data_type = \"BitField32<32>\")"),
    ("bits of another size", "field(name = \"a\", data_type = \"BitField32<16>\"), field(name = \"b\", data_type = \"BitField16<16>\")", "field(name = \"a\", data_type = \"BitField32<16>\"), field(name = \"b\", data_type = \"BitField32<16>\")"),
    ("field between bits", "field(name = \"a\", data_type = \"BitField16<8>\"), field(name = \"b\", data_type = \"u8\"), field(name = \"c\", data_type = \"BitField16<8>\")", "field(name = \"a\", data_type = \"BitField16<8>\"), field(name = \"c\", data_type = \"BitField16<8>\"), field(name = \"b\", data_type = \"u8\")"),
    ("bits as a member", "member(field(name = \"a\", data_type = \"BitField8<8>\"))", "member(field(name = \"a\", data_type = \"u8\"))"),
    ("bits in a group", "member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"BitField8<8>\")))", "member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"u8\")))"),
    ("fields and members", "field(name = \"a\", data_type = \"u8\"), member(field(name = \"b\", data_type = \"u8\"))", "member(field(name = \"a\", data_type = \"u8\")), member(field(name = \"b\", data_type = \"u8\"))"),
    ("group of nothing", "member(group(size_condition = \"> 0\"))", "member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"u8\")))"),
    ("group for no reason", "member(group(field(name = \"a\", data_type = \"u8\")))", "member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"u8\")))"),
    ("condition", "member(group(size_condition = \"> (\", field(name = \"a\", data_type = \"u8\")))", "member(group(size_condition = \"> (0)\", field(name = \"a\", data_type = \"u8\")))"),
    ("modifier", "field(name = \"a\", data_type = \"u8\", modifier = \"/ (\")", "field(name = \"a\", data_type = \"u8\", modifier = \"/ (2)\")"),
    ("option", "field(name = \"a\", data_type = \"u8\", colour = \"red\")", "field(name = \"a\", data_type = \"u8\", format = \"char\")"),
    ("no order of a field", "!field(name = \"a\", data_type = \"u16\")", "!field(name = \"a\", data_type = \"u16\", byte_order = \"le\")"),
    ("no order of an array", "!field(name = \"a\", data_type = \"[u32; 2]\")", "!field(name = \"a\", data_type = \"[u32; 2]\", byte_order = \"le\")"),
    ("no order of bits", "!field(name = \"a\", data_type = \"BitField16<16>\")", "!field(name = \"a\", data_type = \"BitField16<16>\", byte_order = \"le\")"),
    ("no order in a group", "!member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"i64\")))", "!member(group(size_condition = \"> 0\", field(name = \"a\", data_type = \"i8\")))"),
    ("method", "field(name = \"a\", data_type = \"u8\")), method(name = \"write_data\"", "field(name = \"a\", data_type = \"u8\")), method(name = \"read_at_position\""),
    ("bitmap and structure", "field(name = \"a\", data_type = \"u8\")), bitmap(bit_order = \"msb\", data_type = \"u8\"", "field(name = \"a\", data_type = \"u8\")), method(name = \"read_at_position\""),
];

fn program(layout: &str) -> String {
    let (order, layout) = match layout.strip_prefix('!') {
        Some(l) => ("", l),
        None if layout.starts_with("byte_order") => ("", layout),
        None => ("byte_order = \"little\", ", layout),
    };
    format!(
        "#![allow(dead_code)]
mod m {{
use keramics_core::ErrorTrace;
use keramics_layout_map::LayoutMap;
#[derive(LayoutMap)]
#[layout_map(structure(byte_order = \"big\", field(name = \"a\", data_type = \"u8\")), method(name = \"debug_read_data\"))]
struct S {{}}
#[derive(LayoutMap)]
#[layout_map(structure({order}{layout}), method(name = \"debug_read_data\"))]
struct T {{}}
impl T {{ fn read_data(&mut self, _: &[u8]) -> Result<(), ErrorTrace> {{ Ok(()) }} }}
}}
fn main() {{}}
"
    )
}

fn write(path: &Path, text: &str) -> Result<(), Violation> {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::read_to_string(path).is_ok_and(|t| t == text) {
        return Ok(());
    }
    std::fs::write(path, text).map_err(|e| violation("layout:harness", format!("{}: {e}", path.display())))
}

pub fn refusals(ctx: &mut Ctx) -> CaseResult {
    let exe = std::env::current_exe().unwrap_or_default();
    let Some(target): Option<PathBuf> = exe.parent().and_then(|p| p.parent()).map(|p| p.to_path_buf()) else {
        return Ok(());
    };
    let dir = target.join("refusals");
    let manifest = include_str!("../Cargo.toml");
    let mut toml = String::from("[package]\nname = \"refusals\"\nversion = \"0.1.0\"\nedition = \"2024\"\nautobins = false\n\n[workspace]\n\n[dependencies]\n");
    for c in ["core", "datetime", "layout-map", "types"] {
        let line = manifest.lines().find(|l| l.starts_with(&format!("keramics-{c} "))).unwrap_or("");
        toml.push_str(&format!("{line}\n"));
    }
    let profile = &manifest[manifest.find("[profile.release]").unwrap_or(manifest.len())..];
    for (i, (_, wrong, right)) in LAYOUTS.iter().enumerate() {
        for (kind, layout) in [("wrong", wrong), ("right", right)] {
            write(&dir.join(format!("src/{kind}{i}.rs")), &program(layout))?;
            toml.push_str(&format!("\n[[bin]]\nname = \"{kind}{i}\"\npath = \"src/{kind}{i}.rs\"\n"));
        }
    }
    toml.push_str(&format!("\n{profile}"));
    write(&dir.join("Cargo.toml"), &toml)?;
    let lock = concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.lock");
    if let Ok(l) = std::fs::read_to_string(lock) {
        let _ = std::fs::write(dir.join("Cargo.lock"), l);
    }
    let out = Command::new("cargo")
        .args(["check", "--offline", "--release", "--keep-going", "--bins", "--message-format=json", "--target-dir"])
        .arg(&target)
        .current_dir(&dir)
        .env("RUSTFLAGS", "-Awarnings")
        .output()
        .map_err(|e| violation("layout:harness", format!("cargo: {e}")))?;
    let text = String::from_utf8_lossy(&out.stdout);
    let built = |name: &str| text.lines().any(|l| l.contains("\"reason\":\"compiler-artifact\"") && l.contains(&format!("\"name\":\"{name}\"")));
    ctx.detail(String::from_utf8_lossy(&out.stderr).chars().take(4000).collect::<String>());
    if !(0..LAYOUTS.len()).any(|i| built(&format!("right{i}"))) {
        // cargo itself fails
        return Ok(());
    }
    for (i, (what, wrong, right)) in LAYOUTS.iter().enumerate() {
        require!(built(&format!("right{i}")), "layout:compiles", "the layout map {right:?} does not compile");
        ctx.count("layout map compiled");
        require!(!built(&format!("wrong{i}")), "layout:compiled", "the layout map {wrong:?} compiles ({what})");
        ctx.distinct(wrong.as_bytes());
        ctx.count("layout map refused");
    }
    Ok(())
}
