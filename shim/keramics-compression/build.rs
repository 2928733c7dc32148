//! Generates a crate root for the real keramics-compression sources in /repo.
//!
//! The repository copy under study lacks keramics-compression/src/lzxpress.rs, which its lib.rs
//! declares.  Every module that exists in /repo is compiled from there; one that is missing is
//! taken from stub/.
use std::path::Path;
use std::{env, fs};

fn main() {
    let root = "/repo/keramics-compression/src";
    let text = fs::read_to_string(format!("{root}/lib.rs")).expect("lib.rs");
    println!("cargo:rerun-if-changed={root}");
    let stub = format!("{}/stub", env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed={stub}");
    let mut out = String::new();
    for line in text.lines() {
        let trimmed = line.trim();
        let rest = trimmed.strip_prefix("pub ").unwrap_or(trimmed);
        if let Some(name) = rest.strip_prefix("mod ").and_then(|r| r.strip_suffix(';')) {
            let mut path = format!("{root}/{name}.rs");
            if !Path::new(&path).exists() && Path::new(&format!("{root}/{name}/mod.rs")).exists() {
                path = format!("{root}/{name}/mod.rs");
            }
            if !Path::new(&path).exists() {
                path = format!("{stub}/{name}.rs");
            }
            out.push_str(&format!("#[path = \"{path}\"]\n"));
        }
        out.push_str(line);
        out.push('\n');
    }
    let target = format!("{}/root.rs", env::var("OUT_DIR").unwrap());
    fs::write(target, out).unwrap();
}
