mod checksums;
mod codecs;
mod debug;
mod hashes;
#[cfg(feature = "generated")]
mod layouts;
#[cfg(not(feature = "generated"))]
#[path = "no_layouts.rs"]
mod layouts;
mod refusals;
mod sigscan;
mod streams;
mod text;

fn main() {
    let mut p = vec![streams::property(), checksums::property(), hashes::property(), sigscan::property()];
    p.extend(codecs::properties());
    p.extend(text::properties());
    p.extend(debug::properties());
    mon_common::main_with(p);
}
