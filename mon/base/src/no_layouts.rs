//! Stands in for the structures of build.rs where they do not build.
use std::io::SeekFrom;

use keramics_core::{DataStreamReference, ErrorTrace};
use mon_common::*;

pub struct Layout {
    pub name: &'static str,
    pub size: usize,
    pub read: fn(&DataStreamReference, SeekFrom) -> Result<Vec<u8>, ErrorTrace>,
}

impl Layout {
    pub fn expected(&self, _: &[u8]) -> String {
        String::new()
    }
}

pub fn data(_: &mut Rng, _: &Layout) -> Vec<u8> {
    Vec::new()
}

pub fn some(_: &mut Rng) -> Option<&'static Layout> {
    None
}

pub fn generated(_: &mut Ctx) -> CaseResult {
    Ok(())
}
