//! Stand-in for the module that is missing from this copy of the repository.
use keramics_core::ErrorTrace;

pub struct LzxpressContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(ErrorTrace::new("lzxpress stand-in".to_string()))
    }
}

pub struct LzxpressHuffmanContext {
    pub uncompressed_data_size: usize,
}

impl LzxpressHuffmanContext {
    pub fn new() -> Self {
        Self { uncompressed_data_size: 0 }
    }
    pub fn decompress(&mut self, _c: &[u8], _u: &mut [u8]) -> Result<(), ErrorTrace> {
        Err(ErrorTrace::new("lzxpress stand-in".to_string()))
    }
}
