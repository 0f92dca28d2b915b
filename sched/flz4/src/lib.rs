//! lz4 whose decoder tells the scheduler before it produces bytes, and what it has written.
pub use real::*;
use std::io::{Read, Result};

pub struct Decoder<R>(real::Decoder<R>, u64);
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Result<Self> { Ok(Decoder(real::Decoder::new(r)?, eng::producer())) }
    pub fn reader(&self) -> &R { self.0.reader() }
    pub fn finish(self) -> (R, Result<()>) { self.0.finish() }
}
impl<R: Read> Read for Decoder<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if !buf.is_empty() { eng::produce_point(); }
        let n = self.0.read(buf)?;
        eng::wrote(self.1, buf.as_ptr(), n);
        Ok(n)
    }
}
