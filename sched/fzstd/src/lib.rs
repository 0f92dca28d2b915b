//! zstd whose decoders tell the scheduler before they produce bytes, and what they have written.
pub use real::*;
pub mod stream {
    pub use real::stream::*;
    pub mod read { pub use real::stream::read::*; pub use crate::Decoder; }
    pub use crate::Decoder;
}
use std::io::{BufRead, BufReader, Read, Result};
use std::ops::{Deref, DerefMut};

pub struct Decoder<'a, R: BufRead>(real::stream::read::Decoder<'a, R>, u64);
impl<R: Read> Decoder<'static, BufReader<R>> {
    pub fn new(r: R) -> Result<Self> { Ok(Decoder(real::stream::read::Decoder::new(r)?, eng::producer())) }
}
impl<R: BufRead> Decoder<'static, R> {
    pub fn with_buffer(r: R) -> Result<Self> { Ok(Decoder(real::stream::read::Decoder::with_buffer(r)?, eng::producer())) }
}
impl<'a, R: BufRead> Decoder<'a, R> {
    pub fn single_frame(self) -> Self { Decoder(self.0.single_frame(), self.1) }
    pub fn finish(self) -> R { self.0.finish() }
}
impl<'a, R: BufRead> Deref for Decoder<'a, R> { type Target = real::stream::read::Decoder<'a, R>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<R: BufRead> DerefMut for Decoder<'_, R> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<R: BufRead> Read for Decoder<'_, R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if !buf.is_empty() { eng::produce_point(); }
        let n = self.0.read(buf)?;
        eng::wrote(self.1, buf.as_ptr(), n);
        Ok(n)
    }
}
