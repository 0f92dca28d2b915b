//! xz2 whose decoder tells the scheduler before it produces bytes, and what it has written.
pub use real::{bufread, stream, write};
pub mod read {
    pub use real::read::*;
    use std::io::{Read, Result};
    pub struct XzDecoder<R: Read>(real::read::XzDecoder<R>, u64);
    impl<R: Read> XzDecoder<R> {
        pub fn new(r: R) -> Self { XzDecoder(real::read::XzDecoder::new(r), eng::producer()) }
        pub fn new_stream(r: R, s: real::stream::Stream) -> Self { XzDecoder(real::read::XzDecoder::new_stream(r, s), eng::producer()) }
        pub fn into_inner(self) -> R { self.0.into_inner() }
        pub fn get_ref(&self) -> &R { self.0.get_ref() }
    }
    impl<R: Read> Read for XzDecoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
            if !buf.is_empty() { eng::produce_point(); }
            let n = self.0.read(buf)?;
            eng::wrote(self.1, buf.as_ptr(), n);
            Ok(n)
        }
    }
}
