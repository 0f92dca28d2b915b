//! What is dropped out is dropped at once.
pub struct Dropper<T: Send>(std::marker::PhantomData<fn(T)>);
impl<T: Send + 'static> Dropper<T> {
    pub fn new() -> Self { Self(std::marker::PhantomData) }
    pub fn dropout(&self, t: T) { drop(t) }
}
impl<T: Send + 'static> Default for Dropper<T> { fn default() -> Self { Self::new() } }
impl<T: Send + 'static> Clone for Dropper<T> { fn clone(&self) -> Self { Self::new() } }
