//! `spmc` channels under the controlled scheduler.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

struct Chan<T> { r: u32, s: u32, items: RefCell<VecDeque<T>>, rx: Cell<usize> }
pub struct Sender<T: Send>(Rc<Chan<T>>);
pub struct Receiver<T: Send>(Rc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("SendError") } }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError { Empty, Disconnected }

pub fn channel<T: Send>() -> (Sender<T>, Receiver<T>) {
    let (r, s) = eng::chan(usize::MAX);
    let c = Rc::new(Chan { r, s, items: Default::default(), rx: Cell::new(1) });
    (Sender(c.clone()), Receiver(c))
}
impl<T: Send> Sender<T> {
    pub fn send(&mut self, t: T) -> Result<(), SendError<T>> {
        if !eng::send(self.0.r, self.0.s, false) { return Err(SendError(t)) }
        self.0.items.borrow_mut().push_back(t);
        Ok(())
    }
}
impl<T: Send> Drop for Sender<T> { fn drop(&mut self) { eng::senders_gone(self.0.r) } }
impl<T: Send> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        if eng::recv(self.0.r, self.0.s, true) { Ok(self.0.items.borrow_mut().pop_front().unwrap()) } else { Err(RecvError) }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if eng::recv(self.0.r, self.0.s, false) { Ok(self.0.items.borrow_mut().pop_front().unwrap()) }
        else if eng::disconnected(self.0.r) { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
    }
}
impl<T: Send> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.rx.set(self.0.rx.get() + 1); Receiver(self.0.clone()) } }
impl<T: Send> Drop for Receiver<T> {
    fn drop(&mut self) { self.0.rx.set(self.0.rx.get() - 1); if self.0.rx.get() == 0 { eng::receivers_gone(self.0.s) } }
}
