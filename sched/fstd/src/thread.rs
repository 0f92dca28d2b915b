pub use ::std::thread::{AccessError, Result};
use ::std::cell::RefCell;
use ::std::io;
use ::std::num::NonZeroUsize;
use ::std::rc::Rc;
use ::std::time::Duration;

pub fn available_parallelism() -> io::Result<NonZeroUsize> { Ok(NonZeroUsize::new(eng::parallelism()).unwrap()) }
pub fn sleep(_d: Duration) { eng::yield_now() }
pub fn yield_now() { eng::yield_now() }
pub fn panicking() -> bool { ::std::thread::panicking() }
pub fn park() { eng::park() }
pub fn park_timeout(_d: Duration) { eng::yield_now() }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);
#[derive(Clone, Debug)]
pub struct Thread { id: usize, name: Option<String> }
impl Thread {
    pub fn id(&self) -> ThreadId { ThreadId(self.id) }
    pub fn name(&self) -> Option<&str> { self.name.as_deref() }
    pub fn unpark(&self) { eng::unpark(self.id) }
}
pub fn current() -> Thread { Thread { id: if eng::active() { eng::me() } else { 0 }, name: None } }

type Slot<T> = Rc<RefCell<Option<T>>>;
pub struct JoinHandle<T> { t: Thread, slot: Slot<T> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        eng::join(self.t.id);
        // a thread that panics ends the execution
        Ok(self.slot.borrow_mut().take().unwrap())
    }
    pub fn thread(&self) -> &Thread { &self.t }
    pub fn is_finished(&self) -> bool { eng::yield_now(); eng::finished(self.t.id) }
}

impl<T> ::std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { f.write_str("JoinHandle") } }

#[derive(Debug, Default)]
pub struct Builder { name: Option<String> }
impl Builder {
    pub fn new() -> Self { Self::default() }
    pub fn name(mut self, n: String) -> Self { self.name = Some(n); self }
    pub fn stack_size(self, _n: usize) -> Self { self }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> io::Result<JoinHandle<T>> {
        let slot: Slot<T> = Default::default();
        let s = slot.clone();
        let id = eng::spawn(self.name.clone().unwrap_or_else(|| "thread".into()), move || { let r = f(); *s.borrow_mut() = Some(r); });
        Ok(JoinHandle { t: Thread { id, name: self.name }, slot })
    }
    pub fn spawn_scoped<'s, 'e, F: FnOnce() -> T + Send + 's, T: Send + 's>(self, sc: &'s Scope<'s, 'e>, f: F) -> io::Result<ScopedJoinHandle<'s, T>> { Ok(sc.spawn(f)) }
}
pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> { Builder::new().spawn(f).unwrap() }

pub struct Scope<'s, 'e: 's> { ids: RefCell<Vec<usize>>, m: ::std::marker::PhantomData<(&'s mut &'s (), &'e mut &'e ())> }
pub struct ScopedJoinHandle<'s, T> { t: Thread, slot: Slot<T>, m: ::std::marker::PhantomData<&'s ()> }
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> { eng::join(self.t.id); Ok(self.slot.borrow_mut().take().unwrap()) }
    pub fn thread(&self) -> &Thread { &self.t }
    pub fn is_finished(&self) -> bool { eng::yield_now(); eng::finished(self.t.id) }
}
unsafe impl Sync for Scope<'_, '_> {}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
impl<'s, 'e> Scope<'s, 'e> {
    pub fn spawn<F: FnOnce() -> T + Send + 's, T: Send + 's>(&'s self, f: F) -> ScopedJoinHandle<'s, T> {
        let slot: Slot<T> = Default::default();
        let s = slot.clone();
        let g: Box<dyn FnOnce() + 's> = Box::new(move || { let r = f(); *s.borrow_mut() = Some(r); });
        let g: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(g) };
        let id = eng::spawn("scoped thread".into(), g);
        self.ids.borrow_mut().push(id);
        ScopedJoinHandle { t: Thread { id, name: None }, slot, m: ::std::marker::PhantomData }
    }
}
pub fn scope<'e, F, T>(f: F) -> T where F: for<'s> FnOnce(&'s Scope<'s, 'e>) -> T {
    let s = Scope { ids: Default::default(), m: ::std::marker::PhantomData };
    let r = f(unsafe { &*(&s as *const Scope) });
    for id in s.ids.take() { eng::join(id) }
    r
}

pub struct LocalKey<T: 'static> { init: fn() -> T, z: u8 }
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self { LocalKey { init, z: 0 } }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let p = eng::tls_value(&self.z as *const u8 as usize, self.init);
        f(unsafe { &*p })
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> ::std::result::Result<R, AccessError> { Ok(self.with(f)) }
}
impl<T: 'static> LocalKey<::std::cell::Cell<T>> {
    pub fn set(&'static self, v: T) { self.with(|c| c.set(v)) }
    pub fn get(&'static self) -> T where T: Copy { self.with(|c| c.get()) }
    pub fn take(&'static self) -> T where T: Default { self.with(|c| c.take()) }
    pub fn replace(&'static self, v: T) -> T { self.with(|c| c.replace(v)) }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { self.with(|c| f(&c.borrow())) }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R { self.with(|c| f(&mut c.borrow_mut())) }
}
