pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::time::Duration;
use eng::Id;

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> { id: Id, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, o: u32 }
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { id: Id::lazy(), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let o = self.id.get("mutex");
        eng::lock(o);
        Ok(MutexGuard { m: self, o })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let o = self.id.get("mutex");
        if eng::try_lock(o) { Ok(MutexGuard { m: self, o }) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
    pub fn clear_poison(&self) {}
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Mutex") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { eng::unlock(self.o) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }

// ---------------------------------------------------------------- Condvar

pub struct Condvar { id: Id }
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Self { Condvar { id: Id::lazy() } }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        eng::cond_wait(self.id.get("condvar"), g.o);
        Ok(g)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let o = g.o;
        eng::unlock(o);
        eng::yield_now();
        eng::lock(o);
        Ok((g, WaitTimeoutResult(true)))
    }
    pub fn wait_timeout_ms<'a, T>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        let (g, _) = self.wait_timeout(g, Duration::from_millis(ms as u64)).ok().unwrap();
        Ok((g, false))
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if !f(&mut *g) { return Ok((g, WaitTimeoutResult(false))) }
        (g, _) = self.wait_timeout(g, d).ok().unwrap();
        let t = f(&mut *g);
        Ok((g, WaitTimeoutResult(t)))
    }
    pub fn notify_one(&self) { eng::notify(self.id.get("condvar"), false) }
    pub fn notify_all(&self) { eng::notify(self.id.get("condvar"), true) }
}
impl Default for Condvar { fn default() -> Self { Condvar::new() } }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Condvar") } }

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> { id: Id, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, o: u32 }
pub struct RwLockWriteGuard<'a, T: ?Sized> { l: &'a RwLock<T>, o: u32 }
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { id: Id::lazy(), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.v.into_inner()) }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { let o = self.id.get("rwlock"); eng::rlock(o); Ok(RwLockReadGuard { l: self, o }) }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { let o = self.id.get("rwlock"); eng::wlock(o); Ok(RwLockWriteGuard { l: self, o }) }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let o = self.id.get("rwlock");
        if eng::try_rlock(o) { Ok(RwLockReadGuard { l: self, o }) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let o = self.id.get("rwlock");
        if eng::try_wlock(o) { Ok(RwLockWriteGuard { l: self, o }) } else { Err(TryLockError::WouldBlock) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
    pub fn is_poisoned(&self) -> bool { false }
    pub fn clear_poison(&self) {}
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(v: T) -> Self { RwLock::new(v) } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("RwLock") } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { eng::runlock(self.o) } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { eng::wunlock(self.o) } }

// ---------------------------------------------------------------- OnceLock, LazyLock, Once

pub struct OnceLock<T> { id: Id, v: UnsafeCell<Option<T>> }
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { id: Id::lazy(), v: UnsafeCell::new(None) } }
    fn key(&self) -> usize { self as *const Self as *const () as usize }
    /// the value, if this execution has set it
    fn peek(&self) -> Option<&T> {
        if self.id.is_static() { return eng::static_value::<T>(self.key()).map(|p| unsafe { &*p }) }
        unsafe { (*self.v.get()).as_ref() }
    }
    fn put(&self, v: T) {
        if self.id.is_static() { eng::set_static_value(self.key(), v); } else { unsafe { *self.v.get() = Some(v) } }
    }
    pub fn get(&self) -> Option<&T> {
        let o = self.id.get("once");
        eng::once_get(o);
        self.peek()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        if self.id.is_static() { return eng::static_value::<T>(self.key()).map(|p| unsafe { &mut *p }) }
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let o = self.id.get("once");
        if !eng::once_begin(o) { return Err(v) }
        if self.peek().is_some() { eng::once_done(o, true); return Err(v) }
        self.put(v);
        eng::once_done(o, true);
        Ok(())
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        let o = self.id.get("once");
        if !eng::once_get(o) && eng::once_begin(o) {
            if self.peek().is_none() { let v = f(); self.put(v); }
            eng::once_done(o, true);
        }
        self.peek().unwrap()
    }
    pub fn into_inner(self) -> Option<T> { self.v.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.v.get_mut().take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { OnceLock::new() } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { let c = OnceLock::new(); if let Some(v) = self.peek() { c.put(v.clone()) } c } }
impl<T> From<T> for OnceLock<T> { fn from(v: T) -> Self { let c = OnceLock::new(); c.put(v); c } }
impl<T: PartialEq> PartialEq for OnceLock<T> { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("OnceLock") } }

pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: UnsafeCell<Option<F>> }
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { c: OnceLock::new(), f: UnsafeCell::new(Some(f)) } }
    pub fn force(this: &Self) -> &T {
        this.c.get_or_init(|| unsafe {
            // a static one is forced again by each execution
            if this.c.id.is_static() { ::std::ptr::read((*this.f.get()).as_ref().unwrap())() } else { (*this.f.get()).take().unwrap()() }
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }

impl<T: Default> Default for LazyLock<T> { fn default() -> Self { LazyLock::new(T::default) } }
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("LazyLock") } }

#[derive(Debug)]
pub struct Once { c: OnceLock<()> }
impl Once {
    pub const fn new() -> Self { Once { c: OnceLock::new() } }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.c.get_or_init(f); }
    pub fn is_completed(&self) -> bool { self.c.get().is_some() }
}

#[derive(Debug)]
pub struct Barrier { m: Mutex<(usize, usize)>, c: Condvar, n: usize }
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Self { Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        g.0 += 1;
        if g.0 >= self.n { g.0 = 0; g.1 += 1; self.c.notify_all(); return BarrierWaitResult(true) }
        let gen = g.1;
        drop(self.c.wait_while(g, |s| s.1 == gen).unwrap());
        BarrierWaitResult(false)
    }
}

// ---------------------------------------------------------------- atomics

pub mod atomic {
    pub use ::std::sync::atomic::Ordering;
    use ::std::fmt;
    use eng::{Id, Kind};

    pub fn fence(_o: Ordering) {}
    pub fn compiler_fence(_o: Ordering) {}
    fn acq(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
    fn rel(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }
    fn op(i: &Id, k: Kind, o: Ordering) { if eng::active() { eng::atomic(i.get("atomic"), k, acq(o), rel(o)) } }

    macro_rules! base { ($n:ident $(<$g:ident>)?, $t:ty, $real:ty) => {
        pub struct $n $(<$g>)? { id: Id, v: $real }
        unsafe impl $(<$g>)? Sync for $n $(<$g>)? {}
        unsafe impl $(<$g>)? Send for $n $(<$g>)? {}
        impl $(<$g>)? $n $(<$g>)? {
            pub const fn new(v: $t) -> Self { Self { id: Id::lazy(), v: <$real>::new(v) } }
            pub fn load(&self, o: Ordering) -> $t { op(&self.id, Kind::Load, o); self.v.load(Ordering::SeqCst) }
            pub fn store(&self, v: $t, o: Ordering) { op(&self.id, Kind::Store, o); self.v.store(v, Ordering::SeqCst) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.swap(v, Ordering::SeqCst) }
            pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, _f: Ordering) -> Result<$t, $t> { op(&self.id, Kind::Rmw, o); self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, o, f) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, _f: Ordering, f: F) -> Result<$t, $t> { op(&self.id, Kind::Rmw, o); self.v.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f) }
            pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
            pub fn into_inner(self) -> $t { self.v.into_inner() }
        }
        impl $(<$g>)? fmt::Debug for $n $(<$g>)? { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.v.fmt(f) } }
    } }
    macro_rules! int { ($($n:ident $t:ty),*) => { $(
        base!($n, $t, ::std::sync::atomic::$n);
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_add(v, Ordering::SeqCst) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_sub(v, Ordering::SeqCst) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_max(v, Ordering::SeqCst) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_min(v, Ordering::SeqCst) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_and(v, Ordering::SeqCst) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_or(v, Ordering::SeqCst) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { op(&self.id, Kind::Rmw, o); self.v.fetch_xor(v, Ordering::SeqCst) }
        }
        impl Default for $n { fn default() -> Self { Self::new(0) } }
        impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
    )* } }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    base!(AtomicBool, bool, ::std::sync::atomic::AtomicBool);
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { op(&self.id, Kind::Rmw, o); self.v.fetch_and(v, Ordering::SeqCst) }
        pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { op(&self.id, Kind::Rmw, o); self.v.fetch_nand(v, Ordering::SeqCst) }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { op(&self.id, Kind::Rmw, o); self.v.fetch_or(v, Ordering::SeqCst) }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { op(&self.id, Kind::Rmw, o); self.v.fetch_xor(v, Ordering::SeqCst) }
        pub fn fetch_not(&self, o: Ordering) -> bool { op(&self.id, Kind::Rmw, o); self.v.fetch_xor(true, Ordering::SeqCst) }
    }
    impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
    impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
    base!(AtomicPtr<T>, *mut T, ::std::sync::atomic::AtomicPtr<T>);
    impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::std::ptr::null_mut()) } }
}

// ---------------------------------------------------------------- channels

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use ::std::cell::{Cell, RefCell};
    use ::std::collections::VecDeque;
    use ::std::rc::Rc;
    use ::std::time::Duration;

    struct Chan<T> { r: u32, s: u32, items: RefCell<VecDeque<T>>, tx: Cell<usize>, cap: usize }
    pub struct Sender<T>(Rc<Chan<T>>);
    pub struct SyncSender<T>(Rc<Chan<T>>);
    pub struct Receiver<T>(Rc<Chan<T>>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for SyncSender<T> {}
    unsafe impl<T: Send> Sync for SyncSender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}

    fn make<T>(cap: usize) -> Rc<Chan<T>> {
        let (r, s) = eng::chan(cap.max(1));
        Rc::new(Chan { r, s, items: Default::default(), tx: Cell::new(1), cap })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = make(usize::MAX); (Sender(c.clone()), Receiver(c)) }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = make(n); (SyncSender(c.clone()), Receiver(c)) }
    impl<T> Chan<T> {
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            if !eng::send(self.r, self.s, self.cap != usize::MAX) { return Err(SendError(t)) }
            self.items.borrow_mut().push_back(t);
            Ok(())
        }
        fn gone(&self) { self.tx.set(self.tx.get() - 1); if self.tx.get() == 0 { eng::senders_gone(self.r) } else { eng::sender_gone(self.r) } }
    }
    impl<T> Sender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
    impl<T> SyncSender<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
    impl<T> SyncSender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            eng::yield_now();
            if self.0.items.borrow().len() >= self.0.cap { return Err(TrySendError::Full(t)) }
            self.0.send(t).map_err(|e| TrySendError::Disconnected(e.0))
        }
    }
    impl<T> ::std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { f.write_str("Sender") } }
    impl<T> ::std::fmt::Debug for SyncSender<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { f.write_str("SyncSender") } }
    impl<T> ::std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { f.write_str("Receiver") } }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.tx.set(self.0.tx.get() + 1); Sender(self.0.clone()) } }
    impl<T> Clone for SyncSender<T> { fn clone(&self) -> Self { self.0.tx.set(self.0.tx.get() + 1); SyncSender(self.0.clone()) } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.gone() } }
    impl<T> Drop for SyncSender<T> { fn drop(&mut self) { self.0.gone() } }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            if eng::recv(self.0.r, self.0.s, true) { Ok(self.0.items.borrow_mut().pop_front().unwrap()) } else { Err(RecvError) }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            if eng::recv(self.0.r, self.0.s, false) { Ok(self.0.items.borrow_mut().pop_front().unwrap()) }
            else if eng::disconnected(self.0.r) { Err(TryRecvError::Disconnected) } else { Err(TryRecvError::Empty) }
        }
        pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
            eng::yield_now();
            self.try_recv().map_err(|e| if e == TryRecvError::Empty { RecvTimeoutError::Timeout } else { RecvTimeoutError::Disconnected })
        }
        pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
    }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { eng::receivers_gone(self.0.s); let v = ::std::mem::take(&mut *self.0.items.borrow_mut()); drop(v) } }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
}
