//! The part of rayon that the library uses, under the controlled scheduler. Parallel iterators are sequential.
use std::cell::RefCell;

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("pool") } }
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Default)]
pub struct ThreadPoolBuilder { n: usize }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self { self }
    pub fn stack_size(self, _n: usize) -> Self { self }
    pub fn breadth_first(self) -> Self { self }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self { self }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self { self }
    pub fn use_current_thread(self) -> Self { self }
    pub fn panic_handler<H: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self { self }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { eng::parallelism() } else { self.n };
        Ok(ThreadPool { p: eng::pool(n), n, jobs: RefCell::new(0) })
    }
}
pub struct ThreadPool { p: eng::Pool, n: usize, jobs: RefCell<usize> }
unsafe impl Send for ThreadPool {}
unsafe impl Sync for ThreadPool {}
impl std::fmt::Debug for ThreadPool { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("ThreadPool") } }
impl ThreadPool {
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        *self.jobs.borrow_mut() += 1;
        let k = *self.jobs.borrow();
        // a panic in a job of the pool is the end of the process
        self.p.spawn(format!("pool job {k}"), f);
    }
    pub fn spawn_fifo<F: FnOnce() + Send + 'static>(&self, f: F) { self.spawn(f) }
    pub fn install<R: Send, F: FnOnce() -> R + Send>(&self, f: F) -> R { f() }
    pub fn current_num_threads(&self) -> usize { self.n }
    pub fn current_thread_index(&self) -> Option<usize> { None }
    pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(&self, a: A, b: B) -> (RA, RB) { (a(), b()) }
    pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(&self, f: F) -> R { scope(f) }
    pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(&self, f: F) -> R { scope(f) }
}
pub fn current_num_threads() -> usize { eng::parallelism() }
pub fn current_thread_index() -> Option<usize> { None }
/// the jobs of the global pool are threads
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { eng::spawn("global pool job".into(), f); }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { spawn(f) }
/// the jobs of a scope are threads that the scope joins
pub struct Scope<'s> { ids: RefCell<Vec<usize>>, m: std::marker::PhantomData<fn(&'s ())> }
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
struct P(*const ());
unsafe impl Send for P {}
impl P { fn get(&self) -> *const () { self.0 } }
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        let me = P(self as *const Self as *const ());
        let g: Box<dyn FnOnce() + 's> = Box::new(move || f(unsafe { &*(me.get() as *const Scope<'s>) }));
        let g: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(g) };
        let id = eng::spawn("scoped job".into(), g);
        self.ids.borrow_mut().push(id);
    }
    pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) { self.spawn(f) }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope { ids: Default::default(), m: std::marker::PhantomData };
    let r = f(&s);
    loop { let Some(id) = s.ids.borrow_mut().pop() else { break }; eng::join(id) }
    r
}
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R { scope(f) }
pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) { (a(), b()) }

pub mod slice {
    use crate::iter::Par;
    pub trait ParallelSliceMut<T> {
        fn s(&mut self) -> &mut [T];
        fn par_sort(&mut self) where T: Ord { self.s().sort() }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.s().sort_by(f) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { self.s().sort_by_key(f) }
        fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { self.s().sort_by_cached_key(f) }
        fn par_sort_unstable(&mut self) where T: Ord { self.s().sort_unstable() }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.s().sort_unstable_by(f) }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { self.s().sort_unstable_by_key(f) }
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> { Par(self.s().chunks_mut(n)) }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>> { Par(self.s().chunks_exact_mut(n)) }
    }
    impl<T> ParallelSliceMut<T> for [T] { fn s(&mut self) -> &mut [T] { self } }
    pub trait ParallelSlice<T> {
        fn r(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> { Par(self.r().chunks(n)) }
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> { Par(self.r().chunks_exact(n)) }
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> { Par(self.r().windows(n)) }
    }
    impl<T> ParallelSlice<T> for [T] { fn r(&self) -> &[T] { self } }
}
pub mod iter {
    use std::cmp::Ordering;
    use std::collections::VecDeque;
    /// a "parallel" iterator: the sequential one, behind rayon's methods
    #[derive(Clone)]
    pub struct Par<I>(pub I);
    pub trait ParallelIterator: Sized {
        type Item;
        type Seq: Iterator<Item = Self::Item>;
        fn seq(self) -> Self::Seq;
        fn map<R, F: FnMut(Self::Item) -> R>(self, f: F) -> Par<std::iter::Map<Self::Seq, F>> { Par(self.seq().map(f)) }
        fn map_with<'a, T: 'a, R: 'a, F: FnMut(&mut T, Self::Item) -> R + 'a>(self, mut t: T, mut f: F) -> Par<Box<dyn Iterator<Item = R> + 'a>> where Self::Seq: 'a { Par(Box::new(self.seq().map(move |x| f(&mut t, x)))) }
        fn map_init<'a, T: 'a, R: 'a, N: FnMut() -> T, F: FnMut(&mut T, Self::Item) -> R + 'a>(self, mut n: N, f: F) -> Par<Box<dyn Iterator<Item = R> + 'a>> where Self::Seq: 'a { let t = n(); self.map_with(t, f) }
        fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<Self::Seq, F>> { Par(self.seq().filter(f)) }
        fn filter_map<R, F: FnMut(Self::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<Self::Seq, F>> { Par(self.seq().filter_map(f)) }
        fn flat_map_iter<R: IntoIterator, F: FnMut(Self::Item) -> R>(self, f: F) -> Par<std::iter::FlatMap<Self::Seq, R, F>> { Par(self.seq().flat_map(f)) }
        fn flatten_iter(self) -> Par<std::iter::Flatten<Self::Seq>> where Self::Item: IntoIterator { Par(self.seq().flatten()) }
        fn inspect<F: FnMut(&Self::Item)>(self, f: F) -> Par<std::iter::Inspect<Self::Seq, F>> { Par(self.seq().inspect(f)) }
        fn copied<'a, T: Copy + 'a>(self) -> Par<std::iter::Copied<Self::Seq>> where Self::Seq: Iterator<Item = &'a T> { Par(self.seq().copied()) }
        fn cloned<'a, T: Clone + 'a>(self) -> Par<std::iter::Cloned<Self::Seq>> where Self::Seq: Iterator<Item = &'a T> { Par(self.seq().cloned()) }
        fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<std::iter::Chain<Self::Seq, <C::Iter as ParallelIterator>::Seq>> { Par(self.seq().chain(c.into_par_iter().seq())) }
        fn enumerate(self) -> Par<std::iter::Enumerate<Self::Seq>> { Par(self.seq().enumerate()) }
        fn zip<C: IntoParallelIterator>(self, c: C) -> Par<std::iter::Zip<Self::Seq, <C::Iter as ParallelIterator>::Seq>> { Par(self.seq().zip(c.into_par_iter().seq())) }
        fn rev(self) -> Par<std::iter::Rev<Self::Seq>> where Self::Seq: DoubleEndedIterator { Par(self.seq().rev()) }
        fn skip(self, n: usize) -> Par<std::iter::Skip<Self::Seq>> { Par(self.seq().skip(n)) }
        fn take(self, n: usize) -> Par<std::iter::Take<Self::Seq>> { Par(self.seq().take(n)) }
        fn step_by(self, n: usize) -> Par<std::iter::StepBy<Self::Seq>> { Par(self.seq().step_by(n)) }
        fn with_min_len(self, _n: usize) -> Self { self }
        fn with_max_len(self, _n: usize) -> Self { self }
        fn for_each<F: FnMut(Self::Item)>(self, f: F) { self.seq().for_each(f) }
        fn for_each_with<T, F: FnMut(&mut T, Self::Item)>(self, mut t: T, mut f: F) { self.seq().for_each(|x| f(&mut t, x)) }
        fn for_each_init<T, N: FnMut() -> T, F: FnMut(&mut T, Self::Item)>(self, mut n: N, f: F) { let t = n(); self.for_each_with(t, f) }
        fn try_for_each<E, F: FnMut(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> { self.seq().try_for_each(f) }
        fn reduce<F: FnMut(Self::Item, Self::Item) -> Self::Item, N: FnMut() -> Self::Item>(self, mut n: N, f: F) -> Self::Item { let z = n(); self.seq().fold(z, f) }
        fn reduce_with<F: FnMut(Self::Item, Self::Item) -> Self::Item>(self, f: F) -> Option<Self::Item> { self.seq().reduce(f) }
        fn fold<T, N: FnMut() -> T, F: FnMut(T, Self::Item) -> T>(self, mut n: N, f: F) -> Par<std::iter::Once<T>> { let z = n(); Par(std::iter::once(self.seq().fold(z, f))) }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.seq().sum() }
        fn product<S: std::iter::Product<Self::Item>>(self) -> S { self.seq().product() }
        fn count(self) -> usize { self.seq().count() }
        fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().min() }
        fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().max() }
        fn min_by<F: FnMut(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> Option<Self::Item> { self.seq().min_by(f) }
        fn max_by<F: FnMut(&Self::Item, &Self::Item) -> Ordering>(self, f: F) -> Option<Self::Item> { self.seq().max_by(f) }
        fn min_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> { self.seq().min_by_key(f) }
        fn max_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> Option<Self::Item> { self.seq().max_by_key(f) }
        fn any<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().any(f) }
        fn all<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().all(f) }
        fn position_any<F: FnMut(Self::Item) -> bool>(self, f: F) -> Option<usize> { self.seq().position(f) }
        fn position_first<F: FnMut(Self::Item) -> bool>(self, f: F) -> Option<usize> { self.seq().position(f) }
        fn find_any<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> { self.seq().find(f) }
        fn find_first<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> { self.seq().find(f) }
        fn find_map_any<R, F: FnMut(Self::Item) -> Option<R>>(self, f: F) -> Option<R> { self.seq().find_map(f) }
        fn find_map_first<R, F: FnMut(Self::Item) -> Option<R>>(self, f: F) -> Option<R> { self.seq().find_map(f) }
        fn partition<A: Default + Extend<Self::Item>, F: FnMut(&Self::Item) -> bool>(self, f: F) -> (A, A) { let (mut a, mut b, mut f) = (A::default(), A::default(), f); for x in self.seq() { if f(&x) { a.extend([x]) } else { b.extend([x]) } } (a, b) }
        fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB) where Self::Seq: Iterator<Item = (A, B)> { self.seq().unzip() }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { self.seq().collect() }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) { v.clear(); v.extend(self.seq()) }
        fn collect_vec_list(self) -> VecDeque<Vec<Self::Item>> { [self.seq().collect()].into() }
    }
    impl<I: Iterator> ParallelIterator for Par<I> { type Item = I::Item; type Seq = I; fn seq(self) -> I { self.0 } }
    pub trait IndexedParallelIterator: ParallelIterator { fn len(self) -> usize where Self::Seq: ExactSizeIterator { self.seq().len() } }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait ParallelBridge: Iterator + Sized { fn par_bridge(self) -> Par<Self> { Par(self) } }
    impl<I: Iterator> ParallelBridge for I {}
    pub trait IntoParallelIterator { type Item; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    macro_rules! into { ($([$($g:tt)*] $t:ty),* $(,)?) => { $(impl<$($g)*> IntoParallelIterator for $t { type Item = <$t as IntoIterator>::Item; type Iter = Par<<$t as IntoIterator>::IntoIter>; fn into_par_iter(self) -> Self::Iter { Par(self.into_iter()) } })* } }
    into!([T] Vec<T>, [T, const N: usize] [T; N], ['a, T] &'a [T], ['a, T] &'a mut [T], ['a, T] &'a Vec<T>, ['a, T] &'a mut Vec<T>, [T] VecDeque<T>, ['a, T] &'a VecDeque<T>, [T] Option<T>,
        ['a, K, V, S] &'a std::collections::HashMap<K, V, S>, [K, V, S] std::collections::HashMap<K, V, S>, ['a, K, S] &'a std::collections::HashSet<K, S>, ['a, K, V] &'a std::collections::BTreeMap<K, V>,
        [] std::ops::Range<usize>, [] std::ops::Range<u64>, [] std::ops::Range<u32>, [] std::ops::Range<u16>, [] std::ops::Range<u8>, [] std::ops::Range<i32>, [] std::ops::RangeInclusive<usize>, [] std::ops::RangeInclusive<u32>, [] std::ops::RangeInclusive<u64>);
    impl<I: Iterator> IntoParallelIterator for Par<I> { type Item = I::Item; type Iter = Self; fn into_par_iter(self) -> Self { self } }
    pub trait IntoParallelRefIterator<'a> { type Item; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Item = <&'a T as IntoIterator>::Item; type Iter = Par<<&'a T as IntoIterator>::IntoIter>; fn par_iter(&'a self) -> Self::Iter { Par(self.into_iter()) } }
    pub trait IntoParallelRefMutIterator<'a> { type Item; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator { type Item = <&'a mut T as IntoIterator>::Item; type Iter = Par<<&'a mut T as IntoIterator>::IntoIter>; fn par_iter_mut(&'a mut self) -> Self::Iter { Par(self.into_iter()) } }
    pub trait ParallelExtend<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
    impl<T, C: Extend<T>> ParallelExtend<T> for C { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { self.extend(i.into_par_iter().seq()) } }
}
pub mod prelude { pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator}; pub use crate::slice::*; }
