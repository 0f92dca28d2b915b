//! `std` with its threads and synchronisation objects replaced by ones under the controlled scheduler.
#![allow(deprecated, clippy::new_without_default)]
pub use ::std::*;

pub mod sync;
pub mod thread;

/// Thread-locals of the controlled threads.
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } $(; $($rest:tt)*)?) => { $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({ fn f() -> $t { $e } f }); $crate::thread_local!($($($rest)*)?); };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => { $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new({ fn f() -> $t { $e } f }); $crate::thread_local!($($($rest)*)?); };
}
