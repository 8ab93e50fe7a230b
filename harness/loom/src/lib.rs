//! Stand-in for the `loom` crate.
//!
//! scc, sdd and saa import their atomics, `park`, `yield_now`, ... from `loom` when their `loom`
//! feature is on. With this crate patched in, each of those operations is a scheduling point of
//! [`rt`], which runs real OS threads strictly one at a time. Outside of a managed execution all
//! operations go straight to `std`.
#![allow(clippy::all)]

pub mod rt;

pub mod sync {
    pub mod atomic {
        pub use super::super::atomics::*;
        pub use std::sync::atomic::Ordering;
    }
    pub use std::sync::Arc;
}

pub mod hint {
    #[inline]
    pub fn spin_loop() {
        crate::rt::yield_point();
    }
}

pub mod thread {
    pub use crate::rt::{current, park, yield_now, Thread};
}

mod atomics {
    use crate::rt::{at, point};
    use std::sync::atomic as s;
    use std::sync::atomic::Ordering;

    #[inline]
    pub fn fence(o: Ordering) {
        point();
        s::fence(o);
    }

    macro_rules! common {
        ($n:ident, $s:ty, $t:ty $(, $g:ident)?) => {
            impl$(<$g>)? $n$(<$g>)? {
                #[inline]
                pub const fn new(v: $t) -> Self { Self(<$s>::new(v)) }
                #[inline]
                pub fn load(&self, o: Ordering) -> $t {
                    at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r');
                    let v = self.0.load(o);
                    // What depends on a loaded bitmap may be read much later.
                    if std::mem::size_of::<$t>() == 4 { point(); }
                    v
                }
                #[inline]
                pub fn store(&self, v: $t, o: Ordering) { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.store(v, o) }
                #[inline]
                pub fn swap(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.swap(v, o) }
                #[inline]
                pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.compare_exchange(c, n, s, f) }
                #[inline]
                pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.compare_exchange(c, n, s, f) }
                #[inline]
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                #[inline]
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                #[inline]
                pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
                #[inline]
                pub unsafe fn unsync_load(&self) -> $t { self.0.load(Ordering::Relaxed) }
                #[inline]
                pub fn with_mut<R>(&mut self, f: impl FnOnce(&mut $t) -> R) -> R { f(self.0.get_mut()) }
                pub fn fetch_update<F>(&self, so: Ordering, fo: Ordering, mut f: F) -> Result<$t, $t>
                where F: FnMut($t) -> Option<$t> {
                    let mut p = self.load(fo);
                    while let Some(n) = f(p) {
                        match self.compare_exchange(p, n, so, fo) {
                            Ok(x) => return Ok(x),
                            Err(x) => p = x,
                        }
                    }
                    Err(p)
                }
            }
        };
    }
    macro_rules! int {
        ($n:ident, $s:ty, $t:ty) => {
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $n($s);
            common!($n, $s, $t);
            impl $n {
                #[inline]
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_add(v, o) }
                #[inline]
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_sub(v, o) }
                #[inline]
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_or(v, o) }
                #[inline]
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_and(v, o) }
                #[inline]
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_xor(v, o) }
                #[inline]
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_max(v, o) }
                #[inline]
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_min(v, o) }
            }
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
            }
        };
    }
    int!(AtomicUsize, s::AtomicUsize, usize);
    int!(AtomicIsize, s::AtomicIsize, isize);
    int!(AtomicU64, s::AtomicU64, u64);
    int!(AtomicU32, s::AtomicU32, u32);
    int!(AtomicU16, s::AtomicU16, u16);
    int!(AtomicU8, s::AtomicU8, u8);

    #[derive(Default)]
    #[repr(transparent)]
    pub struct AtomicBool(s::AtomicBool);
    common!(AtomicBool, s::AtomicBool, bool);
    impl AtomicBool {
        #[inline]
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_or(v, o) }
        #[inline]
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { at(self.0.as_ptr(), stringify!($n).as_bytes()[stringify!($n).len() - 1] == b'r'); self.0.fetch_and(v, o) }
    }
    impl std::fmt::Debug for AtomicBool {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
    }

    #[repr(transparent)]
    pub struct AtomicPtr<T>(s::AtomicPtr<T>);
    common!(AtomicPtr, s::AtomicPtr<T>, *mut T, T);
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self { Self(s::AtomicPtr::default()) }
    }
    impl<T> std::fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
    }
}
