//! Global allocator that keeps freed memory in quarantine, poisoned, to expose dangling accesses.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering::*};

pub struct Alloc;

const CAP: usize = 256;
const POISON: u8 = crate::rt::POISON;

struct Ring {
    slot: [(*mut u8, usize, usize); CAP],
    head: usize,
}
struct Shared(UnsafeCell<Ring>);
unsafe impl Sync for Shared {}
static RING: Shared = Shared(UnsafeCell::new(Ring {
    slot: [(std::ptr::null_mut(), 0, 0); CAP],
    head: 0,
}));
static LOCK: AtomicBool = AtomicBool::new(false);
/// Quarantine is on.
pub static ON: AtomicBool = AtomicBool::new(false);

fn check(p: *mut u8, size: usize) {
    let b = unsafe { std::slice::from_raw_parts(std::hint::black_box(p), size) };
    let (x, y, z) = unsafe { b.align_to::<u64>() };
    let bytes = |s: &[u8]| s.iter().fold(0, |a, v| a | (v ^ POISON)) == 0;
    let w = u64::from_ne_bytes([POISON; 8]);
    if !bytes(x) || y.iter().fold(0, |a, v| a | (v ^ w)) != 0 || !bytes(z) {
        crate::obj::bad(4);
    }
}

/// Checks everything that is still in quarantine.
pub fn sweep() {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = unsafe { &*RING.0.get() };
    for s in &r.slot {
        if !s.0.is_null() {
            check(s.0, s.1);
        }
    }
    LOCK.store(false, Release);
}

thread_local! {
    static CANCELLING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Thrown when a future that is dropped accesses freed memory (`false`), or waits for a poisoned
/// lock (`true`), which it would do forever.
pub struct Dangling(bool);

/// Drops a future; `Some` if that accesses freed memory or a poisoned lock.
pub fn drop_future<T>(f: T) -> Option<bool> {
    CANCELLING.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
    CANCELLING.with(|c| c.set(false));
    match r {
        Ok(()) => None,
        Err(e) => match e.downcast::<Dangling>() {
            Ok(d) => Some(d.0),
            Err(e) => std::panic::resume_unwind(e),
        },
    }
}

/// An atomic at this address is accessed, and looks like freed memory, or like a poisoned lock.
pub fn freed(p: *const u8, poisoned: bool) {
    let dropping = CANCELLING.with(|c| c.get()) && !std::thread::panicking();
    if poisoned && dropping {
        // Whoever poisons the lock may not have told all waiters yet.
        for _ in 0..3000 {
            crate::rt::yield_point();
        }
        std::panic::panic_any(Dangling(true));
    }
    if !ON.load(Relaxed) || poisoned {
        return;
    }
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = unsafe { &*RING.0.get() };
    let hit = r.slot.iter().any(|s| !s.0.is_null() && s.0 as usize <= p as usize && (p as usize) < s.0 as usize + s.1);
    LOCK.store(false, Release);
    if hit {
        if dropping {
            std::panic::panic_any(Dangling(false));
        }
        crate::obj::bad(64 << 1);
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ON.load(Relaxed) {
            System.dealloc(p, l);
            return;
        }
        std::ptr::write_bytes(p, POISON, l.size());
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = &mut *RING.0.get();
        let h = r.head;
        let old = std::mem::replace(&mut r.slot[h], (p, l.size(), l.align()));
        r.head = (h + 1) % CAP;
        LOCK.store(false, Release);
        if !old.0.is_null() {
            check(old.0, old.1);
            System.dealloc(old.0, Layout::from_size_align_unchecked(old.1, old.2));
        }
    }
}

