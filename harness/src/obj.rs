//! Key and value types whose objects are tracked one by one.

use crate::pt;
use scc::{Comparable, Equivalent};
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

const MAGIC: u64 = 0x5ca1_ab1e_0b5e_55ed;
const DEAD: u64 = 0xdead_dead_dead_dead;
const MAX_OBJ: usize = 1 << 22;

static STATE: [AtomicU8; MAX_OBJ] = [const { AtomicU8::new(0) }; MAX_OBJ];
static NEXT: AtomicUsize = AtomicUsize::new(1);
static LIVE_K: AtomicI64 = AtomicI64::new(0);
static LIVE_V: AtomicI64 = AtomicI64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
/// Scheduling points inside of comparisons.
pub static CMP_POINTS: AtomicBool = AtomicBool::new(true);

thread_local! {
    /// Panic when this counter of user-code invocations reaches zero (0: off).
    pub static FUSE: Cell<i64> = const { Cell::new(0) };
    /// Number of user-code invocations.
    pub static USER: Cell<i64> = const { Cell::new(0) };
}

/// User code is being run: a place where an injected panic may strike.
pub fn user() {
    USER.with(|u| u.set(u.get() + 1));
    FUSE.with(|f| {
        let v = f.get();
        if v > 0 {
            f.set(v - 1);
            if v == 1 {
                panic!("injected");
            }
        }
    });
}

/// Lets the n-th call of user code panic from now on (0: none); returns what was left.
pub fn arm(n: i64) -> i64 {
    FUSE.with(|f| f.replace(n))
}

pub fn bad(code: u64) {
    BAD.fetch_or(code, SeqCst);
}

/// 1: double drop, 2: access to a dead object, 4: write to freed memory, 8: value changed under a guard.
pub fn take_bad() -> u64 {
    BAD.swap(0, SeqCst)
}

pub fn live() -> (i64, i64) {
    (LIVE_K.load(SeqCst), LIVE_V.load(SeqCst))
}

/// Forgets about all objects; to be called when none is left.
pub fn reset() {
    let n = NEXT.swap(1, SeqCst);
    for s in &STATE[..n.min(MAX_OBJ)] {
        s.store(0, SeqCst);
    }
    LIVE_K.store(0, SeqCst);
    LIVE_V.store(0, SeqCst);
    BAD.store(0, SeqCst);
}

fn birth(c: &AtomicI64) -> usize {
    c.fetch_add(1, SeqCst);
    let o = NEXT.fetch_add(1, SeqCst);
    if o < MAX_OBJ {
        STATE[o].store(1, SeqCst);
    }
    o
}

fn death(c: &AtomicI64, o: usize) {
    c.fetch_sub(1, SeqCst);
    if o < MAX_OBJ && STATE[o].swap(2, SeqCst) != 1 {
        bad(1);
    }
}

#[inline]
fn alive(magic: &u64, o: usize) {
    let m = unsafe { std::ptr::read_volatile(magic) };
    if m != MAGIC || (o < MAX_OBJ && STATE[o].load(SeqCst) != 1) {
        bad(2);
    }
}

/// Hash layouts.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    /// Evenly spread.
    Spread,
    /// Same bucket, different partial hashes.
    Bucket,
    /// Same hash.
    Coll,
    /// Spread over buckets, same partial hash (every insertion and removal is sampled).
    Part,
    /// Bucket index grows with the key; every operation is sampled.
    Lin,
    /// As `Lin`, with partial hashes that tell apart the keys of a bucket of a small table.
    Over,
}

impl Layout {
    pub fn parse(s: &str) -> Layout {
        match s {
            "spread" => Layout::Spread,
            "bucket" => Layout::Bucket,
            "coll" => Layout::Coll,
            "part" => Layout::Part,
            "lin" => Layout::Lin,
            "over" => Layout::Over,
            _ => panic!("layout {s}"),
        }
    }
    pub fn hash(self, k: i64) -> u64 {
        let k = k as u64;
        match self {
            Layout::Spread => {
                let mut z = k.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^ (z >> 31)
            }
            Layout::Bucket => (0xA5 << 56) | k,
            Layout::Coll => 0x5A5A_0000_0000_0000,
            Layout::Part => Layout::Spread.hash(k as i64) & !0xFF,
            Layout::Lin => (k & 0xFF).reverse_bits() | ((k >> 8) << 16),
            Layout::Over => (k & 0xFF).reverse_bits() | ((k >> 8) << 16) | ((k >> 6) & 0xFF),
        }
    }
}

/// A key object; `i` identifies the object the caller passed in.
pub struct Key {
    pub k: i64,
    pub i: i64,
    pub h: u64,
    o: usize,
    magic: u64,
}

impl Key {
    pub fn new(k: i64, i: i64, l: Layout) -> Key {
        Key { k, i, h: l.hash(k), o: birth(&LIVE_K), magic: MAGIC }
    }
    pub fn check(&self) {
        alive(&self.magic, self.o);
    }
}

impl Drop for Key {
    fn drop(&mut self) {
        self.check();
        death(&LIVE_K, self.o);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}
impl Clone for Key {
    fn clone(&self) -> Key {
        user();
        self.check();
        cp();
        Key { k: self.k, i: self.i, h: self.h, o: birth(&LIVE_K), magic: MAGIC }
    }
}
#[inline]
fn cp() {
    if CMP_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
        pt();
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        user();
        self.check();
        o.check();
        cp();
        self.k == o.k
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        user();
        self.check();
        o.check();
        cp();
        self.k.cmp(&o.k)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.check();
        s.write_u64(self.h);
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)
    }
}

/// A borrowed form of [`Key`].
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub k: i64,
    pub h: u64,
}
impl Q {
    pub fn new(k: i64, l: Layout) -> Q {
        Q { k, h: l.hash(k) }
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h);
    }
}
impl Equivalent<Key> for Q {
    fn equivalent(&self, key: &Key) -> bool {
        user();
        key.check();
        cp();
        self.k == key.k
    }
}
impl Comparable<Key> for Q {
    fn compare(&self, key: &Key) -> Ordering {
        user();
        key.check();
        cp();
        self.k.cmp(&key.k)
    }
}

/// A value object.
pub struct Val {
    pub v: i64,
    o: usize,
    magic: u64,
}
impl Val {
    pub fn new(v: i64) -> Val {
        Val { v, o: birth(&LIVE_V), magic: MAGIC }
    }
    pub fn get(&self) -> i64 {
        alive(&self.magic, self.o);
        unsafe { std::ptr::read_volatile(&self.v) }
    }
    /// Mutates the value in two steps: a torn state is visible in between.
    pub fn set(&mut self, v: i64) {
        alive(&self.magic, self.o);
        let old = self.v;
        unsafe { std::ptr::write_volatile(&mut self.v, -1_000_000 - old) };
        pt();
        pt();
        unsafe { std::ptr::write_volatile(&mut self.v, v) };
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        alive(&self.magic, self.o);
        death(&LIVE_V, self.o);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        user();
        alive(&self.magic, self.o);
        Val { v: self.v, o: birth(&LIVE_V), magic: MAGIC }
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        user();
        self.get() == o.get()
    }
}
impl Eq for Val {}
impl Default for Val {
    fn default() -> Val {
        Val::new(-7)
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}

/// Passes the hash carried by the key through.
#[derive(Clone, Default, Debug)]
pub struct Ident;
pub struct IdentHasher(u64);
impl BuildHasher for Ident {
    type Hasher = IdentHasher;
    fn build_hasher(&self) -> IdentHasher {
        IdentHasher(0)
    }
}
impl Hasher for IdentHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ u64::from(*x);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

thread_local! {
    /// Layout of the keys to be deserialized.
    pub static LAYOUT: Cell<Layout> = const { Cell::new(Layout::Spread) };
}
const BASE: i64 = 1_000_000;
impl serde::Serialize for Key {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        user();
        self.check();
        s.serialize_i64(self.k * BASE + self.i)
    }
}
impl<'d> serde::Deserialize<'d> for Key {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Key, D::Error> {
        user();
        let x = i64::deserialize(d)?;
        Ok(Key::new(x.div_euclid(BASE), x.rem_euclid(BASE), LAYOUT.with(Cell::get)))
    }
}
impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        user();
        s.serialize_i64(self.get())
    }
}
impl<'d> serde::Deserialize<'d> for Val {
    fn deserialize<D: serde::Deserializer<'d>>(d: D) -> Result<Val, D::Error> {
        user();
        Ok(Val::new(i64::deserialize(d)?))
    }
}
