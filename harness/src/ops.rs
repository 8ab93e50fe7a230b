//! Operations on the containers: one textual vocabulary for all of them.

use crate::obj::{arm, bad, user, Ident, Key, Layout, Val, Q};
use crate::trace::{log, Ev};
use crate::{pt, rt};
use scc::{hash_cache, hash_index, hash_map, Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use std::future::Future;
use std::ops::Bound;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};

pub type Map = HashMap<Key, Val, Ident>;
pub type Set = HashSet<Key, Ident>;
pub type Index = HashIndex<Key, Val, Ident>;
pub type Cache = HashCache<Key, Val, Ident>;
pub type Tree = TreeIndex<Key, Val>;

pub enum C {
    Map(Map),
    Set(Set),
    Index(Index),
    Cache(Cache),
    Tree(Tree),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Md {
    Sync,
    Async,
    Try,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub o: &'static str,
    pub k: i64,
    pub i: i64,
    pub v: i64,
    pub p: i64,
    pub md: Md,
    pub cut: Cut,
    /// What is done while something is held.
    pub sub: Vec<Op>,
}

/// How the operation is abandoned.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cut {
    No,
    /// The future is dropped when it returned `Pending` for the n-th time.
    Drop(u32),
    /// The future is dropped instead of being polled again after that.
    Woken(u32),
    /// The n-th call of user code panics.
    Panic(u32),
}

fn intern(s: &str) -> &'static str {
    static T: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut t = T.lock().unwrap();
    if let Some(x) = t.iter().find(|x| **x == s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.push(x);
    x
}

impl Op {
    /// `name k i v p mode`, trailing fields may be left out. The mode is `s`, `a` or `t`, and may be
    /// followed by `xN`, `wN` or `fN` (see [`Cut`]).
    pub fn parse(s: &str) -> Op {
        let (s, sub) = s.split_once('>').unwrap_or((s, ""));
        let sub = sub.split('>').map(str::trim).filter(|x| !x.is_empty()).map(Op::parse).collect();
        let mut w: Vec<&str> = s.split_whitespace().collect();
        let (mut md, mut cut) = (Md::Sync, Cut::No);
        let last = w[w.len() - 1];
        if w.len() > 1 && last.starts_with(['s', 'a', 't']) {
            md = match &last[..1] {
                "s" => Md::Sync,
                "a" => Md::Async,
                _ => Md::Try,
            };
            if last.len() > 1 {
                let n: u32 = last[2..].parse().unwrap_or_else(|_| panic!("{s}"));
                cut = match &last[1..2] {
                    "x" => Cut::Drop(n),
                    "w" => Cut::Woken(n),
                    "f" => Cut::Panic(n),
                    _ => panic!("{s}"),
                };
            }
            w.pop();
        }
        let n = |i: usize| w.get(i).map_or(0, |x| x.parse::<i64>().unwrap_or_else(|_| panic!("{s}")));
        Op { o: intern(w[0]), k: n(1), i: n(2), v: n(3), p: n(4), md, cut, sub }
    }
}

/// Execution context of one container.
pub struct Cx {
    pub c: C,
    pub l: Layout,
    /// Handles that keep reserved capacity; dropped before the container.
    pub resv: Mutex<Vec<(i64, Box<dyn std::any::Any>)>>,
    /// Log events.
    pub quiet: bool,
}
unsafe impl Sync for Cx {}
unsafe impl Send for Cx {}

/// Returns `Pending` once.
pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        c.waker().wake_by_ref();
        rt::yield_point();
        Poll::Pending
    }
}
pub fn yield_once() -> Yield {
    Yield(false)
}

/// Holds whatever is held for a while.
async fn hold(cx: &Cx, x: &Op, t: i64, md: Md, n: i64) {
    for _ in 0..n {
        if md == Md::Async {
            yield_once().await;
        } else {
            rt::yield_point();
        }
    }
    pt();
    // These never wait, not even for what the task itself holds.
    for s in &x.sub {
        Box::pin(cx.exec(s, t + 50)).await;
    }
}

/// What the task does between two steps of a lock-free iterator: all up to the next `yield`.
async fn meanwhile(cx: &Cx, sub: &mut std::slice::Iter<'_, Op>, t: i64) {
    for s in sub {
        if s.o == "yield" {
            break;
        }
        Box::pin(cx.exec(s, t + 50)).await;
    }
}

type Fut<'a> = Pin<Box<dyn Future<Output = Vec<i64>> + 'a>>;

/// Drops the future at its n-th `Pending`, or when it is to be polled after that.
struct Cancel<'a> {
    f: Option<Fut<'a>>,
    n: u32,
    woken: bool,
    t: i64,
}
impl Cancel<'_> {
    fn cut(&mut self) {
        if let Some(p) = crate::alloc::drop_future(self.f.take()) {
            log(Ev::Obs { t: self.t, o: "dangle", r: vec![i64::from(p)] });
        }
    }
}
impl Future for Cancel<'_> {
    type Output = Option<Vec<i64>>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        if self.n == 0 {
            self.cut();
            return Poll::Ready(None);
        }
        match self.f.as_mut().unwrap().as_mut().poll(c) {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending => {
                self.n -= 1;
                if self.n == 0 && !self.woken {
                    self.cut();
                    return Poll::Ready(None);
                }
                Poll::Pending
            }
        }
    }
}

/// Makes the n-th call of user code panic.
struct Catch<'a> {
    f: Fut<'a>,
    n: u32,
}
impl Future for Catch<'_> {
    type Output = Option<Vec<i64>>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        arm(i64::from(self.n));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.f.as_mut().poll(c)));
        let left = arm(0);
        match r {
            Ok(Poll::Ready(r)) => Poll::Ready(Some(r)),
            Ok(Poll::Pending) => {
                self.n = left as u32;
                Poll::Pending
            }
            Err(e) => {
                if !matches!(e.downcast_ref::<&str>(), Some(&"injected")) {
                    std::panic::resume_unwind(e);
                }
                Poll::Ready(None)
            }
        }
    }
}

macro_rules! sa {
    ($md:expr, $c:expr, $s:ident, $a:ident, $($x:expr),*) => {
        if $md == Md::Async { $c.$a($($x),*).await } else { $c.$s($($x),*) }
    };
}

/// What a scan does with the `n`-th visited entry: (keep, stop, new value).
pub fn decide(p: i64, v: i64, n: i64) -> (bool, bool, Option<i64>) {
    let odd = v.rem_euclid(2) == 1;
    match p {
        1 => (!odd, false, None),
        2 => (odd, false, None),
        3 => (true, false, Some(v + 2)),
        4 => (!odd, false, Some(v + 2)),
        5 => (true, odd, None),
        6 => (false, false, None),
        7 => (n != 0, n == 0, None),
        8 => (true, n >= 2, Some(v + 2)),
        9 => (true, n == 0, None),
        _ => (true, false, None),
    }
}

fn code(keep: bool, stop: bool, w: Option<i64>) -> i64 {
    // Bits: 1 remove, 2 stop, 4 mutate.
    i64::from(!keep) + 2 * i64::from(stop) + 4 * i64::from(w.is_some())
}

struct Scan<'a> {
    t: i64,
    p: i64,
    n: i64,
    quiet: bool,
    mutable: bool,
    /// The entry at which the scan stops is removed.
    rm: bool,
    _c: &'a Cx,
}
impl Scan<'_> {
    /// Visits an entry under its lock.
    fn visit(&mut self, k: &Key, v: i64, can_remove: bool, can_stop: bool) -> (bool, bool, Option<i64>) {
        user();
        k.check();
        pt();
        let (mut keep, mut stop, mut w) = decide(self.p, v, self.n);
        if !can_remove {
            keep = true;
        }
        if !can_stop {
            stop = false;
        }
        if stop && self.rm {
            keep = false;
        }
        if !self.mutable {
            w = None;
        }
        self.n += 1;
        if !self.quiet {
            log(Ev::Vis { t: self.t, k: k.k, i: k.i, v, d: code(keep, stop, w), w: w.unwrap_or(0) });
        }
        (keep, stop, w)
    }
}

pub fn bounds(lo: i64, hi: i64, p: i64, l: Layout) -> (Bound<Q>, Bound<Q>) {
    let b = |x: i64, m: i64| match m {
        0 => Bound::Unbounded,
        1 => Bound::Included(Q::new(x, l)),
        _ => Bound::Excluded(Q::new(x, l)),
    };
    (b(lo, p % 3), b(hi, p / 3 % 3))
}

const STOP: &[i64] = &[];

macro_rules! rd_common {
    // Operations that are spelled the same for HashMap and HashCache.
    ($cx:expr, $h:expr, $x:expr, $t:expr, $m:ident) => {{
        let (cx, t, h, x, l, md) = ($cx, $t, $h, $x, $cx.l, $x.md);
        let q = Q::new(x.k, l);
        match x.o {
            "read" => Some(match sa!(md, h, read_sync, read_async, &q, |k, v| { user(); k.check(); pt(); let a = v.get(); pt(); if a != v.get() { bad(8); } (k.i, a) }) {
                Some((i, v)) => vec![1, i, v],
                None => vec![0],
            }),
            "contains" => Some(vec![i64::from(sa!(md, h, contains_sync, contains_async, &q))]),
            "remove" => Some(match sa!(md, h, remove_sync, remove_async, &q) {
                Some((k, v)) => vec![1, k.i, v.get()],
                None => vec![0],
            }),
            "remove_if" => Some(match sa!(md, h, remove_if_sync, remove_if_async, &q, |v| { user(); let a = v.get(); pt(); pt(); a.rem_euclid(2) == x.p }) {
                Some((k, v)) => vec![1, k.i, v.get()],
                None => vec![0],
            }),
            "remove_ifm" => Some(match sa!(md, h, remove_if_sync, remove_if_async, &q, |v| { user(); let a = v.get(); v.set(a + 2); a.rem_euclid(2) == x.p }) {
                Some((k, v)) => vec![1, k.i, v.get()],
                None => vec![0],
            }),
            "replace" => Some(match sa!(md, h, replace_sync, replace_async, Key::new(x.k, x.i, l)) {
                $m::ReplaceResult::Replaced(e, k) => {
                    hold(cx, x, t, md, x.p).await;
                    vec![1, k.i, e.get().get()]
                }
                $m::ReplaceResult::NotReplaced(e) => {
                    hold(cx, x, t, md, x.p).await;
                    let k = e.into_key();
                    vec![0, k.i]
                }
            }),
            "rmw" => Some(match sa!(md, h, get_sync, get_async, &q) {
                Some(mut e) => {
                    user();
                    let a = e.get().get();
                    hold(cx, x, t, md, x.p).await;
                    if a != e.get().get() {
                        bad(8);
                    }
                    if x.v % 2 == 0 { e.get_mut().set(x.v) } else { (*e).set(x.v) }
                    if (*e).get() != x.v { bad(8) }
                    vec![1, e.key().i, a]
                }
                None => vec![0],
            }),
            "get_rem" => Some(match sa!(md, h, get_sync, get_async, &q) {
                Some(e) => {
                    hold(cx, x, t, md, x.p).await;
                    let (k, v) = e.remove_entry();
                    vec![1, k.i, v.get()]
                }
                None => vec![0],
            }),
            "get_remv" => Some(match sa!(md, h, get_sync, get_async, &q) {
                Some(e) => {
                    let i = e.key().i;
                    vec![1, i, e.remove().get()]
                }
                None => vec![0],
            }),
            "iter" => {
                let mut s = Scan { t: $t, p: x.p, n: 0, quiet: $cx.quiet, mutable: false, rm: false, _c: $cx };
                let r = sa!(md, h, iter_sync, iter_async, |k, v| !s.visit(k, v.get(), false, true).1);
                Some(vec![i64::from(r)])
            }
            "iter_mut" => {
                let mut s = Scan { t: $t, p: x.p, n: 0, quiet: $cx.quiet, mutable: true, rm: false, _c: $cx };
                let r = sa!(md, h, iter_mut_sync, iter_mut_async, |mut e| {
                    let v0 = e.1.get();
                    let (keep, stop, w) = s.visit(&e.0, v0, true, true);
                    if let Some(w) = w {
                        e.1.set(w);
                    }
                    if !keep {
                        let (k, v) = e.consume();
                        k.check();
                        v.get();
                    }
                    !stop
                });
                Some(vec![i64::from(r)])
            }
            "retain" => {
                let mut s = Scan { t: $t, p: x.p, n: 0, quiet: $cx.quiet, mutable: true, rm: false, _c: $cx };
                sa!(md, h, retain_sync, retain_async, |k, v| {
                    let v0 = v.get();
                    let (keep, _, w) = s.visit(k, v0, true, false);
                    if let Some(w) = w {
                        v.set(w);
                    }
                    keep
                });
                Some(vec![1])
            }
            "clear" => {
                sa!(md, h, clear_sync, clear_async,);
                Some(vec![])
            }
            "len" => Some(vec![h.len() as i64]),
            "is_empty" => Some(vec![i64::from(h.is_empty())]),
            _ => None,
        }
    }};
}

/// Checks the key of an entry.
fn ekey<E: HasKey>(e: E, k: i64) -> E {
    if e.k() != k {
        bad(16);
    }
    e
}
trait HasKey {
    fn k(&self) -> i64;
}
impl HasKey for hash_map::Entry<'_, Key, Val, Ident> {
    fn k(&self) -> i64 {
        self.key().check();
        match self {
            hash_map::Entry::Occupied(e) => e.key().k,
            hash_map::Entry::Vacant(e) => e.key().k,
        }
        .max(self.key().k)
    }
}
impl HasKey for hash_index::Entry<'_, Key, Val, Ident> {
    fn k(&self) -> i64 {
        self.key().check();
        match self {
            hash_index::Entry::Occupied(e) => e.key().k,
            hash_index::Entry::Vacant(e) => e.key().k,
        }
        .max(self.key().k)
    }
}
impl HasKey for hash_cache::Entry<'_, Key, Val, Ident> {
    fn k(&self) -> i64 {
        self.key().check();
        match self {
            hash_cache::Entry::Occupied(e) => e.key().k,
            hash_cache::Entry::Vacant(e) => e.key().k,
        }
        .max(self.key().k)
    }
}

fn cap_res(cap: usize, r: std::ops::RangeInclusive<usize>) -> Vec<i64> {
    let f = |x: usize| (x.min(1 << 30)) as i64;
    vec![f(cap), f(*r.start()), f(*r.end())]
}

macro_rules! reserve_ops {
    ($cx:expr, $h:expr, $x:expr) => {
        match $x.o {
            "reserve" => {
                let h: &'static _ = unsafe { std::mem::transmute($h) };
                let h = ident($h, h);
                Some(match h.reserve($x.p as usize) {
                    Some(r) => {
                        let n = r.additional_capacity();
                        $cx.resv.lock().unwrap().push((n as i64, Box::new(r)));
                        vec![n as i64]
                    }
                    None => vec![0],
                })
            }
            "unreserve" => {
                let r = { let mut v = $cx.resv.lock().unwrap(); if v.is_empty() { None } else { Some(v.remove(0)) } };
                let n = i64::from(r.is_some());
                let a = r.as_ref().map_or(0, |r| r.0);
                drop(r);
                Some(vec![n, a])
            }
            "cap" => Some(cap_res($h.capacity(), $h.capacity_range())),
            _ => None,
        }
    };
}
fn ident<T>(_a: &T, b: &'static T) -> &'static T {
    b
}

async fn map_op(cx: &Cx, h: &Map, x: &Op, t: i64) -> Vec<i64> {
    if let Some(r) = rd_common!(cx, h, x, t, hash_map) {
        return r;
    }
    if let Some(r) = reserve_ops!(cx, h, x) {
        return r;
    }
    let (l, md) = (cx.l, x.md);
    let q = Q::new(x.k, l);
    let key = || Key::new(x.k, x.i, l);
    macro_rules! entry {
        () => {
            if md == Md::Try {
                match h.try_entry(key()) {
                    Some(e) => ekey(e, x.k),
                    None => return vec![2],
                }
            } else {
                ekey(sa!(md, h, entry_sync, entry_async, key()), x.k)
            }
        };
    }
    match x.o {
        "insert" => match sa!(md, h, insert_sync, insert_async, key(), Val::new(x.v)) {
            Ok(()) => vec![1],
            Err((k, v)) => vec![0, k.i, v.get()],
        },
        "upsert" => match sa!(md, h, upsert_sync, upsert_async, key(), Val::new(x.v)) {
            Some(v) => vec![1, v.get()],
            None => vec![0],
        },
        "update" => match sa!(md, h, update_sync, update_async, &q, |k, v| { user(); k.check(); let a = v.get(); v.set(x.v); (k.i, a) }) {
            Some((i, a)) => vec![1, i, a],
            None => vec![0],
        },
        "replace_ins" => match sa!(md, h, replace_sync, replace_async, key()) {
            hash_map::ReplaceResult::Replaced(mut e, k) => {
                let old = e.insert(Val::new(x.v));
                vec![1, k.i, old.get()]
            }
            hash_map::ReplaceResult::NotReplaced(e) => {
                hold(cx, x, t, md, x.p).await;
                let e = e.insert_entry(Val::new(x.v));
                vec![0, e.key().i]
            }
        },
        "or_ins" => {
            let e = entry!();
            hold(cx, x, t, md, x.p).await;
            let e = match x.v.rem_euclid(3) {
                0 => e.or_insert(Val::new(x.v)),
                1 => e.or_insert_with(|| { user(); Val::new(x.v) }),
                _ => e.or_insert_with_key(|k| { user(); k.check(); Val::new(if k.k == x.k { x.v } else { -1 }) }),
            };
            pt();
            vec![e.key().i, e.get().get()]
        }
        "and_mod" => {
            let e = entry!().and_modify(|v| { user(); let a = v.get(); v.set(a + x.p) }).or_insert(Val::new(x.v));
            vec![e.key().i, e.get().get()]
        }
        "ent_ins" => {
            let e = entry!().insert_entry(Val::new(x.v));
            hold(cx, x, t, md, x.p).await;
            vec![e.key().i, e.get().get()]
        }
        "ent_def" => {
            let e = entry!().or_default();
            vec![e.key().i, e.get().get()]
        }
        "ent_rem" => match entry!() {
            hash_map::Entry::Occupied(e) => {
                hold(cx, x, t, md, x.p).await;
                let (k, v) = e.remove_entry();
                vec![1, k.i, v.get()]
            }
            hash_map::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.into_key().i]
            }
        },
        "ent_rmw" => match entry!() {
            hash_map::Entry::Occupied(mut e) => {
                let old = e.insert(Val::new(x.v));
                hold(cx, x, t, md, x.p).await;
                vec![1, e.key().i, old.get()]
            }
            hash_map::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.key().i]
            }
        },
        "any" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: x.v == 1, _c: cx };
            match sa!(md, h, any_sync, any_async, |k, v| s.visit(k, v.get(), false, true).1) {
                Some(e) => {
                    // The removal is announced: do not abandon it.
                    hold(cx, x, t, if x.v == 1 { Md::Sync } else { md }, x.i).await;
                    let r = vec![1, e.key().k, e.key().i, e.get().get()];
                    if x.v == 1 {
                        drop(e.remove_entry());
                    }
                    r
                }
                None => vec![0],
            }
        }
        "walk" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: true, rm: false, _c: cx };
            let mut cur = sa!(md, h, begin_sync, begin_async,);
            while let Some(mut e) = cur {
                let v = e.get().get();
                if x.i > 0 {
                    hold(cx, x, t, md, x.i).await;
                    if e.get().get() != v {
                        crate::obj::bad(8);
                    }
                }
                let (keep, stop, w) = s.visit(e.key(), v, true, true);
                if let Some(w) = w {
                    e.get_mut().set(w);
                }
                if stop {
                    if !keep {
                        drop(e.remove_entry());
                    }
                    return vec![0];
                }
                cur = if keep {
                    sa!(md, e, next_sync, next_async,)
                } else {
                    let (kv, n) = sa!(md, e, remove_and_sync, remove_and_async,);
                    drop(kv);
                    n
                };
            }
            vec![1]
        }
        o => panic!("map op {o}"),
    }
}

async fn set_op(cx: &Cx, h: &Set, x: &Op, t: i64) -> Vec<i64> {
    if let Some(r) = reserve_ops!(cx, h, x) {
        return r;
    }
    let (l, md) = (cx.l, x.md);
    let q = Q::new(x.k, l);
    let key = || Key::new(x.k, x.i, l);
    match x.o {
        "insert" => match sa!(md, h, insert_sync, insert_async, key()) {
            Ok(()) => vec![1],
            Err(k) => vec![0, k.i, 0],
        },
        "sreplace" => match sa!(md, h, replace_sync, replace_async, key()) {
            Some(k) => vec![1, k.i],
            None => vec![0],
        },
        "read" => match sa!(md, h, read_sync, read_async, &q, |k| { user(); k.check(); pt(); k.i }) {
            Some(i) => vec![1, i, 0],
            None => vec![0],
        },
        "contains" => vec![i64::from(sa!(md, h, contains_sync, contains_async, &q))],
        "remove" => match sa!(md, h, remove_sync, remove_async, &q) {
            Some(k) => vec![1, k.i, 0],
            None => vec![0],
        },
        "remove_if" => match sa!(md, h, remove_if_sync, remove_if_async, &q, || { user(); pt(); x.p == 0 }) {
            Some(k) => vec![1, k.i, 0],
            None => vec![0],
        },
        "iter" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            let r = sa!(md, h, iter_sync, iter_async, |k| !s.visit(k, 0, false, true).1);
            vec![i64::from(r)]
        }
        "iter_mut" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            let r = sa!(md, h, iter_mut_sync, iter_mut_async, |e| {
                let (keep, stop, _) = s.visit(&e, 0, true, true);
                if !keep {
                    e.consume().check();
                }
                !stop
            });
            vec![i64::from(r)]
        }
        "retain" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            sa!(md, h, retain_sync, retain_async, |k| s.visit(k, 0, true, false).0);
            vec![1]
        }
        "clear" => {
            sa!(md, h, clear_sync, clear_async,);
            vec![]
        }
        "len" => vec![h.len() as i64],
        "is_empty" => vec![i64::from(h.is_empty())],
        o => panic!("set op {o}"),
    }
}

/// Checks that a guarded reference does not change.
async fn watch(md: Md, v: &Val, n: i64) -> i64 {
    let a = v.get();
    for _ in 0..n {
        if md == Md::Try {
            rt::yield_point();
        } else {
            pt();
        }
        if v.get() != a {
            bad(8);
        }
    }
    pt();
    if v.get() != a {
        bad(8);
    }
    a
}

async fn index_op(cx: &Cx, h: &Index, x: &Op, t: i64) -> Vec<i64> {
    if let Some(r) = reserve_ops!(cx, h, x) {
        return r;
    }
    let (l, md) = (cx.l, x.md);
    let q = Q::new(x.k, l);
    let key = || Key::new(x.k, x.i, l);
    macro_rules! entry {
        () => {
            if md == Md::Try {
                match h.try_entry(key()) {
                    Some(e) => ekey(e, x.k),
                    None => return vec![2],
                }
            } else {
                ekey(sa!(md, h, entry_sync, entry_async, key()), x.k)
            }
        };
    }
    match x.o {
        "insert" => match sa!(md, h, insert_sync, insert_async, key(), Val::new(x.v)) {
            Ok(()) => vec![1],
            Err((k, v)) => vec![0, k.i, v.get()],
        },
        "or_ins" => {
            let e = entry!();
            hold(cx, x, t, md, x.p).await;
            let e = match x.v.rem_euclid(3) {
                0 => e.or_insert(Val::new(x.v)),
                1 => e.or_insert_with(|| { user(); Val::new(x.v) }),
                _ => e.or_insert_with_key(|k| { user(); k.check(); Val::new(if k.k == x.k { x.v } else { -1 }) }),
            };
            pt();
            vec![e.key().i, e.get().get()]
        }
        "ent_def" => {
            let e = entry!().or_default();
            vec![e.key().i, e.get().get()]
        }
        // Update in place of insertion.
        "ent_upd" => match entry!() {
            hash_index::Entry::Occupied(mut e) => {
                let (i, a) = (e.key().i, e.get().get());
                e.update(Val::new(x.v));
                hold(cx, x, t, md, x.p).await;
                if e.get().get() != x.v {
                    bad(8);
                }
                vec![1, i, a]
            }
            hash_index::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.into_key().i]
            }
        },
        "ent_rem" => match entry!() {
            hash_index::Entry::Occupied(e) => {
                let (i, a) = (e.key().i, e.get().get());
                hold(cx, x, t, md, x.p).await;
                e.remove_entry();
                vec![1, i, a]
            }
            hash_index::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.into_key().i]
            }
        },
        "rmw" => match sa!(md, h, get_sync, get_async, &q) {
            Some(mut e) => {
                user();
                let (i, a) = (e.key().i, e.get().get());
                hold(cx, x, t, md, x.p).await;
                if a != e.get().get() {
                    bad(8);
                }
                e.update(Val::new(x.v));
                if e.get().get() != x.v {
                    bad(8);
                }
                vec![1, i, a]
            }
            None => vec![0],
        },
        "rmw2" => match sa!(md, h, get_sync, get_async, &q) {
            // Two updates through one handle.
            Some(mut e) => {
                let (i, a) = (e.key().i, e.get().get());
                e.update(Val::new(x.v + 1));
                e.update(Val::new(x.v));
                vec![1, i, a]
            }
            None => vec![0],
        },
        "get_rem" => match sa!(md, h, get_sync, get_async, &q) {
            Some(e) => {
                let (i, a) = (e.key().i, e.get().get());
                hold(cx, x, t, md, x.p).await;
                e.remove_entry();
                vec![1, i, a]
            }
            None => vec![0],
        },
        "bremove" => vec![i64::from(sa!(md, h, remove_sync, remove_async, &q))],
        "bremove_if" => vec![i64::from(sa!(md, h, remove_if_sync, remove_if_async, &q, |v| { user(); let a = v.get(); pt(); a.rem_euclid(2) == x.p }))],
        "read" => match h.peek_with(&q, |k, v| { user(); k.check(); let a = v.get(); pt(); if a != v.get() { bad(8); } (k.i, a) }) {
            Some((i, v)) => vec![1, i, v],
            None => vec![0],
        },
        "peek" => {
            let g = Guard::new();
            match h.peek(&q, &g) {
                Some(v) => vec![1, watch(md, v, x.p).await],
                None => vec![0],
            }
        }
        "contains" => vec![i64::from(h.contains(&q))],
        // Lock-free iteration.
        "liter" => {
            let g = Guard::new();
            let mut held = Vec::new();
            let mut it = h.iter(&g);
            let mut sub = x.sub.iter();
            let mut n = 0;
            let mut done = 1;
            loop {
                pt();
                let Some((k, v)) = it.next() else { break };
                k.check();
                let a = v.get();
                if !cx.quiet {
                    log(Ev::Vis { t, k: k.k, i: k.i, v: a, d: 16, w: 0 });
                }
                held.push((v, a));
                n += 1;
                meanwhile(cx, &mut sub, t).await;
                if x.p > 0 && n >= x.p {
                    done = 0;
                    break;
                }
            }
            let mut extra = 0;
            if done == 1 {
                for _ in 0..2 {
                    if it.next().is_some() {
                        extra += 1;
                    }
                }
            }
            for (v, a) in held {
                if v.get() != a {
                    bad(8);
                }
            }
            vec![done, extra]
        }
        "iter" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            let r = sa!(md, h, iter_sync, iter_async, |k, v| !s.visit(k, v.get(), false, true).1);
            vec![i64::from(r)]
        }
        "retain" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            sa!(md, h, retain_sync, retain_async, |k, v| s.visit(k, v.get(), true, false).0);
            vec![1]
        }
        "clear" => {
            sa!(md, h, clear_sync, clear_async,);
            vec![]
        }
        "any" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: x.v == 1, _c: cx };
            match sa!(md, h, any_sync, any_async, |k, v| s.visit(k, v.get(), false, true).1) {
                Some(e) => {
                    // The removal is announced: do not abandon it.
                    hold(cx, x, t, if x.v == 1 { Md::Sync } else { md }, x.i).await;
                    let r = vec![1, e.key().k, e.key().i, e.get().get()];
                    if x.v == 1 {
                        e.remove_entry();
                    }
                    r
                }
                None => vec![0],
            }
        }
        "walk" => {
            let mut s = Scan { t, p: x.p, n: 0, quiet: cx.quiet, mutable: false, rm: false, _c: cx };
            let mut cur = sa!(md, h, begin_sync, begin_async,);
            while let Some(e) = cur {
                let v = e.get().get();
                if x.i > 0 {
                    hold(cx, x, t, md, x.i).await;
                    if e.get().get() != v {
                        crate::obj::bad(8);
                    }
                }
                let (keep, stop, _) = s.visit(e.key(), v, true, true);
                if stop {
                    if !keep {
                        e.remove_entry();
                    }
                    return vec![0];
                }
                cur = if keep {
                    sa!(md, e, next_sync, next_async,)
                } else {
                    sa!(md, e, remove_and_sync, remove_and_async,)
                };
            }
            vec![1]
        }
        "len" => vec![h.len() as i64],
        "is_empty" => vec![i64::from(h.is_empty())],
        o => panic!("index op {o}"),
    }
}

fn evicted(r: &mut Vec<i64>, e: Option<(Key, Val)>) {
    if let Some((k, v)) = e {
        r.extend([k.k, k.i, v.get()]);
    }
}

async fn cache_op(cx: &Cx, h: &Cache, x: &Op, t: i64) -> Vec<i64> {
    if let Some(r) = rd_common!(cx, h, x, t, hash_cache) {
        return r;
    }
    let (l, md) = (cx.l, x.md);
    let q = Q::new(x.k, l);
    let key = || Key::new(x.k, x.i, l);
    macro_rules! entry {
        () => {
            if md == Md::Try {
                match h.try_entry(key()) {
                    Some(e) => ekey(e, x.k),
                    None => return vec![2],
                }
            } else {
                ekey(sa!(md, h, entry_sync, entry_async, key()), x.k)
            }
        };
    }
    match x.o {
        "cap" => cap_res(h.capacity(), h.capacity_range()),
        "insert" => match sa!(md, h, put_sync, put_async, key(), Val::new(x.v)) {
            Ok(e) => {
                let mut r = vec![1];
                evicted(&mut r, e);
                r
            }
            Err((k, v)) => vec![0, k.i, v.get()],
        },
        "get" => match sa!(md, h, get_sync, get_async, &q) {
            Some(e) => vec![1, e.key().i, e.get().get()],
            None => vec![0],
        },
        "replace_ins" => match sa!(md, h, replace_sync, replace_async, key()) {
            hash_cache::ReplaceResult::Replaced(mut e, k) => {
                let old = e.put(Val::new(x.v));
                vec![1, k.i, old.get()]
            }
            hash_cache::ReplaceResult::NotReplaced(e) => {
                hold(cx, x, t, md, x.p).await;
                let (ev, e) = e.put_entry(Val::new(x.v));
                let mut r = vec![0, e.key().i];
                evicted(&mut r, ev);
                r
            }
        },
        "or_ins" => {
            let e = entry!();
            hold(cx, x, t, md, x.p).await;
            let (ev, e) = match x.v.rem_euclid(3) {
                0 => e.or_put(Val::new(x.v)),
                1 => e.or_put_with(|| { user(); Val::new(x.v) }),
                _ => e.or_put_with_key(|k| { user(); k.check(); Val::new(if k.k == x.k { x.v } else { -1 }) }),
            };
            let mut r = vec![e.key().i, e.get().get()];
            evicted(&mut r, ev);
            r
        }
        "and_mod" => {
            let (ev, e) = entry!().and_modify(|v| { user(); let a = v.get(); v.set(a + x.p) }).or_put(Val::new(x.v));
            let mut r = vec![e.key().i, e.get().get()];
            evicted(&mut r, ev);
            r
        }
        "ent_ins" => {
            let (ev, e) = entry!().put_entry(Val::new(x.v));
            hold(cx, x, t, md, x.p).await;
            let mut r = vec![e.key().i, e.get().get()];
            evicted(&mut r, ev);
            r
        }
        "ent_def" => {
            let (ev, e) = entry!().or_default();
            let mut r = vec![e.key().i, e.get().get()];
            evicted(&mut r, ev);
            r
        }
        "ent_rem" => match entry!() {
            hash_cache::Entry::Occupied(e) => {
                hold(cx, x, t, md, x.p).await;
                let (k, v) = e.remove_entry();
                vec![1, k.i, v.get()]
            }
            hash_cache::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.into_key().i]
            }
        },
        "ent_rmw" => match entry!() {
            hash_cache::Entry::Occupied(mut e) => {
                let old = e.put(Val::new(x.v));
                hold(cx, x, t, md, x.p).await;
                vec![1, e.key().i, old.get()]
            }
            hash_cache::Entry::Vacant(e) => {
                hold(cx, x, t, md, x.p).await;
                vec![0, e.key().i]
            }
        },
        o => panic!("cache op {o}"),
    }
}

async fn tree_op(cx: &Cx, h: &Tree, x: &Op, t: i64) -> Vec<i64> {
    let (l, md) = (cx.l, x.md);
    let q = Q::new(x.k, l);
    match x.o {
        "insert" => match sa!(md, h, insert_sync, insert_async, Key::new(x.k, x.i, l), Val::new(x.v)) {
            Ok(()) => vec![1],
            Err((k, v)) => vec![0, k.i, v.get()],
        },
        "bremove" => vec![i64::from(sa!(md, h, remove_sync, remove_async, &q))],
        "bremove_if" => vec![i64::from(sa!(md, h, remove_if_sync, remove_if_async, &q, |v| { user(); let a = v.get(); pt(); a.rem_euclid(2) == x.p }))],
        "remove_range" => {
            let b = bounds(x.k, x.v, x.p, l);
            sa!(md, h, remove_range_sync, remove_range_async, b);
            vec![]
        }
        "read" => match h.peek_with(&q, |k, v| { user(); k.check(); let a = v.get(); pt(); if a != v.get() { bad(8); } (k.i, a) }) {
            Some((i, v)) => vec![1, i, v],
            None => vec![0],
        },
        "peek" => {
            let g = Guard::new();
            match h.peek(&q, &g) {
                Some(v) => vec![1, watch(md, v, x.p).await],
                None => vec![0],
            }
        }
        "peek_entry" => {
            let g = Guard::new();
            match h.peek_entry(&q, &g) {
                Some((k, v)) => {
                    let a = watch(md, v, x.p).await;
                    k.check();
                    vec![1, k.i, a]
                }
                None => vec![0],
            }
        }
        "contains" => vec![i64::from(h.contains(&q))],
        "titer" | "range" => {
            let g = Guard::new();
            let mut held = Vec::new();
            let (mut n, mut done, mut extra) = (0, 1, 0);
            let mut sub = x.sub.iter();
            macro_rules! run {
                ($it:expr, $lim:expr) => {{
                    let mut it = $it;
                    loop {
                        pt();
                        let Some((k, v)) = it.next() else { break };
                        k.check();
                        let a = v.get();
                        if !cx.quiet {
                            log(Ev::Vis { t, k: k.k, i: k.i, v: a, d: 16, w: 0 });
                        }
                        held.push((v, a));
                        n += 1;
                        meanwhile(cx, &mut sub, t).await;
                        if $lim > 0 && n >= $lim {
                            done = 0;
                            break;
                        }
                    }
                    if done == 1 {
                        for _ in 0..3 {
                            if it.next().is_some() {
                                extra += 1;
                            }
                        }
                    }
                }};
            }
            if x.o == "titer" {
                run!(h.iter(&g), x.p);
            } else {
                run!(h.range(bounds(x.k, x.v, x.p, l), &g), 0);
            }
            for (v, a) in held {
                if v.get() != a {
                    bad(8);
                }
            }
            vec![done, extra]
        }
        "clear" => {
            h.clear();
            vec![]
        }
        "len" => vec![h.len() as i64],
        "is_empty" => vec![i64::from(h.is_empty())],
        "depth" => vec![h.depth() as i64],
        o => panic!("tree op {o}"),
    }
}

impl Cx {
    pub fn new(kind: &str, l: Layout, cap: usize, max: usize) -> Cx {
        let c = match kind {
            "map" => C::Map(if cap == 0 { Map::with_hasher(Ident) } else { Map::with_capacity_and_hasher(cap, Ident) }),
            "set" => C::Set(if cap == 0 { Set::with_hasher(Ident) } else { Set::with_capacity_and_hasher(cap, Ident) }),
            "index" => C::Index(if cap == 0 { Index::with_hasher(Ident) } else { Index::with_capacity_and_hasher(cap, Ident) }),
            "cache" => C::Cache(if cap == 0 && max == 0 { Cache::with_hasher(Ident) } else { Cache::with_capacity_and_hasher(cap, if max == 0 { 256 } else { max }, Ident) }),
            "tree" => C::Tree(Tree::new()),
            _ => panic!("kind {kind}"),
        };
        Cx { c, l, resv: Mutex::new(Vec::new()), quiet: false }
    }

    /// Runs the operation and returns its result.
    pub async fn raw(&self, x: &Op, t: i64) -> Vec<i64> {
        if x.o == "fill" {
            // Inserts keys k..=i with step max(1, p), without recording.
            let mut k = x.k;
            while k <= x.i {
                let y = Op { o: "insert", k, i: k, v: 1000 + k, p: 0, md: x.md, cut: Cut::No, sub: vec![] };
                Box::pin(self.raw_(&y, t)).await;
                k += x.p.max(1);
            }
            return vec![];
        }
        if x.o == "drain" {
            let mut k = x.k;
            while k <= x.i {
                let o = if matches!(self.c, C::Index(_) | C::Tree(_)) { "bremove" } else { "remove" };
                let y = Op { o, k, i: k, v: 0, p: 0, md: x.md, cut: Cut::No, sub: vec![] };
                Box::pin(self.raw_(&y, t)).await;
                k += x.p.max(1);
            }
            return vec![];
        }
        self.raw_(x, t).await
    }

    async fn raw_(&self, x: &Op, t: i64) -> Vec<i64> {
        if x.o == "live" {
            if x.i > 0 {
                collect(x.i);
            }
            let (a, b) = crate::obj::live();
            return vec![a, b];
        }
        if let Some(r) = crate::whole::whole(self, x) {
            return r;
        }
        match &self.c {
            C::Map(h) => map_op(self, h, x, t).await,
            C::Set(h) => set_op(self, h, x, t).await,
            C::Index(h) => index_op(self, h, x, t).await,
            C::Cache(h) => cache_op(self, h, x, t).await,
            C::Tree(h) => tree_op(self, h, x, t).await,
        }
    }

    /// Runs the operation and records it.
    pub async fn exec(&self, x: &Op, t: i64) -> Vec<i64> {
        if x.o == "gc" {
            collect(x.p);
            return vec![];
        }
        if x.o == "yield" {
            hold(self, x, t, x.md, x.p.max(1)).await;
            return vec![];
        }
        let mut x = x.clone();
        if matches!(self.c, C::Set(_)) {
            x.v = 0;
        }
        let x = &x;
        log(Ev::Call { t, o: x.o, k: x.k, i: x.i, v: x.v, p: x.p });
        match x.cut {
            Cut::No => {
                let r = self.raw(x, t).await;
                log(Ev::Ret { t, r: r.clone() });
                r
            }
            Cut::Panic(n) => {
                let f = std::panic::AssertUnwindSafe(self.raw(x, t));
                let r = Catch { f: Box::pin(f.0), n }.await;
                match r {
                    Some(r) => {
                        log(Ev::Ret { t, r: r.clone() });
                        r
                    }
                    None => {
                        log(Ev::Panic { t, inj: 1 });
                        vec![]
                    }
                }
            }
            Cut::Drop(n) | Cut::Woken(n) => {
                let woken = matches!(x.cut, Cut::Woken(_));
                let r = Cancel { f: Some(Box::pin(self.raw(x, t))), n, woken, t }.await;
                match r {
                    Some(r) => {
                        log(Ev::Ret { t, r: r.clone() });
                        r
                    }
                    None => {
                        log(Ev::Cancel { t });
                        vec![]
                    }
                }
            }
        }
    }

    /// Sorted contents, by scanning.
    pub fn contents(&self) -> Vec<[i64; 3]> {
        contents(&self.c)
    }

    pub fn len(&self) -> (i64, i64) {
        match &self.c {
            C::Map(h) => (h.len() as i64, i64::from(h.is_empty())),
            C::Set(h) => (h.len() as i64, i64::from(h.is_empty())),
            C::Index(h) => (h.len() as i64, i64::from(h.is_empty())),
            C::Cache(h) => (h.len() as i64, i64::from(h.is_empty())),
            C::Tree(h) => (h.len() as i64, i64::from(h.is_empty())),
        }
    }

    /// Capacity, and its bounds; the depth of a tree.
    pub fn capacity(&self) -> [i64; 3] {
        let r = match &self.c {
            C::Map(h) => cap_res(h.capacity(), h.capacity_range()),
            C::Set(h) => cap_res(h.capacity(), h.capacity_range()),
            C::Index(h) => cap_res(h.capacity(), h.capacity_range()),
            C::Cache(h) => cap_res(h.capacity(), h.capacity_range()),
            C::Tree(h) => vec![h.depth() as i64, 0, 0],
        };
        [r[0], r[1], r[2]]
    }
}

impl Drop for Cx {
    fn drop(&mut self) {
        let r = std::mem::take(&mut *self.resv.lock().unwrap_or_else(|p| p.into_inner()));
        drop(r);
    }
}

/// Lets garbage collection make progress.
pub fn collect(n: i64) {
    for _ in 0..n.max(1) {
        let g = Guard::new();
        g.accelerate();
        drop(g);
    }
}

/// Polls a future to completion, parking the managed task in between.
pub fn block_on<F: Future>(f: F) -> F::Output {
    use std::sync::Arc;
    use std::task::Wake;
    struct W(rt::Thread);
    unsafe impl Send for W {}
    unsafe impl Sync for W {}
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark();
        }
    }
    let w = std::task::Waker::from(Arc::new(W(rt::current())));
    let mut c = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut c) {
            return r;
        }
        rt::park();
    }
}

/// Sorted contents, by scanning.
pub fn contents(c: &C) -> Vec<[i64; 3]> {
    let mut r = Vec::new();
    match c {
        C::Map(h) => {
            h.iter_sync(|k, v| {
                r.push([k.k, k.i, v.get()]);
                true
            });
        }
        C::Set(h) => {
            h.iter_sync(|k| {
                k.check();
                r.push([k.k, k.i, 0]);
                true
            });
        }
        C::Index(h) => {
            h.iter_sync(|k, v| {
                r.push([k.k, k.i, v.get()]);
                true
            });
        }
        C::Cache(h) => {
            h.iter_sync(|k, v| {
                r.push([k.k, k.i, v.get()]);
                true
            });
        }
        C::Tree(h) => {
            let g = Guard::new();
            for (k, v) in h.iter(&g) {
                r.push([k.k, k.i, v.get()]);
            }
        }
    }
    if !matches!(c, C::Tree(_)) {
        r.sort_unstable();
    }
    r
}

pub const _S: &[i64] = STOP;
