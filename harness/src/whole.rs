//! Operations on whole containers.

use crate::obj::{bad, Key, Layout, Val, LAYOUT};
use crate::ops::{contents, Cache, Cx, Index, Map, Op, Set, Tree, C};

fn flat(c: Vec<[i64; 3]>) -> Vec<i64> {
    c.into_iter().flatten().collect()
}

/// Adds an entry.
fn put(c: &C, k: Key, v: i64) {
    match c {
        C::Map(h) => drop(h.insert_sync(k, Val::new(v))),
        C::Set(h) => drop(h.insert_sync(k)),
        C::Index(h) => drop(h.insert_sync(k, Val::new(v))),
        C::Cache(h) => drop(h.put_sync(k, Val::new(v))),
        C::Tree(h) => drop(h.insert_sync(k, Val::new(v))),
    }
}

fn empty(c: &C, cap: usize) -> C {
    use crate::obj::Ident;
    match c {
        C::Map(_) => C::Map(Map::with_capacity_and_hasher(cap, Ident)),
        C::Set(_) => C::Set(Set::with_capacity_and_hasher(cap, Ident)),
        C::Index(_) => C::Index(Index::with_capacity_and_hasher(cap, Ident)),
        C::Cache(_) => C::Cache(Cache::with_capacity_and_hasher(cap, 1 << 20, Ident)),
        C::Tree(_) => C::Tree(Tree::new()),
    }
}

fn eq(a: &C, b: &C) -> bool {
    match (a, b) {
        (C::Map(a), C::Map(b)) => a == b,
        (C::Set(a), C::Set(b)) => a == b,
        (C::Index(a), C::Index(b)) => a == b,
        (C::Cache(a), C::Cache(b)) => a == b,
        (C::Tree(a), C::Tree(b)) => a == b,
        _ => unreachable!(),
    }
}

/// An iterator without a size hint.
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

fn collect(c: &C, items: Vec<(Key, i64)>, hint: bool) -> Option<C> {
    let kv = items.into_iter().map(|(k, v)| (k, Val::new(v)));
    let k = |(k, _v): (Key, Val)| k;
    Some(match (c, hint) {
        (C::Map(_), true) => C::Map(kv.collect()),
        (C::Map(_), false) => C::Map(NoHint(kv).collect()),
        (C::Set(_), true) => C::Set(kv.map(k).collect()),
        (C::Set(_), false) => C::Set(NoHint(kv.map(k)).collect()),
        (C::Index(_), true) => C::Index(kv.collect()),
        (C::Index(_), false) => C::Index(NoHint(kv).collect()),
        (C::Cache(_), true) => C::Cache(kv.collect()),
        (C::Cache(_), false) => C::Cache(NoHint(kv).collect()),
        (C::Tree(_), _) => return None,
    })
}

/// The operations: clone, eq, fmt, serde, fromiter, bidx.
pub fn whole(cx: &Cx, x: &Op) -> Option<Vec<i64>> {
    let (c, l) = (&cx.c, cx.l);
    if !matches!(x.o, "clone" | "eq" | "fmt" | "serde" | "fromiter" | "bidx") {
        return None;
    }
    if x.o == "bidx" {
        let q = crate::obj::Q::new(x.k, l);
        return Some(match c {
            C::Map(h) => vec![h.bucket_index(&q) as i64, h.capacity() as i64],
            C::Set(h) => vec![h.bucket_index(&q) as i64, h.capacity() as i64],
            C::Index(h) => vec![h.bucket_index(&q) as i64, h.capacity() as i64],
            _ => vec![0, 0],
        });
    }
    if x.o == "clone" {
        let d = match c {
            C::Map(h) => C::Map(h.clone()),
            C::Set(h) => C::Set(h.clone()),
            C::Index(h) => C::Index(h.clone()),
            C::Tree(h) => C::Tree(h.clone()),
            C::Cache(_) => return Some(flat(contents(c))),
        };
        // Changes to the copy are of no concern to the original.
        put(&d, Key::new(900_000, 0, l), 1);
        let mut r = contents(&d);
        if r.last().is_none_or(|e| e[0] != 900_000) {
            bad(32);
        }
        r.pop();
        return Some(flat(r));
    }
    if x.o == "fmt" {
        let s = match c {
            C::Map(h) => format!("{h:?}"),
            C::Set(h) => format!("{h:?}"),
            C::Index(h) => format!("{h:?}"),
            C::Cache(h) => format!("{h:?}"),
            C::Tree(h) => format!("{h:?}"),
        };
        let set = matches!(c, C::Set(_));
        let mut r: Vec<[i64; 2]> = s
            .trim_matches(['{', '}'])
            .split(", ")
            .filter(|x| !x.is_empty())
            .map(|e| {
                if set {
                    [e.parse().unwrap_or(-1), 0]
                } else {
                    let (k, v) = e.split_once(": ").unwrap_or(("-1", "-1"));
                    [k.parse().unwrap_or(-1), v.parse().unwrap_or(-1)]
                }
            })
            .collect();
        if !matches!(c, C::Tree(_)) {
            r.sort_unstable();
        }
        return Some(r.into_iter().flatten().collect());
    }
    let now = contents(c);
    if x.o == "eq" {
        let d = empty(c, x.k as usize);
        let mut items = now.clone();
        match x.p {
            // 1: an entry is missing.
            1 => {
                items.pop();
            }
            // 2: an entry is extra.
            2 => items.push([900_000, 0, 1]),
            // 3: a value differs.
            3 => {
                if let Some(e) = items.last_mut() {
                    e[2] += 1;
                }
            }
            // 4: inserted in another order.
            4 => items.reverse(),
            // 5: empty.
            5 => items.clear(),
            // 6: a key differs.
            6 => {
                if let Some(e) = items.last_mut() {
                    e[0] = 900_000;
                }
            }
            // 7: the value of the first entry differs.
            7 => {
                if let Some(e) = items.first_mut() {
                    e[2] += 1;
                }
            }
            _ => (),
        }
        for e in &items {
            put(&d, Key::new(e[0], e[1] + 7, l), e[2]);
        }
        let r = eq(c, &d);
        if eq(&d, c) != r {
            bad(64);
        }
        return Some(vec![i64::from(r)]);
    }
    // Duplicate keys come with a different value and a different key object.
    let dup = x.p % 2 == 1;
    if x.o == "fromiter" {
        let mk = |e: &[i64; 3], d: i64| (Key::new(e[0], e[1] + d, l), e[2] + 2 * d);
        let mut items: Vec<(Key, i64)> = now.iter().map(|e| mk(e, 0)).collect();
        if dup {
            items.extend(now.iter().map(|e| mk(e, 1)));
        }
        let Some(d) = collect(c, items, x.p < 2) else { return Some(flat(now)) };
        return Some(flat(contents(&d)));
    }
    LAYOUT.with(|y| y.set(l));
    let mut s = match c {
        C::Map(h) => serde_json::to_string(h),
        C::Set(h) => serde_json::to_string(h),
        C::Index(h) => serde_json::to_string(h),
        C::Cache(h) => serde_json::to_string(h),
        C::Tree(h) => serde_json::to_string(h),
    }
    .unwrap_or_default();
    if dup {
        let set = matches!(c, C::Set(_));
        let (o, z) = if set { ("[", "]") } else { ("{", "}") };
        let inner = s.trim_matches(['{', '}', '[', ']']).to_string();
        let more: Vec<String> = now
            .iter()
            .map(|e| {
                let k = e[0] * 1_000_000 + e[1] + 1;
                if set {
                    format!("{k}")
                } else {
                    format!("\"{k}\":{}", e[2] + 2)
                }
            })
            .collect();
        s = format!("{o}{inner}{}{}{z}", if inner.is_empty() { "" } else { "," }, more.join(","));
    }
    fn de<T: for<'d> serde::Deserialize<'d>>(s: &str) -> Option<T> {
        serde_json::from_str(s).ok()
    }
    let d = match c {
        C::Map(_) => de::<Map>(&s).map(C::Map),
        C::Set(_) => de::<Set>(&s).map(C::Set),
        C::Index(_) => de::<Index>(&s).map(C::Index),
        C::Cache(_) => de::<Cache>(&s).map(C::Cache),
        C::Tree(_) => de::<Tree>(&s).map(C::Tree),
    };
    Some(d.map_or(vec![-1], |d| flat(contents(&d))))
}

#[allow(unused)]
fn _l(_: Layout) {}
