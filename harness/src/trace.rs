//! Event log of the current execution.

use std::fmt::Write as _;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// Task, name, key, key object, value, parameter, expected return.
    Call { t: i64, o: &'static str, k: i64, i: i64, v: i64, p: i64 },
    Ret { t: i64, r: Vec<i64> },
    /// The operation of the task has been abandoned.
    Cancel { t: i64 },
    /// A closure was called; `l` tells if the closure is called with the entry locked;
    /// `d`: 0 keep, 1 remove, 2 stop, 3 mutate (to `w`), 4 mutate and remove.
    Vis { t: i64, k: i64, i: i64, v: i64, d: i64, w: i64 },
    /// A task panicked.
    Panic { t: i64, inj: i64 },
    /// Quiescent state: sorted contents, live keys and values, misbehavior bits.
    Quiet { c: Vec<[i64; 3]>, lk: i64, lv: i64, bad: i64, len: i64, emp: i64, cap: [i64; 3] },
    /// Container dropped: objects left, misbehavior bits.
    Gone { lk: i64, lv: i64, bad: i64 },
    /// The execution did not complete: 1 deadlock, 2 livelock, 3 hang.
    Stuck { w: i64 },
    /// Free-form observation.
    Obs { t: i64, o: &'static str, r: Vec<i64> },
}

static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());

pub fn log(e: Ev) {
    crate::rt::atomically(|| LOG.lock().unwrap_or_else(|p| p.into_inner()).push(e));
}

pub fn take() -> Vec<Ev> {
    std::mem::take(&mut *LOG.lock().unwrap_or_else(|p| p.into_inner()))
}

fn ints(r: &[i64]) -> String {
    let v: Vec<String> = r.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

/// Puts the result of each operation into its call, and serializes the events.
pub fn json(ev: &[Ev]) -> String {
    let mut s = String::from("[");
    for (n, e) in ev.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        match e {
            Ev::Call { t, o, k, i, v, p } => {
                // Merge a call that is directly followed by its return.
                let r = ev[n + 1..]
                    .iter()
                    .find_map(|x| match x {
                        Ev::Ret { t: u, r } if u == t => Some(Some(r)),
                        Ev::Call { t: u, .. } if u == t => Some(None),
                        _ => None,
                    })
                    .flatten();
                let (c, r) = match r {
                    Some(r) => (1, ints(r)),
                    None => (0, "[]".to_string()),
                };
                let _ = write!(s, "{{\"e\":\"call\",\"t\":{t},\"o\":\"{o}\",\"k\":{k},\"i\":{i},\"v\":{v},\"p\":{p},\"c\":{c},\"r\":{r}}}");
            }
            Ev::Ret { t, r } => {
                let _ = write!(s, "{{\"e\":\"ret\",\"t\":{t},\"r\":{}}}", ints(r));
            }
            Ev::Cancel { t } => {
                let _ = write!(s, "{{\"e\":\"cancel\",\"t\":{t}}}");
            }
            Ev::Vis { t, k, i, v, d, w } => {
                let _ = write!(s, "{{\"e\":\"vis\",\"t\":{t},\"k\":{k},\"i\":{i},\"v\":{v},\"d\":{d},\"w\":{w}}}");
            }
            Ev::Panic { t, inj } => {
                let _ = write!(s, "{{\"e\":\"panic\",\"t\":{t},\"inj\":{inj}}}");
            }
            Ev::Quiet { c, lk, lv, bad, len, emp, cap } => {
                let c: Vec<String> = c.iter().map(|x| ints(x)).collect();
                let _ = write!(s, "{{\"e\":\"quiet\",\"c\":[{}],\"lk\":{lk},\"lv\":{lv},\"bad\":{bad},\"len\":{len},\"emp\":{emp},\"cap\":{}}}", c.join(","), ints(cap));
            }
            Ev::Gone { lk, lv, bad } => {
                let _ = write!(s, "{{\"e\":\"gone\",\"lk\":{lk},\"lv\":{lv},\"bad\":{bad}}}");
            }
            Ev::Stuck { w } => {
                let _ = write!(s, "{{\"e\":\"stuck\",\"w\":{w}}}");
            }
            Ev::Obs { t, o, r } => {
                let _ = write!(s, "{{\"e\":\"obs\",\"t\":{t},\"o\":\"{o}\",\"r\":{}}}", ints(r));
            }
        }
    }
    s.push(']');
    s
}
