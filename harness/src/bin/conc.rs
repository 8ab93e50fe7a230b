//! Runs concurrent scenarios under the deterministic scheduler, in many interleavings, and writes
//! the distinct histories.
//!
//! conc SCENARIOS OUT.ndjson [ms=N] [seed=N] [shard=I/N] [max=N] [scn=NAME] [pol=POLICY]

use harness::alloc::{sweep, Alloc, ON};
use harness::obj;
use harness::ops::{block_on, collect, Cx};
use harness::rt::{self, Outcome, Policy};
use harness::scn::{parse, Scn};
use harness::trace::{self, json, log, Ev};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Alloc = Alloc;

struct Out {
    init: Vec<[i64; 3]>,
    ev: Vec<Ev>,
    steps: u32,
    done: Vec<u32>,
    outcome: Outcome,
    cap: (i64, i64),
    /// Minimum capacity, number of insertions before.
    min0: i64,
    ins: i64,
    /// Capacity reserved before.
    rsv: i64,
}

/// The container at the beginning, what was inserted and what is reserved.
fn start(s: &Scn) -> (Arc<Cx>, i64, i64, i64) {
    // It does not move: the reservations refer to it.
    let cx = Arc::new(Cx::new(&s.kind, s.layout, s.cap, s.max));
    let min0 = if s.kind == "tree" { 0 } else { cx.capacity()[1] };
    let (mut ins, mut rsv) = (0, 0);
    for x in &s.pre {
        ins += if x.o == "fill" { (x.i - x.k) / x.p.max(1) + 1 } else { 1 };
        if x.o == "gc" {
            collect(x.p);
        } else {
            let r = block_on(cx.raw(x, 0));
            match x.o {
                "reserve" => rsv += r[0],
                "unreserve" => rsv -= r[1],
                _ => (),
            }
        }
    }
    (cx, min0, ins, rsv)
}

/// The contents at the beginning: those of a twin, because looking at the container would drive its rehash.
fn contents_of(s: &Scn) -> Vec<[i64; 3]> {
    obj::reset();
    trace::take();
    ON.store(true, SeqCst);
    let cx = start(s).0;
    let init = cx.contents();
    drop(cx);
    for _ in 0..4000 {
        if obj::live() == (0, 0) {
            break;
        }
        collect(1);
    }
    sweep();
    ON.store(false, SeqCst);
    trace::take();
    init
}

fn one(s: &Scn, init: &[[i64; 3]], pol: Policy) -> Out {
    obj::reset();
    trace::take();
    obj::CMP_POINTS.store(s.cmp, SeqCst);
    ON.store(true, SeqCst);
    let init = init.to_vec();
    let (cx, min0, ins, rsv) = start(s);
    trace::take();
    let cap0 = cx.capacity()[0];
    let mut tasks: Vec<rt::Task> = Vec::new();
    for (t, ops) in s.tasks.iter().enumerate() {
        let (cx, ops) = (cx.clone(), ops.clone());
        tasks.push(Box::new(move || {
            for x in &ops {
                block_on(cx.exec(x, t as i64 + 1));
            }
        }));
    }
    let rep = rt::run(tasks, pol, 1_500_000, Duration::from_secs(60));
    for (t, p) in rep.panics.iter().enumerate() {
        if let Some(m) = p {
            eprintln!("panic in task {}: {m}", t + 1);
            log(Ev::Panic { t: t as i64 + 1, inj: 0 });
        }
    }
    if rep.outcome != Outcome::Complete {
        log(Ev::Stuck {
            w: match rep.outcome {
                Outcome::Deadlock => 1,
                Outcome::Livelock => 2,
                _ => 3,
            },
        });
        return Out { init, ev: trace::take(), steps: rep.steps, done: rep.done.clone(), outcome: rep.outcome, cap: (cap0, 0), min0, ins, rsv };
    }
    // The rest runs as a single task: a lock that stays held shows up as a deadlock.
    let (c2, post) = (cx.clone(), s.post.clone());
    let rep2 = rt::run(
        vec![Box::new(move || {
            for x in &post {
                block_on(c2.exec(x, 0));
            }
            let c = c2.contents();
            let (len, emp) = c2.len();
            let (lk, lv) = obj::live();
            let cap = c2.capacity();
            log(Ev::Quiet { c, lk, lv, bad: obj::take_bad() as i64, len, emp, cap });
        })],
        Policy::Preempt(vec![]),
        3_000_000,
        Duration::from_secs(60),
    );
    if rep2.outcome != Outcome::Complete || rep2.panics[0].is_some() {
        if let Some(m) = &rep2.panics[0] {
            eprintln!("panic at the end: {m}");
            log(Ev::Panic { t: 0, inj: 0 });
        } else {
            log(Ev::Stuck { w: 4 });
        }
        return Out { init, ev: trace::take(), steps: rep.steps, done: rep.done.clone(), outcome: if rep2.outcome == Outcome::Complete { Outcome::Complete } else { Outcome::Deadlock }, cap: (cap0, 0), min0, ins, rsv };
    }
    let cap = (cap0, cx.capacity()[0]);
    drop(cx);
    for _ in 0..4000 {
        if obj::live() == (0, 0) {
            break;
        }
        collect(1);
    }
    sweep();
    let (lk, lv) = obj::live();
    log(Ev::Gone { lk, lv, bad: obj::take_bad() as i64 });
    ON.store(false, SeqCst);
    Out { init, ev: trace::take(), steps: rep.steps, done: rep.done.clone(), outcome: rep.outcome, cap, min0, ins, rsv }
}

/// Distinct histories of the same outcome (what each task saw, in its own order).
#[derive(Default)]
struct Stratum {
    /// The first one, those in which most operations precede each other, and an arbitrary few.
    kept: Vec<(u64, u64, String)>,
}

const PREC: usize = 4;
const ANY: usize = 3;

impl Stratum {
    /// Tells if a history would be kept.
    fn wants(&self, score: u64, hash: u64) -> bool {
        self.kept.len() < PREC + ANY || self.kept.iter().any(|x| x.0 < score || x.1 > hash)
    }

    fn add(&mut self, score: u64, hash: u64, line: String) {
        self.kept.push((score, hash, line));
        self.kept.sort_by_key(|x| (std::cmp::Reverse(x.0), x.1));
        if self.kept.len() > PREC + ANY {
            let n = (PREC..self.kept.len()).max_by_key(|n| self.kept[*n].1).unwrap();
            self.kept.swap_remove(n);
        }
    }
}

// Nested operations are recorded as those of task + 50.
fn task_of(e: &Ev) -> i64 {
    match e {
        Ev::Call { t, .. } | Ev::Ret { t, .. } | Ev::Cancel { t } | Ev::Vis { t, .. } | Ev::Panic { t, .. } | Ev::Obs { t, .. } => *t % 50,
        _ => 0,
    }
}

fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Hash of the history up to reordering of adjacent calls and of adjacent returns, hash of its
/// outcome, and how many pairs of operations are ordered.
fn digest(ev: &[Ev], nt: i64) -> (u64, u64, u64) {
    let mut c: Vec<&Ev> = ev.iter().collect();
    let mut i = 0;
    while i < c.len() {
        let mut j = i + 1;
        let k = std::mem::discriminant(c[i]);
        if matches!(c[i], Ev::Call { .. } | Ev::Ret { .. }) {
            while j < c.len() && std::mem::discriminant(c[j]) == k {
                j += 1;
            }
            c[i..j].sort_by_key(|e| task_of(e));
        }
        i = j;
    }
    let mut st = Vec::new();
    for t in 0..=nt {
        st.push(hash_of(&c.iter().filter(|e| task_of(e) == t).collect::<Vec<_>>()));
    }
    let (mut score, mut rets) = (0, vec![0u64; nt as usize + 1]);
    for e in ev {
        match e {
            Ev::Ret { t, .. } => rets[(*t % 50) as usize] += 1,
            Ev::Call { t, .. } => score += rets.iter().enumerate().filter(|(u, _)| *u as i64 != *t % 50).map(|x| x.1).sum::<u64>(),
            _ => (),
        }
    }
    (hash_of(&c), hash_of(&st), score)
}

struct Run {
    seen: HashSet<u64>,
    strata: HashMap<u64, Stratum>,
    out: std::io::BufWriter<std::fs::File>,
    written: usize,
    max: usize,
    execs: u64,
    pos: Option<std::fs::File>,
    init: Vec<[i64; 3]>,
}

impl Run {
    /// Leaves a note what is run, in case it is the last thing that happens.
    fn at(&self, s: &Scn, pol: &str) {
        if let Some(f) = &self.pos {
            use std::os::unix::fs::FileExt;
            let m = format!("{:<200}\n", format!("{} {pol}", s.name));
            let _ = f.write_at(m.as_bytes(), 0);
        }
    }

    /// Returns the number of steps, and of those when each task finished.
    fn go(&mut self, s: &Scn, pol: Policy) -> (u32, Vec<u32>) {
        let tag = format!("{pol:?}");
        self.at(s, &pol_text(&pol));
        let o = one(s, &self.init, pol.clone());
        self.execs += 1;
        if self.execs % 100 == 0 {
            // The collectors of threads that are gone are nested, deeper and deeper otherwise.
            collect(40);
        }
        let special = o.outcome != Outcome::Complete;
        let (id, st, score) = digest(&o.ev, s.tasks.len() as i64);
        if self.seen.insert(id) || special {
            let st = self.strata.entry(st).or_default();
            if special || st.wants(score, id) {
                let init: Vec<String> = o.init.iter().map(|x| format!("[{},{},{}]", x[0], x[1], x[2])).collect();
                let rz = s.rz | i64::from(o.cap.0 != o.cap.1);
                let line = format!(
                    "{{\"scn\":\"{}\",\"pol\":\"{}\",\"kind\":\"{}\",\"rz\":{},\"lru\":{},\"conc\":{},\"cap\":{},\"max\":{},\"min0\":{},\"ins\":{},\"rsv\":{},\"init\":[{}],\"ev\":{}}}",
                    s.name,
                    pol_text(&pol),
                    s.kind,
                    rz,
                    s.lru,
                    i64::from(s.tasks.len() > 1),
                    s.cap,
                    if s.max == 0 { 256 } else { s.max },
                    o.min0,
                    o.ins,
                    o.rsv,
                    init.join(","),
                    json(&o.ev)
                );
                if special {
                    let _ = writeln!(self.out, "{line}");
                } else {
                    st.add(score, id, line);
                }
            }
        }
        if special {
            self.flush();
            println!("stuck scn={} policy={tag} outcome={:?}", s.name, o.outcome);
            std::process::exit(3);
        }
        (o.steps, o.done)
    }

    /// Writes the histories of a scenario: of each outcome some, at most `max` in total.
    fn flush(&mut self) {
        let mut v: Vec<(u64, Stratum)> = self.strata.drain().collect();
        v.sort_by_key(|x| x.0);
        self.written = 0;
        for n in 0..PREC + ANY {
            for (_, s) in &v {
                if self.written < self.max {
                    if let Some(x) = s.kept.get(n) {
                        self.written += 1;
                        let _ = writeln!(self.out, "{}", x.2);
                    }
                }
            }
        }
        let _ = self.out.flush();
    }
}

fn pol_text(p: &Policy) -> String {
    match p {
        Policy::Preempt(v) => format!("p:{}", v.iter().map(|x| format!("{}.{}", x.0, x.1)).collect::<Vec<_>>().join(",")),
        Policy::Random { seed, bits } => format!("r:{seed}.{bits}"),
        Policy::Pct { seed, depth, len } => format!("c:{seed}.{depth}.{len}"),
    }
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545_F491_4F6C_DD1D)
}

fn parse_pol(s: &str) -> Policy {
    // p:1.0,5.1  r:seed.bits  c:seed.depth.len
    let (k, v) = s.split_once(':').unwrap();
    let n = |x: &str| -> Vec<u64> { x.split('.').map(|y| y.parse().unwrap()).collect() };
    match k {
        "p" => Policy::Preempt(v.split(',').filter(|x| !x.is_empty()).map(|x| { let y = n(x); (y[0] as u32, y[1] as u8) }).collect()),
        "r" => { let y = n(v); Policy::Random { seed: y[0], bits: y[1] as u32 } }
        _ => { let y = n(v); Policy::Pct { seed: y[0], depth: y[1] as u32, len: y[2] as u32 } }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().skip(3).find_map(|x| x.strip_prefix(&format!("{n}=")).map(str::to_string));
    let ms: u64 = get("ms").map_or(500, |x| x.parse().unwrap());
    let mut seed: u64 = get("seed").map_or(1, |x| x.parse::<u64>().unwrap()).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let (si, sn) = get("shard").map_or((0, 1), |x| { let (p, q) = x.split_once('/').unwrap(); (p.parse::<usize>().unwrap(), q.parse::<usize>().unwrap()) });
    let max: usize = get("max").map_or(400, |x| x.parse().unwrap());
    let scns = parse(&std::fs::read_to_string(&a[1]).unwrap());
    let only = get("scn");
    let _ = rt::FREED.set(harness::alloc::freed);
    if std::env::var_os("SHOW").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let mut run = Run {
        seen: HashSet::new(),
        strata: HashMap::new(),
        out: std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap()),
        written: 0,
        max,
        execs: 0,
        pos: std::fs::File::create(format!("{}.pos", a[2])).ok(),
        init: Vec::new(),
    };
    for (n, s) in scns.iter().enumerate() {
        if n % sn != si || only.as_ref().is_some_and(|o| *o != s.name) {
            continue;
        }
        run.seen.clear();
        run.strata.clear();
        run.at(s, "p:");
        run.init = contents_of(s);
        if let Some(p) = get("pol") {
            run.go(s, parse_pol(&p));
            run.flush();
            continue;
        }
        let nt = s.tasks.len() as u64;
        let t0 = Instant::now();
        let lim = Duration::from_millis(ms);
        let (mut exec0, mut full1, mut pairs) = (run.execs, true, 0u64);
        // No pre-emption. After that a pre-emption of a task that is run first, in favour of any other, at any step,
        // or a later one if there are more than two tasks.
        let mut len = 0;
        // Steps of each task if it is the first one.
        let mut own: Vec<u64> = Vec::new();
        // Choices of (first task, number of the other task), with the steps at which these make a difference.
        let mut groups: Vec<(u8, u8, u32, u32)> = Vec::new();
        for f in 0..nt {
            let (n, mut done) = run.go(s, Policy::Preempt(vec![(0, f as u8)]));
            len = len.max(n);
            own.push(u64::from(done[f as usize].max(1)));
            done.sort_unstable();
            let mut from = 0;
            for (x, d) in done.iter().enumerate() {
                let others = (nt as usize).saturating_sub(x + 1);
                for k in 0..others {
                    if *d > from {
                        groups.push((f as u8, k as u8, from + 1, *d));
                    }
                }
                from = *d;
            }
        }
        // Small ones first: what they leave of their share goes to the others.
        groups.sort_by_key(|g| g.3 - g.2);
        let ng = groups.len();
        for (n, &(f, k, lo, hi)) in groups.iter().enumerate() {
            let (g0, e0) = (Instant::now(), run.execs);
            let share = (lim * 2 / 3).saturating_sub(t0.elapsed()) / (ng - n) as u32;
            let mut todo: Vec<u32> = (lo..=hi).collect();
            // In random order: a sample, if there is not enough time.
            for i in (1..todo.len()).rev() {
                todo.swap(i, (rnd(&mut seed) >> 33) as usize % (i + 1));
            }
            for st in &todo {
                run.go(s, Policy::Preempt(vec![(0, f), (*st, k)]));
                if g0.elapsed() > share {
                    break;
                }
            }
            full1 = full1 && run.execs - e0 == todo.len() as u64;
        }
        // Two or three pre-emptions, random walks and PCT.
        let mut n = 0u64;
        while nt > 1 && t0.elapsed() < lim {
            n += 1;
            let r = rnd(&mut seed);
            let l = u64::from(len.max(2));
            let pol = match n % 8 {
                0 => Policy::Random { seed: r, bits: (r >> 40) as u32 % 6 + 1 },
                1 => Policy::Pct { seed: r, depth: (r >> 40) as u32 % 5 + 1, len },
                2 | 3 => {
                    let x = n % 2 + 2;
                    let mut v: Vec<(u32, u8)> = (0..x).map(|_| (1 + (rnd(&mut seed) % l) as u32, (rnd(&mut seed) % (nt - 1)) as u8)).collect();
                    v.sort_unstable();
                    v.insert(0, (0, (r % nt) as u8));
                    pairs += 1;
                    Policy::Preempt(v)
                }
                _ => {
                    // The first task is interrupted, and so is the next.
                    let f = (r >> 33) % nt;
                    let (a, b) = (rnd(&mut seed) >> 20, rnd(&mut seed) >> 20);
                    let a = 1 + a % own[f as usize];
                    let b = a + 1 + b % l.saturating_sub(own[f as usize]).max(1);
                    let (x, y) = ((rnd(&mut seed) >> 33) % (nt - 1), (rnd(&mut seed) >> 33) % (nt - 1));
                    pairs += 1;
                    Policy::Preempt(vec![(0, f as u8), (a as u32, x as u8), (b as u32, y as u8)])
                }
            };
            run.go(s, pol);
        }
        exec0 = run.execs - exec0;
        let outcomes = run.strata.len();
        run.flush();
        println!(
            "scn={} steps={len} execs={exec0} one_preemption={} multi={pairs} random={} distinct={} outcomes={outcomes} histories={}",
            s.name,
            if full1 { "all" } else { "sampled" },
            n - pairs,
            run.seen.len(),
            run.written
        );
    }
    let _ = run.out.flush();
}
