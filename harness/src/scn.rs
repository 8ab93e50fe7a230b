//! Scenario files.

use crate::obj::Layout;
use crate::ops::Op;

#[derive(Clone, Debug)]
pub struct Scn {
    pub name: String,
    pub kind: String,
    pub layout: Layout,
    pub cap: usize,
    pub max: usize,
    /// Resizing may happen.
    pub rz: i64,
    /// All keys hash to the same bucket, whose entries have been inserted in the order of their keys.
    pub lru: i64,
    /// Scheduling points inside of comparisons.
    pub cmp: bool,
    pub pre: Vec<Op>,
    pub tasks: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    /// Results to be expected of `pre` (replays of specified behaviors).
    pub raw: String,
}

fn ops(s: &str) -> Vec<Op> {
    s.split(';').map(str::trim).filter(|x| !x.is_empty()).map(Op::parse).collect()
}

pub fn parse(text: &str) -> Vec<Scn> {
    let mut r: Vec<Scn> = Vec::new();
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
        if w == "scn" {
            let mut f = rest.split_whitespace();
            let mut s = Scn {
                name: f.next().unwrap().to_string(),
                kind: String::new(),
                layout: Layout::Spread,
                cap: 0,
                max: 0,
                rz: 0,
                lru: 0,
                cmp: true,
                pre: vec![],
                tasks: vec![],
                post: vec![],
                raw: String::new(),
            };
            for x in f {
                let (a, b) = x.split_once('=').unwrap();
                match a {
                    "kind" => s.kind = b.to_string(),
                    "hash" => s.layout = Layout::parse(b),
                    "cap" => s.cap = b.parse().unwrap(),
                    "max" => s.max = b.parse().unwrap(),
                    "lru" => s.lru = b.parse().unwrap(),
                    "rz" => s.rz = b.parse().unwrap(),
                    "cmp" => s.cmp = b == "1",
                    _ => panic!("{line}"),
                }
            }
            r.push(s);
        } else {
            let s = r.last_mut().unwrap();
            match w {
                "pre" => s.pre.extend(ops(rest)),
                "t" => s.tasks.push(ops(rest)),
                "post" => s.post.extend(ops(rest)),
                _ => panic!("{line}"),
            }
        }
        let s = r.last_mut().unwrap();
        s.raw.push_str(line);
        s.raw.push('\n');
    }
    r
}
