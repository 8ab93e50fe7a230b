#!/usr/bin/env python3
"""Scenarios for the harness, by property.  gen.py PROPERTY SEED quick|thorough prints them."""
import random, re, sys

MAP = "insert upsert update read contains remove remove_if remove_ifm replace replace_ins rmw get_rem get_remv or_ins and_mod ent_ins ent_def ent_rem ent_rmw".split()
SET = "insert sreplace read contains remove remove_if".split()
INDEX = "insert or_ins ent_def ent_upd ent_rem rmw rmw2 get_rem bremove bremove_if read peek contains".split()
CACHE = "insert insert get replace replace_ins read contains remove remove_if remove_ifm rmw get_rem get_remv or_ins and_mod ent_ins ent_def ent_rem ent_rmw".split()
TREE = "insert insert bremove bremove_if read peek peek_entry contains".split()
OPS = dict(map=MAP, set=SET, index=INDEX, cache=CACHE, tree=TREE)
ENTRY = {"or_ins", "ent_ins", "ent_def", "ent_rem", "ent_rmw", "ent_upd", "and_mod"}
HOLD = {"replace", "rmw", "get_rem", "or_ins", "ent_ins", "ent_rem", "ent_rmw", "ent_upd"}
WRITE = dict(map=[o for o in MAP if o not in ("read", "contains")], set=["insert", "sreplace", "remove", "remove_if"],
             index=[o for o in INDEX if o not in ("read", "peek", "contains")], cache=[o for o in CACHE if o not in ("read", "contains")],
             tree=["insert", "bremove", "bremove_if"])
ADD = dict(map=["insert", "upsert", "or_ins", "ent_ins", "replace_ins"], set=["insert", "sreplace"], index=["insert", "or_ins", "ent_def"],
           cache=["insert", "or_ins", "ent_ins", "replace_ins"], tree=["insert"])
DEL = dict(map=["remove", "remove_if", "get_rem", "ent_rem"], set=["remove", "remove_if"], index=["bremove", "bremove_if", "get_rem", "ent_rem"],
           cache=["remove", "get_rem", "ent_rem"], tree=["bremove", "bremove_if"])
GET = dict(map=["read", "contains"], set=["read", "contains"], index=["read", "peek", "contains"], cache=["read", "contains", "get"],
           tree=["read", "peek", "peek_entry", "contains"])
SCANS = dict(map=["iter", "iter_mut", "retain", "any", "walk"], set=["iter", "iter_mut", "retain"],
             index=["iter", "retain", "any", "walk", "liter"], cache=["iter", "iter_mut", "retain"], tree=["titer", "range"])

# Insertion orders after which the last insertion splits a leaf node, or the root (an internal node): found by
# random search, watching depth().
SPLIT = [
    "133-138 247-252 25-30 127-132 43-47",
    "55-60 46-54 37-45 10-14",
    "188-198 67-77 12-18",
    "46-50 36-40 51-55 41-45 26-30 11-15",
    "201-208 241-248 185-192 121-127",
    "256-270 76-90 16-17",
]
# A leaf that is not the last one.
LEAF = [
    "131-143 79-81",
    "53-56 77-80 69-72 37-40 25-26",
    "31-36 49-60 13-15",
    "11-15 36-40 16-20 41-45 6-8",
    "53-60 33-36 77-80 73-76 29-32 5",
    "118-130 144-156 105-107",
    "36-40 16-20 1-5 91-95 81-85 76-80 56-58",
    "31-36 49-54 1-6 97-102 37-42 85-90 73-74",
    "248-260 144-156 53-65 209-221 40",
    "157-169 118-130 53-65 144-156 131-133",
]
# A leaf node below the root.
MID = [
    "289-297 91-99 136-144 28-36 262-270",
    "51-55 106-110 131-135 121-125 171-175 191-195 16-20 186-190 141-145",
    "281-288 313-320 41-48 33-40 89-96 169-174",
    "71-75 36-40 61-65 181-185 161-165 106-110 16-20 26-30 41-45 126-128",
    "211-216 187-192 181-186 139-144 115-120 103-108 85-90 67-68",
    "313-320 241-248 185-192 177-184 169-176 129-132",
    "129-136 169-176 1-8 273-280 305-312 9-16 257-258",
]
DEEP = [
    "55-63 10-18 190-198 1-9 172-180 136-144 19-27 127-135 64-72 163-171 181-189 118-126 109-117 199-200 46-54 28-30",
    "196-200 31-45 181-195 16-30 121-135 106-120 166-180 76-90 136-150 61-68",
    "53-65 118-130 79-91 287-299 157-169 209-221 300 196-208 144-156 1-13 274-286 248-259",
    "105-117 170-182 92-104 79-91 27-39 157-169 40-52 144-156 66-78 1-13 53-65 131-132",
]


class G:
    def __init__(self, prop, seed, tier):
        self.r = random.Random(f"{prop}/{seed}/{tier}")
        self.out, self.n, self.prop = [], 0, prop
        self.idn = 100

    def one(self, *x):
        return self.r.choice(x[0] if len(x) == 1 else x)

    def fresh(self):
        self.idn += 1
        return self.idn

    def scn(self, name, kind, hash="spread", pre="", tasks=(), post="", rz=0, lead="", **kw):
        self.n += 1
        if lead:
            tasks = [([lead] if t is tasks[0] else []) + (t if isinstance(t, list) else [t]) for t in tasks]
        pre = re.sub(r"\b(fill|drain) (\d+) (\d+) (\d+)", r"\1 \2 \3 0 \4", pre)
        a = "".join(f" {k}={v}" for k, v in kw.items())
        self.out.append(f"scn {name}_{self.n} kind={kind} hash={hash} rz={rz}{a}")
        if pre:
            self.out.append("pre " + pre)
        for t in tasks:
            self.out.append("t " + ("; ".join(t) if isinstance(t, (list, tuple)) else t))
        if post:
            self.out.append("post " + post)

    def mode(self, asy=0.4):
        return "a" if self.r.random() < asy else "s"

    def op(self, kind, k, ops=None, asy=0.4, hold=0.3, tr=0.08):
        """An operation on key k."""
        o = self.one(ops or OPS[kind])
        i = self.fresh()
        v = i * 10 + self.r.randrange(2)
        p, m = 0, self.mode(asy)
        if o in ("remove_if", "remove_ifm", "bremove_if"):
            p = self.r.randrange(2)
        elif o == "and_mod":
            p = 2 * self.r.randrange(1, 4)
        elif o in HOLD and self.r.random() < hold:
            p = self.r.randrange(1, 3)
        elif o in ("peek", "peek_entry"):
            p = self.r.randrange(0, 3)
            m = "s"
        if o in ENTRY and self.r.random() < tr:
            m = "t"
        if o in ("read", "contains") and kind in ("index", "tree"):
            m = "s"
        return f"{o} {k} {i} {v} {p} {m}"

    def scan(self, kind, asy=0.4, lock_free=True, stop=True, lo=1, hi=20):
        o = self.one([x for x in SCANS[kind] if lock_free or x != "liter"])
        m = self.mode(asy)
        if o in ("liter", "titer"):
            return f"{o} 0 0 0 {self.one(0, 0, 0, 2)} s"
        if o == "range":
            a, b = sorted((self.r.randrange(lo - 1, hi + 2), self.r.randrange(lo - 1, hi + 2)))
            return f"range {a} 0 {b} {self.r.randrange(9)} s"
        p = self.one([0, 0, 5, 8, 9] if stop else [0]) if o in ("iter",) else \
            self.one([0, 1, 2, 3, 4, 6, 7] + ([5, 8, 9] if stop else []))
        if o == "retain":
            p = self.one(0, 1, 2, 3, 4, 6)
        if o == "any":
            return f"any 0 {self.one(0, 0, 1)} {self.one(0, 1)} {self.one(0, 5, 5, 9)} {m}"
        if o == "walk":
            return f"walk 0 {self.one(0, 0, 1)} 0 {self.one(0, 0, 1, 3 if kind == 'map' else 1, 5, 7, 6)} {m}"
        return f"{o} 0 0 0 {p} {m}"

    def task(self, kind, keys, n, ops=None, **kw):
        return [self.op(kind, self.one(keys), ops, **kw) for _ in range(n)]

    # Initial states. Each returns (keyword arguments, keys of interest).

    def state(self, kind, which=None):
        if kind == "tree":
            return self.tree_state(which)
        r = self.r
        w = which or self.one("empty", "few", "few", "chain", "chain", "grow", "shrink", "half", "drop", "crowd")
        rel = "remove" if kind != "index" else "bremove"
        if w == "empty":
            return dict(hash=self.one("coll", "bucket", "spread", "lin")), [1, 2]
        if w == "few":
            n = r.randrange(1, 4)
            return dict(hash=self.one("coll", "bucket", "spread"), pre=f"fill 1 {n}"), list(range(1, n + 2))
        if w == "chain":
            # A bucket with an overflow chain, and holes in it.
            n = self.one(31, 32, 33, 36, 40, 45) if kind != "cache" else self.one(30, 31, 32)
            holes = sorted(r.sample(range(1, n + 1), r.randrange(0, 4)))
            ks = list({1, n, n + 1, self.one(range(1, n + 1)), *holes[:2]})
            return dict(hash=self.one("coll", "bucket"), pre="; ".join([f"fill 1 {n}"] + [f"{rel} {x}" for x in holes] + (["gc 20"] if kind == "index" and r.random() < .5 else []))), ks
        if w == "grow":
            # About to be enlarged.
            n = self.one(52, 54, 56, 58)
            return dict(hash="lin", pre=f"fill 1 {n}", rz=1), [1, 32, n + 1, n + 2, 130]
        if w == "half":
            # In the middle of a rehash from many buckets to few or from few to many.
            if kind == "cache":
                return dict(hash="lin", pre=f"fill 1 {self.one(56, 60)}", rz=1, max=4096), [3, 57, 58, 61]
            if r.random() < .6:
                c = self.one(2000, 4000)
                # Keys in the first bucket make the table shrink, the more of them the less.
                ks = sorted(r.sample(range(1, 256), 4)) + [0, 256, 512, 768, 1024][:self.one(1, 1, 2, 3, 5)]
                pre = [f"reserve 0 0 0 {c}"] + [f"insert {k} {k} {1000+k}" for k in ks] + ["unreserve"]
            else:
                # Enlarged again while 64 or more buckets are linked.
                ks = sorted(r.sample(range(0, 256), 5))
                pre = [f"reserve 0 0 0 {self.one(1500, 2000, 3000)}"] + [f"insert {k} {k} {1000+k}" for k in ks] + [f"reserve 0 0 0 {self.one(4000, 8000)}"]
            pre += [f"contains {ks[0]}"] * r.randrange(0, 2)
            return dict(hash="lin", pre="; ".join(pre), rz=1), ks[1:4] + [self.one(range(256))]
        if w == "shrink":
            if kind == "cache":
                return dict(hash="lin", pre="fill 0 200 3; " + f"{'drain' } 9 200 3", rz=1, max=1024), [0, 3, 6, 9]
            c = self.one(100, 200, 500)
            ks = [0, 3, 60, 130]
            return dict(hash="lin", pre=f"reserve 0 0 0 {c}; " + "; ".join(f"insert {k} {k} {1000+k}" for k in ks), rz=1, lead=self.one("unreserve", "unreserve", "")), ks
        if w == "crowd":
            # A bucket with an overflow chain is divided among several, or several make one.
            a, n = self.one(0, 1, 2, 40), self.one(30, 32, 33, 34, 36, 40, 44)
            if kind == "cache":
                n = self.one(24, 30, 32)
            last = a + 64 * (n - 1)
            c = self.one(100, 200, 500, 2000)
            lay = self.one("lin", "over", "over")
            ks = sorted({a, last, last + 64, a + 64 * r.randrange(n), a + 64 * r.randrange(n)})
            fill = f"fill {a} {last} 64" + "".join(f"; {rel} {a + 64 * r.randrange(n)}" for _ in range(r.randrange(3)))
            if kind == "cache":
                return dict(hash=lay, pre=fill + f"; fill 1 {self.one(61, 62, 63)} 2", rz=1, max=4096), ks
            if r.random() < .5:
                return dict(hash=lay, pre=fill, lead=f"reserve 0 0 0 {c}", rz=1), ks
            return dict(hash=lay, pre=f"reserve 0 0 0 {c}; {fill}", lead="unreserve", rz=1), ks
        # drop: an empty table that is dropped when it is looked at
        return dict(hash=self.one("lin", "coll"), pre=f"insert 1 1 1001; {rel} 1", rz=1), [1, 2]

    def tree_state(self, which=None):
        r = self.r
        w = which or self.one("empty", "few", "leaf", "leaf", "split", "two", "deep", "sparse", "sparse", "gap", "last", "last", "bsplit", "bsplit", "bsplit", "nsplit", "msplit", self.one("nsplit", "msplit", "msplit", "isplit"))
        if w == "last":
            # A leaf, a leaf node, or more, is about to become empty.
            n = self.one(20, 40, 60, 110, 120, 200, 230)
            m = self.one(14, 20, 30, 60, 90, 130)
            a = r.randrange(1, n)
            b = min(n, a + m)
            k = r.randrange(a, b + 1)
            pre = [f"fill 1 {n}"] + ([f"drain {a} {k - 1}"] if k > a else []) + ([f"drain {k + 1} {b}"] if b > k else [])
            # Insertions next to it find no free slot in its leaf, if that has been filled.
            near = [x for x in (k - 1, k + 1) if a <= x <= b]
            return dict(pre="; ".join(pre)), [k, k, k, max(a - 1, 1), min(b + 1, n), n, n + 1] + near * 2
        if w in ("bsplit", "nsplit", "msplit", "isplit"):
            # The next insertion splits a leaf node, or the root of a deep tree.
            bl = [[int(y) for y in x.split("-")] for x in self.one(dict(bsplit=LEAF, nsplit=SPLIT, msplit=MID, isplit=DEEP)[w]).split()]
            bl = [x * 2 if len(x) == 1 else x for x in bl]
            a, b = bl[-1]
            pre = [f"fill {x} {y}" for x, y in bl[:-1]] + ([f"fill {a} {b - 1}"] if b > a else [])
            o = self.one(bl[:-1])
            if r.random() < .3:
                # Nearly: one more insertion is needed, or leaves have been emptied since.
                pre += [self.one(f"bremove {a}", f"drain {o[0]} {o[1]}", f"drain {o[0]} {o[1] - 1}")]
            return dict(pre="; ".join(pre)), [b, b, b + 1, b - 1, a, o[0], o[1], self.one(bl)[0]]
        if w == "empty":
            return dict(), [1, 2, 3]
        if w == "few":
            return dict(pre="insert 2 2 1002; insert 4 4 1004"), [1, 2, 3, 4]
        if w == "leaf":
            # A full leaf.
            n = self.one(12, 13, 14)
            return dict(pre=f"fill 2 {2*n} 2"), [1, 2, 2 * n, 2 * n + 1, 7, 8]
        if w == "split":
            n = self.one(15, 20, 27, 28)
            return dict(pre=f"fill 2 {2*n} 2"), [1, 14, 15, 2 * n, 2 * n + 1, 16, 28]
        if w == "two":
            return dict(pre="fill 1 20; drain 1 6"), [6, 7, 8, 13, 14, 15, 21]
        if w == "deep":
            # The root is an internal node, or about to become one.
            n = self.one(100, 105, 110, 112, 120, 200)
            return dict(pre=f"fill 1 {n}"), [1, n, n + 1, n // 2, 57]
        if w == "sparse":
            n = self.one(30, 60, 112)
            a = r.randrange(1, n)
            b = r.randrange(a, n + 1)
            keep = sorted({1, a, b, n, n + 1, self.one(range(1, n))})
            return dict(pre=f"fill 1 {n}; drain {a} {b}"), keep
        return dict(pre=f"fill 1 {self.one(40, 60, 110)}; remove_range {self.one(5, 10)} 0 {self.one(25, 35)} {self.one(4, 8)}"), [4, 11, 15, 24, 36]

    def present(self, pre):
        """The keys there are after these operations on a tree."""
        s = set()
        for x in pre.split("; "):
            w = x.split()
            if not w:
                continue
            a = [int(y) for y in w[1:] if y.isdigit()]
            if w[0] == "fill":
                s |= set(range(a[0], a[1] + 1, a[2] if len(a) > 2 else 1))
            elif w[0] == "drain":
                s -= set(range(a[0], a[1] + 1, a[2] if len(a) > 2 else 1))
            elif w[0] == "insert":
                s.add(a[0])
            elif w[0] == "bremove":
                s.discard(a[0])
            elif w[0] == "remove_range":
                # Approximately.
                s -= set(range(a[0], a[2] + 1))
        return sorted(s)

    # Families of scenarios.

    def conc(self, name, kinds, count, states=None, tasks=(2, 3), length=(1, 3), ops=None, post=None, scan=0.0, count_ops=0.0, sweep=0.0, hot=0.6, **kw):
        for _ in range(count):
            kind = self.one(kinds)
            st, keys = self.state(kind, self.one(states) if states else None)
            st = dict(st)
            # Mostly one or two hot keys.
            ks = self.r.sample(keys, min(len(keys), 2)) if self.r.random() < hot else keys
            nt = self.r.randint(*tasks)
            ts = []
            lf = False
            for _t in range(nt):
                t = []
                for _x in range(self.r.randint(*length)):
                    z = self.r.random()
                    o = (ops or {}).get(kind)
                    if z < scan:
                        c = self.scan(kind, hi=max(keys))
                        lf |= c.startswith("liter")
                        t.append(c)
                    elif z < scan + count_ops:
                        t.append(self.one("len", "is_empty"))
                    elif z < scan + count_ops + sweep:
                        if kind == "tree":
                            a, b = sorted(self.r.choices(keys, k=2))
                            t.append(f"remove_range {a} 0 {b} {self.r.randrange(9)} {self.mode()}" if self.r.random() < .8 else "clear")
                        else:
                            t.append(f"clear 0 0 0 0 {self.mode()}")
                    else:
                        t.append(self.op(kind, self.one(ks), o, **kw))
                ts.append(t)
            if st.get("rz") and scan == 0:
                pass
            self.scn(name, kind, tasks=ts, post=post or "", **st)

    def seq(self, name, kind, n, keys, hash="spread", pre="", asy=0.3, scan=0.03, counts=0.05, sweep=0.01, whole=0.0, resv=0.0, live=0.02, add=0.3, dele=0.25, gc=0.0, tr=.08, **kw):
        """One task, many operations."""
        t = []
        held = 0
        for _ in range(n):
            z = self.r.random()
            k = self.one(keys)
            def p(x):
                nonlocal z
                z -= x
                return z < 0
            if p(scan):
                t.append(self.scan(kind, asy, hi=max(keys)))
            elif p(counts):
                t.append(self.one("len", "is_empty", "depth" if kind == "tree" else "cap"))
            elif p(sweep):
                if kind == "tree":
                    a, b = sorted(self.r.choices(keys, k=2))
                    t.append(f"remove_range {a} 0 {b} {self.r.randrange(9)} {self.mode(asy)}" if self.r.random() < .9 else "clear")
                else:
                    t.append(f"clear 0 0 0 0 {self.mode(asy)}")
            elif p(whole):
                o = self.one("clone", "eq", "eq", "eq", "fmt", "serde", "fromiter")
                q = self.r.randrange(8) if o == "eq" else self.r.randrange(4)
                t.append(f"{o} {self.one(0, 64, 500) if o == 'eq' else 0} 0 0 {q}")
            elif p(resv) and kind in ("map", "set", "index"):
                if held and self.r.random() < .5:
                    t.append("unreserve")
                    held -= 1
                else:
                    t.append(f"reserve 0 0 0 {self.one(1, 10, 63, 64, 65, 100, 1000, 3000)}")
                    held += 1
                t.append("cap")
            elif p(live):
                t.append("live")
            elif p(gc):
                t.append(f"gc 0 0 0 {self.one(1, 3, 30)}")
            elif p(add):
                t.append(self.op(kind, k, ADD[kind], asy, .05, tr))
            elif p(dele):
                t.append(self.op(kind, k, DEL[kind], asy, .05, tr))
            else:
                t.append(self.op(kind, k, None, asy, .05, tr))
        self.scn(name, kind, hash, pre, [t], **kw)

    def seqs(self, name, kinds, count, n=(40, 90), **kw):
        for x in range(count):
            kind = self.one(kinds)
            if kind == "tree":
                hi = self.one(6, 16, 30, 60, 130, 250)
                self.seq(name, kind, self.r.randint(*n), range(1, hi), pre=self.one("", f"fill 1 {hi}", f"fill 1 {hi} 2", f"fill 1 {hi}; drain 3 {hi} 3"), **kw)
                continue
            lay = self.one("coll", "bucket", "spread", "part", "lin", "lin", "over")
            hi = self.one(4, 12, 40, 70, 100) if lay in ("coll", "bucket") else self.one(4, 12, 70, 150)
            keys = range(1, hi)
            a = {}
            if self.r.random() < .25:
                a["cap"] = self.one(1, 64, 65, 100, 128, 200)
            if kind == "cache":
                a["max"] = self.one(0, 64, 100, 128, 256, 1000)
            pre = self.one("", f"fill 1 {hi}", f"fill 1 {hi}; drain 2 {hi} 2", f"fill 1 {hi * 3 // 4}")
            if kind == "index" and self.r.random() < .5:
                pre = pre and pre + "; gc 10"
            if lay == "over":
                # The keys of one bucket of a small table; the capacity varies.
                at, hi = self.one(0, 1, 7), self.one(34, 40, 50)
                keys = range(at, at + 64 * hi, 64)
                pre = self.one(f"fill {keys[0]} {keys[-1]} 64", f"reserve 0 0 0 {self.one(100, 500)}; fill {keys[0]} {keys[-1]} 64") if kind != "cache" else ""
                a["resv"] = .15
            self.seq(name, kind, self.r.randint(*n), keys, hash=lay, pre=pre, rz=1, **{**kw, **a})

    def nest(self, name, kinds, count, ops=None, subs=None, states=None):
        """Something is held while the task goes on to do what never waits."""
        for _ in range(count):
            kind = self.one(kinds)
            st, ks = self.state(kind, self.one(states) if states else self.one(None, "half", "crowd", "few", "chain", "shrink"))
            if "lead" in st:
                # What the lead starts, the nested operations drive on.
                st["pre"] += "; " + st.pop("lead")
            ks = list(ks) + [self.r.randrange(256)]
            ts = []
            for _t in range(self.one(1, 1, 2)):
                t = []
                for _x in range(self.one(1, 2, 3)):
                    o = self.op(kind, self.one(ks), ops or [o for o in OPS[kind] if o in HOLD], hold=.2)
                    for _y in range(self.one(1, 2, 3, 5)):
                        w = subs or [o for o in OPS[kind] if o in ENTRY] * 2 + ["len", "cap", "is_empty"] + (["peek", "read", "contains", "liter"] if kind == "index" else [])
                        w = self.one(w)
                        o += " > " + (w + (" 0 0 0 0 s" if w == "liter" else "") if w in ("len", "cap", "is_empty", "liter") else self.op(kind, self.one(ks), [w], tr=1))
                    t.append(o)
                ts.append(t)
            self.scn(name, kind, tasks=ts, post="len; cap", **st)

    def steps(self, name, kind, count, most=120):
        """A lock-free iterator, and changes by the same task between its steps."""
        r = self.r
        for _ in range(count):
            if kind == "tree":
                if r.random() < .5:
                    g, n = self.one(1, 2, 2, 3), self.one(3, 13, 14, 15, 20, 28, 42, 60)
                    st = dict(pre=f"fill {g} {g * n} {g}")
                    if r.random() < .3:
                        a = r.randrange(1, n)
                        st["pre"] += f"; drain {g * a} {g * min(n, a + self.one(3, 10, 20))} {g}"
                else:
                    st = self.one([self.state("tree")[0], self.deep3()])
                pr = sorted(self.present(st.get("pre", ""))) or [1]
                a, b = sorted(self.r.choices(pr, k=2))
                o = self.one("titer 0 0 0 0 s", f"range {a} 0 {b} {r.randrange(9)} s")
                if o[0] == "r":
                    pr = [x for x in pr if a <= x <= b]
                add, dele = ["insert"], ["bremove"]
            else:
                st, ks = self.state("index")
                if "lead" in st:
                    st["pre"] += "; " + st.pop("lead")
                pr = sorted(self.present(st.get("pre", "")) or ks)
                o, add, dele = "liter 0 0 0 0 s", ["insert", "insert", "or_ins", "rmw", "ent_upd"], ["bremove", "get_rem"]
            left, subs = most, []
            busy = self.one(.05, .2, .6)
            for x in pr:
                if left > 0 and r.random() < busy:
                    for _burst in range(self.one(1, 1, 2)):
                        m = min(left, self.one(1, 2, 3, 8, 15, 30))
                        left -= m
                        at = max(0, x + self.one(-20, -8, -3, -1, 0, 1, 1, 2, 5, 14, 25))
                        w, d = self.one(add, dele), self.one(1, -1, 1, 2)
                        if kind == "index":
                            at, d = (self.one(pr), 64) if st.get("pre", "").count(" 64") else (self.one(pr + [at]), d)
                        for j in range(m):
                            if at + d * j >= 0:
                                subs.append(self.op(kind, at + d * j, w, tr=0, hold=0))
                        if r.random() < .1:
                            subs.append(f"remove_range {at} 0 {at + self.one(5, 20, 40)} 4 s" if kind == "tree" else self.one("reserve 0 0 0 300", "reserve 0 0 0 3000", "unreserve", "clear 0 0 0 0 s" if r.random() < .2 else "len"))
                subs.append("yield")
            self.scn(name, kind, tasks=[[" > ".join([o] + subs)]], post="titer; len" if kind == "tree" else "len", **st)

    # Properties.

    def c01(self, f):
        self.conc("lin", ["map", "map", "set"], 70 * f, sweep=0.02)
        self.conc("rsz", ["map", "set"], 50 * f, states=["grow", "shrink", "half", "drop", "crowd"], length=(1, 4))
        self.conc("sync", ["map"], 20 * f, asy=0.0, length=(2, 4), tasks=(2, 2))

    def c02(self, f):
        self.seqs("seq", ["map", "map", "set"], 900 * f, scan=.03)
        self.seqs("long", ["map", "set"], 16 * f, n=(200, 300), scan=.01, add=.45, dele=.15)
        self.seqs("shrink", ["map", "set"], 24 * f, n=(100, 200), scan=.01, add=.1, dele=.6)

    def c03(self, f):
        ents = dict(map=["rmw", "ent_rmw", "replace_ins", "get_rem", "ent_rem", "ent_ins", "and_mod", "or_ins", "remove_ifm", "update", "replace"],
                    index=["rmw", "ent_upd", "ent_rem", "get_rem", "or_ins"], cache=["rmw", "ent_rmw", "replace_ins", "get_rem", "ent_rem", "ent_ins", "and_mod", "or_ins"])
        mix = {k: ents[k] + OPS[k] for k in ents}
        self.conc("hold", ["map", "index", "cache"], 60 * f, ops=ents, hold=.8, tr=.2, hot=.9)
        self.conc("mix", ["map", "index", "cache"], 50 * f, ops=mix, hold=.8, tr=.2, scan=.1, hot=.8)
        self.conc("try", ["map", "index", "cache"], 20 * f, ops={k: [o for o in ents[k] if o in ENTRY] for k in ents}, hold=.8, tr=.8)

        self.nest("nest", ["map", "index", "cache"], 60 * f)

    def c04(self, f):
        hk = ["map", "set", "index", "cache"]
        self.conc("scan", hk, 70 * f, scan=.5, sweep=.03, length=(1, 2))
        self.conc("rsz", hk, 30 * f, states=["half", "shrink", "grow", "crowd"], scan=.4, length=(1, 2), tasks=(2, 2))
        self.seqs("seq", hk, 120 * f, scan=.35, n=(15, 40))

    def c05(self, f):
        hk = ["map", "set", "index", "cache"]
        self.seqs("cap", ["map", "set", "index"], 120 * f, resv=.2, counts=.25, live=.0)
        self.seqs("cache", ["cache"], 20 * f, counts=.3)
        self.conc("len", hk, 60 * f, count_ops=.4, length=(1, 3), states=["few", "grow", "shrink", "half", "drop", "chain", "crowd"], sweep=.02)
        # An entry that stays is counted while it is moved: it is in a part of the old array that is moved late.
        for _ in range(40 * f):
            kind = self.one("map", "set", "index")
            c = self.one(2000, 4000, 4000, 8000)
            parts = {2000: 2, 4000: 4, 8000: 8}[c]
            how = self.one("shrink", "grow") if parts > 2 else "grow"
            driven = self.r.randrange(1 if how == "shrink" else 0, parts - 1)
            late = [k for k in range(256) if int(f"{k:08b}"[::-1], 2) * parts // 256 > driven]
            ks = self.r.sample(late, self.one(1, 1, 2))
            low = [0, 256][:self.one(1, 2)] if how == "shrink" else []
            pre = [f"reserve 0 0 0 {c}"] + [f"insert {k} {k} {1000 + k}" for k in low + ks] + (["unreserve"] if how == "shrink" else [f"reserve 0 0 0 {c * 3}"])
            rm = [f"{'bremove' if kind == 'index' else 'remove'} {k}" for k in low][:driven]
            pre += rm + ["contains 999"] * (driven - len(rm))
            ts = [[self.one("len", "is_empty", "is_empty")] * self.one(1, 1, 2)]
            for _t in range(self.one(1, 1, 2)):
                ts.append([self.one(self.op(kind, self.one(ks), GET[kind], tr=0), self.op(kind, self.one(ks), [ADD[kind][0]], tr=0), self.op(kind, self.r.randrange(256), ["contains"] + DEL[kind], tr=0),
                                    self.scan(kind, lock_free=False, stop=False) if self.r.random() < .2 else "len") for _x in range(self.one(1, 2, 3))])
            self.scn("moved", kind, hash="lin", rz=1, pre="; ".join(pre), tasks=ts)
        for _ in range(25 * f):
            kind = self.one("map", "set", "index")
            st, ks = self.state(kind, self.one("grow", "shrink", "half", "few", "drop", "crowd"))
            ts = []
            for _t in range(self.one(2, 2, 3)):
                t = []
                for _x in range(self.one(2, 3)):
                    t.append(self.one(f"reserve 0 0 0 {self.one(10, 64, 300, 1000)}", "unreserve", "cap", "len", self.op(kind, self.one(ks), ADD[kind]), self.op(kind, self.one(ks), DEL[kind])))
                ts.append(t)
            self.scn("resv", kind, tasks=ts, post=f"cap; {self.op(kind, ks[0], ADD[kind], 0)}; cap; reserve 0 0 0 500; cap; len; unreserve; cap; unreserve; cap; unreserve; cap; is_empty; len", **st)

    def c06(self, f):
        hk = ["map", "set", "index", "cache"]
        self.seqs("seq", hk, 160 * f, live=.15, sweep=.04, scan=.06, whole=.02)
        self.conc("conc", hk, 60 * f, scan=.12, sweep=.08, ops=WRITE)
        self.conc("rsz", hk, 30 * f, states=["grow", "shrink", "half", "drop", "crowd"], ops=WRITE, sweep=.05)

    def c07(self, f):
        ix = ["index"]
        rd = dict(index=["read", "contains", "peek"])
        up = dict(index=["rmw", "rmw2", "ent_upd", "insert", "bremove", "or_ins"])
        for _ in range(60 * f):
            st, ks = self.state("index")
            k = self.one(ks)
            nt = self.one(2, 2, 3)
            ts = [[self.op("index", k, rd["index"]) for _ in range(self.one(1, 2, 3))]]
            for _t in range(nt - 1):
                ts.append([self.op("index", self.one([k, k, self.one(ks)]), up["index"]) for _ in range(self.one(1, 2, 3))])
            self.scn("rdup", "index", tasks=ts, **st)
        self.conc("lin", ix, 50 * f, scan=0.04)
        for _ in range(30 * f):
            st, ks = self.state("index")
            ts = [["liter 0 0 0 0 s"] * self.one(1, 1, 2)]
            for _t in range(self.one(1, 1, 2)):
                ts.append([self.op("index", self.one(ks), [o for o in INDEX if o != "peek"]) for _ in range(self.one(1, 2, 3))])
            self.scn("iter", "index", tasks=ts, **st)
        self.nest("nest", ix, 40 * f, ops=["rmw", "ent_upd", "ent_rem", "get_rem", "or_ins"], subs=["peek", "read", "contains", "liter", "read"])
        self.seqs("seq", ix, 40 * f, scan=.1)
        for _ in range(16 * f):
            # The only entry of a bucket, or all of a full one, comes and goes.
            k, i, j = self.one(1, 5), self.fresh(), self.fresh()
            # Other buckets have entries, or else the array would be dropped.
            pre = "reserve 0 0 0 400; insert 130 130 1130; insert 260 260 1260; " + self.one(f"insert {k} {k} {1000 + k}", f"insert {k} {k} {1000 + k}", "contains 1", f"insert {k} {k} {1000 + k}; bremove {k}")
            rd = lambda: self.one(f"peek {k} 0 0 0 s", f"peek {k} 0 0 0 s", f"contains {k} 0 0 0 s", f"read {k} 0 0 0 s")
            wr = [f"bremove {k} 0 0 0 {self.mode()}", self.one(f"insert {k} {i} {i * 10} 0 {self.mode()}", f"ent_def {k} {i} {i * 10} 0 s", f"or_ins {k} {i} {i * 10} 0 a"),
                  self.one(f"bremove {k} 0 0 0 s", f"insert {k + 512} {j} {j * 10} 0 s")]
            self.scn("comes", "index", hash="lin", rz=1, pre=pre, tasks=[[rd(), rd()] + [rd()] * self.one(0, 1), wr[self.one(0, 0, 1):]])
        self.steps("steps", "index", 60 * f)

    def c08(self, f):
        for _ in range(70 * f):
            kind = self.one("index", "index", "tree")
            st, ks = self.state(kind)
            k = self.one(ks)
            rd = [f"peek {k} 0 0 {self.one(2, 4, 6)} {self.one('s', 't')}"] if self.r.random() < .75 else ["liter" if kind == "index" else "titer"]
            ts = [rd * self.one(1, 2)]
            for _t in range(self.one(1, 1, 2)):
                t = []
                for _x in range(self.one(2, 3, 4)):
                    z = self.r.random()
                    if z < .3:
                        t.append(f"gc 0 0 0 {self.one(1, 2, 4, 8)}")
                    elif z < .4:
                        t.append("clear" if kind == "index" or self.r.random() < .3 else f"remove_range {self.one(ks)} 0 {max(ks)} 4")
                    elif z < .7:
                        t.append(self.op(kind, k, DEL[kind]))
                    else:
                        t.append(self.op(kind, self.one(ks), [o for o in WRITE[kind]]))
                if kind == "index" and rd[0].startswith("liter"):
                    t = [x for x in t]
                ts.append(t)
            self.scn("guard", kind, tasks=ts, **st)
        # A reader keeps a reference while the slot or the bucket array is about to be reclaimed.
        for _ in range(40 * f):
            n = self.one(31, 32, 32, 33, 40, 64, 66)
            k, k2 = self.r.randint(1, n), self.r.randint(1, n)
            t = [self.op("index", k, self.one(["bremove"], ["ent_rem"], ["get_rem"], ["rmw"], ["ent_upd"]), tr=0)]
            for x in range(self.one(1, 2, 3)):
                t += [f"gc 0 0 0 {self.one(1, 1, 2, 3)}"] + [self.op("index", self.one(n + 1 + x, n + 1 + x, k2), self.one(["insert"], ["insert"], ["bremove"]), tr=0) for _y in range(self.one(1, 1, 2))]
            rd = [f"peek {k} 0 0 {self.one(2, 4, 6)} s"] if self.r.random() < .8 else ["liter 0 0 0 2 s"]
            self.scn("slot", "index", hash=self.one("coll", "bucket"), pre=f"fill 1 {n}", tasks=[rd, t], rz=1)
        for _ in range(40 * f):
            st, ks = self.state("index", self.one("half", "shrink", "grow", "drop", "half", "crowd"))
            k = self.one(ks)
            t = []
            for x in range(self.one(2, 4, 6)):
                t.append(self.one(self.op("index", self.one(ks), ["insert", "bremove", "contains"], tr=0), self.op("index", self.one(ks), WRITE["index"], tr=0),
                                  "len", "clear", f"reserve 0 0 0 {self.one(300, 3000)}", "unreserve"))
                if self.r.random() < .6:
                    t.append(f"gc 0 0 0 {self.one(1, 1, 2, 3)}")
            rd = [f"peek {k} 0 0 {self.one(2, 4, 6)} s"] if self.r.random() < .8 else ["liter 0 0 0 2 s"]
            self.scn("array", "index", tasks=[rd, t], **st)
        # Reclamation: at most a few removed objects stay as long as operations touch the bucket.
        for _ in range(20 * f):
            lay = self.one("coll", "bucket")
            n = self.one(1, 5, 20, 31, 33, 40, 60)
            t = []
            k = n + 1
            for _x in range(150):
                t.append(f"insert {k} {k} {k}")
                t.append(self.one(f"bremove {k}", f"bremove {k}", f"ent_rem {k}", f"get_rem {k}"))
                if self.r.random() < .3:
                    t.append(f"rmw {self.r.randrange(1, n + 1)} {self.fresh()} {self.fresh()}")
                t.append("gc 0 0 0 3")
                k += 1
            t.append(f"live 0 0 0 {70 + 32}")
            self.scn("recl", "index", hash=lay, pre=f"fill 1 {n}", tasks=[t])

    def c09(self, f):
        r = self.r
        # One bucket: the victim of every eviction is determined.
        for _ in range(90 * f):
            hi = self.one(33, 34, 36, 40, 48)
            n = self.one(0, 0, 5, 31, 32, 32)
            self.seq("lru", "cache", r.randint(60, 120), range(1, hi + 1), hash=self.one("coll", "bucket"), pre=f"fill 1 {n}" if n else "",
                     scan=.02, counts=.02, sweep=.004, whole=.01, add=self.one(.25, .4, .55), dele=self.one(.05, .1, .25), cap=self.one(0, 64), max=64, lru=1)
        for _ in range(40 * f):
            # Few entries in use, anywhere in the bucket, before it is filled up and evicted.
            hi = self.one(3, 4, 6, 32)
            t = [f"insert {k} {k} {k}" for k in r.sample(range(1, 33), self.one(2, 8, 32))]
            for _x in range(self.one(4, 10, 25)):
                t.append(self.op("cache", r.randrange(1, hi + 1), ["get", "get", "rmw", "remove", "get_rem", "remove_if", "insert", "replace", "read", "ent_ins"], .3, .05))
            t += [f"insert {k} {k} {k}" for k in range(50, 50 + self.one(34, 50, 66))]
            self.scn("drain", "cache", hash=self.one("coll", "bucket"), tasks=[t], max=64, lru=1)
        for _ in range(30 * f):
            # Several tasks.
            n = self.one(31, 32, 32)
            ks = [1, 2, n, 40, 41]
            ops = ["insert", "get", "rmw", "remove", "get_rem", "or_ins", "ent_ins", "replace_ins", "read", "ent_rem"]
            ts = [[self.op("cache", self.one(ks), ops) for _x in range(self.one(1, 2, 3))] for _t in range(self.one(2, 2, 3))]
            self.scn("conc", "cache", hash=self.one("coll", "bucket"), pre=f"fill 1 {n}", tasks=ts, post="; ".join(f"insert {k} {k} {k}" for k in range(60, 64)), max=64, lru=1)
        self.seqs("seq", ["cache"], 30 * f, n=(100, 160))

    def c10(self, f):
        c = ["cache"]
        st = ["few", "chain", "chain", "chain", "grow", "shrink", "empty"]
        self.conc("lin", c, 90 * f, states=st, count_ops=.05, sweep=.02, scan=.03, hot=.4)
        self.seqs("seq", c, 90 * f, counts=.15, add=.5, n=(60, 120))
        for _ in range(20 * f):
            # Filled up to the limit.
            mx = self.one(64, 128, 256)
            lay = self.one("lin", "spread", "part")
            t = [self.op("cache", self.r.randrange(0, 256), ["insert", "or_ins", "ent_ins", "get", "remove"], .2) for _ in range(110)]
            self.scn("full", "cache", hash=lay, pre=f"fill 0 {mx * 3 // 2}", tasks=[t + ["cap", "len"]], rz=1, max=mx, cap=self.one(0, 64))

    def c11(self, f):
        self.conc("lin", ["tree"], 110 * f, sweep=.02)
        for _ in range(60 * f):
            # Keys that stay are looked up while nodes are split or merged.
            w = self.one("leaf", "bsplit", "bsplit", "bsplit", "sparse", "last", "last", "nsplit", "msplit", "msplit", "isplit", "deep")
            st, ks = self.state("tree", w)
            there = self.present(st.get("pre", "")) or [1]
            hot = ks[0]
            at = min(range(len(there)), key=lambda i: abs(there[i] - hot))
            near = there[max(0, at - 40):at + 40]
            ts = [[self.op("tree", hot, ["bremove"] if w in ("last", "sparse") else ["insert"])]]
            for _t in range(self.one(1, 1, 2)):
                t = []
                for _x in range(self.one(1, 1, 2)):
                    k = self.one(near if self.r.random() < .7 else there)
                    t.append(self.op("tree", k, self.one(["read", "contains"], ["read", "contains"], ["bremove"], ["insert"])))
                ts.append(t)
            self.scn("look", "tree", tasks=ts, **st)
        for _ in range(36 * f):
            # One splits, the other looks for keys all over the place: each of its steps is a chance to miss one.
            st, ks = self.state("tree", self.one("bsplit", "bsplit", "nsplit", "msplit", "msplit", "msplit", "isplit"))
            there = self.present(st["pre"])
            look = [self.one(there[len(there) * x // 8:len(there) * (x + 1) // 8] or there) for x in range(8)]
            self.r.shuffle(look)
            self.scn("wide", "tree", tasks=[[self.op("tree", ks[0], ["insert"])], [self.op("tree", k, ["contains", "read"]) for k in look]], **st)
        for s in ("leaf", "split", "bsplit", "bsplit", "two", "sparse", "deep", "gap", "last", "last", "nsplit", "msplit", "msplit", "isplit"):
            self.conc(s, ["tree"], (10 if s != "isplit" else 5) * f, states=[s], ops=dict(tree=["insert", "bremove", "read", "bremove"]), length=(2, 3))
        self.seqs("seq", ["tree"], 30 * f, n=(100, 200))

    def c12(self, f):
        for _ in range(70 * f):
            st, ks = self.state("tree")
            ts = [[self.scan("tree", hi=max(ks))] * self.one(1, 1, 2)]
            for _t in range(self.one(1, 1, 2)):
                ts.append([self.op("tree", self.one(ks), ["insert", "bremove", "bremove"]) for _ in range(self.one(1, 2, 3))])
            self.scn("scan", "tree", tasks=ts, **st)
        self.conc("sweep", ["tree"], 15 * f, scan=.4, sweep=.2)
        self.steps("steps", "tree", 120 * f)
        self.undo(24 * f)
        self.seqs("seq", ["tree"], 90 * f, scan=.5, n=(20, 50))

    def c13(self, f):
        for _ in range(90 * f):
            n = self.one(5, 14, 20, 40, 60, 110, 115, 150, 220)
            pre = self.one(f"fill 1 {n}", f"fill 1 {n}; drain {n//3} {2*n//3}", f"fill 1 {n} 2", f"fill 2 {n} 2; fill 1 {n} 4")
            t = []
            for _x in range(self.one(1, 2, 4, 8, 12)):
                a, b = sorted((self.r.randrange(0, n + 3), self.r.randrange(0, n + 3)))
                if self.r.random() < .4:
                    b = min(b, a + self.one(1, 3, 8, 16))
                t.append(f"remove_range {a} 0 {b} {self.r.randrange(9) if self.r.random() < .5 else 4} {self.mode()}")
                for _y in range(self.one(1, 3, 6)):
                    t.append(self.op("tree", self.one(a, b, a + 1, max(b - 1, 0), self.r.randrange(0, n + 2))))
                if self.r.random() < .4:
                    t.append(self.one("titer", f"range {a} 0 {b} 4", f"range 0 0 {a} 6", f"range {b} 0 0 1", "len", "depth"))
            t.append("titer")
            if len(t) > 80 and n > 100:
                t = t[:80]
            self.scn("rr", "tree", pre=pre, tasks=[t])
        for _ in range(45 * f):
            st, ks = self.state("tree", self.one("few", "leaf", "bsplit", "two", "sparse", "deep", "gap", "last", "msplit"))
            a, b = sorted(self.r.choices(ks, k=2))
            ts = [[f"remove_range {a} 0 {b} {self.r.randrange(9) if self.r.random() < .3 else self.one(4, 8)} {self.mode()}"]]
            near = [a, b, a - 1, b + 1, max(ks)]
            for _t in range(self.one(1, 1, 2)):
                ts.append([self.op("tree", self.one(near), ["insert", "bremove", "read", "contains"]) for _ in range(self.one(1, 2, 3))])
            if self.r.random() < .2:
                ts[-1].append(self.one("titer", f"remove_range {a} 0 {b} 4"))
            self.scn("conc", "tree", tasks=ts, post="titer; len", **st)
        for _ in range(14 * f):
            # Inner nodes below, in, and above the range; keys just outside the range are in use.
            st = self.deep3()
            pr = sorted(self.present(st["pre"]))
            i = self.r.randrange(3, len(pr) // 2)
            j = self.r.randrange(i + 10, len(pr))
            a, b = pr[i], pr[j]
            ks = pr[max(0, i - 6):i] + pr[j + 1:j + 6]
            ks += [k + d for k in ks for d in (1, -1) if 0 < k + d < a or k + d > b]
            ts = [[f"remove_range {a} 0 {b} {self.r.randrange(9) if self.r.random() < .3 else 4} {self.mode()}"]]
            for _t in range(self.one(1, 1, 1, 2)):
                ts.append([self.op("tree", self.one(ks), ["read", "read", "contains", "insert", "bremove"]) for _ in range(self.one(1, 1, 2, 3))])
            self.scn("deep", "tree", tasks=ts, post="titer; depth; len", **st)

    def deep3(self):
        "A tree of three levels with fewer than 200 keys."
        return dict(hash="spread", rz=0, pre="; ".join(f"fill {w.replace('-', ' ')}" if "-" in w else f"fill {w} {w}" for w in self.one(DEEP).split()))

    def undo(self, n):
        "A split that a panic undoes, while an iterator is at the leaf that was being split."
        for _ in range(n):
            fl = self.one(range(30, 46)) if self.r.random() < .7 else self.r.randrange(1, 60)
            lo, k = self.one(("2 28 0 2", 15), ("2 28 0 2", 3), ("2 28 0 2", 29), ("2 60 0 2", 31), ("2 60 0 2", 61), ("2 60 0 2", 5))
            i = self.fresh()
            ts = [[self.one("titer 0 0 0 0 s", "titer 0 0 0 0 s", "range 0 0 999 5 s")],
                  [f"insert {k} {i} {i * 10} 0 {self.mode(.2)}f{fl}"]]
            if self.r.random() < .4:
                ts[1].append(self.op("tree", self.one(k, k + 2, k - 1), ["insert", "bremove"]))
            self.scn("undo", "tree", pre=f"fill {lo}", tasks=ts, post="titer; len")

    def c14(self, f):
        kinds = ["map", "map", "set", "index", "cache", "tree"]
        def cut(x):
            w = x.split()
            if w[-1] != "a":
                return x
            return x[:-1] + f"a{self.one('x', 'w')}{self.one(1, 1, 1, 2, 2, 3)}"
        for _ in range(140 * f):
            kind = self.one(kinds)
            st, ks = self.state(kind, None if kind == "tree" else self.one("few", "chain", "grow", "shrink", "half", "half", "crowd"))
            ks = self.r.sample(ks, min(2, len(ks)))
            hold = [o for o in WRITE[kind] if o in HOLD] or WRITE[kind]
            ts = []
            for x in range(self.one(2, 3, 3)):
                t = []
                for _x in range(self.one(1, 2, 3)):
                    z = self.r.random()
                    if x == 0 and z < .6:
                        t.append(self.op(kind, self.one(ks), hold, hold=1.0))
                    elif z < .2 and kind != "tree":
                        t.append(cut(self.scan(kind, asy=1, lock_free=False)))
                    elif z < .27:
                        t.append(cut(f"clear 0 0 0 0 a" if kind != "tree" else f"remove_range {min(ks)} 0 {max(ks)} 4 a"))
                    else:
                        c = self.op(kind, self.one(ks), None, asy=.9, tr=0)
                        t.append(cut(c) if self.r.random() < .7 else c)
                ts.append(t)
            post = "; ".join(self.op(kind, k, [o], 0, 0, 0) for k in ks for o in (GET[kind][0], ADD[kind][0], DEL[kind][0]))
            post += "; len" + ("; clear; len" if self.r.random() < .3 else "")
            self.scn("cut", kind, tasks=ts, post=post, **st)
        # Nodes that are being split while tasks wait for them.
        for _ in range(30 * f):
            st, ks = self.state("tree", self.one("nsplit", "msplit", "msplit", "leaf", "bsplit", "bsplit", "last"))
            ts = []
            for x in range(self.one(2, 3, 3)):
                t = []
                for _x in range(self.one(1, 2)):
                    c = self.op("tree", self.one(ks), ["insert"] * 4 + ["bremove"], asy=.8)
                    t.append(cut(c) if self.r.random() < .6 else c)
                ts.append(t)
            post = "; ".join(self.op("tree", k, [o], 0, 0, 0) for k in dict.fromkeys(ks) for o in ("read", "insert", "bremove"))
            self.scn("tcut", "tree", tasks=ts, post=post + "; len; titer", **st)
        for _ in range(12 * f):
            # A remove_range that has to wait is abandoned.
            st = self.deep3() if self.r.random() < .7 else self.state("tree", "deep")[0]
            pr = sorted(self.present(st["pre"]))
            i = self.r.randrange(3, len(pr) // 2)
            j = self.r.randrange(i + 10, len(pr))
            a, b = pr[i], pr[j]
            near = pr[max(0, i - 3):i + 2] + pr[j - 1:j + 4]
            near += [k + d for k in near for d in (1, -1) if k + d > 0]
            q = self.r.sample(near, 3) + [self.one(pr[i:j])]
            ts = [[cut(f"remove_range {a} 0 {b} {self.one(4, 4, 8, 0)} a")]]
            for _t in range(self.one(1, 1, 2)):
                ts.append([self.op("tree", self.one(near), ["insert", "insert", "bremove"]) for _ in range(self.one(1, 2, 3))])
            post = "titer; " + "; ".join(self.op("tree", k, [o], 0, 0, 0) for k in q for o in self.one(["read", "insert"], ["insert", "bremove"], ["bremove", "insert"]))
            self.scn("rcut", "tree", tasks=ts, post=post + "; len; titer", **st)

    def c15(self, f):
        kinds = ["map", "set", "index", "cache", "tree", "tree"]
        for _ in range(320 * f):
            kind = self.one(kinds)
            st, ks = self.state(kind)
            ks = self.r.sample(ks, min(3, len(ks)))
            t = []
            for _x in range(self.one(1, 2, 4, 8)):
                z = self.r.random()
                if z < .2:
                    c = self.scan(kind, lock_free=False, hi=max(ks))
                elif z < .25 and kind == "tree":
                    c = f"remove_range {min(ks)} 0 {max(ks)} 4 {self.mode()}"
                elif z < .29:
                    c = self.one("clone", "eq", "serde", "fromiter", "fmt")
                    c += " 0 0 0 0 s"
                else:
                    c = self.op(kind, self.one(ks), WRITE[kind] if self.r.random() < .8 else None, tr=0)
                if self.r.random() < .75:
                    c += f"f{self.one(1, 1, 1, 2, 2, 3, 4, 6, 9, 14, 20, 30)}"
                t.append(c)
            post = "; ".join(self.op(kind, k, [o], 0, 0, 0) for k in ks for o in (GET[kind][0], ADD[kind][0], DEL[kind][0]))
            self.scn("pan", kind, tasks=[t], post=post + "; len", **st)
        self.undo(24 * f)
        # A panic somewhere in a split of a leaf or of a node: the clones of keys and values.
        for _ in range(70 * f):
            st, ks = self.state("tree", self.one("leaf", "leaf", "bsplit", "bsplit", "sparse", "nsplit", "msplit", "msplit", "isplit", "deep"))
            t = []
            for _x in range(self.one(1, 2, 3, 4)):
                c = self.op("tree", self.one(ks), ["insert", "insert", "insert", "bremove"], tr=0)
                t.append(c + f"f{self.r.randrange(1, self.one(12, 40, 70))}")
                if self.r.random() < .3:
                    t.append(self.op("tree", self.one(ks), ["bremove", "insert"], tr=0))
            t.append(self.one("titer", "range 0 0 999 5"))
            q = self.r.sample(ks, min(3, len(ks)))
            post = "; ".join(self.op("tree", k, [o], 0, 0, 0) for k in q for o in self.one(("insert", "read", "bremove"), ("bremove", "read", "insert"), ("bremove", "read")))
            self.scn("psplit", "tree", tasks=[t], post=post + "; titer; len; live", **st)
        # Every point of a split at which a clone or a comparison may panic; afterwards everything is removed bit by bit.
        for k0s in ([1, 13], [29], [57, 27]):
            k0 = self.one(k0s)
            st = {"hash": "spread", "pre": self.one("fill 2 28 0 2", "fill 2 28 0 2", "fill 2 56 0 2" if k0 != 29 else "fill 2 28 0 2", "fill 2 28 0 2; fill 100 200" if k0 != 29 else "fill 2 28 0 2"), "rz": 0}
            for n in range(1, 60):
                for _again in range(2 if n > 38 else 1):
                    t = [f"{self.op('tree', k0, ['insert'], 0, 0, 0)}f{n}", "titer"]
                    q = self.r.sample(range(1, 17), 9)
                    post = "; ".join(self.op("tree", k, ["bremove"], 0, 0, 0) for k in q)
                    self.scn("pall", "tree", tasks=[t], post=post + "; titer; len; " + self.op("tree", k0, ["insert"], 0, 0, 0) + "; titer; live", **st)
        # A comparison of keys that panics while leaves and nodes are being unlinked, and while a range is removed.
        st, ks = self.state("tree", "last")
        st["rz"] = 0
        for n in range(1, 40):
            q = [max(1, ks[0] + self.r.randrange(-4, 5)) for _ in range(5)]
            post = "; ".join(self.op("tree", k, [o], 0, 0, 0) for k in q for o in self.one(["insert"], ["insert", "bremove"], ["insert", "read"]))
            self.scn("pdel", "tree", tasks=[[self.op("tree", ks[0], ["bremove"], .3, 0, 0) + f"f{n}", "titer"]], post=post + "; titer; len; " + self.op("tree", ks[0], ["insert"], 0, 0, 0) + "; titer; live", **st)
        for _ in range(3 * f):
            n = self.one(400, 700) if f > 1 or self.r.random() < .5 else 0
            pre = f"fill 1 {n}" if n else self.deep3()["pre"]
            pr = sorted(self.present(pre))
            i = self.r.randrange(1, len(pr) * 2 // 3)
            j = self.r.randrange(i, len(pr))
            for c in self.r.sample(range(1, 120), 24):
                q = [self.one(pr) if self.r.random() < .5 else max(1, self.one(pr[i], pr[j]) + self.r.randrange(-3, 4)) for _ in range(5)]
                post = "; ".join(self.op("tree", k, [o], 0, 0, 0) for k in q for o in self.one(["insert"], ["insert", "bremove"], ["insert", "read"]))
                self.scn("prr", "tree", hash="spread", pre=pre, rz=0, tasks=[[f"remove_range {pr[i]} 0 {pr[j]} {self.r.randrange(9)} {self.mode()}f{c}", "titer"]], post=post + "; titer; len; live")
        # A panic somewhere in the relocation of a bucket.
        for _ in range(12 * f):
            kind = self.one("index", "index", "index", "map", "cache")
            st, ks = self.state(kind, self.one("half", "half", "grow", "shrink", "crowd"))
            t = []
            for _x in range(self.one(1, 2, 4)):
                z = self.r.random()
                c = self.scan(kind, lock_free=False) if z < .2 else self.op(kind, self.one(ks), WRITE[kind] if z < .7 else None, tr=0)
                t.append(c + f"f{self.r.randrange(1, self.one(3, 6, 12))}")
            post = "; ".join(self.op(kind, k, [o], 0, 0, 0) for k in ks[:3] for o in (GET[kind][0], ADD[kind][0], DEL[kind][0]))
            self.scn("prel", kind, tasks=[t], post=post + "; len; " + self.one("iter", "retain", "len") + "; live", **st)
        for _ in range(40 * f):
            kind = self.one(kinds)
            st, ks = self.state(kind)
            ks = self.r.sample(ks, min(2, len(ks)))
            ts = []
            for x in range(2):
                t = []
                for _x in range(self.one(1, 2)):
                    c = self.op(kind, self.one(ks), WRITE[kind], tr=0)
                    if x == 0:
                        c += f"f{self.one(1, 1, 2, 3, 5)}"
                    t.append(c)
                ts.append(t)
            post = "; ".join(self.op(kind, k, [o], 0, 0, 0) for k in ks for o in (GET[kind][0], ADD[kind][0], DEL[kind][0]))
            self.scn("pconc", kind, tasks=ts, post=post, **st)

    def c16(self, f):
        kinds = ["map", "set", "index", "cache", "tree", "tree"]
        for _ in range(110 * f):
            kind = self.one(kinds)
            st, ks = self.state(kind)
            ks = self.r.sample(ks, min(2, len(ks)))
            hold = [o for o in WRITE[kind] if o in HOLD] or WRITE[kind]
            ts = []
            for x in range(self.one(3, 3, 4)):
                t = []
                for _x in range(self.one(1, 2)):
                    z = self.r.random()
                    if z < .45:
                        t.append(self.op(kind, self.one(ks), hold, hold=1.0))
                    elif z < .55 and kind != "tree":
                        t.append(self.scan(kind, lock_free=False))
                    elif z < .6:
                        t.append("clear 0 0 0 0 " + self.mode() if kind != "tree" else f"remove_range {min(ks)} 0 {max(ks)} 4 " + self.mode())
                    else:
                        t.append(self.op(kind, self.one(ks), WRITE[kind]))
                ts.append(t)
            self.scn("wait", kind, tasks=ts, **st)
        self.conc("rsz", ["map", "index", "cache"], 30 * f, states=["half", "drop", "shrink", "crowd"], tasks=(3, 4), length=(1, 2), scan=.15, sweep=.05, hold=.8)
        # A node is split while others wait for its lock.
        for s in ("nsplit", "msplit", "msplit", "leaf", "bsplit", "bsplit", "last", "isplit"):
            self.conc(s, ["tree"], (12 if s != "isplit" else 5) * f, states=[s], ops=dict(tree=["insert"] * 4 + ["bremove"]), tasks=(2, 4), length=(1, 2), hot=.3)

    def c17(self, f):
        for _ in range(500 * f):
            kind = self.one("map", "set", "index", "cache", "tree")
            st, ks = self.state(kind)
            t = []
            for _x in range(self.one(4, 8, 12)):
                o = self.one("clone", "eq", "eq", "eq", "fmt", "serde", "serde", "fromiter", "fromiter")
                q = self.r.randrange(8) if o == "eq" else self.r.randrange(4)
                t.append(f"{o} {self.one(0, 64, 500) if o == 'eq' else 0} 0 0 {q}")
                if self.r.random() < .5:
                    t.append(self.op(kind, self.one(ks), WRITE[kind]))
            self.scn("whole", kind, tasks=[t], **st)
        self.seqs("seq", ["map", "set", "index", "cache", "tree"], 60 * f, whole=.3, n=(15, 30))

    def c18(self, f):
        self.seqs("seq", ["tree"], 120 * f, live=.1, sweep=.05, scan=.04, n=(60, 140), counts=.15)
        self.conc("conc", ["tree"], 70 * f, sweep=.1, ops=WRITE)
        for _ in range(12 * f):
            n = self.one(100, 300, 800)
            a = self.r.randrange(1, n)
            post = self.one("clear; depth; live", f"remove_range 0 0 0 0; depth", f"remove_range {a} 0 0 1; depth; insert 5 5 5; depth")
            self.scn("deep", "tree", pre=f"fill 1 {n}; drain {a} {n}; fill 1 {n} {self.one(1, 2, 3)}", tasks=["depth; " + post + "; depth"])

    def c19(self, f):
        hk = ["map", "set", "index", "cache"]
        for _ in range(120 * f):
            kind = self.one(hk)
            st, ks = self.state(kind, self.one("half", "half", "grow", "shrink", "crowd"))
            if self.r.random() < .35:
                t = []
                for _x in range(25):
                    z = self.r.random()
                    t.append(self.scan(kind, lock_free=True) if z < .1 else "len" if z < .2 else self.op(kind, self.one(ks)))
                self.scn("seq", kind, tasks=[t], **st)
            else:
                ts = [[self.op(kind, self.one(ks)) for _x in range(self.one(1, 2, 3))] for _t in range(self.one(2, 2, 3))]
                self.scn("conc", kind, tasks=ts, **st)
        self.seqs("drive", ["map", "set", "index"], 60 * f, resv=.25, scan=.06, n=(30, 80))


def generate(prop, seed, tier):
    g = G(prop, seed, tier)
    getattr(g, prop.lower())(1 if tier == "quick" else 12)
    return "\n".join(g.out) + "\n"


if __name__ == "__main__":
    print(generate(sys.argv[1], sys.argv[2], sys.argv[3]), end="")
