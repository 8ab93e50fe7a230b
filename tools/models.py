"""Design models and which property each of them belongs to."""

ASSUMPTIONS = [
    "executions are sequentially consistent: the scheduler interleaves atomic accesses, it does not reorder them",
    "the crates saa and sdd are as pinned; they run under the same scheduler, but are not what is verified",
    "memory allocation does not fail",
]

# name: module, configuration, ...
MODELS = {
    "lru": dict(module="Lru.tla", cfg="Lru.cfg"),
    "lru_moves": dict(module="Lru.tla", cfg="LruMoves.cfg"),
    # Threads of various kinds, next to one that locks buckets.
    **{f"table_{x.lower()}": dict(module="Table.tla", cfg=f"Table{x}.cfg") for x in "Lock Try Async Peek Count Scan AsyncScan".split()},
    **{f"table_{x.lower()}_all": dict(module="Table.tla", cfg=f"Table{x}All.cfg", timeout=2400) for x in "Lock Try Async Peek Count Scan AsyncScan".split()},
    # A leaf node of a TreeIndex.
    **{f"tree_{x.lower()}": dict(module="Tree.tla", cfg=f"Tree{x}.cfg") for x in "Insert Look Last IterSplit IterRemove".split()},
    **{f"tree_{x.lower()}_all": dict(module="Tree.tla", cfg=f"Tree{x}All.cfg", timeout=2400) for x in "Insert Look Iter IterInsert IterRemove".split()},
}

# The behaviors of design models are replayed on the code; each function gives scenarios.
REPLAY = {}

FOR = {f"C{n:02}": {} for n in range(1, 20)}


def table_models(*x, replay=True):
    return dict(quick=[f"table_{y}" for y in x], thorough=[f"table_{y}_all" for y in x], replay=["table"] if replay else [])


FOR["C01"] = table_models("lock", "try")
FOR["C04"] = table_models("scan")
FOR["C05"] = table_models("count")
FOR["C06"] = table_models("lock")
FOR["C07"] = table_models("peek")
FOR["C14"] = table_models("async", "asyncscan")
FOR["C16"] = table_models("async")
FOR["C19"] = table_models("lock", "asyncscan")
FOR["C11"] = dict(quick=["tree_look", "tree_last"], thorough=["tree_insert_all", "tree_look_all", "tree_last"], replay=["tree"])
FOR["C12"] = dict(quick=["tree_itersplit", "tree_iterremove"], thorough=["tree_itersplit", "tree_iter_all", "tree_iterinsert_all", "tree_iterremove_all"], replay=["tree"])
FOR["C15"] = dict(quick=["tree_insert"], thorough=["tree_insert_all", "tree_itersplit"], replay=["tree"])
FOR["C09"] = dict(quick=["lru", "lru_moves"], thorough=["lru", "lru_moves"], replay=["lru"])


def graph(check, name, module, cfg):
    """The reachable states of a model: (label by id, successors by id, initial ids)."""
    import os, re
    dot = os.path.join(check.dir, name + ".dot")
    o, late = check.tlc(module, cfg, f"{check.dir}/meta-dump-{name}", workers=1, timeout=300, extra=["-dump", "dot", dot])
    lab, suc, ini = {}, {}, []
    with open(dot) as f:
        for l in f:
            m = re.match(r'(-?\d+) \[label="(.*?)"(,style = filled)?', l)
            if m:
                lab[m[1]] = m[2].replace("\\n", "\n").replace('\\\\', "\\")
                if m[3]:
                    ini.append(m[1])
                continue
            m = re.match(r"(-?\d+) -> (-?\d+)", l)
            if m and m[1] != m[2]:
                suc.setdefault(m[1], []).append(m[2])
            elif m:
                suc.setdefault(m[1], []).append(m[2])
    os.remove(dot)
    return lab, suc, ini


def paths(suc, ini):
    """A shortest path to each state."""
    p = {x: [x] for x in ini}
    q = list(ini)
    for x in q:
        for y in suc.get(x, []):
            if y not in p:
                p[y] = p[x] + [y]
                q.append(y)
    return p


def lru(check):
    """A test for each transition of Lru.tla: a path to it, the transition, and as many insertions as it takes
    to see the entries evicted one after another."""
    import random, re
    rnd = random.Random(check.seed)
    lab, suc, ini = graph(check, "lru", "Lru.tla", "Lru.cfg")
    st = {}
    for x, l in lab.items():
        m = re.search(r"order = <<(.*?)>>", l)
        st[x] = [int(y) for y in m[1].split(",") if y.strip()]
    out = []
    sp = paths(suc, ini)
    n = 0
    edges = [(a, b) for a in suc for b in dict.fromkeys(suc[a])]
    done = set()
    for a, b in edges:
        seq = sp[a] + [b]
        keys, ops, nk = {}, [], 0
        ok = True
        for x, y in zip(seq, seq[1:]):
            p, q = st[x], st[y]
            if len(q) == len(p) + 1:
                nk += 1
                s = q[-1]
                keys[s] = nk
                i = 100 + nk
                ops.append(rnd.choice([f"insert {nk} {i} {i} 0 {rnd.choice('sa')}", f"or_ins {nk} {i} {i}", f"ent_ins {nk} {i} {i}", f"replace_ins {nk} {i} {i}"]))
            elif len(q) == len(p) - 1:
                s = next(z for z in p if z not in q)
                k = keys.pop(s)
                ops.append(rnd.choice([f"remove {k} 0 0 0 {rnd.choice('sa')}", f"ent_rem {k} 0 0", f"get_rem {k} 0 0"]))
            elif q == p or q == p[1:] + p[:1]:
                # The newest is fetched; or the oldest is, which a full bucket cannot be told from an eviction by.
                ops.append(rnd.choice([f"get {keys[q[-1]]} 0 0 0 {rnd.choice('sa')}", f"rmw {keys[q[-1]]} 0 {rnd.randrange(10, 99)}"]))
            else:
                ops.append(rnd.choice([f"get {keys[q[-1]]} 0 0 0 {rnd.choice('sa')}", f"rmw {keys[q[-1]]} 0 {rnd.randrange(10, 99)}"]))
            if rnd.random() < .1 and keys:
                ops.append(f"{rnd.choice(['read', 'contains', 'and_mod'])} {rnd.choice(list(keys.values()))} 0 0 2")
        n += 1
        t = ops + [f"insert {k} {k} {k}" for k in range(50, 50 + 32 + 2)]
        out.append(f"scn trans_{n} kind=cache hash={rnd.choice(['coll', 'bucket'])} max=64 lru=1\nt " + "; ".join(t))
    check.stat["replay_lru_transitions"] = n
    return "\n".join(out) + "\n"


REPLAY["lru"] = lru


def values(text):
    """{0, 2} or << {0}, {} >> or (0 :> TRUE @@ 1 :> FALSE) as a list, or a dictionary of lists."""
    import re
    return [int(x) for x in re.findall(r"-?\d+", text)]


def table_states(check):
    """The initial states of Table.tla: (new size, old size, next chunk, dead old buckets, keys); sizes are 0 if absent."""
    import os, re
    f = os.path.join(check.dir, "table.dump")
    check.tlc("Table.tla", "TableInit.cfg", f"{check.dir}/meta-dump-table", workers=1, timeout=300, extra=["-dump", f])
    out = set()
    for t in ("\n" + open(f).read()).split("\nState ")[1:] if os.path.exists(f) else []:
        if '/\\ pc = <<"Start">>' not in t:
            continue
        a = re.search(r"/\\ arr = <<(.*?)>>\s*(?=/\\ |\Z)", t, re.S)[1]
        keys = tuple(sorted(values(re.search(r"/\\ S = \{(.*?)\}", t)[1])))
        rec = []
        for x in re.split(r"\[\s*n \|->", a)[1:]:
            n = int(x.split(",")[0])
            dead = re.search(r"dead \|->(.*?)has \|->", x, re.S)[1]
            rec.append((n, int(re.search(r"link \|-> (\d+)", x)[1]), int(re.search(r"next \|-> (\d+)", x)[1]),
                        tuple(int(i) for i, d in re.findall(r"(\d+) :> (TRUE|FALSE)", dead) if d == "TRUE")))
        (n, link, _, _), (m, _, nx, dead) = rec[:2]
        out.add((n, m if link else 0, nx if link else 0, dead if link else (), keys))
    if os.path.exists(f):
        os.remove(f)
    return sorted(out)


# Keys of the model, of which there are four, and those of the container that are in the same part of the table.
REAL = [0, 2, 1, 3]


def table_pre(st, kind):
    """Operations that lead to a state of Table.tla; none if it can only occur while operations are running.
    A bucket of the model stands for 32, which are moved at a time."""
    import itertools
    n, m, nx, dead, keys = st
    if n == 0:
        return []
    ins = [f"insert {REAL[k]} {REAL[k]} {1000 + REAL[k]}" for k in keys]
    # The array is allocated by the first insertion.
    new = ["insert 4096 1 1", f"{'bremove' if kind == 'index' else 'remove'} 4096"]
    if m == 0:
        return [f"reserve 0 0 0 {1024 * n}"] + new + ins
    # Each operation moves a chunk, then what its own key needs.
    lo = lambda n, m, i: i * m // n
    hi = lambda n, m, i: lo(n, m, i) + m // n - 1 if n < m else lo(n, m, i)
    for own in itertools.product(range(n), repeat=nx):
        d = set(range(nx))
        for i in own:
            d |= set(range(lo(n, m, i), hi(n, m, i) + 1))
        if d == set(dead):
            break
    else:
        return None
    look = [f"contains {REAL[i * 4 // n] + 4096}" for i in own]
    if n > m:
        return [f"reserve 0 0 0 {1024 * m}"] + new + ins + [f"reserve 0 0 0 {1024 * (n - m)}"] + look
    # The first of two reservations is given back.
    return [f"reserve 0 0 0 {1024 * (m - n)}", f"reserve 0 0 0 {1024 * n}"] + new + ins + ["unreserve"] + look


def table(check):
    """Pairs of operations, from the states in which Table.tla starts."""
    import gen
    g = gen.G(check.prop, check.seed, check.tier + "/table")
    g.idn = 20000
    r = g.r
    sts = [s for s in table_states(check) if table_pre(s, "map") is not None]
    mid = [s for s in sts if s[1]]
    check.stat["replay_table_states"] = len(sts)
    kinds = dict(C01=["map", "map", "set"], C07=["index"], C16=["map", "set", "index"], C04=["map", "set", "index"]).get(check.prop, ["map", "set", "index"])
    for x in range(50 if check.tier == "quick" else 1500):
        kind = g.one(kinds)
        st = g.one(mid if r.random() < .9 else sts)
        ks = [REAL[k] for k in st[4]] or [0]
        if r.random() < .3:
            ks = REAL
        if r.random() < .5:
            ks = [g.one(ks)]
        ts = []
        for t in range(g.one(2, 2, 2, 3)):
            ops = []
            for _ in range(g.one(1, 1, 2)):
                k = g.one(ks)
                if t == 0 and check.prop == "C05":
                    ops.append(g.one("len", "is_empty"))
                elif t == 0 and check.prop == "C04" or r.random() < (.12 if check.prop in ("C14", "C16", "C19", "C06") else 0):
                    ops.append(g.scan(kind, lock_free=kind == "index", stop=False))
                elif t == 0 and check.prop == "C07":
                    ops.append(g.op(kind, k, gen.GET[kind]))
                elif t == 0 and check.prop == "C14":
                    c = g.op(kind, k, None, asy=1, tr=0)
                    ops.append(c + f"{g.one('x', 'w')}{g.one(1, 1, 2, 3)}" if c.endswith("a") else c)
                else:
                    ops.append(g.op(kind, k, g.one(None, gen.ADD[kind], gen.DEL[kind], gen.GET[kind])))
            ts.append(ops)
        g.scn("table", kind, hash="lin", pre="; ".join(table_pre(st, kind)), tasks=ts, rz=1)
    return "\n".join(g.out) + "\n"


REPLAY["table"] = table


def tree_states(check):
    """The initial states of Tree.tla: for each leaf its keys and whether it is used up."""
    import os, re
    f = os.path.join(check.dir, "tree.dump")
    check.tlc("Tree.tla", "TreeInit.cfg", f"{check.dir}/meta-dump-tree", workers=1, timeout=300, extra=["-dump", f])
    out = set()
    for t in ("\n" + open(f).read()).split("\nState ")[1:] if os.path.exists(f) else []:
        a = re.search(r"/\\ first = (<<.*?>>)\s*(?=/\\ |\Z)", t, re.S)[1]
        out.add(tuple((tuple(sorted(values(l))), int(u) == 2) for l, u in re.findall(r"<<\s*\{(.*?)\},\s*(\d+)\s*>>", a)))
    if os.path.exists(f):
        os.remove(f)
    return sorted(out)


def tree_pre(st):
    """Operations that lead to such a state; a key of the model is 100 times as large here, and a leaf has 14 slots."""
    ins = lambda k: f"insert {k} {k} {1000 + k}"
    rem = lambda k: f"bremove {k}"
    live = [[100 * k for k in l] for l, _ in st]
    if len(st) == 1:
        n = (14 if st[0][1] else 8) - len(live[0])
        fill = [live[0][0] + j for j in range(1, n + 1)]
        return [ins(k) for k in sorted(live[0] + fill)] + [rem(k) for k in fill], live[0] + fill
    # The first 13 keys make the first leaf when the 15th is inserted.
    low = sorted(live[0] + [live[0][-1] - j for j in range(1, 14 - len(live[0]))])
    high = sorted(live[1] + [live[1][-1] + j for j in range(1, (15 if st[1][1] else 9) - len(live[1]))])
    more = [live[0][-1] - 14] if st[0][1] else []
    gone = [k for k in low + more + high if k not in live[0] + live[1]]
    return [ins(k) for k in low + high + more] + [rem(k) for k in gone], live[0] + live[1] + gone


def tree(check):
    """Pairs of operations, from the states in which Tree.tla starts."""
    import gen
    g = gen.G(check.prop, check.seed, check.tier + "/tree")
    g.idn = 30000
    r = g.r
    sts = tree_states(check)
    check.stat["replay_tree_states"] = len(sts)
    for x in range(dict(C11=90, C12=60, C15=40)[check.prop] * (1 if check.tier == "quick" else 30)):
        st = sts[x % len(sts)] if r.random() < .5 else g.one(sts)
        pre, near = tree_pre(st)
        live = [100 * k for l, _ in st for k in l]
        ks = [100, 200, 300, g.one(near)]
        ts = []
        for t in range(g.one(2, 2, 3)):
            ops = []
            for _ in range(g.one(1, 1, 2)):
                if t == 0 and check.prop == "C12" or r.random() < .1:
                    ops.append(g.one("titer 0 0 0 0 s", "titer 0 0 0 0 s", g.scan("tree", hi=320)))
                elif t == 0 and check.prop == "C15":
                    # A split that is undone.
                    ops.append(g.op("tree", g.one(ks), ["insert"], asy=.2) + f"f{g.one(g.one(range(1, 60), range(30, 45)))}")
                elif check.prop == "C15":
                    ops.append(g.one("titer 0 0 0 0 s", "titer 0 0 0 0 s", g.op("tree", g.one(ks + live), None)))
                else:
                    ops.append(g.op("tree", g.one(ks + live), g.one(["insert"], ["bremove"], ["bremove"], None)))
            ts.append(ops)
        g.scn("tree", "tree", pre="; ".join(pre), tasks=ts, post="titer; len")
    return "\n".join(g.out) + "\n"


REPLAY["tree"] = tree
REPLAYS = {"lru": "Lru.tla", "table": "Table.tla", "tree": "Tree.tla"}
