#!/usr/bin/env python3
"""Decides a property:  check.py PROPERTY quick|thorough,  or  check.py --replay FILE.

1. Builds the harness with the working tree of /repo (cfg scc_verif, deterministic scheduler).
2. Checks the design models (spec/*.tla) listed for the property exhaustively with TLC.
3. Runs the real containers on generated scenarios in many interleavings and records histories.
4. Checks each history against the specification with TLC (spec/Lin.tla, spec/*Trace.tla).

Exit 0: held; 1: violation, with a VIOLATION line; 2: the check itself failed."""
import collections, fcntl, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import gen, models

CPUS = os.cpu_count() or 4
CONC = os.path.join(HERE, "harness/target/release/conc")
# Wall-clock seconds for the interleavings, and histories at most.
TIME = dict(quick=20, thorough=420)
MOST = dict(quick=9000, thorough=200000)


class Broken(Exception):
    pass


def build():
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            env[k] = v
    env["RUSTFLAGS"] = "--cfg scc_verif --cap-lints warn"
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("CARGO_BUILD_TARGET_DIR", None)
    with open(os.path.join(HERE, "work/build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--features", "sched", "--target-dir", os.path.join(HERE, "harness/target")],
                           cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True, timeout=700)
    if r.returncode:
        raise Broken("build failed\n" + r.stderr[-4000:])


def tlc(module, cfg, meta, env=None, workers=1, timeout=300, heap="3g", extra=()):
    """Returns (output, timed out)."""
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xss64m"
    p = subprocess.Popen(["tlc", "-workers", str(workers), "-metadir", meta, *extra, "-config", os.path.join(HERE, "spec", cfg), os.path.join(HERE, "spec", module)],
                         env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return o, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return o or "", True
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(o):
    g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    return tuple(int(x.replace(",", "")) for x in g[-1]) if g else (0, 0)


class Check:
    tlc = staticmethod(tlc)

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(HERE, "work", f"{prop}-{tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.viol = []
        self.gen_states = self.dist_states = 0
        self.stat = collections.Counter()
        self.notes = []
        self.samples = []
        self.models = []

    # Violations.

    def violation(self, sig, what):
        if sum(x[0] == sig for x in self.viol) < 3 and len(self.viol) < 200:
            self.viol.append((sig, what))

    # Execution of scenarios.

    def shard(self, n, parts, ms, most):
        """Runs the scenarios of a shard. Returns the files of histories."""
        d = self.dir
        outs = []
        for turn in range(4):
            scn, out = f"{d}/{n}-{turn}.scn", f"{d}/{n}-{turn}.nd"
            with open(scn, "w") as f:
                f.write("".join(parts))
            outs.append(out)
            p = subprocess.Popen([CONC, scn, out, f"ms={ms}", f"seed={self.seed * 1000 + n + 1}", f"max={most}"],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
            # One task runs at a time: handing over is quick if that is on the same CPU.
            try:
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(p.pid, {cpus[n % len(cpus)]})
            except OSError:
                pass
            log = []
            th = threading.Thread(target=lambda: log.extend(p.stdout.readlines()), daemon=True)
            th.start()
            last, since = None, time.time()
            hung = False
            while p.poll() is None:
                time.sleep(0.1)
                x = self.pos(out)
                if x != last:
                    last, since = x, time.time()
                elif time.time() - since > 100:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            th.join(5)
            for l in log:
                m = re.search(r"execs=(\d+) one_preemption=(\w+) .*distinct=(\d+) outcomes=(\d+) histories=(\d+)", l)
                if m:
                    self.stat["executions"] += int(m[1])
                    self.stat["exhaustive_1_preemption"] += m[2] == "all"
                    self.stat["distinct_histories"] += int(m[3])
                    self.stat["outcomes"] += int(m[4])
                    self.stat["scenarios"] += 1
            rc = p.returncode
            if not hung and rc == 0:
                break
            if hung or rc != 3:
                self.crash(n, scn, out, rc, hung, "".join(log)[-1500:])
                if hung:
                    break
            # Go on with the scenarios that are left.
            name = (self.pos(out).split() or ["?"])[0]
            at = next((i for i, x in enumerate(parts) if x.startswith(f"scn {name} ")), len(parts))
            parts = parts[at + 1:]
            if not parts:
                break
        return outs

    def pos(self, out):
        try:
            with open(out + ".pos") as f:
                return f.read(400).strip()
        except OSError:
            return ""

    def crash(self, n, scn, out, rc, hung, log):
        pos = self.pos(out)
        if not pos:
            raise Broken(f"conc failed ({rc}) without doing anything\n{log}")
        if not hung and rc == -signal.SIGKILL:
            raise Broken(f"conc was killed at {pos}")
        name, pol = pos.split()[0], pos.split()[1]
        cmd = [CONC, scn, out + ".again", f"scn={name}", f"pol={pol}"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=100)
            again = r.returncode not in (0, 3)
        except subprocess.TimeoutExpired:
            again = True
        if hung and not again:
            raise Broken(f"conc did not finish {pos}, but did when run again")
        what = "hang" if hung else f"signal {-rc}" if rc < 0 else f"panic (exit {rc})"
        self.violation(f"crash {what} {name}", dict(kind="crash", what=what, scn=name, pol=pol, reproduced=again, scenario=self.text_of(open(scn).read(), name), log=log))

    def text_of(self, text, name):
        x = re.search(rf"(?ms)^scn {re.escape(name)} .*?(?=^scn |\Z)", text)
        return x[0] if x else ""

    def run_scenarios(self, text, secs, most):
        parts = re.findall(r"(?ms)^scn .*?(?=^scn |\Z)", text)
        multi = [x for x in parts if len(re.findall(r"(?m)^t ", x)) > 1]
        solo = [x for x in parts if x not in set(multi)]
        ms = int(secs * CPUS * 1000 / max(1, len(multi)))
        per = max(20, (most - len(solo)) // max(1, len(multi)))
        self.text = text
        k = CPUS
        sh = [multi[i::k] + solo[i::k] for i in range(k)]
        with ThreadPoolExecutor(CPUS) as ex:
            fs = list(ex.map(lambda i: self.shard(i, sh[i], ms, per), [i for i in range(k) if sh[i]]))
        lines = []
        for f in sum(fs, []):
            if os.path.exists(f):
                with open(f, errors="replace") as g:
                    # A crashed process may leave half a line.
                    lines += [self.strip(l) for l in g if l.endswith("]}\n")]
        return lines

    def strip(self, l):
        """A cancelled wait that touches freed memory, or would spin forever, is a violation by itself: the driver
        lets the execution go on without it, so the rest of the history is still checked."""
        if '"o":"dangle"' not in l:
            return l
        h = json.loads(l)
        for n, e in enumerate(h["ev"]):
            if e["e"] == "obs" and e["o"] == "dangle":
                op = next((x["o"] for x in reversed(h["ev"][:n]) if x["e"] == "call" and x["t"] == e["t"]), "")
                self.stat["dangling"] += 1
                self.violation(f"dangling kind={h['kind']} poisoned={e['r'][0]}",
                               dict(kind="dangling", scn=h["scn"], pol=h["pol"], event=n, at=e, op=op, scenario=self.text_of(self.text, h["scn"]), history=h))
        h["ev"] = [e for e in h["ev"] if not (e["e"] == "obs" and e["o"] == "dangle")]
        return json.dumps(h, separators=(",", ":")) + "\n"

    # Trace validation.

    def validate(self, lines, module="Lin.tla", cfg="Lin.cfg", timeout=240, label="histories"):
        lines.sort(key=len, reverse=True)
        k = CPUS if len(lines) > 40 else 1
        chunks = [c for c in (lines[i::k] for i in range(k)) if c]

        def one(i):
            f = f"{self.dir}/{module}.{label}.{i}.ndjson"
            with open(f, "w") as g:
                g.writelines(chunks[i])
            return tlc(module, cfg, f"{self.dir}/meta-{module}-{label}-{i}", dict(TRACE=f), timeout=timeout)

        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(one, range(len(chunks))))
        for c, (o, late) in zip(chunks, res):
            g, d = counts(o)
            self.gen_states += g
            self.dist_states += d
            if late:
                self.stat["unchecked"] += len(c)
                self.notes.append(f"TLC did not finish {len(c)} {label}")
                continue
            m = re.search(r'<<"HISTORIES", (\d+)>>', o)
            if not m:
                # A history that cannot even be evaluated.
                self.isolate(c, module, cfg, o)
                continue
            if int(m[1]) != len(c):
                raise Broken("TLC did not read all histories")
            rej = re.findall(r'<<"REJECTED", (\d+), (\d+)>>', o)
            self.stat["validated"] += len(c)
            for a, b in rej:
                self.reject(c[int(a) - 1], int(b))

    def isolate(self, c, module, cfg, o):
        if len(c) == 1:
            try:
                h = json.loads(c[0])
            except ValueError:
                raise Broken("bad history\n" + o[-2000:])
            if "ev" not in h or "Error" not in o:
                raise Broken("TLC failed\n" + o[-3000:])
            self.reject(c[0], len(h["ev"]) - 1, re.sub(r"\s+", " ", o[o.find("Error"):][:300]))
            return
        if self.stat["isolations"] > 12:
            raise Broken("TLC failed\n" + o[-3000:])
        self.stat["isolations"] += 1
        for half in (c[:len(c) // 2], c[len(c) // 2:]):
            if any(v[1].get("note") for v in self.viol):
                return
            f = f"{self.dir}/iso.ndjson"
            with open(f, "w") as g:
                g.writelines(half)
            o2, late = tlc(module, cfg, f"{self.dir}/meta-iso", dict(TRACE=f), timeout=240)
            if '<<"HISTORIES"' in o2:
                self.stat["validated"] += len(half)
                for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', o2):
                    self.reject(half[int(a) - 1], int(b))
            elif not late:
                self.isolate(half, module, cfg, o2)

    def reject(self, line, n, note=""):
        h = json.loads(line)
        e = h["ev"][n] if n < len(h["ev"]) else {}
        op = next((x["o"] for x in reversed(h["ev"][:n]) if x["e"] == "call" and x["t"] == e.get("t")), "")
        scn = h.get("scn", "?")
        sig = f"rejected kind={h.get('kind')} event={e.get('e')} op={op} scn={scn}"
        self.stat["rejected"] += 1
        self.violation(sig, dict(kind="rejected", scn=scn, pol=h.get("pol"), event=n, at=e, op=op, note=note,
                                 scenario=self.text_of(getattr(self, "text", ""), scn), history=h))

    # Design models.

    def design(self, name, m):
        o, late = tlc(m["module"], m["cfg"], f"{self.dir}/meta-{name}", workers=m.get("workers", CPUS), timeout=m.get("timeout", 600),
                      heap="8g", extra=m.get("extra", ()))
        g, d = counts(o)
        self.gen_states += g
        self.dist_states += d
        done = "Model checking completed. No error has been found" in o or "The number of states generated" in o and "Error" not in o
        if late or not done:
            raise Broken(f"design model {name}: {'timeout' if late else o[-3000:]}")
        self.models.append(dict(model=name, states=d, transitions=g))

    # Everything.

    def run(self):
        t0 = time.time()
        build()
        tb = time.time()
        for name in models.FOR[self.prop].get(self.tier, []):
            self.design(name, models.MODELS[name])
        tm = time.time()
        text = gen.generate(self.prop, self.seed, self.tier)
        for f in models.FOR[self.prop].get("replay", []):
            text += models.REPLAY[f](self)
        lines = self.run_scenarios(text, TIME[self.tier], MOST[self.tier])
        tr = time.time()
        import random
        rnd = random.Random(self.seed)
        for l in rnd.sample(lines, min(3, len(lines))):
            h = json.loads(l)
            h["ev"] = h["ev"][:40]
            h["init"] = h["init"][:10]
            self.samples.append(h)
        self.validate(lines, timeout=300 if self.tier == "quick" else 3000)
        tv = time.time()
        self.stat["t_build"], self.stat["t_models"], self.stat["t_run"], self.stat["t_validate"] = (round(x, 1) for x in (tb - t0, tm - tb, tr - tm, tv - tr))
        print(json.dumps(self.stat), *self.notes, sep="\n")
        known = self.known()
        fresh, seen = [], set()
        for sig, w in self.viol:
            k = next((t for r, t in known if re.search(r, sig)), None)
            if k is None:
                fresh.append((sig, w))
            elif k not in seen:
                seen.add(k)
                print(f"KNOWN-FINDING: property={self.prop} {k}")
        self.evidence(time.time() - t0, len(fresh))
        if fresh:
            rd = os.path.join(HERE, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            shown = {}
            for n, (sig, w) in enumerate(fresh):
                if sig in shown or len(shown) >= 4:
                    continue
                f = os.path.join(rd, f"{self.prop}-{n}.json")
                with open(f, "w") as g:
                    json.dump(dict(property=self.prop, signature=sig, seed=self.seed, tier=self.tier, **w), g, indent=1)
                shown[sig] = f
                print(f"{sig} {w.get('note', '')} {json.dumps(w.get('at', w.get('what')))[:300]}")
                print(f"VIOLATION property={self.prop} replay={f}")
            return 1
        if self.stat["unchecked"] > 0.05 * max(1, len(lines)) or not self.stat["validated"]:
            raise Broken("too many histories were not checked: " + json.dumps(self.stat))
        return 0

    def known(self):
        """Findings that are recorded, not repaired: (pattern of the signature, text)."""
        r = []
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
                if m and m[1] == self.prop:
                    r.append((m[2], m[3]))
        return r

    def evidence(self, wall, nviol):
        s = self.stat
        cov = dict(states=self.dist_states, transitions=self.gen_states, traces_validated_against_impl=s["validated"],
                   executions_of_the_implementation=s["executions"], distinct_histories=s["distinct_histories"], distinct_outcomes=s["outcomes"],
                   scenarios=s["scenarios"], scenarios_with_all_single_preemptions=s["exhaustive_1_preemption"],
                   histories_rejected=s["rejected"], histories_not_checked=s["unchecked"], design_models=self.models,
                   samples=self.samples or ["none"])
        for k in s:
            if k.startswith("replay_"):
                cov[k] = s[k]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, wall_s=round(wall, 1),
                           violations=nviol, assumptions=models.ASSUMPTIONS), f, indent=1)


def replay(path):
    """Runs the recorded schedule again and checks what happens."""
    w = json.load(open(path))
    build()
    c = Check(w["property"], "quick", w["seed"])
    c.text = w["scenario"]
    scn, out = c.dir + "/r.scn", c.dir + "/r.nd"
    open(scn, "w").write(w["scenario"])
    r = subprocess.run([CONC, scn, out, f"scn={w['scn']}", f"pol={w['pol']}"], timeout=200)
    print("exit", r.returncode)
    c.validate([c.strip(l) for l in open(out) if l.endswith("]}\n")])
    for sig, x in c.viol:
        for n, e in enumerate(x["history"]["ev"]):
            print("=>" if n == x["event"] else "  ", json.dumps(e))
        print(sig)
    return 1 if c.viol or r.returncode not in (0, 3) else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(Check(sys.argv[1], sys.argv[2], int(os.environ.get("VERIF_SEED") or 1)).run())
    except Broken as e:
        print("CHECK FAILED:", e)
        sys.exit(2)
