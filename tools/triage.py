#!/usr/bin/env python3
"""Runs Lin.tla on a file of histories and prints the rejected ones."""
import sys, json, subprocess, os, re, tempfile, collections
f = sys.argv[1]
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 3
if "keep" not in sys.argv:
    import json as J
    L = [J.loads(l) for l in open(f)]
    for x in L: x["ev"] = [e for e in x["ev"] if e.get("o") != "dangle"]
    f = f + ".s"
    open(f, "w").write("".join(J.dumps(x) + "\n" for x in L))
md = tempfile.mkdtemp()
o = subprocess.run(["tlc", "-workers", "1", "-metadir", md, "-config", "/verif/spec/Lin.cfg", "/verif/spec/Lin.tla"],
                   env=dict(os.environ, TRACE=f), capture_output=True, text=True).stdout
H = [json.loads(l) for l in open(f)]
rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', o)]
print("histories", len(H), "rejected", len(rej))
if "REJECTED" not in o and "No error" not in o: print(o[-3000:])
cnt = collections.Counter(H[a-1]["scn"] for a, b in rej); print(cnt)
seen = collections.Counter()
for a, b in rej:
    x = H[a-1]
    seen[x["scn"]] += 1
    if seen[x["scn"]] > lim: continue
    print("---", x["scn"], x["pol"], "rz", x["rz"], "init", x["init"][:8], len(x["init"]))
    for n, e in enumerate(x["ev"]):
        if e["e"] in ("quiet",) and len(str(e)) > 400: e = dict(e, c="...%d" % len(e["c"]))
        print("  " if n != b else "=>", json.dumps(e)) if n >= b-25 else None
