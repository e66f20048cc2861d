#!/usr/bin/env python3
"""survey.py [-t SECS] [-s SEED] PROP... : quick look at what the simulator finds (development aid)."""
import sys, os, subprocess, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import build
a = sys.argv[1:]; secs = 15; seed = 1; variant = "sim"
while a and a[0].startswith("-"):
    if a[0] == "-t": secs = float(a[1])
    if a[0] == "-s": seed = int(a[1])
    if a[0] == "-v": variant = a[1]
    a = a[2:]
exe = build.build(variant)
for p in a:
    ps = [subprocess.Popen([exe, "batch", p, str(seed + w), "8", "100000000", str(secs), "0", "/tmp/survey.%s.%d" % (p, w)], stderr=subprocess.DEVNULL) for w in range(8)]
    for q in ps: q.wait()
    cls = collections.OrderedDict(); n = 0; nt = 0; errs = []; mx = 0; worlds = 0
    for w in range(8):
        for l in open("/tmp/survey.%s.%d" % (p, w)):
            t = l.rstrip("\n").split("\t")
            if t[0] == "V": cls.setdefault(t[2], []).append((int(t[1]), t[3]))
            if t[0] == "E": errs.append(l)
            if t[0] == "S":
                import json; d = json.loads(t[1]); n += d["plans"]; nt += d["nontrivial"]; mx = max(mx, d["max_steps"]); worlds += d["worlds"]
    print("== %s plans %d nontrivial %d worlds %d max_steps %d errors %d" % (p, n, nt, worlds, mx, len(errs)))
    for e in errs[:4]: print("   E", e.strip())
    for k, v in sorted(cls.items(), key=lambda kv: -len(kv[1])):
        v.sort(); print("  %-40s x%d seed %d: %s" % (k, len(v), v[0][0], v[0][1][:230]))
