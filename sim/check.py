#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]
Decides one property on /repo's working tree by seeded simulation. Exit 0: held on everything explored;
1: VIOLATION line printed; 2: error of the check itself."""
import concurrent.futures, sys, os, json, time, subprocess, re, shutil, tempfile, resource
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from config import CONFIG, STUBS, ASSUME, FAULT_COUNTERS
KNOWN = os.path.join(ROOT, "known-findings.txt")
def err(msg): print("CHECK-ERROR %s" % msg); sys.stdout.flush(); sys.exit(2)
def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) replay=(\S+) class=(\S+) detail=/(.*)/ :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: out.append(dict(prop=m.group(1), replay=m.group(2), cls=m.group(3), detail=m.group(4), text=m.group(5)))
    return out
def run(exe, *args, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=e)
    return r.returncode, r.stdout.decode(errors="replace")
def findings(out): return [tuple(x.split(" | ", 1)) for x in (l[8:] for l in out.splitlines() if l.startswith("FINDING ")) if " | " in x]
def hashof(out):
    m = re.search(r"^HASH (\S+)", out, re.M); return m.group(1) if m else None
def main():
    a = sys.argv[1:]; tier = os.environ.get("VERIF_TIER", "quick"); replay = None; prop = None
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--replay": replay = a[1]; a = a[2:]
        else: prop = a[0]; a = a[1:]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if replay:
        txt = open(replay).read(); variant = re.search(r"^# variant (\S+)", txt, re.M).group(1)
        exe = build.build(variant); rc, out = run(exe, "run", replay); print(out, end=""); sys.exit(rc)
    cfg = CONFIG[prop]; known = load_known(prop); tmp = tempfile.mkdtemp(prefix="simchk")
    kf = os.path.join(tmp, "known"); open(kf, "w").write("".join("%s\t%s\t%s\n" % (k["prop"], k["cls"], k["detail"]) for k in known)); kenv = {"SIM_KNOWN": kf}
    rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.remove(os.path.join(rdir, f))
    try: rc = check(prop, cfg, tier, seed, known, kenv, tmp, rdir, t0)
    except subprocess.TimeoutExpired as e: shutil.rmtree(tmp, True); err("timeout: %s" % e)
    except RuntimeError as e: shutil.rmtree(tmp, True); err(str(e))
    shutil.rmtree(tmp, True); sys.exit(rc)
def check(prop, cfg, tier, seed, known, kenv, tmp, rdir, t0):
    W = min(8, os.cpu_count() or 8); T = 0 if tier == "quick" else 1; tot = {}; cnt = {}; fn = {}; st = {}; sched = set(); hashes = {}; vio = {}; errors = []; khits = [0] * len(known); edges = 0; edges_total = 0; maxsteps = 0; shortfall = False; per = []
    exes = {}
    for variant, nq, capq, nt, capt in cfg["runs"]: exes[variant] = build.build(variant)
    tb = time.time() - t0
    # listed findings: re-run the committed replay of each one
    for k in known:
        p = os.path.join(ROOT, k["replay"]); txt = open(p).read(); v = re.search(r"^# variant (\S+)", txt, re.M).group(1)
        if v not in exes: exes[v] = build.build(v)
        rc, out = run(exes[v], "run", p)
        hit = any(re.fullmatch(k["cls"], c) and re.search(k["detail"], d) for c, d in findings(out))
        if hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
        else: print("note: listed finding no longer reproduces: %s" % k["text"])
    sys.stdout.flush()
    for ri, (variant, nq, capq, nt, capt) in enumerate(cfg["runs"]):
        exe = exes[variant]; n = nq if T == 0 else nt; cap = capq if T == 0 else capt; s0 = seed * 1000000 + ri * 100000000; procs = []
        env = dict(os.environ); env.update(kenv)
        for w in range(W):
            c = (n - w + W - 1) // W; of = os.path.join(tmp, "o.%d.%d" % (ri, w))
            procs.append((subprocess.Popen([exe, "batch", prop, str(s0 + w), str(W), str(c), str(cap), str(T), of], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env), of))
        for p, of in procs:
            try: p.wait(timeout=cap + 240)
            except subprocess.TimeoutExpired:
                for q, _ in procs: q.kill()
                raise RuntimeError("a worker did not finish")
            done = False
            for l in open(of):
                t = l.rstrip("\n").split("\t")
                if t[0] == "V": vio.setdefault(t[2], []).append((int(t[1]), variant, t[3]))
                elif t[0] == "E": errors.append("%s seed %s: %s" % (variant, t[1], t[2]))
                elif t[0] == "H": hashes[(variant, int(t[1]))] = (t[2], t[3] == "1")
                elif t[0] == "S":
                    done = True; d = json.loads(t[1])
                    for k in ("plans", "worlds", "steps", "simns", "ops", "ops_ok", "evals"): tot[k] = tot.get(k, 0) + d[k]
                    for src, dst in ((d["cnt"], cnt), (d["fn"], fn), (d["status"], st)):
                        for k, v in src.items(): dst[k] = dst.get(k, 0) + v
                    sched.update(d["sched"]); maxsteps = max(maxsteps, d["max_steps"]); edges = max(edges, d["edges"]); edges_total = d["edges_total"]
                    for i, h in enumerate(d.get("known", [])): khits[i] += h
            if not done: errors.append("%s worker ended without a summary (status %s)" % (variant, p.returncode))
        per.append({"variant": variant, "plans_asked": n})
    trun = time.time() - t0 - tb
    # determinism: re-run a sample of the seeds in another process with another worker layout
    mism = []; sample = sorted(k for k in hashes)[:: max(1, len(hashes) // (32 if T == 0 else 400))]; nsamp = 0; dl = time.time() + (20 if T == 0 else 120)
    def again(k):
        if time.time() > dl: return None
        rc, out = run(exes[k[0]], "seed", prop, str(k[1]), str(T), env=kenv); h = re.search(r"^HASH (\S+) nontrivial", out, re.M); return not h or h.group(1) != hashes[k][0]
    with concurrent.futures.ThreadPoolExecutor(W) as ex:
        for k, bad in zip(sample, ex.map(again, sample)):
            if bad is not None: nsamp += 1
            if bad: mism.append("%s:%d" % k)
    # violations: gate each one, minimise, replay
    reported = 0; broken = []; endat = time.time() + (120 if T == 0 else 900)
    for cls in sorted(vio, key=lambda c: (-len(vio[c]), c)):
        if reported >= (3 if T == 0 else 4) or (reported and time.time() > endat): break
        ok = False
        for s, variant, detail in sorted(vio[cls])[:3]:
            exe = exes[variant]; full = os.path.join(tmp, "full.plan"); mini = os.path.join(tmp, "mini.plan")
            rc, txt = run(exe, "gen", prop, str(s), str(T)); open(full, "w").write(txt)
            r1 = run(exe, "run", full, env=kenv)[1]; r2 = run(exe, "run", full, env=kenv)[1]
            if cls not in [c for c, _ in findings(r1)] or hashof(r1) != hashof(r2): broken.append("%s seed %d (%s): not repeatable" % (cls, s, variant)); continue
            head = "# property %s\n# seed %d tier %s\n# variant %s\n# class %s\n" % (prop, s, tier, variant, cls)
            run(exe, "min", full, cls, mini, "25" if T == 0 else "90", timeout=300, env=kenv); use = None
            for cand in (mini, full):
                if not os.path.exists(cand): continue
                m1 = run(exe, "run", cand, env=kenv)[1]; m2 = run(exe, "run", cand, env=kenv)[1]
                if cls in [c for c, _ in findings(m1)] and hashof(m1) == hashof(m2): use = cand; break
            if os.path.exists(mini) and use != mini: os.remove(mini)
            if not use: broken.append("%s seed %d (%s): replay differs" % (cls, s, variant)); continue
            rp = os.path.join(rdir, "%s-%d.plan" % (prop, reported)); det = dict(findings(m1))[cls]
            open(rp, "w").write(head + "# detail %s\n# trace hash %s\n" % (det, hashof(m1)) + open(use).read())
            print("seed %d, class %s: %s" % (s, cls, det)); print("VIOLATION property=%s replay=%s" % (prop, rp)); sys.stdout.flush(); reported += 1; ok = True; break
    wall = time.time() - t0; nontriv = len({h for h, nt in hashes.values() if nt})
    samples = []
    for variant, s in sorted(k for k in hashes if hashes[k][1])[:3]: samples.append({"seed": s, "variant": variant, "plan": run(exes[variant], "gen", prop, str(s), str(T))[1]})
    faults = {k: v for k, v in cnt.items() if k in FAULTS}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "wall_s": round(wall, 2), "violations": reported, "assumptions": ASSUME + cfg.get("assume", []),
      "coverage": {"evaluations": tot.get("worlds", 0), "distinct_nontrivial": nontriv, "rule": cfg["rule"], "samples": samples or [{"note": "no non-trivial plan in this run"}],
        "plans": tot.get("plans", 0), "plan_runs": per, "worlds": tot.get("worlds", 0), "library_calls": tot.get("ops", 0), "library_calls_returned": tot.get("ops_ok", 0), "call_endings": st, "calls_by_operation": fn,
        "simulated_steps": tot.get("steps", 0), "simulated_time_s": round(tot.get("simns", 0) / 1e9, 3), "longest_call_steps": maxsteps, "plans_per_hour": int(tot.get("plans", 0) / max(trun, 1e-3) * 3600), "worlds_per_hour": int(tot.get("worlds", 0) / max(trun, 1e-3) * 3600),
        "faults_injected": faults, "other_events": {k: v for k, v in cnt.items() if k not in FAULTS}, "distinct_schedules": len(sched), "schedule_measure": "distinct hashes of the sequence of (caller, step, next caller) switches and simulated events of a world",
        "distinct_traces": len({h for h, _ in hashes.values()}), "code_edges_reached": edges, "code_edges_total": edges_total, "determinism_sample": nsamp, "determinism_mismatches": mism, "harness_errors": errors[:20], "listed_findings_met": {k["text"]: h for k, h in zip(known, khits)}, "components": STUBS}}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d plans, %d worlds, %d calls, %d distinct non-trivial, %.1fs; %d violation class(es), %d harness error(s), %d mismatch(es)" % (prop, tier, tot.get("plans", 0), tot.get("worlds", 0), tot.get("ops", 0), nontriv, wall, len(vio), len(errors), len(mism)))
    if reported: return 1
    if broken: print("\n".join(broken)); err("a violation could not be reproduced")
    if errors: print("\n".join(errors[:5])); err("%d simulated runs failed in the harness" % len(errors))
    if mism: err("runs are not repeatable: %s" % ", ".join(mism[:8]))
    if nontriv < 2: err("nothing non-trivial was explored")
    return 0
FAULTS = set(FAULT_COUNTERS)
if __name__ == "__main__": main()
