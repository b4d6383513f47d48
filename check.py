#!/usr/bin/env python3
"""check.py <property> [--thorough]      decide one property on /repo's working tree
   check.py --replay <replay.json>       replay a recorded violation verbosely
   check.py --list <property>            list the configurations of a property

Exit 0: the property held on everything explored. Exit 1: VIOLATION line.
Exit 2: error of the machinery (the code does not build, a harness diverges)."""
import json, os, shutil, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import plan
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

def build(bdir, harness, variant):
    out = os.path.join(bdir, f"{harness}-{variant}")
    v = plan.VARIANTS[variant]
    r = subprocess.run(["bash", f"{V}/mc/build.sh", REPO, harness, out, v.get("kind", "plain")] + v.get("flags", []),
                       capture_output=True, text=True)
    return out, (None if r.returncode == 0 else r.stderr[-3000:] or r.stdout[-3000:])

def run_cfg(exe, cfg, props, bdir, limit):
    out = tempfile.mktemp(dir=bdir, suffix=".json")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:handle_segv=0:abort_on_error=1", LC_ALL="C", TZ="UTC")
    try:
        r = subprocess.run([exe, "--cfg", cfg, "--props", props, "--jobs", str(JOBS), "--out", out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=env, cwd=bdir, start_new_session=True)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", exe]); return {"result": "timeout", "cfg": cfg}
    try: d = json.load(open(out))
    except Exception: d = {"result": "engine", "cfg": cfg, "msg": "no result: " + r.stdout.decode(errors="replace")[-1000:]}
    return d

def trace(exe, cfg, props, choices, bdir, maxlines):
    try:
        r = subprocess.run([exe, "--cfg", cfg, "--props", props, "-v", "--replay", ",".join(map(str, choices))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, cwd=bdir)
        L = r.stdout.decode(errors="replace").splitlines()
    except subprocess.TimeoutExpired: L = ["(replay timed out)"]
    return L if len(L) <= maxlines else L[:maxlines//2] + ["..."] + L[-maxlines//2:]

def known(prop):
    p = os.path.join(V, "KNOWN_FINDINGS.txt"); L = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and f"property={prop} " in l:
                # known: property=ID match="<substring of the message>" <what fails>
                m = l.split('match="', 1)[1].split('"', 1)
                L.append((m[0], m[1].strip()))
    return L

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        bdir = tempfile.mkdtemp(prefix="replay-", dir=mk("build"))
        try:
            exe, err = build(bdir, d["harness"], d["variant"])
            if err: print(err); return 2
            print("\n".join(trace(exe, d["cfg"], d["property"], d["choices"], bdir, 100000)))
        finally: shutil.rmtree(bdir, ignore_errors=True)
        return 0
    if a[0] == "--list":
        for t in ("quick", "thorough"):
            for h, v, c in plan.configs(a[1], t): print(t, h, v, c)
        return 0
    prop = a[0]
    tier = "thorough" if "--thorough" in a else "quick"
    only = a[a.index("--only")+1] if "--only" in a else None
    t0 = time.time()
    budget = 840 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "7200"))
    cfgs = plan.configs(prop, tier)
    if only: cfgs = [c for c in cfgs if only in c[0]+"/"+c[1]+"/"+c[2]]
    bdir = tempfile.mkdtemp(prefix=f"{prop}-", dir=mk("build"))
    try: return decide(prop, tier, cfgs, bdir, t0, budget, "-v" in a)
    finally: shutil.rmtree(bdir, ignore_errors=True)

def mk(d):
    p = os.path.join(V, d); os.makedirs(p, exist_ok=True); return p

def decide(prop, tier, cfgs, bdir, t0, budget, verbose):
    need = []
    for h, v, c in cfgs:
        if (h, v) not in need: need.append((h, v))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda x: build(bdir, *x), need))
    exes = {}
    for k, (exe, err) in zip(need, res):
        if err:
            print(f"ERROR: {k[0]} ({k[1]}) does not build against {REPO}:\n{err}"); return 2
        exes[k] = exe
    kf = known(prop); hits = set()
    tot = dict(execs=0, steps=0, nodes=0, nontrivial=0, quiescent=0, outcomes=0)
    per, samples, skipped, viol, errors = [], [], [], None, []
    for h, v, c in cfgs:
        left = budget - (time.time() - t0)
        if left < 5: skipped.append(f"{h}/{v}/{c}"); continue
        d = run_cfg(exes[(h, v)], c, prop, bdir, left)
        if d["result"] == "timeout": skipped.append(f"{h}/{v}/{c}"); continue
        if d["result"] == "engine":
            # Once more: a failure or divergence that comes again is the code's doing
            # (it does not behave alike in equal executions), otherwise it is noise.
            first = d.get("msg", "")
            d = run_cfg(exes[(h, v)], c, prop, bdir, max(5, budget - (time.time() - t0)))
            if d["result"] == "engine":
                m = d.get("msg", "")
                if ("not reproducible: " in m and "not reproducible: " in first) or ("divergence" in m and "divergence" in first) or ("ended before its prefix" in m):
                    d["result"] = "violated"; d["msg"] = "[*] equal executions behave differently (twice): " + m
                    d.setdefault("choices", [])
                else:
                    errors.append(f"{h}/{v}/{c}: {m}"); continue
        for k in tot: tot[k] += d.get(k, 0)
        per.append({"harness": h, "build": v, "bounds": c, "executions": d.get("execs"), "outcomes": d.get("outcomes"), "wall_s": d.get("wall")})
        if verbose: print(h, v, c, {k: d.get(k) for k in ("result", "execs", "nontrivial", "outcomes", "maxchoices", "wall", "msg")}, flush=True)
        if d["result"] == "violated":
            km = [k for k in kf if k[0] in d["msg"]]
            if km:
                hits.add(km[0]); continue
            viol = (h, v, c, d); break
        if "sample" in d and len(samples) < 3 and d.get("nontrivial"):
            samples.append({"harness": h, "build": v, "bounds": c, "choices": d["sample"],
                            "trace": trace(exes[(h, v)], c, prop, d["sample"], bdir, 40)})
    for k in hits: print(f"KNOWN-FINDING: property={prop} {k[1]}")
    rc = 0
    if viol:
        h, v, c, d = viol
        rp = os.path.join(mk("replays"), f"{prop}-{int(time.time())}-{os.getpid()}.json")
        tr = trace(exes[(h, v)], c, prop, d["choices"], bdir, 400)
        json.dump({"property": prop, "harness": h, "variant": v, "cfg": c, "choices": d["choices"], "msg": d["msg"], "trace": tr,
                   "how": f"python3 {V}/check.py --replay {rp}"}, open(rp, "w"), indent=1)
        print(f"# {d['msg']}\n# harness {h}, build {v}, bounds {c}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
        rc = 1
    elif errors:
        for e in errors: print("ERROR:", e)
        rc = 2
    if not samples and per:
        samples.append({"note": "no non-trivial execution before the violation", "first": per[0]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {
              "states": tot["nodes"], "transitions": tot["steps"], "traces_validated_against_impl": tot["execs"],
              "distinct_nontrivial": tot["outcomes"], "nontrivial_executions": tot["nontrivial"], "quiescent_states_checked": tot["quiescent"],
              "rule": plan.RULE, "samples": samples, "configurations": per,
              "exhaustive": not skipped and not viol and not errors, "not_completed": skipped},
          "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(mk("evidence"), f"{prop}.json"), "w"), indent=1)
    if rc == 0:
        print(f"{prop}: held; {len(per)} configurations, {tot['execs']} executions, {tot['nodes']} states, {tot['steps']} transitions, "
              f"{tot['outcomes']} distinct outcomes, {time.time()-t0:.1f} s" + (f"; {len(skipped)} configurations not completed" if skipped else ""))
    return rc

if __name__ == "__main__": sys.exit(main())
