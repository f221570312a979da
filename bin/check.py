#!/usr/bin/env python3
"""Decides one property: check.py <ID>.

Rebuilds the instrumented engine from /repo's working tree, explores the property's
scenarios symbolically (Z3 decides every branch alternative and every assertion),
replays each counterexample on the uninstrumented build and reports it."""
import bisect, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv: tier = "thorough"
if tier not in ("quick", "thorough"): tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
cfg = json.load(open(os.path.join(V, "props", "config.json")))
P = cfg.get(pid, {})
t0 = time.time()
b = subprocess.run(["bash", os.path.join(V, "bin", "build.sh")], stdout=subprocess.PIPE, text=True)
if b.returncode:
    print("build failed"); sys.exit(2)
B = b.stdout.strip().splitlines()[-1]
tb = time.time() - t0
files = [os.path.join(V, "props", f) for f in (["deep.js"] if tier == "thorough" else []) + ["lib.js"] + P.get("files_js", [pid + ".js"])]
budget = P.get("quick", 28) if tier == "quick" else P.get("thorough", 420)
out = os.path.join(B, pid + ".json")
env = dict(os.environ, TZ="UTC", LANG="C.UTF-8", LC_ALL="C.UTF-8")
cmd = [os.path.join(B, "rsx"), *files, "--time", str(budget), "--out", out, "--workers", str(os.cpu_count() or 8), "--seed", str(seed), "--qtimeout", "4000" if tier == "quick" else "20000"]
pl = [os.path.join(B, "plain"), *files]
r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=budget + 200)
viol = []; unconfirmed = []
def inputs(v): return ",".join(str(x[1]) for x in v["inputs"])
def show(v):
    o = {}
    for n, x, w, s in v["inputs"]:
        if s == 2:
            import struct
            x = repr(struct.unpack("<d", struct.pack("<Q", x))[0])
        elif s == 1 and x >> (w - 1): x -= 1 << w
        o[n] = x
    return o
def replay(v, valgrind=False):
    c = pl + ["--only", v["scenario"], "--inputs", inputs(v)]
    if valgrind: c = ["valgrind", "-q", "--error-exitcode=77"] + c
    try: p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300 if valgrind else 60)
    except subprocess.TimeoutExpired: return 11, ""
    return p.returncode, p.stdout.decode("utf-8", "replace")
if r.returncode:
    # the scenario scripts could not even be loaded: does the plain engine fail in the same way?
    p = subprocess.run(pl + ["--list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    txt = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0:
        print("explorer failed:", r.returncode, r.stdout.decode("utf-8", "replace")[-2000:]); sys.exit(2)
    viol.append({"scenario": "(load)", "kind": "fail", "msg": "the engine fails to load or run the scenario script: " + txt[-300:], "inputs": [], "log": ""})
    d = {"scenarios": [], "samples": [], "known": [], "dropped": {}, "cov": [], "cov_base": 0}
else:
    d = json.load(open(out))
known_file = {}
kf = os.path.join(V, "known_findings.jsonl")
if os.path.exists(kf):
    for l in open(kf):
        l = l.strip()
        if l.startswith("{"):
            k = json.loads(l)
            if k.get("status", "known") == "known": known_file[(k["property"], k["id"])] = k
for v in d.get("violations", []):
    rc, txt = replay(v)
    ok = rc in (10, 11) or rc < 0 or rc >= 128
    if not ok and ("memory error" in v["msg"] or "free" in v["msg"] or v["kind"] != "fail"):
        rc, txt = replay(v, True); ok = rc == 77 or rc in (10, 11) or rc < 0 or rc >= 128
    v["replay_exit"] = rc; v["replay_output"] = txt[-1500:]
    (viol if ok else unconfirmed).append(v)
known_hit = []
for k in d.get("known", []):
    if (pid, k) in known_file: known_hit.append(k)
    else: viol.append({"scenario": "(known)", "kind": "fail", "msg": "unlisted finding " + k, "inputs": [], "log": ""})
# sample paths must pass on the uninstrumented build too (the encoding is validated against the real code)
samples = d.get("samples", []); val = 0; bad = []
step = max(1, len(samples) // (24 if tier == "quick" else 200))
pick = samples[seed % step::step] if samples else []
for v in pick:
    rc, txt = replay(v)
    if rc == 0: val += 1
    else: bad.append((v, rc, txt))
for v, rc, txt in bad:
    # the same input misbehaves concretely: run it again to exclude noise, then it is a violation in its own right
    rc2, txt2 = replay(v)
    if rc2 != 0 and not P.get("samples_advisory"):
        v.update(kind="replay", msg="concrete run fails: " + txt2[-200:], log="", replay_exit=rc2, replay_output=txt2[-1500:]); viol.append(v)
# functions whose code took part in the encoding
fns = set()
if d.get("cov"):
    nm = subprocess.run(["nm", "-n", os.path.join(B, "rsx")], stdout=subprocess.PIPE, text=True).stdout
    tab = [(int(a, 16), n) for a, t, n in (l.split(None, 2) for l in nm.splitlines() if len(l.split(None, 2)) == 3) if t in "tT"]
    ad = [x[0] for x in tab]
    for c in d["cov"]:
        i = bisect.bisect_right(ad, c + d["cov_base"]) - 1
        if i >= 0:
            n = tab[i][1].split(".")[0]
            if not n.startswith(("h_", "__rsx", "_Z", "rl_")): fns.add(n)
S = d["scenarios"]
tot = lambda k: sum(s[k] for s in S)
ex = [s["name"] for s in S if s["exhaustive"]]
nex = [dict(name=s["name"], paths=s["paths"], pending=s["pending"], unknown=s["unknown"], unmodelled=s["drops"]) for s in S if not s["exhaustive"]]
ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
    "coverage": {
        "states": tot("paths"), "transitions": tot("events"), "traces_validated_against_impl": val,
        "samples": [{"scenario": v["scenario"], "inputs": show(v)} for v in pick[:12]],
        "exhaustive": bool(S) and len(ex) == len(S),
        "meaning": "states: symbolic paths of the real engine explored; transitions: branch/assertion decisions on symbolic values along them; traces_validated: path models re-run on the uninstrumented build",
        "scenarios": len(S), "scenarios_exhaustive": len(ex), "exhaustive_scenarios": ex, "bounded_by_time": nex,
        "queries": tot("flips"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_calls": tot("z3_calls"), "query_cache_hits": tot("cached"), "solver_s": round(tot("solver_s"), 2),
        "assertions_evaluated": tot("checks"), "assertions_symbolic": tot("symbolic_checks"), "symbolic_operations": tot("symops"),
        "pinned_values": tot("concretized"), "unmodelled_operations": d.get("dropped", {}),
        "functions_encoded": len(fns), "functions": sorted(fns)[:400],
        "bounds": P.get("bounds", "the ranges of the symbolic inputs declared in props/%s.js" % pid),
        "build_s": round(tb, 1), "unconfirmed": [dict(scenario=v["scenario"], msg=v["msg"], inputs=show(v)) for v in unconfirmed],
        "known_findings_seen": known_hit,
    },
    "assumptions": cfg.get("assumptions", []) + P.get("assumptions", []),
    "wall_s": round(time.time() - t0, 2), "violations": len(viol),
}
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
print("%s: %d scenarios (%d exhaustive), %d paths, %d queries (%d unknown), %d functions, %.1fs" % (pid, len(S), len(ex), tot("paths"), tot("flips"), tot("unknown"), len(fns), time.time() - t0))
for s in nex: print("  not exhaustive within the budget:", s)
for v in unconfirmed: print("  unconfirmed (not reported):", v["scenario"], v["msg"], show(v))
for k in known_hit: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known_file[(pid, k)].get("what", "")))
if viol:
    rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    for i, v in enumerate(viol[:8]):
        f = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "scenario": v["scenario"], "message": v["msg"], "log": v.get("log", ""), "inputs": show(v), "raw_inputs": inputs(v),
                   "replay_exit": v.get("replay_exit"), "replay_output": v.get("replay_output"),
                   "command": " ".join(["cd", V, "&& $(bash bin/build.sh)/plain"] + [os.path.relpath(x, V) for x in files] + ["--only", v["scenario"], "--inputs", "'" + inputs(v) + "'"])}, open(f, "w"), indent=1)
        print("  ", v["scenario"], "|", v["msg"], "|", v.get("log", "").strip()[:300], "|", show(v))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, V)))
    sys.exit(1)
sys.exit(0)
