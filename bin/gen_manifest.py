#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props/config.json from props/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "props"))
import meta
props, checks, na, cfg = [], [], [], {"assumptions": meta.ASSUMPTIONS}
for p in meta.PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    for f in p["files"]: assert os.path.exists("/repo/" + f), (p["id"], f)
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "state": [{"name": n, "meaning": w} for n, w in p.get("state", [])],
                    "observe_at": p.get("observe", ["values, exceptions and side effects visible to the running script"]), "hook_needed": ""}})
    if p.get("na"): na.append({"property": p["id"], "reason": p["na"]}); continue
    script = os.path.join(V, "props", p["id"] + ".js")
    assert os.path.exists(script), p["id"]
    n = open(script).read().count("scenario(")
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py " + p["id"], "thorough_cmd": "python3 bin/check.py %s --thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "concolic symbolic execution of the whole engine's LLVM IR; Z3 decides every branch alternative and assertion",
        "level": "model_checking",
        "level_note": "Bounded: " + p["bounds"] + " Every path of a scenario reported exhaustive is decided by the solver; the others are explored until the time limit. Trusted: clang, the IR instrumentation and the libc/libm models, Z3. Counterexamples are replayed on the uninstrumented build."})
    cfg[p["id"]] = {k: p[k] for k in ("quick", "thorough", "assumptions", "files_js", "samples_advisory") if k in p}
    cfg[p["id"]]["bounds"] = p["bounds"]
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na, "notes": meta.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(cfg, open(os.path.join(V, "props", "config.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks")
