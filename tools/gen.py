#!/usr/bin/env python3
"""Writes props.json, properties.jsonl and MANIFEST.json from tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from spec import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
props, lines, checks = {}, [], []
for p in PROPS:
    if p.get("tasks"):
        props[p["id"]] = {"tasks": p["tasks"], "assumptions": p.get("assumptions", []), "outside": p.get("outside", "")}
        n = ", ".join(dict.fromkeys(t["fn"] for t in p["tasks"]))
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.sh check -prop %s -tier quick" % p["id"],
            "thorough_cmd": "./run.sh check -prop %s -tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the Go SSA of the real code with an SMT solver (cvc5, QF_BVFP): " + n,
            "level": "model_checking",
            "level_note": "Bounded: holds for every value within the bounds of the harnesses (given in props.json and in the evidence), nothing is claimed outside them: " + p.get("outside", "") + " Trusts the executor, its models of the environment (files, SQL driver, fmt, time zones, sync.Pool, xsync) and the solver; sampled paths are validated against the natively compiled code, counterexamples are replayed on it.",
        })
    lines.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p.get("observe", [])},
    })
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
with open(root + "/props.json", "w") as f:
    json.dump(props, f, indent=1); f.write("\n")
with open(root + "/properties.jsonl", "w") as f:
    for l in lines:
        f.write(json.dumps(l, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh build",
     "hooks": {"guard": "none", "enable": "no hooks: harnesses and models are laid over /repo with a build overlay", "source_commits": []},
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "./run.sh replay FILE replays a counterexample. Source of this file: tools/spec.py, tools/gen.py."}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "checks,", len(lines), "properties")

# DESIGN.md
d = open(here + "/design_head.md").read()
caught = {}
for l in open(here + "/seeds.txt"):
    f = l.split(None, 1)
    if f:
        caught[f[0]] = f[1].strip()
import glob
d += "| change | property | what it breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    x = json.load(open(f))
    i = f.split("/")[-2]
    d += "| %s | %s | %s | %s |\n" % (i, x["property"], x["what_it_breaks"].replace("|", "\\|"), caught.get(i, "see below"))
d += "\n" + open(here + "/design_seeds.md").read()
d += "\n## The properties\n\nEach task is a harness with bounds; *quick* ones run on every change, *thorough* ones in addition.\n"
for p in PROPS:
    d += "\n### %s %s\n\n%s\n\nOver %s. Tests do not settle it: %s.\n\nCode: %s.\n\n" % (
        p["id"], p["title"], p["statement"], p["text"], p["why"],
        "; ".join("%s (`%s`)" % (a, b) for a, b in p["mech"]))
    for t in p["tasks"]:
        par = " ".join("%s=%s" % kv for kv in sorted(t["params"].items()))
        for k in ("preemptions", "delays"):
            if t.get(k):
                par += " %s=%d" % (k, t[k])
        d += "* %s `%s`%s: %s.\n" % (t.get("tier", "both tiers"), t["fn"], " (" + par + ")" if par else "", t["bounds"])
    if p.get("outside"):
        d += "\nOutside: %s\n" % p["outside"]
if NOT_APPLICABLE:
    d += "\n## Not applicable\n\n"
    for n in NOT_APPLICABLE:
        d += "* %s: %s\n" % (n["property"], n["reason"])
open(root + "/DESIGN.md", "w").write(d)
