#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run.py %s quick" % p["id"],
        "thorough_cmd": "python3 run.py %s thorough" % p["id"],
        "technique": "TLA+ specification (%s) model-checked with TLC; its behaviours and seeded histories replayed into the real code and the recorded traces validated against the specification by TLC" % p["spec"],
        "level": "model_checking",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    } for p in PROPS if p["id"] not in dict(NA)],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA],
    "notes": "Specification language: TLA+ (TLC). No hooks in /repo: every property is observed through the public interface.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


def design():
    """DESIGN.md from its template, the property texts, the findings and the recorded catches."""
    from how import HOW
    here = os.path.dirname(os.path.abspath(__file__))
    V = os.path.dirname(here)
    rows = []
    for p in PROPS:
        w, mc, rnd = HOW[p["id"]]
        rows.append("### %s %s\n\n* Specified: %s\n* Explored by TLC: %s.\n* Conformance beyond the exported behaviours: %s.\n* Ranges over: %s.\n* Beyond the tests: %s\n* Modules: %s\n" % (
            p["id"], p["title"], w, mc, rnd, p["text"], p["why"], p["spec"]))
    fx = ["* " + l[7:].strip() for l in open(os.path.join(V, "known", "findings.txt")) if l.startswith("fixed:")]
    seeds = []
    res = {}
    cf = os.path.join(V, "known", "catches.txt")
    if os.path.exists(cf):
        for l in open(cf):
            t = l.split()
            if len(t) >= 3:
                res[t[0]] = t[2]
    sd = os.path.join(V, "seeded")
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], res.get(i, "not run").lower()))
    t = open(os.path.join(here, "DESIGN.in.md")).read()
    t = t.replace("@@PROPS@@", "\n".join(rows)).replace("@@FIXES@@", "\n".join(fx))
    t = t.replace("@@SEEDS@@", "| planted bug | property | what it breaks | quick check |\n|---|---|---|---|\n" + "\n".join(seeds))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


design()
