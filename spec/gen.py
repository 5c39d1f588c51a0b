#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in spec/*.txt and checks.py.

A text file holds blocks separated by blank lines, one 'field: text' per line:
id, title, statement, over, text, why, files, mech (name @ where; repeated), note (repeated)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

props = []
for f in sorted(glob.glob(os.path.join(V, "spec", "*.txt"))):
    for block in open(f).read().split("\n\n"):
        d = {"mech": [], "note": ""}
        for line in block.strip().split("\n"):
            if not line.strip() or line.startswith("#"):
                continue
            k, v = line.split(":", 1)
            k, v = k.strip(), v.strip()
            if k == "mech":
                n, w = v.split(" @ ")
                d["mech"].append({"name": n, "where": w})
            else:
                assert k in ("id", "title", "statement", "over", "text", "why", "files", "note", "na"), (f, line)
                d[k] = v
        if "id" in d:
            assert len(d["title"]) <= 80, d["title"]
            props.append(d)
order = "TMDRAHC"
props.sort(key=lambda d: (order.index(d["id"][0]), d["id"]))
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for d in props:
        for x in d["files"].split(", "):
            assert os.path.exists(os.path.join("/repo", x)), x
        o.write(json.dumps({
            "id": d["id"], "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"].split(", "), "text": d["text"]},
            "why_tests_cant": d["why"],
            "anchors": {"files": d["files"].split(", "), "mechanism": d["mech"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for d in props:
    p = d["id"]
    if p not in CHECKS:
        man["not_applicable"].append({"property": p, "reason": d.get("na", "")})
        assert d.get("na"), p
        continue
    c = CHECKS[p]
    man["checks"].append({
        "property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
        "technique": c.get("technique", "property-based testing (rapid) against a reference model"),
        "level": c["level"],
        "level_note": (d["note"] + " " if d["note"] else "") + "Sampled, not exhaustive: the evidence file has the number of cases and distinct non-trivial ones. Trusts the harness's own oracle, rapid and the Go toolchain."})
for p in CHECKS:
    assert any(d["id"] == p for d in props), "no text for " + p
with open(os.path.join(V, "MANIFEST.json"), "w") as o:
    json.dump(man, o, indent=1)
    o.write("\n")
print(len(props), "properties,", len(man["checks"]), "checks")
