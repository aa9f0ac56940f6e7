#!/usr/bin/env python3-vt
"""Validates the JSON files of /verif against the schemas they have to follow."""
import json, jsonschema, pathlib, sys
here = pathlib.Path(__file__).resolve().parent.parent
vp = pathlib.Path("/root/.vp")
s = lambda n: json.load(open(vp / f"{n}.schema.json"))
bad = 0
def check(what, v, schema):
    global bad
    for e in jsonschema.Draft202012Validator(schema).iter_errors(v):
        bad += 1
        print(what, e.json_path, e.message[:200])
props = [json.loads(l) for l in open(here / "properties.jsonl")]
for p in props:
    check(p.get("id"), p, s("PROPERTIES"))
    for f in p["anchors"]["files"]:
        if not pathlib.Path("/repo", f).exists():
            bad += 1; print(p["id"], "no file", f)
m = json.load(open(here / "MANIFEST.json"))
check("manifest", m, s("MANIFEST"))
claimed = [c["property"] for c in m["checks"]] + [c["property"] for c in m.get("not_applicable", [])]
if sorted(claimed) != sorted(p["id"] for p in props):
    bad += 1; print("manifest and properties differ")
for f in sorted((here / "evidence").glob("*.json")):
    check(f.name, json.load(open(f)), s("EVIDENCE"))
sys.exit(bool(bad))
