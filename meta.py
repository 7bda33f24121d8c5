#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
TECH = "contract-based deductive verification: obligations generated from the LLVM IR of the real code by engine/nvc, discharged by exact evaluation and z3"
def P(id, title, statement, over, quant, why, files, mech, note, level="proof", technique=TECH, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    PROPS.append((d, dict(property=id, quick_cmd="python3 check.py " + id, thorough_cmd="VERIF_TIER=thorough python3 check.py " + id,
                          technique=technique, level=level, level_note=note)))
exec(open(V + "/meta_props.py").read())
def main():
    PROPS.sort(key=lambda x: x[0]["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for d, _ in PROPS: f.write(json.dumps(d) + "\n")
        for d, _ in NA: f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 -c 'import check; check.engine()'", checks=[c for _, c in PROPS],
             not_applicable=[dict(property=d["id"], reason=r) for d, r in NA],
             notes="python3 check.py PID runs one check; see DESIGN.md")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(d, s) for d, _ in PROPS]
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
if __name__ == "__main__":
    main()
