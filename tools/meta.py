#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled Rust code over a symbolic field / group, path conditions and assertions decided by SMT (z3), counterexamples replayed on BLS12-381"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, hook=None, tech=TECH):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note, tech))
BASE = "Bounded: holds for every value of the symbolic inputs at the stated sizes, nothing is claimed beyond them. Trusts the Sym/group shims (arkworks trait implementations over a term graph), exact polynomial normalisation, z3, and the concrete arkworks field and curve code that the shims replace; native replays of path models tie the encoding to the BLS12-381 build."
RO = BASE + " Fiat-Shamir challenges are modelled as values independent of everything absorbed before them (random oracle; Schwartz-Zippel error degree/|F| ignored)."
AGM = RO + " Group elements are modelled by their discrete logarithms relative to the SRS (algebraic/generic group model): trapdoors are independent transcendentals."
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
na = {x["property"] for x in NA}
m = {
  "version": 1,
  "setup_cmd": "./check.sh build",
  "hooks": {"guard": "cfg zksql_verif", "enable": "RUSTFLAGS='--cfg zksql_verif' (set by check.sh when it builds the harness against /repo)", "source_commits": HOOKS},
  "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
      "technique": t, "level": "model_checking", "level_note": n} for p, n, t in P if p["id"] not in na],
  "not_applicable": NA,
  "notes": "Every check rebuilds the harness crate against /repo's working tree and runs the repository's own functions on symbolic values."
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _, _ in P: jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(P))
except ImportError:
    print("no jsonschema")
