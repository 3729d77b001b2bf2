#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Only the properties that the harness implements (props/mod.rs) are listed."""
import json, re, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
built = set(re.findall(r"\bP\d\d\b", (ROOT / "harness/src/props/mod.rs").read_text()))

G = "src/parser/expression_grammar.pest"
PS, PR, PE, PT, PC, PX, CH = (f"src/parser/{n}.rs" for n in ("structural", "relations", "expressions", "types", "common", "extensions", "chunks"))
TR, TE, TT, TP, TX, TF, TV, TA = (f"src/textify/{n}.rs" for n in ("rels", "expressions", "types", "plan", "extensions", "foundation", "values", "addenda"))
SI, AR, RE, AN = (f"src/extensions/{n}.rs" for n in ("simple", "args", "registry", "any"))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

exec((ROOT / "tools/properties.py").read_text())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
missing = built - set(ids)
assert not missing, f"no text for {missing}"
P = [p for p in sorted(P, key=lambda p: p["id"]) if p["id"] in built]

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} quick",
        "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(P), "properties")
