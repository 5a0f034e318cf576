#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k, p in sorted(PROPS.items()) + [(n["property"], n) for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, (k, len(p["title"]))
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": k, "quick_cmd": f"python3 check.py {k} --tier quick", "thorough_cmd": f"python3 check.py {k} --tier thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "path-exhaustive symbolic execution of the compiled code (LLVM IR from rustc, own engine lsx) with Z3 deciding branches and assertions; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every path of the real code within the bounds: " + p["bounds"] + ". Outside: " + (p["outside"] or "nothing") +
                      ". Trusts rustc's IR, the engine's IR semantics (cross-checked natively on explored paths) and Z3.",
    } for k, p in sorted(PROPS.items())],
    "hooks": {"guard": "none: no hooks were needed, harnesses use the public API", "enable": "nothing to enable", "source_commits": []},
    "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NOT_APPLICABLE],
    "notes": "check.py builds engine, harness IR and native replayer from the current /repo on every run.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# tables of DESIGN.md
D = os.path.join(V, "DESIGN.md")
t = open(D).read()
def put(t, mark, text):
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + text + "\n" + t[j:]
rows = ["| id | property | harness module | decided over | outside |", "|---|---|---|---|---|"]
rows += [f"| {k} | {p['title']} | `{p['feature']}.rs` | {p['bounds']} | {p['outside'] or 'nothing'} |" for k, p in sorted(PROPS.items())]
if NOT_APPLICABLE:
    rows += ["", "Not applicable:", ""] + [f"- {n['property']} ({n['title']}): {n['reason']}" for n in NOT_APPLICABLE]
t = put(t, "PROPERTIES", "\n".join(rows))
c = json.load(open(os.path.join(V, "vlib", "caught.json")))
rows = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {c.get(d, 'not run')} |")
t = put(t, "SEEDS", "\n".join(rows))
open(D, "w").write(t)
