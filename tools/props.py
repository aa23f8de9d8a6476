#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # properties
C = []      # checks
NA = []     # not applicable


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe)
    a["hook_needed"] = "guarded seam at buffer refills and interruption points in the lexer and parser (cfg mitex_sim)" if hook else None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


def check(id, technique, note, level="exploration"):
    C.append({"property": id, "quick_cmd": f"python3 run.py check {id} quick",
              "thorough_cmd": f"python3 run.py check {id} thorough", "technique": technique, "level": level,
              "level_note": note, "evidence_file": f"evidence/{id}.json"})


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tools/props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = {p["id"] for p in P}
assert {c["property"] for c in C} | {n["property"] for n in NA} == ids, ids
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "mitex_sim", "enable": "RUSTFLAGS='--cfg mitex_sim' (simrs/build.sh)", "source_commits": SOURCE_COMMITS},
    "checks": C,
    "not_applicable": NA,
    "notes": "Every check is `python3 run.py check <ID> <tier>`; `python3 run.py replay <file>` re-executes a replay file. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
