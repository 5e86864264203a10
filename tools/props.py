"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
PI = "pairinteraction/"


def prop(id, title, statement, over, text, why, files, mech, observe=None, level="proof", note="", state=None):
    a = {"files": [PI + f for f in files], "mechanism": [{"name": n, "where": PI + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, level, note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

TECH = ("contract-based deductive verification: contracts on the functions of /repo, verification conditions "
        "generated from the clang AST of the current tree, discharged by z3/cvc5; bounded replay harness on the real "
        "code beside it")


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(V, "specs")) if f.startswith("s") and f[1:3].isdigit()}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, level, note in P:
        if p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                           "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": TECH,
                           "level": level, "level_note": note or "see DESIGN.md"})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds its obligations and its harness from /repo's working tree."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


NA = globals().get("NA", {})
main()
