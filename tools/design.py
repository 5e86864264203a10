"""writes DESIGN.md: tools/design_head.md, one section for each property, tools/design_tail.md"""
import ast, os, sys
sys.path.insert(0, os.path.dirname(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "specs"))
import json
from design_text import D
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda p: open(os.path.join(root, p)).read()
out = [rd("tools/design_head.md").rstrip(), "\n## 3. Properties\n",
       "Tasks named below are in `specs/sNN.py`; each is one or more obligations per instantiation, for all inputs and any number of iterations unless it says bounded. Times are of the quick tier on 8 cores.\n"]
m = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    t = ast.parse(rd("specs/%s.py" % i.lower()))
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("ASSUME", "RULE", "HARNESS"):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    proved, bounded, cost = D[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* *Proved:* %s" % proved)
    out.append("* *Bounded (harness, never counted as proved):* %s%s" % (bounded, (" Rule: %s; quick/thorough cases %s/%s." % ((v["RULE"],) + tuple(v["HARNESS"]["n"]))) if "RULE" in v and "HARNESS" in v else ""))
    out.append("* *Assumed:* %s" % "; ".join(v.get("ASSUME", [])))
    out.append("* *Strength and cost:* %s; about %s.\n" % (m[i]["level_note"], cost))
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    j = json.loads(rd("seeded/%s/meta.json" % s))
    seeds.append("| %s | %s | %s | %s |" % (s, j["property"], j["needs"], j.get("caught_by", "check " + j["property"])))
out.append(rd("tools/design_tail.md").rstrip().replace("@@SEEDS@@", "\n".join(seeds)))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
