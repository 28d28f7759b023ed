import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P, NA
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))+"\n")
na = {x[0] for x in NA}
tech = "symbolic execution of the pixell source + SMT (z3)"
man = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selfcheck.py",
           checks=[dict(property=p["id"], quick_cmd="/opt/venv/bin/python -m symx.run %s quick" % p["id"], thorough_cmd="/opt/venv/bin/python -m symx.run %s thorough" % p["id"],
                        technique=p.get("tech", tech), level="model_checking", level_note=p["note"]) for p in P if p["id"] not in na],
           not_applicable=[dict(property=a, reason=b) for a, b in NA])
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
