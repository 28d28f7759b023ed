"""DESIGN.md from the property table, the harnesses' bounds, the known findings and the planted changes (python3 tools/mkdesign.py)."""
import os, re, sys, ast, json, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P, NA
from design_text import HEAD, ORACLE, TAIL, COST
def const(mod, name):
    for n in ast.parse(open(mod).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
def cases(mod):
    out = []
    for n in ast.parse(open(mod).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "case":
                    nm = next((k.value.value for k in d.keywords if k.arg == "name"), d.args[0].value if d.args else n.name)
                    out.append((nm, (ast.get_docstring(n) or "").split("\n")[0]))
    return out
na = dict(NA); o = [HEAD]
o.append("## The properties, and how each is decided\n")
for p in P:
    if p["id"] in na: continue
    m = os.path.join(here, "harness", p["id"].lower()+".py")
    o.append("### %s %s\n" % (p["id"], p["title"]))
    o.append("*Encoded*: "+"; ".join("`%s` (%s)" % x for x in p["mech"])+".  ")
    o.append("*Oracle*: "+ORACLE.get(p["id"], "the statement, evaluated directly on the symbolic inputs")+".  ")
    o.append("*Bounds*: "+const(m, "BOUNDS")+".  ")
    a = const(m, "ASSUMPTIONS")
    if a: o.append("*Assumed*: "+("; ".join(a) if isinstance(a, (list, tuple)) else a)+".  ")
    o.append("*Why not tests*: "+p["why"]+".  ")
    o.append("*Cases*: "+"; ".join("`%s` %s" % c for c in cases(m))+".\n")
o.append("## Not applicable\n")
for p in P:
    if p["id"] in na: o.append("* %s %s: %s" % (p["id"], p["title"], na[p["id"]]))
o.append("\n## Defects found\n\nRepaired, each by its own `fix:` commit in /repo (the check that shows it is the one of the property; `known_findings.txt` has the list):\n")
find = []
for l in open(os.path.join(here, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append("* %s `%s` %s" % m.groups())
    elif l.startswith("finding:"): find.append(l)
if find:
    o.append("\nRecorded, not repaired (the repair would contradict the reference data stored with the repository's tests):\n")
    for l in find: o.append("* %s: %s" % (re.search(r"property=(\S+)", l).group(1), l.split(" -- ", 1)[1].strip()))
o.append("\n## Planted changes and the checks that catch them\n\n| change | property | what it breaks | caught |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    j = json.load(open(d))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["what_it_breaks"].replace("|", "/"), j.get("caught", "yes")))
o.append(TAIL)
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o)+"\n")
