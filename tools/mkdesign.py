"""DESIGN.md from design_head.md, the property modules, the last evidence and the planted bugs (run by hand)"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import texts
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [open(os.path.join(V, "tools/design_head.md")).read(), "## Properties\n"]
for p in props:
    pid = p["id"]
    f = os.path.join(V, "atrcheck/props/%s.py" % pid.lower())
    if not os.path.exists(f):
        continue
    m = importlib.import_module("atrcheck.props." + pid.lower())
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Technique*: %s.\n" % texts.TECH.get(pid, ""))
    out.append(m.EXPLANATION + "\n")
    out.append("*Assumptions and bounds*:")
    out += ["- " + a for a in m.ASSUMPTIONS]
    e = os.path.join(V, "evidence/%s.json" % pid)
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        r = c.get("rules", {})
        h = sum(x["holds"] for x in r.values())
        u = sum(x["undecided"] for x in r.values())
        out.append("\n*Rules* (obligations holding on the tree, undecided): " + "; ".join("%s (%d%s)" % (k, x["holds"], ", %d undecided" % x["undecided"] if x["undecided"] else "") for k, x in sorted(r.items())) + ".")
        out.append("")
    own = sorted(os.path.basename(os.path.dirname(g)) for g in glob.glob(os.path.join(V, "seeded/*/meta.json")) if json.load(open(g))["property"] == pid)
    if own:
        out.append("*Planted bugs caught*: " + ", ".join(own) + ".\n")
out.append("## Planted bugs\n")
out.append("Each lies in `seeded/<id>/`; demonstration and tests were confirmed in a scratch copy, and each is caught by the check of its property (column 2) on the patched tree. Misses found on the way led to new rules "
           "or scenarios (for example shared pages in C25, several track/sector lists in C11 and C30, histories in C12, reorderings in C18).\n")
out.append("| id | caught by | needs | breaks |\n|---|---|---|---|")
for g in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(g))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(g)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
