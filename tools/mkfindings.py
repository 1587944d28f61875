"""known-findings.json from the fix commits of /repo (run by hand, not by a check)"""
import json, os, subprocess
MAP = """f4cfad1 C01|9a9bf48 C01|b3399e3 C21|5ece941 C21|96c7724 C06|3183d24 C02,C03|fd8bed2 C02|1ec400b C05|1bb0ee2 C04|8bb8855 C07|2533f6a C07|b7ba501 C10|d402dfb C10|8459c79 C10|d37aede C10|c107f42 C14|88930e1 C12|2d6ad15 C11|96bb2bf C11|7266532 C13|fa5ee9e C21|a96ff31 C21|a4a5c7a C19|de6265c C08|0e6dac9 C16|9553deb C21|7391b66 C21|e77752d C12|2c5a876 C11|47a7d22 C08|d397f07 C07|b187fc1 C12|3ecd2aa C12|1e4f5c8 C14|4986feb C08|1a36a9c C21|4937f80 C13|58c4c9b C10|551a9bd C20|c45162b C19|7a2d892 C19|452c216 C18|5c53302 C18|519aa45 C17|26ebd5b C30|c7c3f72 C23|acd5f0e C23|ed63224 C24|4e48e34 C25"""
EXTRA = os.path.join(os.path.dirname(__file__), "fixes.txt")
pairs = [p.split() for p in MAP.split("|")]
if os.path.exists(EXTRA):
    pairs += [l.split()[:2] for l in open(EXTRA) if l.strip()]
subj = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    subj[h[:7]] = s
fixed = []
for h, ps in pairs:
    for p in ps.split(","):
        assert subj[h].startswith("fix:"), h
        fixed.append("fixed: property=%s %s %s" % (p, h, subj[h][4:].strip()))
missing = [h for h, s in subj.items() if s.startswith("fix:") and h not in {a for a, b in pairs}]
assert not missing, missing
known = []
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
if os.path.exists(out):
    known = json.load(open(out)).get("known", [])
json.dump({"known": known, "fixed": fixed}, open(out, "w"), indent=1)
print(len(fixed), "fixed", len(known), "known")
