"""Write and try planted bugs (development tool, not used by any check).

spec files are python: SEEDS = [dict(id=, prop=, edits=[(file, old, new)], demo=python text, needs=, breaks=)]
usage: seed.py write SPEC... | seed.py try ID...
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = os.path.join(HERE, "seeded")
PRE = '''import os, sys, tempfile, shutil, io, contextlib, time
sys.dont_write_bytecode = True
REPO = os.getcwd()
sys.path.insert(0, REPO)
TD = os.path.join(REPO, "test_data")
SCRATCH = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)
os.chdir(SCRATCH)
import numpy as np
import atrcopy
from atrcopy import errors


def load(name):
    with open(os.path.join(TD, name), "rb") as fh:
        data = fh.read()
    return atrcopy.find_diskimage_from_data(np.frombuffer(data, dtype=np.uint8).copy(), False)[0]


def fresh(template):
    data, inf = atrcopy.get_template_data(template)
    return atrcopy.find_diskimage_from_data(np.frombuffer(data, dtype=np.uint8).copy(), False)[0]


def cli(*args):
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["atrcopy"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            atrcopy.run()
    finally:
        sys.argv = old
    return out.getvalue()


def put(name, data):
    with open(name, "wb") as fh:
        fh.write(data)


def get(name):
    with open(name, "rb") as fh:
        return fh.read()


def fail(msg):
    print("BROKEN: " + str(msg))
    sys.exit(1)


'''


def write(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        tmp = tempfile.mkdtemp()
        for w in ("a", "b"):
            os.makedirs(os.path.join(tmp, w))
        by = {}
        for f, old, new in s["edits"]:
            by.setdefault(f, []).append((old, new))
        for f, ed in by.items():
            src = open(os.path.join("/repo", f)).read()
            for w in ("a", "b"):
                os.makedirs(os.path.dirname(os.path.join(tmp, w, f)), exist_ok=True)
            open(os.path.join(tmp, "a", f), "w").write(src)
            for old, new in ed:
                if src.count(old) != 1:
                    print(s["id"], "edit matches", src.count(old), "times:", old[:60])
                    sys.exit(1)
                src = src.replace(old, new)
            open(os.path.join(tmp, "b", f), "w").write(src)
        d = subprocess.run(["diff", "-ru", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
        d = re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", d, flags=re.M)
        d = re.sub(r"^diff -ru .*\n", "", d, flags=re.M)
        out = os.path.join(SE, s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(d)
        open(os.path.join(out, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv-pypy/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print("wrote", s["id"])


def sh(cmd, cwd="/repo", t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t, shell=isinstance(cmd, str))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def try_(ids, suite=True):
    assert sh("git status --porcelain")[1].strip() == "", "repo not clean"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = os.path.join(SE, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = []
        r, o = sh(["bash", d + "/demo.sh"])
        res.append("demo0=%s" % r)
        if r:
            res.append(o[-300:])
        try:
            r, o = sh(["git", "apply", d + "/patch.diff"])
            if r:
                print(i, "APPLY", o)
                continue
            r, o = sh(["bash", d + "/demo.sh"])
            res.append("demo1=%s %s" % (r, o.strip().split("\n")[-1][:110]))
            if suite:
                r, o = sh("bash /opt/vp/build.sh")
                if r:
                    res.append("BUILD FAILS")
                sh("bash /opt/vp/test.sh /tmp/w/out.json")
                got = json.load(open("/tmp/w/out.json"))
                lost = (base or set()) - set(got["passed"])
                res.append("tests lost %d %s" % (len(lost), sorted(lost)[:2]))
            r, o = sh(["python3", "check.py", prop], HERE, 900)
            ls = [l for l in o.strip().split("\n") if l]
            res.append("CHECK %s=%s | %s" % (prop, r, (ls[-2] if len(ls) > 1 and r == 1 else ls[-1] if ls else "")[:170]))
        finally:
            sh("git checkout -- . && git clean -fdq atrcopy")
        print(i, " ; ".join(res), flush=True)


if sys.argv[1] == "write":
    for f in sys.argv[2:]:
        write(f)
elif sys.argv[1] == "try":
    try_(sys.argv[2:])
elif sys.argv[1] == "check":
    try_(sys.argv[2:], False)
