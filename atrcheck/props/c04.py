"""C04: files inside an image are only replaced, or deleted when locked, with --force."""
from ..cli import *

EXPLANATION = ("run() is interpreted abstractly for add, assemble and delete with force the constant False.  A write_file "
               "event needs the fact that looking up the same name term on the image raised FileNotFound earlier on that "
               "path; no delete_file event may occur in add or assemble; in delete every delete_file event needs the fact that "
               "the lock flag of the entry found under that same name is false.")
ASSUMPTIONS = ["image.find_dirent finds the entry delete_file and write_file act on (C14 checks the lookup)"]
MINIMUM = 3


def mentions_name(key, name):
    s = [key]
    while s:
        t = s.pop()
        if t == name:
            return True
        if type(t) is T:
            s.extend(a for a in t.args if isinstance(a, Val))
        elif isinstance(t, tuple):
            s.extend(t)
    return False


def mentions_op(key, op):
    s = [key]
    while s:
        t = s.pop()
        if type(t) is T:
            if t.op == op:
                return True
            s.extend(a for a in t.args if isinstance(a, Val))
        elif isinstance(t, tuple):
            s.extend(t)
    return False


def absent(name, val):
    key, pol = fact_key(mk("absent", name, kind="bool"))
    return key, pol if val else not pol


class Cli(CliClient):
    split_ops = ("absent",)

    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep = rep

    def event(self, it, st, kind, data, node):
        c = self.canon
        fn = it.active[-1].qual if it.active else "?"
        if kind == "found":
            return st.assume(*absent(data[0], False))
        if kind == "absent":
            return st.assume(*absent(data[0], True))
        if kind == "write_file":
            name = data[1] if len(data) > 1 else None
            f = query(st.facts, mk("absent", name, kind="bool"))
            con = "%s: write_file in %s" % (c, fn)
            if f is True:
                self.rep.ok("absent-before-write", con, str(name)[:100])
            elif f is None and any(mentions_name(k, name) for k in st.facts if not mentions_op(k, "absent")):
                self.rep.und("absent-before-write", con, "name tested by other means")
            else:
                self.rep.bad("absent-before-write", con, it.where(node), "without --force %s writes %s although %s" % (c, str(name)[:80], "it was found on the image" if f is False else "it was not looked up on this path"))
        if kind == "delete_file":
            name = data[1] if len(data) > 1 else None
            con = "%s: delete_file in %s" % (c, fn)
            if c in ("add", "assemble"):
                self.rep.bad("no-delete", con, it.where(node), "without --force %s deletes a file from the image" % c)
                return st
            ok_ = None
            for key, val in st.facts.items():
                if mentions_name(key, C("locked")) and mentions_name(key, name):
                    ok_ = (val is False) if ok_ is None else (ok_ and val is False)
            if ok_:
                self.rep.ok("unlocked-before-delete", con, str(name)[:100])
            else:
                self.rep.bad("unlocked-before-delete", con, it.where(node), "without --force delete removes %s %s" % (str(name)[:80], "without looking at its lock" if ok_ is None else "although it is locked"))
        return st


def one(rep, c):
    cli = Cli(rep, c, force=C(False))
    cli.canon = c
    n0 = len(rep.viol)
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.namespaces:
        rep.und("absent-before-write", c, "the option parser was not reached")
        return
    if "force" not in cli.namespaces[0]:
        rep.bad("option", c, "atrcopy/__init__.py", "%s has no --force option" % c)
    elif len(rep.viol) == n0:
        rep.ok("no-delete" if c != "delete" else "unlocked-before-delete", c, "%d paths" % len(outs))


def check(rep):
    for c in ("add", "assemble", "delete"):
        guarded(rep, "absent-before-write", c, one, rep, c)
