"""C01: a failed change leaves the disk image exactly as it was."""
from ..common import *

EXPLANATION = ("For every disk image class and every header class its constructor can choose, the changing operations "
               "(write_file, delete_file, shred) are interpreted abstractly on an image of symbolic size and content.  The "
               "content of the image bytes and of the style bytes is tracked as a token that changes with every store and "
               "is restored only by a complete copy from a snapshot taken while the token was the original one.  At every "
               "statement that can fail while the content differs from the original an unnamed failure is injected, in "
               "addition to every error the code raises itself; every exceptional exit must carry the original tokens, and "
               "no exit is normal after an injected failure, after a roll back, or after swallowing a refusal.")
ASSUMPTIONS = ["failures are Python exceptions derived from Exception at statements that call, index or compute; no second "
               "failure during the roll back itself",
               "bytes and style are the two arrays handed to the constructor; a change to Python-side caches (files, segments) is not part of the image"]
MINIMUM = 3

REFUSALS = {"write_file": ("NoSpaceInDirectory", "NotEnoughSpaceOnDisk"), "delete_file": ("FileNotFound",), "shred": ()}


def mayfail(s):
    c = getattr(s, "_mayfail", None)
    if c is None:
        if isinstance(s, (ast.If, ast.While)):
            tops = [s.test]
        elif isinstance(s, ast.For):
            tops = [s.iter]
        elif isinstance(s, ast.With):
            tops = [i.context_expr for i in s.items]
        elif isinstance(s, (ast.Try, ast.Raise, ast.FunctionDef, ast.ClassDef, ast.Pass)):
            tops = []
        else:
            tops = [s]
        c = any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp)) for t in tops for n in ast.walk(t))
        s._mayfail = c
    return c


FAULT = Xc(Ex("builtins.MemoryError"), tag="injected failure")


class Cli(Client):
    coarse = True

    def __init__(self):
        self.seen = set()
        self.injected = 0
        self.on = False
        self.refusals = ()

    def dirty(self, it, st):
        return it.obj(st, R("D")).content != self.d0 or it.obj(st, R("S")).content != self.s0

    def on_stmt(self, it, st, s):
        if not self.on or not mayfail(s) or not self.dirty(it, st):
            return ()
        if "$exc" in st.env or any("$exc" in e for e in st.stack) or (st.mon and "fault" in st.mon):
            return ()
        key = (s, tuple(id(a) for a in it.active))
        if key in self.seen:
            return ()
        self.seen.add(key)
        self.injected += 1
        y = st.fork()
        y.mon = (st.mon or frozenset()) | {"fault"}
        return [("x", y, Xc(FAULT.cls, site=s, tag=FAULT.tag))]

    def mark(self, st, what):
        if st.mon and what in st.mon:
            return st
        y = st.fork()
        y.mon = (st.mon or frozenset()) | {what}
        return y

    def on_store(self, it, st, sid, off, n, value, node):
        if self.on and sid in ("D", "S") and value[0] == "arr":
            c = value[1]
            if off == C(0) and n == it.obj(st, R(sid)).ln and c.op == "arr" and c.args[1] == C(0):
                q = c.args[0]
                if q.op == "content" and (q.args[0], tuple(q.args[1])) == (self.d0 if sid == "D" else self.s0):
                    return self.mark(st, "rollback")
        return st

    def on_catch(self, it, st, xc, handler, node):
        if self.on and xname(xc) in self.refusals:
            return self.mark(st, "refused")
        if self.on and st.mon and "fault" in st.mon and xc.tag == FAULT.tag and st.env.get("self") != self.img:
            # a handler of some helper recovers by other means: not the operation's own error handling
            y = st.fork()
            y.mon = st.mon - {"fault"}
            return y
        return st


def run(rep, cls, op):
    cli = Cli()
    it = mkit(cli, 3000000)
    starts = load_images(it, cls)
    if not starts:
        rep.und("start", cls.info.name, "constructor has no normal outcome")
        return
    for label, st, img in starts:
        name = "%s.%s[%s]" % (cls.info.name, op, label)
        guarded(rep, "rollback", name, one, rep, it, cli, st, img, op, name)
    rep.absorb(it)


def one(rep, it, cli, st, img, op, name):
    o = it.obj(st, img)
    if it.obj(st, R("D")).content != (("tok", "D"), ()) or it.obj(st, R("S")).content != (("tok", "S"), ()):
        rep.und("rollback", name, "loading already modifies the image")
    st = st.fork()
    st.mon = frozenset()
    cli.d0, cli.s0 = it.obj(st, R("D")).content, it.obj(st, R("S")).content
    cli.seen, cli.on, cli.refusals, cli.img = set(), True, REFUSALS[op], img
    args = []
    if op == "write_file":
        st = storage(st, "F", sym("FN", "nat"))
        args = [mk("sym", "NAME", kind="str"), mk("sym", "TYPE", kind="str"), Ar("F", C(0), sym("FN", "nat"))]
    elif op == "delete_file":
        args = [mk("sym", "NAME", kind="str")]
    n0 = cli.injected
    outs = method(it, st, img, op, *args)
    cli.on = False
    rep.count("injected_failures", cli.injected - n0)
    rep.count("exits", len(outs))
    for k, x, v in outs:
        site = it.where(v.site) if k == "x" and v.site is not None else "atrcopy/diskimages.py"
        if k == "x":
            for what, c0 in (("D", cli.d0), ("S", cli.s0)):
                thing = "bytes" if what == "D" else "styles"
                if it.obj(x, R(what)).content != c0:
                    rep.bad("restored-on-error", "%s %s" % (name.split("[")[0], thing), site,
                            "%s raised at %s leaves the image %s changed" % (v.tag or xname(v), site, thing))
                else:
                    rep.ok("restored-on-error", "%s %s %s" % (name, thing, xname(v)), site)
        else:
            mon = x.mon or frozenset()
            if "fault" in mon:
                rep.bad("error-reaches-caller", name.split("[")[0], "atrcopy/diskimages.py", "a failure inside the operation is swallowed: it returns normally")
            elif "rollback" in mon and not cli_dirty(it, x, cli):
                rep.bad("error-reaches-caller", name.split("[")[0], "atrcopy/diskimages.py", "the operation returns normally after rolling back")
            elif "refused" in mon:
                rep.bad("error-reaches-caller", name.split("[")[0], "atrcopy/diskimages.py", "a refusal (%s) is caught and the operation returns normally" % "/".join(cli.refusals))
            else:
                rep.ok("error-reaches-caller", name)



def cli_dirty(it, st, cli):
    return cli.dirty(it, st)


def check(rep):
    root = classval("DiskImageBase")
    jobs = []
    for c in subclasses(root):
        for op in ("write_file", "delete_file", "shred"):
            jobs.append(("%s.%s" % (c.info.name, op), lambda r, c=c, op=op: run(r, c, op)))
    parallel(rep, jobs)
