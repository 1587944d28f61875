"""C06: the image file is rewritten exactly when it was changed."""
from ..cli import *

EXPLANATION = ("Typestate analysis of the loaded image over every abstract path of run() for every command that is not a dry run: "
               "write_file, delete_file and shred that return move it to 'changed', save moves 'changed' to 'saved', save of "
               "an unchanged image and completing while 'changed' are violations.  The save itself is checked separately: "
               "find_diskimage followed by save on a symbolic image must open exactly the file that was loaded, truncating, and "
               "write the complete byte array.")
ASSUMPTIONS = ["an operation that raises leaves the image unchanged (C01)", "a command that ends in an error did not complete"]
MINIMUM = 8


class Cli(CliClient):
    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep = rep

    def start(self):
        return "unchanged"

    def event(self, it, st, kind, data, node):
        fn = it.active[-1].qual if it.active else "?"
        if kind in ("write_file", "delete_file", "shred") and data[0] == "loaded":
            y = st.fork()
            y.mon = "changed"
            return y
        if kind == "save" and data[0] == "loaded":
            con = "%s: save in %s" % (self.command, fn)
            if st.mon == "changed":
                self.rep.ok("saved-when-changed", con)
            else:
                self.rep.bad("saved-when-changed", con, it.where(node), "the %s command saves the image although nothing was changed%s" % (self.command, " since it was last saved" if st.mon == "saved" else ""))
            if len(data) > 1:
                a = data[1]
                if isinstance(a, tuple) and type(a) is not Tup:
                    a = a[1]
                if a not in (IMG, C("")) and "filename" not in str(a):
                    self.rep.bad("saved-in-place", con, it.where(node), "the image is saved to %s instead of the file it was loaded from" % str(a)[:80])
            y = st.fork()
            y.mon = "saved"
            return y
        return st


def one(rep, c):
    pre = {"dry_run": C(False)}
    cli = Cli(rep, c, **pre)
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.namespaces:
        rep.und("saved-when-changed", c, "the option parser was not reached")
        return
    for k, x, v in outs:
        if k != "n":
            continue
        if x.mon == "changed":
            rep.bad("saved-when-changed", "%s: completion" % c, "atrcopy/__init__.py", "the %s command completes on a path where the image was changed and not saved afterwards" % c)
        else:
            rep.ok("saved-when-changed", "%s: %s" % (c, x.mon))


class SaveCli(CliClient):
    def __init__(self, rep):
        CliClient.__init__(self, "add")
        self.ev = []

    def event(self, it, st, kind, data, node):
        if kind in ("write", "fwrite", "host"):
            self.ev.append((kind, data, it.where(node)))
            y = st.fork()
            y.mon = (st.mon or ()) + ((kind,) + tuple(data),)
            return y
        return st

    def pre_call(self, it, st, f, args, kwargs, node):
        if type(f) is Fn and f.info.qual == "find_diskimage_from_data":
            return self.found(it, st, node)
        if type(f) is Bm or type(f) is Fn and f.info.qual == "find_diskimage":
            return None
        return CliClient.pre_call(self, it, st, f, args, kwargs, node)

    def found(self, it, st, node):
        out = []
        cls = self.cls
        ob = Inst(cls.info, {"bytes": Ar("D", C(0), N), "style": Ar("S", C(0), N), "filename": mk("sym", "OLDNAME", kind="str"), "ext": mk("sym", "OLDEXT", kind="str")}, True)
        st, img = it.alloc(st, node, ob, "image")
        st, p = it.alloc(st, node, Opq("parser", {"image": img}), "parser")
        return [("n", st, Tup([p, mk("sym", "MIME", kind="str")]))]


def save_part(rep, cls):
    cli = SaveCli(rep)
    cli.cls = cls
    it = mkit(cli)
    st = storage(storage(St(), "D", N), "S", N)
    W = "atrcopy/diskimages.py"
    con = "%s.save" % cls.info.name
    for k, x, v in calls(it, st, gval("", "find_diskimage"), IMG):
        if k != "n" or type(v) is not Tup:
            continue
        p = v.items[0]
        o = it.obj(x, p) if type(p) is R else None
        if type(o) is not Opq or "image" not in o.attrs:
            continue        # the local file system stand-in
        img = o.attrs["image"]
        for how, args in (("save()", []), ("save(name)", [mk("sym", "NEWNAME", kind="str")])):
            want = IMG if not args else args[0]
            y0 = x.fork()
            y0.mon = ()
            if args:
                y0 = y0.assume(*fact_key(it.truth(y0, args[0])))
            y0 = y0.assume(*fact_key(it.truth(y0, IMG)))
            done = False
            for k2, y, w in method(it, y0, img, "save", *args):
                if k2 != "n":
                    continue
                done = True
                ev = y.mon or ()
                wr = [e for e in ev if e[0] == "write"]
                fw = [e for e in ev if e[0] == "fwrite"]
                if len(wr) != 1:
                    rep.bad("save-writes", con + " " + how, W, "%s opens %d files for writing" % (how, len(wr)))
                    continue
                path, mode = wr[0][1], wr[0][2]
                if path == want:
                    rep.ok("save-target", con + " " + how, str(path))
                elif str(want) in str(path):
                    rep.bad("save-target", con + " " + how, W, "%s of an image loaded from F writes %s" % (how, str(path).replace(str(IMG), "F")))
                else:
                    rep.bad("save-target", con + " " + how, W, "%s writes %s instead of %s" % (how, path, want))
                if mode and "w" in mode and "b" in mode:
                    rep.ok("save-mode", con + " " + how, mode)
                else:
                    rep.bad("save-mode", con + " " + how, W, "%s opens the file with mode %r: not replaced as binary" % (how, mode))
                if len(fw) != 1:
                    rep.bad("save-complete", con + " " + how, W, "%s writes %d pieces" % (how, len(fw))) if not fw else rep.und("save-complete", con + " " + how, "several writes")
                    continue
                d = fw[0][3]
                if whole(d):
                    rep.ok("save-complete", con + " " + how, str(d)[:100])
                elif type(d) is T and d.op == "arr":
                    rep.bad("save-complete", con + " " + how, W, "%s writes %s, not the complete image bytes" % (how, str(d)[:120]))
                else:
                    rep.und("save-complete", con + " " + how, str(d)[:100])
            if not done:
                rep.und("save-target", con + " " + how, "no normal outcome")
    rep.absorb(it)


def whole(d):
    while type(d) is T and d.op in ("tobytes", "bytes"):
        d = d.args[0]
    return type(d) is T and d.op == "arr" and d.args[0] == mk("content", ("tok", "D"), ()) and d.args[1] == C(0) and d.args[2] == N and d.args[3] == 1


def check(rep):
    for c in COMMANDS:
        guarded(rep, "saved-when-changed", c, one, rep, c)
    root = classval("DiskImageBase")
    for cls in [root] + subclasses(root):
        if "save" in cls.info.env and cls.info.name != "LocalFilesystemImage" or cls is root:
            guarded(rep, "save-target", cls.info.name, save_part, rep, cls)
