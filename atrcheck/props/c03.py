"""C03: host files are only overwritten with --force."""
from ..cli import *

EXPLANATION = ("run() is interpreted abstractly for extract, create and boot with force the constant False.  At every opening "
               "of a host path for writing (and every saving of a newly created image to a path) the branch facts of that "
               "path must contain that exactly this path term was found not to exist; a test of a different or later changed "
               "path does not count.  Modes that refuse existing files (x) need no test.")
ASSUMPTIONS = ["no other process creates the file between test and open"]
MINIMUM = 3


class Cli(CliClient):
    split_ops = ("ospath",)

    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep = rep
        self.sites = set()

    def safe(self, st, path):
        for q in ("exists", "lexists", "isfile"):
            t = mk("ospath", C(q), path, kind="bool")
            if query(st.facts, t) is False:
                return True
        # tests of a normalised form of the same path
        for key, val in st.facts.items():
            for t in (key if isinstance(key, tuple) else (key,)):
                if type(t) is T and t.op == "ospath" and t.args[0].v in ("exists", "lexists", "isfile") and canon_path(t.args[1]) == canon_path(path) and query(st.facts, t) is False:
                    return True
        return False

    def event(self, it, st, kind, data, node):
        c = self.canon
        fn = it.active[-1].qual if it.active else "?"
        path = None
        if kind == "write":
            if data[1] and "x" in str(data[1]):
                self.rep.ok("tested-before-write", "%s in %s" % (c, fn), "exclusive mode")
                return st
            path = data[0]
        elif kind == "save" and data[0] == "new":
            path = canon_path(data[1]) if len(data) > 1 else None
            if type(path) is Tup or isinstance(path, tuple):
                path = canon_path(path[1])
            if path is None:
                return st
        elif kind == "host" and data[0] in ("os.rename", "os.replace", "shutil.copy", "shutil.move", "shutil.copyfile", "os.remove", "os.unlink") and data[1]:
            path = canon_path(data[1][-1])
        if path is None:
            return st
        con = "%s: %s in %s" % (c, kind, fn)
        if self.safe(st, path):
            self.rep.ok("tested-before-write", con, str(path)[:120])
        else:
            self.rep.bad("tested-before-write", con, it.where(node), "without --force the %s command writes %s on a path that has not found it absent" % (c, str(path)[:120]))
        return st


def one(rep, c):
    cli = Cli(rep, c, force=C(False))
    cli.canon = c
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.namespaces:
        rep.und("tested-before-write", c, "the option parser was not reached")
    elif "force" not in cli.namespaces[0]:
        rep.bad("option", c, "atrcopy/__init__.py", "%s has no --force option" % c)


def check(rep):
    for c in ("extract", "create", "boot"):
        guarded(rep, "tested-before-write", c, one, rep, c)
