"""C05: extracted files never land outside the chosen directory."""
from ..cli import *

EXPLANATION = ("Taint analysis over the path terms of the extract command: the source is the file name of a directory entry "
               "(and the names matched against it), the sinks are the paths opened for writing on any abstract path of run() "
               "with the extract command.  A name is harmless once every path separator is replaced or only its last "
               "component is taken; changing case, joining and formatting keep the taint.  The directory part of a sink must "
               "be the --dir option when that is set and nothing otherwise.")
ASSUMPTIONS = ["a name without separators names a direct child of the directory (\".\" and \"..\" cannot be opened for writing)",
               "POSIX host: the separator is '/'"]
MINIMUM = 2

PASS = ("lower", "upper", "strip", "rstrip", "lstrip", "title", "capitalize", "swapcase", "casefold", "decode", "encode", "expandtabs",
        "ljust", "rjust", "center", "zfill", "format", "join", "replace", "removeprefix", "removesuffix")
OPTDIR = mk("sym", ("option", "dir"))


def is_source(t):
    return type(t) is T and (t.op == "attr" and t.args[1] in (C("filename"), C("ext"), C("basename")) and type(t.args[0]) is T and t.args[0].op in ("dirent", "elem", "of", "item", "call", "sym")
                             or t.op == "m" and t.args[0] in ("get_filename",) or t.op == "fresh" and "get_filename" in str(t))


def has_source(t):
    s = [t]
    while s:
        x = s.pop()
        if is_source(x) or type(x) is T and x.op == "dirent":
            return True
        if type(x) is T:
            if x.op == "elem" and "option" in str(x) and "files" in str(x):
                return True
            s.extend(a for a in x.args if isinstance(a, (Val, tuple)))
        elif isinstance(x, tuple):
            s.extend(x)
        elif type(x) is Tup:
            s.extend(x.items)
    return False


def sep(v):
    return v in (C("/"), Ex("os.sep"), Ex("os.path.sep")) or type(v) is T and "os.sep" in str(v) or "os.path.sep" in str(v)


def taint(t):
    """'bad': separators of a stored name reach the path; None: unknown;
    'ok': they do not"""
    if type(t) is C or not has_source(t):
        return "ok"
    if type(t) is T:
        if is_source(t) or t.op == "dirent":
            return "bad"
        if t.op == "elem":
            return "bad"
        if t.op == "m":
            name, b, args = t.args[0], t.args[1], t.args[2:]
            name = name.v if type(name) is C else name
            if name == "replace" and len(args) >= 2 and sep(args[0]):
                if type(args[1]) is C and "/" not in str(args[1].v):
                    return "ok"
                return "bad"
            if name in PASS:
                r = [taint(b)] + [taint(a) for a in args]
                return "bad" if "bad" in r else None if None in r else "ok"
            if name == "translate":
                return None
            return None
        if t.op == "item" and type(t.args[0]) is T and t.args[0].op == "m" and t.args[0].args[0] in ("rsplit", "split", "rpartition", "partition") and any(sep(a) for a in t.args[0].args[2:]):
            return "ok" if t.args[1] == C(-1) else None
        if t.op == "ospath":
            f = t.args[0].v
            if f == "basename":
                return "ok"
            r = [taint(a) for a in t.args[1:]]
            if f in ("join", "normpath", "abspath", "realpath", "expanduser", "normcase"):
                return "bad" if "bad" in r else None if None in r else "ok"
            return None
        if t.op in ("strcat", "fmt", "cat", "str", "concat"):
            r = [taint(a) for a in t.args if isinstance(a, Val)]
            return "bad" if "bad" in r else None if None in r else "ok"
    return None


def dirs(t):
    """the directory arguments of nested joins"""
    if type(t) is T and t.op == "ospath" and t.args[0].v == "join":
        return list(t.args[1:-1]) + dirs(t.args[-1])
    return []


class Cli(CliClient):
    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep = rep
        self.sinks = 0

    def event(self, it, st, kind, data, node):
        if kind != "write" and not (kind == "host" and data[0] not in ("os.makedirs", "os.mkdir")):
            return st
        fn = it.active[-1].qual if it.active else "?"
        for path in ([data[0]] if kind == "write" else data[1]):
            self.sinks += 1
            con = "%s in %s" % (kind, fn)
            r = taint(path)
            if r == "bad":
                self.rep.bad("separator-free", con, it.where(node), "path separators in a name stored on the image reach the host path %s" % str(path)[:160])
            elif r is None:
                self.rep.und("separator-free", con, "unrecognised sanitizer in %s" % str(path)[:160])
            else:
                self.rep.ok("separator-free", con, str(path)[:160])
            setdir = query(st.facts, it.truth(st, OPTDIR))
            ds = [d for d in dirs(path)]
            if setdir is True:
                if OPTDIR in ds or any("dir" in str(d) for d in ds) or "option·dir" in str(path):
                    self.rep.ok("in-directory", con + " --dir", str(ds))
                else:
                    self.rep.bad("in-directory", con, it.where(node), "with --dir the file is written to %s" % str(path)[:160])
            elif setdir is False:
                extra = [d for d in ds if d not in (C("."), C(""))]
                if not extra:
                    self.rep.ok("in-directory", con, str(path)[:120])
                else:
                    self.rep.und("in-directory", con, "written below %s" % extra)
        return st


def one(rep):
    cli = Cli(rep, "extract", dry_run=C(False))
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.sinks:
        rep.und("separator-free", "extract", "no file is written")


def check(rep):
    guarded(rep, "separator-free", "extract", one, rep)
