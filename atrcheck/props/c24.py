"""C24: create copies exactly the template that was named."""
import json, os

from ..cli import *
from .. import program

EXPLANATION = ("The template files that lie in the package are enumerated from the tree.  get_template_data is interpreted for every full "
               "name, every name without extension and every text that is part of several names, with the directory listing fixed to that enumeration: a "
               "name must lead to the contents of its own file, an ambiguous text to the library's error.  In the create command the data "
               "that flows into the new file must be that data, unchanged, on every path.")
ASSUMPTIONS = ["names given are those of the templates in the tree, texts that are part of a name, and texts that are not"]
MINIMUM = 10
W = "atrcopy/__init__.py"


def templates():
    d = os.path.join(program.REPO, "atrcopy", "templates")
    return d, sorted(os.listdir(d))


class Tpl(CliClient):
    def __init__(self, files, order):
        CliClient.__init__(self, "create")
        self.files, self.order = files, order

    def pre_call(self, it, st, f, args, kw, node):
        if type(f) is Fn and f.info.qual == "get_template_path":
            return [("n", st, C("TPL"))]
        return None

    def on_ext(self, it, st, name, args, kw, node):
        if name in ("glob.glob", "os.listdir", "os.scandir"):
            pat = args[0].v if type(args[0]) is C else None
            if name == "os.scandir" or pat is None:
                return None
            pre = "" if name == "os.listdir" else "TPL/"
            import fnmatch
            fs = [f for f in self.order if name == "os.listdir" or fnmatch.fnmatch("TPL/" + f, pat)]
            st, r = it.alloc(st, node, Lst([C(pre + f) for f in fs]), "ls")
            return [("n", st, r)]
        if name in ("builtins.open", "open", "io.open"):
            p = args[0].v if args and type(args[0]) is C else None
            if p is None:
                return None
            if p.startswith("TPL/") and p[4:] in self.files:
                st, r = it.alloc(st, node, Opq("file", {"name": C(p), "mode": C("r")}), "file")
                return [("n", st, r)]
            return [models.exc(st, "FileNotFoundError", node)]
        if name == "json.loads" and args and type(args[0]) is C:
            try:
                j = json.loads(args[0].v)
            except ValueError:
                return [models.exc(st, "ValueError", node)]
            st, r = it.alloc(st, node, Dct(tuple((C(k), C(v) if isinstance(v, (str, int, float, bool)) or v is None else it.fresh(st, node, "json")) for k, v in j.items())), "json")
            return [("n", st, r)]
        if name == "json.load" and args:
            o = it.obj(st, args[0]) if type(args[0]) is R else None
            if type(o) is Opq and o.what == "file":
                return self.on_ext(it, st, "json.loads", [C(self.files[o.attrs["name"].v[4:]])], {}, node)
        return None

    def on_method(self, it, st, base, name, args, kw, node):
        o = it.obj(st, base) if type(base) is R else None
        if type(o) is Opq and o.what == "file" and name == "read" and not args and type(o.attrs["name"]) is C:
            p = o.attrs["name"].v[4:]
            return [("n", st, C(self.files[p]) if p.endswith(".inf") else mk("filedata", C("TPL/" + p), kind="bytes"))]
        return None


def named(rep, files, order, name, want, con):
    it = mkit(Tpl(files, order))
    outs = calls(it, St(), gval("", "get_template_data"), C(name))
    rep.absorb(it)
    if not outs:
        rep.und("template", con, "no outcome")
        return
    for k, x, v in outs:
        if k == "x":
            n = xname(v)
            lib = v.cls in [classval("AtrError")] + subclasses(classval("AtrError")) if hasattr(v, "cls") else None
            if want is None and lib is not False:
                rep.ok("template", con, n)
            elif want is None:
                rep.bad("template", con, W, "a name that fits no single template ends in %s" % n)
            else:
                rep.bad("template", con, W, "the template %s is not found under the name %s: %s" % (want, name, n))
        elif k == "n":
            d = v.items[0] if type(v) is Tup and v.items else v
            while type(d) is T and d.op in ("bytes", "tobytes"):
                d = d.args[0]
            if type(d) is T and d.op == "filedata":
                p = d.args[0].v[4:] if type(d.args[0]) is C else None
                if want is None:
                    rep.bad("template", con, W, "the name %s fits no single template but gives %s" % (name, p))
                elif len(d.args) > 1 or p != want:
                    rep.bad("template", con, W, "the name %s gives %s of %s instead of %s" % (name, "a part" if p == want else "the contents", p, want))
                else:
                    rep.ok("template", con)
            else:
                rep.und("template", con, str(d)[:80])
        else:
            rep.und("template", con, k)


class Create(CliClient):
    def __init__(self, rep):
        CliClient.__init__(self, "create", dry_run=C(False))
        self.rep, self.n = rep, 0

    def event(self, it, st, kind, data, node):
        if kind == "fwrite":
            self.n += 1
            d = data[2]
            con = "create: write in %s" % (it.active[-1].qual if it.active else "?")
            while type(d) is T and d.op in ("bytes", "tobytes"):
                d = d.args[0]
            if d == mk("sym", "TEMPLATE_DATA", kind="bytes"):
                self.rep.ok("template-bytes", con)
            elif type(d) is T and d.op in ("sub", "slice", "m", "item", "getitem") or type(d) is C:
                self.rep.bad("template-bytes", con, it.where(node), "what is written is %s, not the template" % str(d)[:100])
            else:
                self.rep.und("template-bytes", con, str(d)[:80])
            if data[0] != IMG:
                if type(data[0]) is C:
                    self.rep.bad("template-bytes", con, it.where(node), "the image is written to %s" % str(data[0])[:80])
                else:
                    self.rep.und("template-bytes", con, "written to %s" % str(data[0])[:80])
            m = data[1]
            if type(m) is C and ("b" not in m.v or "a" in m.v or "+" in m.v):
                self.rep.bad("template-bytes", con, it.where(node), "the file is opened with mode %r" % m.v)
        return st


def create(rep):
    cli = Create(rep)
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.n:
        rep.und("template-bytes", "create", "nothing is written")


def check(rep):
    d, fs = templates()
    files = {}
    for f in fs:
        p = os.path.join(d, f)
        if f.endswith(".inf"):
            with open(p, encoding="utf-8") as fh:
                files[f] = fh.read()
        else:
            files[f] = None
    names = [f for f in fs if not f.endswith(".inf") and f + ".inf" in files]
    rep.count("templates", len(names))
    texts = {}
    for n in names:
        texts[n] = n
        texts[os.path.splitext(n)[0]] = n
    parts = set()
    for n in names:
        parts |= {n[:i] for i in range(1, len(n))} | {n[-4:], n[2:6]}
    for p in parts - set(texts):
        m = [n for n in names if p in n]
        texts[p] = m[0] if len(m) == 1 else None
    texts["no such template"] = None
    texts[names[0] + ".inf"] = None
    for n in names:
        if n + ".inf" not in texts:
            texts[n + ".inf"] = None
    for order in (fs, fs[::-1]):
        for t, want in sorted(texts.items()):
            con = "template name %s%s" % (t, "" if order is fs else ", other directory order")
            guarded(rep, "template", con, named, rep, files, order, t, want, con)
    guarded(rep, "template-bytes", "create", create, rep)
