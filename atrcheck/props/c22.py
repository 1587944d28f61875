"""C22: each command and alias does what it says and only that."""
from ..cli import *

EXPLANATION = ("run() is interpreted abstractly once per documented command word (20 words from the user documentation), with the "
               "option declarations of the program, symbolic option values and a symbolic disk image.  The effects of all paths are "
               "compared with the effect signature of the documented operation: operations on the image, host files opened for "
               "writing, data written and printed.  An effect outside the signature or an operation no path performs is a violation. "
               "Forms without a command and with a global option in front are interpreted as well.")
ASSUMPTIONS = ["argparse resolves a command word through the map filled by add_parser", "help and usage output are not compared"]
MINIMUM = 20

ALIASES = {"list": ["t", "ls", "dir", "catalog"], "crc": [], "extract": ["x"], "add": ["a"], "create": ["c"], "boot": ["b"],
           "assemble": ["s", "asm"], "delete": ["rm", "del"], "vtoc": ["v"], "segments": []}

CHANGES = ("write_file", "delete_file", "shred", "save")
HOST = ("write", "fwrite", "host")
ALLOWED = {
    "list": (), "crc": (), "segments": (), "vtoc": (),
    "extract": ("write", "fwrite", "host"),
    "add": ("write_file", "delete_file", "save"),
    "assemble": ("write_file", "delete_file", "save"),
    "delete": ("delete_file", "save"),
    "create": ("write", "fwrite"),
    "boot": ("save",),
}
REQUIRED = {"extract": "fwrite", "add": "write_file", "assemble": "write_file", "delete": "delete_file", "create": "fwrite", "boot": "save",
            "vtoc": "get_vtoc_object"}
WHAT = {"write_file": "writes a file into the image", "delete_file": "deletes a file from the image", "shred": "overwrites free sectors",
        "save": "rewrites the image file", "write": "opens a host file for writing", "fwrite": "writes a host file", "host": "changes the host file system"}
W = "atrcopy/__init__.py"


class Cli(CliClient):
    def __init__(self, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.ev = []

    def event(self, it, st, kind, data, node):
        if kind == "print":
            data = tuple(data) + tuple(self.deep(it, st, data))
        self.ev.append((kind, data, it.where(node), st))
        if kind in ("write", "fwrite", "load"):
            y = st.fork()
            y.mon = st.mon | {kind}
            return y
        return st

    def deep(self, it, st, data):
        """contents of the lists a printed value refers to"""
        out, seen, work = [], set(), list(data)
        while work:
            v = work.pop()
            for t in subterms(v):
                if type(t) is T and t.op == "ref" and type(t.args[0]) is C:
                    t = R(t.args[0].v)
                if type(t) is R and t.id not in seen:
                    seen.add(t.id)
                    o = st.heap.get(t.id)
                    if type(o) is Lst:
                        for x in tuple(o.items) + ((o.summ,) if isinstance(o.summ, Val) else ()):
                            out.append(x)
                            work.append(x)
        return out

    def on_ext(self, it, st, name, args, kwargs, node):
        if name in ("zlib.crc32", "binascii.crc32") and args:
            return [("n", st, mk("crc32", C(name), *[models.tv(it, st, a) for a in args], kind="nat"))]
        return CliClient.on_ext(self, it, st, name, args, kwargs, node)


def has(t, pred):
    s = [t]
    while s:
        x = s.pop()
        if isinstance(x, Val) and pred(x):
            return True
        if type(x) is T:
            s.extend(x.args)
        elif type(x) is Tup:
            s.extend(x.items)
        elif isinstance(x, tuple):
            s.extend(x)
    return False


def op(name):
    return lambda t: type(t) is T and t.op == name


def sym(name):
    return lambda t: type(t) is T and t.op == "sym" and t.args and (t.args[0] == name or t.args[0] == C(name) or str(t) == name)


def arg(data, i, name):
    """argument i of an image operation event, positional or keyword"""
    pos = [d for d in data[1:] if not (isinstance(d, tuple) and not isinstance(d, Val))]
    if i < len(pos):
        return pos[i]
    for d in data[1:]:
        if isinstance(d, tuple) and not isinstance(d, Val) and d[0] == name:
            return d[1]
    return None


def judge(rep, con, c, cli, it, outs, required=True):
    kinds = {}
    for e in cli.ev:
        kinds.setdefault(e[0], []).append(e)
    bad = False
    for k in CHANGES + HOST:
        if k in kinds and k not in ALLOWED[c]:
            bad = True
            rep.bad("only-that", con, kinds[k][0][2], "'%s' %s" % (con, WHAT[k]))
    if not bad:
        rep.ok("only-that", con, "%d effects on %d paths" % (len(cli.ev), len(outs)))
    r = REQUIRED.get(c)
    if required and r:
        if r in kinds:
            rep.ok("does-it", con, "%s at %s" % (r, kinds[r][0][2]))
        else:
            rep.bad("does-it", con, W, "no path of '%s' %s" % (con, WHAT.get(r, "asks the image for its free map")))
    # image loaded or not
    if c in ("create", "boot"):
        for e in kinds.get("load", []):
            if "write" not in e[3].mon and e[1][0] == IMG:
                rep.bad("no-image-needed", con, e[2], "'%s' loads the image it is about to create" % con)
        for e in kinds.get("load", []):
            break
    else:
        ld = kinds.get("load", [])
        if any(e[1][0] == IMG for e in ld):
            rep.ok("image-argument", con, str(ld[0][1][0]))
        elif ld:
            rep.bad("image-argument", con, ld[0][2], "'%s' loads %s instead of the image named on the command line" % (con, str(ld[0][1][0])[:60]))
        else:
            rep.bad("image-argument", con, W, "no path of '%s' loads the image" % con)
    details(rep, con, c, kinds)


def details(rep, con, c, kinds):
    def expect(rule, events, cond, what):
        for e in events:
            v = cond(e)
            if v is True:
                rep.ok(rule, con, e[2])
            elif v is None:
                rep.und(rule, con, e[2])
            else:
                rep.bad(rule, con, e[2], what % (str(v)[:100],))

    option_file = lambda t: "option" in str(t) and "files" in str(t)
    prints = kinds.get("print", [])
    opaque = lambda t: t is None or has(t, lambda x: type(x) is T and x.op in ("fresh", "opaque", "phi"))
    if c == "list":
        if any("files" in str(e[1]) for e in prints) or any(op("item")(x) for x in ()):
            rep.ok("does-it", con, "prints directory entries")
        elif any(opaque(e[1]) for e in prints):
            rep.und("does-it", con, "what is printed went through a data structure that is not followed")
        else:
            rep.bad("does-it", con, W, "no path of '%s' prints a directory entry" % con)
    if c == "crc":
        good = [e for e in prints if has(e[1], lambda t: op("crc32")(t) and has(t, op("filecontents")))]
        if good:
            rep.ok("does-it", con, good[0][2])
        elif any(opaque(e[1]) for e in prints):
            rep.und("does-it", con, "what is printed went through a data structure that is not followed")
        else:
            rep.bad("does-it", con, W, "no path of '%s' prints a CRC32 of file contents" % con)
        expect("whole-crc", [e for e in prints if has(e[1], op("crc32"))], lambda e: crc_ok(e[1]), "prints a checksum that is not the CRC32 of the complete file contents: %s")
    if c == "segments":
        if any("SEGMENTS" in str(e[1]) for e in prints):
            rep.ok("does-it", con)
        elif "segments" in kinds and any(has(e[1], lambda t: op("ref")(t) or op("fresh")(t) or op("phi")(t)) for e in prints[1:]):
            rep.ok("does-it", con, "prints a list made from the parsed segments")
        else:
            rep.bad("does-it", con, W, "no path of '%s' prints the parsed segments" % con)
    if c == "add":
        def okw(e):
            name, data = arg(e[1], 0, "name"), arg(e[1], 2, "data")
            if data is None or opaque(data) or opaque(name):
                return None
            if not (op("filedata")(data) and option_file(data)):
                return data
            if len(data.args) != 1:
                return data
            return True if has(name, lambda t: t == data.args[0]) else name
        expect("what-is-added", kinds.get("write_file", []), okw, "the file added is not the contents and base name of the host file: %s")
    if c == "assemble":
        def oka(e):
            name, data, typ = arg(e[1], 0, "name"), arg(e[1], 2, "data"), arg(e[1], 1, "filetype")
            if opaque(name) or opaque(data):
                return None
            if data != mk("sym", "EXE_DATA", kind="bytes"):
                return data
            if typ != mk("sym", "EXE_TYPE", kind="str"):
                return typ
            return True if "output" in str(name) else name
        expect("what-is-added", kinds.get("write_file", []), oka, "assemble does not write the assembled file under its --output name: %s")
    if c == "delete":
        def okd(e):
            name = arg(e[1], 0, "name")
            if opaque(name):
                return None
            return True if option_file(name) else name
        expect("what-is-deleted", kinds.get("delete_file", []), okd, "delete removes something that was not named: %s")
    if c == "extract":
        def okx(e):
            path, data = e[1][0], e[1][2]
            if opaque(data):
                return None
            while type(data) is T and data.op in ("tobytes", "bytes"):
                data = data.args[0]
            base = data
            n = 0
            while type(base) is T and base.op == "m" and str(base.args[0]).strip("'") == "replace":
                base = base.args[1]
                n += 1
            if not op("filecontents")(base):
                return None if has(data, op("filecontents")) else data
            if n:
                f = query(e[3].facts, it_truth("text"))
                if f is None:
                    f = any("text" in str(k) and v for k, v in e[3].facts.items())
                if not f:
                    return data
            ent = base.args[0]
            names = [t for t in subterms(path) if type(t) is T and t.op == "attr" and t.args[-1] == C("filename")]
            if names and not any(t.args[0] == ent for t in names):
                return path
            return True
        expect("what-is-extracted", kinds.get("fwrite", []), okx, "extract writes something other than the contents of the file it names: %s")
    if c == "create":
        def okc(e):
            path, data = e[1][0], e[1][2]
            if opaque(data):
                return None
            if data != mk("sym", "TEMPLATE_DATA", kind="bytes"):
                return data
            return True if path == IMG else path
        expect("what-is-created", kinds.get("fwrite", []), okc, "create writes something other than the template to the image file: %s")
    if c == "boot":
        def okb(e):
            if e[1][0] != "new":
                return e[1][0]
            a = arg(e[1], 0, "filename")
            if a is None or opaque(a):
                return None
            return True if a == IMG else a
        expect("what-is-created", kinds.get("save", []), okb, "boot does not save the new boot disk under the image name: %s")

        def okn(e):
            a = [x for x in e[1] if isinstance(x, Val)]
            if any(opaque(x) for x in a):
                return None
            return True if mk("sym", "ASM_SEGMENTS") in a and mk("sym", "RUN_ADDR") in a else a
        expect("what-is-created", kinds.get("create_boot_image", []), okn, "the boot disk is not made from the assembled segments and run address: %s")


def crc_ok(d):
    for t in subterms(d):
        if op("crc32")(t):
            a = t.args[1]
            while type(a) is T and a.op in ("tobytes", "bytes"):
                a = a.args[0]
            if op("filecontents")(a) and len(t.args) == 2:
                return True
            return t if has(a, op("filecontents")) and not has(a, lambda x: type(x) is T and x.op in ("fresh", "opaque", "phi")) else None
    return None


def subterms(t):
    s = [t]
    while s:
        x = s.pop()
        yield x
        if type(x) is T:
            s.extend(a for a in x.args if isinstance(a, Val))
        elif type(x) is Tup:
            s.extend(x.items)
        elif isinstance(x, tuple):
            s.extend(x)


def it_truth(name):
    return mk("sym", ("option", name), kind="bool")


def one(rep, c, word, argv=None, con=None, pre=None, required=True):
    cli = Cli(word, **(pre or {}))
    cli.argv_form = argv
    it, outs = run_command(cli)
    rep.absorb(it)
    con = con or word
    if not cli.namespaces:
        if cli.misparsed or cli.parse_args_seen or cli.help_exit:
            rep.bad("alias", con, W, "'%s' is not accepted as the %s command" % (con, c))
        else:
            rep.und("alias", con, "the option parser was not reached")
        return
    rep.ok("alias", con, c)
    judge(rep, con, c, cli, it, outs, required)


def cleared(rep):
    """vtoc --clear-empty"""
    con = "vtoc --clear-empty"
    cli = Cli("vtoc", clear_empty=C(True), dry_run=C(False))
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.namespaces:
        rep.und("does-it", con, "the option parser was not reached")
        return
    kinds = {e[0] for e in cli.ev}
    if "shred" in kinds and "save" in kinds:
        rep.ok("does-it", con, "shred and save")
    else:
        rep.bad("does-it", con, W, "--clear-empty does not clear the free sectors and save the image")
    for e in cli.ev:
        if e[0] in ("write_file", "delete_file"):
            rep.bad("only-that", con, e[2], "'%s' %s" % (con, WHAT[e[0]]))
    for k, x, v in outs:
        pass


def check(rep):
    for c, al in ALIASES.items():
        pre = {"clear_empty": C(False)} if c == "vtoc" else {}
        for word in [c] + al:
            guarded(rep, "only-that", word, one, rep, c, word, None, None, pre)
    guarded(rep, "only-that", "no command", one, rep, "list", "list", [IMG], "no command")
    for c in ALIASES:
        pre = {"clear_empty": C(False)} if c == "vtoc" else {}
        guarded(rep, "only-that", "-v before " + c, one, rep, c, c, [C("-v"), IMG, C(c), ARG], "-v IMAGE %s" % c, pre)
    guarded(rep, "does-it", "vtoc --clear-empty", cleared, rep)
