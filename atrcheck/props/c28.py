"""C28: a command line is carried out for every file it names."""
import shlex
import struct
from ..cli import *
from ..disk import Atari, Dos33, entry_atari, entry_dos33, Open, Exact
from ..terms import *
from .c25 import given

EXPLANATION = ("run() is interpreted abstractly for command lines that together use every command with every documented option in its short and long form, alone and with several files.  The words are parsed by a model of "
               "argparse from the declarations the program itself makes, the image is an abstract Atari DOS or DOS 3.3 image with known directory and unknown contents, and the host is a table of existing paths; contents are terms. "
               "The effects of the single path (lines printed, host files written, directories made, files stored in and deleted from the image, saves, the segments given to the writers of executables) "
               "are compared with the effects the user documentation gives for that command line.")
ASSUMPTIONS = ["argparse works as documented: options take the declared number of words, positional arguments the rest",
               "reading and storing files on the image does what the properties about images say; here the operations are recorded", "no host operation fails"]
MINIMUM = 60
R_SHOW, R_OUT, R_IN, R_DEL, R_MAKE, R_OPT = ("the files shown are all files or those named", "each file asked for is extracted once, to its place", "each host file is stored once, under its name",
                                              "each file named is deleted", "executables and boot disks are made of all files given", "the options are understood")
W = "atrcopy/__init__.py"
IMAGE = "disk.img"


class Usage(Exception):
    pass


class World(CliClient):
    installed = True        # modules that can be missing are there
    unroll, peel, exact_list, max_writes = Exact.unroll, Exact.peel, Exact.exact_list, Exact.max_writes

    def __init__(self, im, argv, host=(), dirs=(), contents=None):
        CliClient.__init__(self, None)
        self.im, self.argv_form = im, [C(a) for a in argv]
        self.host, self.dirs, self.contents = set(host), set(dirs), contents or {}
        self.usage = None

    def start(self):
        return ()

    def event(self, it, st, kind, data, node):
        y = st.fork()
        y.mon = (st.mon or ()) + ((kind, data, it.where(node)),)
        return y

    # ---- argparse, on constant words
    def parse_args(self, it, st, key, args, node, name):
        self.parse_args_seen += 1
        l = it.obj(st, args[0]) if args and type(args[0]) is R else None
        if type(l) is not Lst or not l.exact or any(type(a) is not C for a in l.items):
            raise Open("the words given to argparse are not determined")
        words = [a.v for a in l.items]
        try:
            ns = self.words(it, st, key.v, words)
        except Usage as e:
            self.usage = str(e)
            return [("x", st, Xc(Ex("builtins.SystemExit"), site=node, tag="usage"))]
        attrs = {}
        for k, v in ns.items():
            st, attrs[k] = self.value(it, st, v, node)
        st, r = it.alloc(st, node, Opq("namespace", attrs), "options")
        self.namespaces.append(set(ns))
        return [("n", st, r)]

    def value(self, it, st, v, node):
        if isinstance(v, list):
            items = []
            for x in v:
                st, y = self.value(it, st, x, node)
                items.append(y)
            return it.alloc(st, node, Lst(items), "words")
        return st, v if isinstance(v, Val) else C(v)

    def words(self, it, st, key, words):
        ns, rest = {}, list(words)
        while True:
            sub = None
            decl = [d for d in self.parsers[key] if d[1] != "default"]
            for d in self.parsers[key]:
                if d[1] == "default":
                    ns[d[0]] = d[2]
                elif d[1] == "subparsers":
                    sub = d
                else:
                    ns.setdefault(d[0], d[3] if d[1] not in ("store_true", "store_false") or d[3] is not None else d[1] == "store_false")
            flags = {f: d for d in decl if d[1] != "subparsers" and not d[4] for f in d[5]}
            pos = []
            required = [d for d in decl if d[1] != "subparsers" and d[4]]
            while rest:
                w = rest.pop(0)
                if w.startswith("-") and len(w) > 1 and w not in ("-1",):
                    val = None
                    if w not in flags and "=" in w:
                        w, val = w.split("=", 1)
                    if w not in flags and not w.startswith("--") and len(w) > 2 and w[:2] in flags:
                        d = flags[w[:2]]
                        if d[1] in ("store_true", "store_false", "count"):
                            rest.insert(0, "-" + w[2:])
                        else:
                            val = w[2:]
                        w = w[:2]
                    if w not in flags and w.startswith("--"):
                        c = {id(flags[f]): f for f in flags if f.startswith(w)}
                        if len(c) == 1:
                            w = list(c.values())[0]
                    if w not in flags:
                        raise Usage("unrecognized arguments: %s" % w)
                    dest, action, nargs, default, _, _, typ = flags[w]
                    if action == "store_true":
                        ns[dest] = True
                    elif action == "store_false":
                        ns[dest] = False
                    elif action == "count":
                        ns[dest] = (ns[dest] or 0) + 1
                    elif action in ("store", "append"):
                        if typ is not None:
                            raise Open("converted option values")
                        if nargs is None:
                            if val is None:
                                if not rest or rest[0].startswith("-"):
                                    raise Usage("argument %s: expected one argument" % w)
                                val = rest.pop(0)
                            got = val
                        else:
                            got = [val] if val is not None else []
                            while val is None and rest and not rest[0].startswith("-") and (isinstance(nargs, str) and nargs in "+*" or len(got) < (1 if nargs == "?" else nargs)):
                                got.append(rest.pop(0))
                            if nargs == "+" and not got or isinstance(nargs, int) and len(got) != nargs:
                                raise Usage("argument %s: expected %s arguments" % (w, nargs))
                            if nargs == "?":
                                got = got[0] if got else None
                        if action == "append":
                            ns[dest] = list(ns[dest] or []) + [got]
                        else:
                            ns[dest] = got
                    else:
                        raise Open("action %s" % action)
                elif sub is not None:
                    m = it.obj(st, it.obj(st, sub[2]).attrs["_name_parser_map"])
                    hit = [v for k, v in m.items if k == C(w)]
                    if not hit:
                        raise Usage("invalid choice: %s" % w)
                    ns[sub[0]] = w
                    key = it.obj(st, hit[-1]).attrs["key"].v
                    break
                else:
                    pos.append(w)
            else:
                if sub is not None:
                    ns.setdefault(sub[0], None)
                for i, d in enumerate(required):
                    last = i == len(required) - 1
                    n = d[2]
                    if n in ("*", "+"):
                        if not last:
                            raise Open("several lists of words")
                        if n == "+" and not pos:
                            raise Usage("the following arguments are required: %s" % d[0])
                        ns[d[0]], pos = (pos or (d[3] if d[3] is not None else [])), []
                    elif n == "?":
                        if pos:
                            ns[d[0]] = pos.pop(0)
                    elif n is None:
                        if not pos:
                            raise Usage("the following arguments are required: %s" % d[0])
                        ns[d[0]] = pos.pop(0)
                    else:
                        if len(pos) < n:
                            raise Usage("the following arguments are required: %s" % d[0])
                        ns[d[0]], pos = pos[:n], pos[n:]
                if pos:
                    raise Usage("unrecognized arguments: %s" % " ".join(pos))
                return ns

    # ---- the host
    def exists(self, p):
        return p in self.host or p in self.dirs

    def on_ext(self, it, st, name, args, kwargs, node):
        if name in ("os.path.exists", "os.path.lexists", "os.path.isfile", "os.path.isdir") and args and type(args[0]) is C:
            p = args[0].v
            r = {"isfile": p in self.host, "isdir": p in self.dirs}.get(name[8:], self.exists(p))
            made = [e for e in st.mon or () if e[0] == "host" and e[1][0] in ("os.makedirs", "os.mkdir") and e[1][1][:1] == (C(p),)] or [e for e in st.mon or () if e[0] == "fwrite" and e[1][0] == C(p)]
            return [("n", st, C(bool(r or made)))]
        if name in ("os.makedirs", "os.mkdir"):
            p = args[0].v if args and type(args[0]) is C else None
            st = self.event(it, st, "host", (name, tuple(models.tv(it, st, a) for a in args)), node)
            if p in self.dirs and kwargs.get("exist_ok") != C(True) and (len(args) < 3 or args[2] != C(True)):
                return [models.exc(st, "FileExistsError", node)]
            return [("n", st, NONE)]
        if name in ("zlib.crc32", "binascii.crc32") and args:
            return [("n", st, mk("crc32", *[models.tv(it, st, a) for a in args], kind="nat"))]
        if name == "pyatasm.Assemble":
            st, segs = it.alloc(st, node, Lst([Tup([C(a), C(a + len(d)), C(d)]) for a, d in self.contents.get(args[0].v if type(args[0]) is C else None, ())]), "asm")
            st, r = it.alloc(st, node, Opq("asm", {"segments": segs}), "asm")
            return [("n", st, r)]
        return CliClient.on_ext(self, it, st, name, args, kwargs, node)

    def do_open(self, it, st, args, kwargs, node):
        mode = args[1] if len(args) > 1 else kwargs.get("mode", C("r"))
        path = canon_path(models.tv(it, st, args[0] if args else kwargs.get("file", NONE)))
        if type(mode) is not C or type(path) is not C:
            raise Open("a file is opened under a name that is not determined")
        if not any(c in mode.v for c in "wax") and path.v not in self.host and path.v != IMAGE and path.v not in self.contents:
            return [models.exc(st, "FileNotFoundError", node)]
        x, r = it.alloc(st, node, Opq("file", {"name": path, "mode": mode}), "file")
        x = self.event(it, x, "write" if any(c in mode.v for c in "wax+") else "read", (path, mode.v), node)
        return [("n", x, r)]

    def on_method(self, it, st, base, name, args, kwargs, node):
        if type(base) is R and name == "read":
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "file" and not args and o.attrs["name"].v in self.contents:
                return [("n", st, C(self.contents[o.attrs["name"].v]))]
        r = CliClient.on_method(self, it, st, base, name, args, kwargs, node)
        if r and r[0][0] == "n" and type(r[0][2]) is T and r[0][2].op == "ospath" and r[0][2].args[0] == C("exists") and type(r[0][2].args[1]) is C:
            return [("n", r[0][1], C(self.exists(r[0][2].args[1].v)))]
        return r

    def attr(self, it, st, base, name, node):
        if type(base) is R:
            o = it.obj(st, base)
            if type(o) is Opq and o.what in ("asm", "parser") and name in o.attrs:
                return [("n", st, o.attrs[name])]
        return CliClient.attr(self, it, st, base, name, node)

    # ---- the image
    def is_image(self, it, st, v):
        o = it.obj(st, v) if type(v) is R else None
        return type(o) is Inst and o.cls.name in ("AtariDosDiskImage", "Dos33DiskImage") or CliClient.is_image(self, it, st, v)

    def pre_call(self, it, st, f, args, kwargs, node):
        if type(f) is Fn and f.info.module.name == "atrcopy" and f.info.qual == "assemble_segments":
            return None
        if type(f) is Fn and f.info.qual == "get_template_data":
            st2, d = it.alloc(st, node, Dct((), mk("sym", "inf")), "inf")
            return [("n", st2, Tup([mk("template", *[models.tv(it, st, a) for a in list(args) + list(kwargs.values())], kind="bytes"), d]))]
        if type(f) is Fn and f.info.qual == "parsers_for_filename" and args and type(args[0]) is C:
            return None
        if type(f) in (Bm, Fn) and self.qual(f).endswith(".create_boot_image"):
            a = list(args)[1:] if type(f) is Fn and args and type(args[0]) is Cl else list(args)
            a += [kwargs[n] for n in ("segments", "run_addr") if n in kwargs]
            st = self.event(it, st, "exe", (C(self.qual(f).split(".")[0]), segments(it, st, a[0]), models.tv(it, st, a[1]) if len(a) > 1 else NONE), node)
            st, r = self.image(it, st, node, "new")
            return [("n", st, r)]
        if type(f) is Bm and type(f.fn) is Fn and f.fn.info.node.name == "find_dirent" and self.is_image(it, st, f.self_):
            return None
        return CliClient.pre_call(self, it, st, f, args, kwargs, node)

    def qual(self, f):
        f = f.fn if type(f) is Bm else f
        return f.info.qual if type(f) is Fn else ""

    def find(self, it, st, args, kwargs, node):
        a = args[0] if args else kwargs.get("filename", kwargs.get("data", NONE))
        if type(a) is not C:
            raise Open("loads %s" % str(a)[:60])
        st = self.event(it, st, "load", (a,), node)
        if a.v in self.contents:
            r = calls(it, st, classval("SegmentList"))
            if len(r) != 1 or r[0][0] != "n":
                raise Open("SegmentList")
            x, l = r[0][1], r[0][2]
            for o, d in self.contents[a.v]:
                r = method(it, x, l, "add_segment", C(d), C(o))
                if len(r) != 1 or r[0][0] != "n":
                    raise Open("SegmentList.add_segment")
                x = r[0][1]
            x, p = it.alloc(x, node, Opq("parser", {"image": NONE, "segments": it.obj(x, l).attrs.get("$list", l)}), "parser")
            return [("n", x, Tup([p, C("")]))]
        outs = self.im.load(it, st)
        if len(outs) != 1 or outs[0][0] != "n":
            raise Open("loading the image has %d outcomes" % len(outs))
        x, img = outs[0][1], outs[0][2]
        x = x.put(img.id, it.obj(x, img).set("filename", a))
        x, p = it.alloc(x, node, Opq("parser", {"image": img}), "parser")
        return [("n", x, Tup([p, C("")]))]

    def image_op(self, it, st, img, name, args, kwargs, node):
        if name in ("get_vtoc_object", "parse_segments", "create_boot_image", "get_file_segment"):
            return None
        a = [R(x.id) if type(x) is R else models.tv(it, st, x) for x in args]
        if name in ("get_file", "find_file"):
            n = a[0]
            if name == "get_file" and type(n) is R:
                f = [v for k, x, v in it.getattr(st, n, "filename", node) if k == "n"]
                n = f[0] if len(f) == 1 else NONE
            return [("n", st, mk("filecontents", n, kind="bytes"))]
        a += [(k, models.tv(it, st, v)) for k, v in sorted(kwargs.items())]
        if name == "create_executable_file_image":
            segs = segments(it, st, args[1]) if len(args) > 1 else None
            st = self.event(it, st, "exe", (a[0], segs, a[2] if len(a) > 2 else NONE), node)
            return [("n", st, Tup([C(b"EXECUTABLE"), C("X")]))]
        if name in ("delete_file", "write_file") and type(a[0]) is R:
            f = [v for k, x, v in it.getattr(st, a[0], "filename", node) if k == "n"]
            a[0] = f[0] if len(f) == 1 else a[0]
        st = self.event(it, st, name, tuple(a), node)
        return [("n", st, NONE)]


def segments(it, st, v):
    """[(origin, bytes)] of a segment list"""
    g = given(it, st, v)
    if g is None or any(type(b) is not C for o, d in g for b in d):
        return None
    return [(o, bytes(b.v for b in d)) for o, d in g]


def atari():
    im = Atari("c28", range(600, 660), [entry_atari(0x42, 2, 50, b"FIRST", b"TXT"), entry_atari(0x80, 1, 80, b"GONE", b"TXT"), entry_atari(0x62, 1, 60, b"SECOND", b"COM"), entry_atari(0x42, 1, 62, b"THIRD", b"")])
    im.chain([50, 70], 0, 9)
    im.chain([60], 2, 3)
    im.chain([62], 3, 3)
    return im


def apple():
    im = Dos33("c28", range(500, 520), [entry_dos33(18, 0, 4, b"FIRST", 2), entry_dos33(18, 2, 0x84, b"SECOND", 2), entry_dos33(19, 0, 0, b"THIRD", 2)])
    im.tslist(288, [300])
    im.tslist(290, [301])
    im.tslist(304, [302])
    im.put(im.pos(300), struct.pack("<HH", 0x4000, 100))
    im.put(im.pos(301), struct.pack("<HH", 0x4000, 100))
    return im


NAMES = {"atari": ["FIRST.TXT", "SECOND.COM", "THIRD"], "apple": ["FIRST", "SECOND", "THIRD"]}
LOCKED = {"atari": ["SECOND.COM"], "apple": ["SECOND"]}
MAKE = {"atari": atari, "apple": apple}


def perform(rep, rule, con, kind, line, **kw):
    """(interp, state, events) of the only path, or None after reporting"""
    w = World(MAKE[kind](), shlex.split(line), **kw)
    it, outs = run_command(w, 6000000)
    rep.absorb(it)
    if len(outs) != 1:
        raise Open("%d outcomes" % len(outs))
    k, x, v = outs[0]
    if w.usage:
        rep.bad(R_OPT, con, W, "the command line is refused: %s" % w.usage)
        return None
    if k == "x":
        rep.bad(rule, con, W, "ends in %s" % xname(v))
        return None
    return it, x, x.mon or ()


def shown(rep, con, kind, line, want, crc=False, meta=False, **kw):
    r = perform(rep, R_SHOW, con, kind, line, **kw)
    if r is None:
        return
    it, st, ev = r
    seen, sums = [], []
    for k, data, w in ev:
        if k != "print":
            continue
        full = mk("print", *data)
        t = flat(full) + "\n" + "\n".join(listed(it, st, full))
        ns = [n for n in NAMES[kind] if t is not None and n.split(".")[0] in t]
        c = [s for s in subterms(full) if type(s) is T and s.op == "crc32"]
        if len(ns) == 1:
            seen.append(ns[0])
            sums.append(c)
        elif len(ns) > 1:
            rep.und(R_SHOW, con, "several names in one line")
            return
    want2 = [n for n in want for _ in range(2 if 0 else 1)]
    if seen != want2:
        if sorted(seen) == sorted(want2):
            rep.bad(R_SHOW, con, W, "the files are shown in the order %s" % ", ".join(seen))
        else:
            rep.bad(R_SHOW, con, W, "shown are %s instead of %s" % (", ".join(seen) or "no files", ", ".join(want2) or "none"))
        return
    for n, c in zip(seen, sums):
        if crc:
            cc = {x.args[0] for x in c}
            if not cc:
                rep.bad(R_SHOW, con, W, "no checksum is shown for %s" % n)
                return
            if cc != {mk("filecontents", C(n), kind="bytes")}:
                rep.bad(R_SHOW, con, W, "the checksum shown for %s is that of %s" % (n, ", ".join(map(str, cc))[:80]))
                return
        elif c:
            rep.bad(R_SHOW, con, W, "a checksum is shown for %s without being asked for" % n)
            return
    rep.ok(R_SHOW, con, "%d files" % len(seen))


def listed(it, st, t):
    """names of the directory entries a printed value shows"""
    for s in subterms(t):
        if type(s) is T and s.op == "ref" and type(s.args[0]) is C:
            s = R(s.args[0].v)
        if type(s) is R:
            o = it.obj(st, s)
            if type(o) is Inst and "Dirent" in o.cls.name:
                for k, x, v in it.getattr(st, s, "filename", CALL):
                    if k == "n" and type(v) is C:
                        yield v.v


def flat(t):
    """the constant text in a printed value, unknown parts left out"""
    out = []
    for s in subterms(t):
        if type(s) is C and isinstance(s.v, str):
            out.append(s.v)
    return "\n".join(out)


def subterms(t):
    s = [t]
    while s:
        x = s.pop()
        yield x
        if type(x) is T:
            s.extend(reversed([a for a in x.args if isinstance(a, Val)]))
        elif type(x) is Tup:
            s.extend(reversed(x.items))


def plain_of(d):
    while type(d) is T and d.op in ("tobytes", "bytes"):
        d = d.args[0]
    return d


def extracted(rep, con, kind, line, want, dirs_made=(), text=False, **kw):
    """want: [(path, name)]"""
    r = perform(rep, R_OUT, con, kind, line, **kw)
    if r is None:
        return
    it, st, ev = r
    got = []
    for k, data, w in ev:
        if k == "fwrite":
            p, d = data[0], plain_of(data[2])
            n = 0
            while type(d) is T and d.op == "m" and str(d.args[0]).strip("'") in ("replace", "translate"):
                n += 1
                d = plain_of(d.args[1])
            if type(p) is not C or not (type(d) is T and d.op == "filecontents" and type(d.args[0]) is C):
                rep.und(R_OUT, con, "%s gets %s" % (str(p)[:40], str(d)[:60]))
                return
            if bool(n) != text:
                rep.bad(R_OUT, con, w, "the contents are %sconverted" % ("" if n else "not "))
                return
            got.append((p.v, d.args[0].v))
        elif k in ("write_file", "delete_file", "save", "shred"):
            rep.bad(R_OUT, con, w, "the image is changed")
            return
    made = [data[1][0].v if data[1] and type(data[1][0]) is C else None for k, data, w in ev if k == "host" and data[0] in ("os.makedirs", "os.mkdir")]
    opened = [data[0].v for k, data, w in ev if k == "write"]
    if got != want:
        rep.bad(R_OUT, con, W, "written are %s instead of %s" % (", ".join("%s (contents of %s)" % g for g in got) or "no files", ", ".join(p for p, _ in want) or "none"))
    elif sorted(opened) != sorted(p for p, _ in want):
        rep.bad(R_OUT, con, W, "opened for writing: %s" % ", ".join(opened))
    elif not set(dirs_made) <= set(made):
        rep.bad(R_OUT, con, W, "the directory %s is not made" % ", ".join(dirs_made))
    elif set(made) - set(dirs_made) - set(kw.get("dirs", ())):
        rep.bad(R_OUT, con, W, "the directory %s is made" % ", ".join(map(str, made)))
    else:
        rep.ok(R_OUT, con, "%d files" % len(got))


def extension(rep, con, kind, line):
    r = perform(rep, R_OPT, con, kind, line)
    if r is None:
        return
    got = [d[0].v for k, d, w in r[2] if k == "fwrite" and type(d[0]) is C]
    if len(got) == 1 and got[0].upper().endswith(".BIN"):
        rep.ok(R_OPT, con)
    elif got == ["THIRD"]:
        rep.bad(R_OPT, con + ": the option is ignored", W, "the file is written as %s" % ", ".join(got))
    else:
        rep.bad(R_OPT, con, W, "the file is written as %s" % ", ".join(got))


def changed(rep, rule, con, kind, line, want, **kw):
    """want: operations on the image in order: ("add", name, type, host file), ("del", name), "save" is implied"""
    r = perform(rep, rule, con, kind, line, **kw)
    if r is None:
        return
    it, st, ev = r
    got, saves = [], 0
    for k, data, w in ev:
        if k == "write_file":
            pos = [d for d in data if isinstance(d, Val)] + [d[1] for n in ("name", "filename", "filetype", "data") for d in data if not isinstance(d, Val) and d[0] == n]
            if len(pos) != 3:
                rep.und(rule, con, "write_file with %d arguments" % len(pos))
                return
            name, typ, d = pos[0], pos[1], plain_of(pos[2])
            if type(d) is T and d.op == "filedata" and len(d.args) == 1:
                d = d.args[0]
            if any(type(x) is not C for x in (name, typ, d)):
                rep.und(rule, con, "stored is %s under %s" % (str(d)[:50], str(name)[:50]))
                return
            got.append(("add", name.v, typ.v, d.v))
        elif k == "delete_file":
            if type(data[0]) is not C:
                rep.und(rule, con, "deleted is %s" % str(data[0])[:60])
                return
            got.append(("del", data[0].v))
        elif k == "shred":
            got.append(("shred",))
        elif k == "save":
            saves = len(got) or -1
        elif k in ("fwrite", "write", "host"):
            rep.bad(rule, con, w, "the host file system is changed")
            return
    say = lambda o: " ".join(map(str, o))
    if got != want:
        rep.bad(rule, con, W, "done: %s; asked for: %s" % ("; ".join(map(say, got)) or "nothing", "; ".join(map(say, want)) or "nothing"))
    elif want and saves != len(got):
        rep.bad(rule, con, W, "the image is not saved after the last change")
    elif not want and saves:
        rep.bad(rule, con, W, "the image is saved although nothing was changed")
    else:
        rep.ok(rule, con, "%d operations" % len(got))


def made(rep, con, kind, line, want, run, out, ops, **kw):
    r = perform(rep, R_MAKE, con, kind, line, **kw)
    if r is None:
        return
    it, st, ev = r
    exe = [(d, w) for k, d, w in ev if k == "exe"]
    if len(exe) != 1:
        rep.bad(R_MAKE, con, W, "%d executables are made" % len(exe))
        return
    (name, segs, ra), w = exe[0]
    if segs is None or type(name) is not C or type(ra) is not C:
        rep.und(R_MAKE, con, "segments not determined")
        return
    if segs != want:
        rep.bad(R_MAKE, con, w, "made of %s instead of %s" % (show(segs), show(want)))
    elif ra.v != run:
        rep.bad(R_MAKE, con, w, "the run address is %s instead of %s" % (ra.v, run))
    elif name.v != out:
        rep.bad(R_MAKE, con, w, "the name is %s" % name.v)
    else:
        got = []
        for k, d, w in ev:
            if k == "write_file":
                got.append(("add", d[0].v if type(d[0]) is C else None))
                if [x for x in d[1:]] != [C("X"), C(b"EXECUTABLE")]:
                    rep.und(R_MAKE, con, "stored is %s" % str(d)[:80])
                    return
            elif k == "delete_file":
                got.append(("del", d[0].v if type(d[0]) is C else None))
            elif k == "save":
                got.append(("save",) + tuple(x.v for x in d if type(x) is C))
            elif k in ("fwrite", "write", "host"):
                rep.bad(R_MAKE, con, w, "the host file system is changed")
                return
        if got != ops:
            rep.bad(R_MAKE, con, W, "done: %s; asked for: %s" % ("; ".join(map(" ".join, got)) or "nothing", "; ".join(map(" ".join, ops)) or "nothing"))
        else:
            rep.ok(R_MAKE, con, "%d segments" % len(segs))


def created(rep, con, kind, line, want, **kw):
    r = perform(rep, R_OPT, con, kind, line, **kw)
    if r is None:
        return
    it, st, ev = r
    got = [(d[0].v if type(d[0]) is C else None, d[2]) for k, d, w in ev if k == "fwrite"]
    opened = [d[0].v for k, d, w in ev if k == "write"]
    if [g[0] for g in got] != ([want] if want else []) or opened != ([want] if want else []):
        rep.bad(R_OPT, con, W, "written: %s; asked for: %s" % (", ".join(opened) or "nothing", want or "nothing"))
    elif any(g[1] != mk("template", C("dos2sd"), kind="bytes") for g in got):
        rep.bad(R_OPT, con, W, "what is written is %s" % str(got[0][1])[:60]) if type(got[0][1]) is T and got[0][1].op == "template" else rep.und(R_OPT, con, "what is written is %s" % str(got[0][1])[:60])
    else:
        rep.ok(R_OPT, con)


def show(segs):
    return ", ".join("%04x+%d" % (o, len(d)) for o, d in segs) or "nothing"


def check(rep):
    jobs = []

    def job(rule, f, kind, line, *a, **k):
        con = "%s: atrcopy %s" % (kind, line)
        if k.get("host"):
            con += " (%s exists)" % ", ".join(k["host"])
        if k.get("dirs"):
            con += " (%s exists)" % ", ".join(k["dirs"])

        def run_(r):
            try:
                f(r, con, kind, line, *a, **k) if f is not changed else f(r, rule, con, kind, line, *a, **k)
            except Open as e:
                r.und(rule, con, str(e))
        jobs.append((con, run_))
    for kind in ("atari", "apple"):
        F = NAMES[kind]
        a, b, c = F
        ls = lambda line, want, **k: job(R_SHOW, shown, kind, line, want, **k)
        ls(IMAGE, F)
        ls("-v " + IMAGE, F)
        ls(IMAGE + " -v", F)
        for word in ("list", "t", "ls", "dir", "catalog"):
            ls("%s %s" % (IMAGE, word), F)
        for names, want in ((a, [a]), (c, [c]), ("%s %s" % (c, a), [a, c]), ("%s NONE" % b, [b]), ("NONE", []), ("%s %s %s" % (b, a, c), F), (a.lower() + "x", []), (a[:3], []), ("%s %s" % (b[:5], c), [c]), (c + "X", []), (c.lower(), [])):
            ls("%s list %s" % (IMAGE, names), want)
            ls("%s crc %s" % (IMAGE, names), want, crc=True)
            ls("%s ls -c %s" % (IMAGE, names), want, crc=True)
        for o in ("-c", "--crc"):
            ls("%s list %s" % (IMAGE, o), F, crc=True)
        ls("%s crc" % IMAGE, F, crc=True)
        ls("--dry-run %s list" % IMAGE, F)
        ex = lambda line, want, *x, **k: job(R_OUT, extracted, kind, line, want, *x, **k)
        me = lambda *n: [(x, x) for x in n]
        for word in ("extract", "x"):
            ex("%s %s %s" % (IMAGE, word, a), me(a))
        ex("%s x %s %s" % (IMAGE, c, a), me(c, a))
        ex("%s x %s %s %s" % (IMAGE, a, b, c), me(a, b, c))
        ex("%s x NONE" % IMAGE, [])
        ex("%s x NONE %s" % (IMAGE, b), me(b))
        ex("%s x %s NONE %s" % (IMAGE, a, c), me(a, c))
        ex("%s x" % IMAGE, [])
        for o in ("-a", "--all"):
            ex("%s x %s" % (IMAGE, o), me(a, b, c))
        for o in ("-l", "--lower"):
            ex("%s x %s %s %s" % (IMAGE, o, b, c), [(b.lower(), b), (c.lower(), c)])
            ex("%s x -a %s" % (IMAGE, o), [(n.lower(), n) for n in F])
        for o in ("-d", "--dir"):
            ex("%s x %s out %s %s" % (IMAGE, o, a, b), [("out/" + a, a), ("out/" + b, b)], ("out",))
            ex("%s x %s out -a" % (IMAGE, o), [("out/" + n, n) for n in F], ("out",))
        ex("%s x -d out %s" % (IMAGE, c), [("out/" + c, c)], dirs=["out"])
        ex("%s x -l -d Out %s %s" % (IMAGE, a, c), [("Out/" + a.lower(), a), ("Out/" + c.lower(), c)], dirs=["out", "Out"])
        ex("%s x -l -d Out/Deep %s" % (IMAGE, a), [("Out/Deep/" + a.lower(), a)], ("Out/Deep",))
        for o in ("-e", "--ext"):
            job(R_OPT, extension, kind, "%s x %s BIN %s" % (IMAGE, o, c))
        ex("%s x -l -d out -a" % IMAGE, [("out/" + n.lower(), n) for n in F], dirs=["out"])
        for o in ("-t", "--text"):
            ex("%s x %s %s %s" % (IMAGE, o, a, c), me(a, c), text=True)
        ex("%s x %s %s" % (IMAGE, a, b), me(b), host=[a])
        ex("%s x -a" % IMAGE, me(a, c), host=[b])
        for o in ("-f", "--force"):
            ex("%s x %s %s %s" % (IMAGE, o, a, b), me(a, b), host=[a])
            ex("%s x -a %s" % (IMAGE, o), me(a, b, c), host=[a, c])
        ex("%s x -d out -a" % IMAGE, [("out/" + a, a), ("out/" + c, c)], host=["out/" + b, c], dirs=["out"])
        ex("%s x -l %s" % (IMAGE, a), [(a.lower(), a)], host=[a])
        ex("%s x -l %s %s" % (IMAGE, a, c), [(c.lower(), c)], host=[a.lower()])
        ex("%s --dry-run x -a" % IMAGE, [])
        ex("--dry-run %s x -d out %s" % (IMAGE, a), [])
        ad = lambda line, want, **k: job(R_IN, changed, kind, line, want, **k)
        H = ["NEW.TXT", "sub/OTHER.BAS", "/abs/dir/LAST"]
        dt = {"atari": "", "apple": "B"}[kind]
        H += F
        full = lambda *hs, t=None: [("add", h.rsplit("/", 1)[-1], dt if t is None else t, h) for h in hs]
        for word in ("add", "a"):
            ad("%s %s NEW.TXT" % (IMAGE, word), full("NEW.TXT"), host=H)
        ad("%s add NEW.TXT sub/OTHER.BAS" % IMAGE, full("NEW.TXT", "sub/OTHER.BAS"), host=H)
        ad("%s add /abs/dir/LAST NEW.TXT sub/OTHER.BAS" % IMAGE, full("/abs/dir/LAST", "NEW.TXT", "sub/OTHER.BAS"), host=H)
        for o in ("-t", "--filetype"):
            ad("%s add %s B NEW.TXT sub/OTHER.BAS" % (IMAGE, o), full("NEW.TXT", "sub/OTHER.BAS", t="B"), host=H)
        ad("%s add %s NEW.TXT" % (IMAGE, a), full("NEW.TXT"), host=H)
        ad("%s add NEW.TXT %s sub/OTHER.BAS" % (IMAGE, c), full("NEW.TXT", "sub/OTHER.BAS"), host=H)
        ad("%s add NEW.TXT %s" % (IMAGE, c), full("NEW.TXT"), host=H)
        ad("%s add %s" % (IMAGE, c), [], host=H)
        for o in ("-f", "--force"):
            ad("%s add %s %s" % (IMAGE, o, a), [("del", a)] + full(a), host=H)
            ad("%s add %s NEW.TXT %s sub/OTHER.BAS" % (IMAGE, o, c), full("NEW.TXT") + [("del", c)] + full(c, "sub/OTHER.BAS"), host=H)
        ad("--dry-run %s add NEW.TXT" % IMAGE, [], host=H)
        rm = lambda line, want, **k: job(R_DEL, changed, kind, line, [("del", n) for n in want], **k)
        L = LOCKED[kind][0]
        for word in ("delete", "rm", "del"):
            rm("%s %s %s" % (IMAGE, word, a), [a])
        rm("%s rm %s %s" % (IMAGE, c, a), [c, a])
        rm("%s rm NONE %s" % (IMAGE, a), [a])
        rm("%s rm %s NONE" % (IMAGE, a), [a])
        rm("%s rm NONE" % IMAGE, [])
        rm("%s rm %s" % (IMAGE, L), [])
        rm("%s rm %s %s" % (IMAGE, L, c), [c])
        rm("%s rm %s %s" % (IMAGE, c, L), [c])
        for o in ("-f", "--force"):
            rm("%s rm %s %s %s" % (IMAGE, o, L, c), [L, c])
        rm("%s rm %s %s --dry-run" % (IMAGE, a, c), []) if 0 else rm("%s --dry-run rm %s %s" % (IMAGE, a, c), [])
        D = {"one.bin": bytes(range(1, 11)), "two.bin": bytes(range(50, 90)), "src.s": [(0x2000, b"\x01\x02\x03"), (0x3000, b"\x04")], "more.s": [(0x2100, b"\x09\x08")],
             "game.xex": [(0x6000, b"abc"), (0x6100, b"defg")], "more.xex": [(0x700, b"z")]}
        one, two = D["one.bin"], D["two.bin"]

        def mk_(line, want, run=None, out="OUT", ops=None, **k):
            job(R_MAKE, made, kind, line, want, run, out, [("add", out), ("save",)] if ops is None else ops, contents=D, **k)
        for word in ("assemble", "s", "asm"):
            mk_("%s %s -d one.bin@2000 -o OUT" % (IMAGE, word), [(0x2000, one)])
        for o in ("-d", "--data"):
            mk_("%s asm %s one.bin@2000 two.bin@4000 -o OUT" % (IMAGE, o), [(0x2000, one), (0x4000, two)])
            mk_("%s asm %s one.bin@2000 %s two.bin@4000 -o OUT" % (IMAGE, o, o), [(0x2000, one), (0x4000, two)])
        for o in ("-s", "--asm"):
            mk_("%s asm %s src.s -o OUT" % (IMAGE, o), D["src.s"])
            mk_("%s asm %s src.s more.s -d one.bin@5000 -o OUT" % (IMAGE, o), D["src.s"] + D["more.s"] + [(0x5000, one)])
            mk_("%s asm %s src.s %s more.s -o OUT" % (IMAGE, o, o), D["src.s"] + D["more.s"])
        for o in ("-b", "--obj", "--bload"):
            mk_("%s asm %s game.xex -o OUT" % (IMAGE, o), D["game.xex"])
            mk_("%s asm %s game.xex more.xex -d one.bin@5000 -o OUT" % (IMAGE, o), [(0x5000, one)] + D["game.xex"] + D["more.xex"])
            mk_("%s asm %s more.xex %s game.xex -o OUT" % (IMAGE, o, o), D["more.xex"] + D["game.xex"])
        for o in ("-r", "--run-addr", "--brun"):
            mk_("%s asm -d one.bin@2000 %s 2004 -o OUT" % (IMAGE, o), [(0x2000, one)], 0x2004)
        mk_("%s asm -d one.bin@2000 -r 0x2004 -o OUT" % IMAGE, [(0x2000, one)], 0x2004)
        mk_("%s asm -d one.bin@2000 -r $2004 -o OUT" % IMAGE, [(0x2000, one)], 0x2004)
        for s, sl in (("[2:5]", slice(2, 5)), ("[3:]", slice(3, None)), ("[:4]", slice(0, 4)), ("[0:10]", slice(0, 10)), ("[:]", slice(0, None)), ("[-3:]", slice(-3, None)), ("[1:-2]", slice(1, -2))):
            mk_("%s asm -d 'one.bin%s@0x2000' -o OUT" % (IMAGE, s), [(0x2000, one[sl])])
        mk_("%s asm -d 'one.bin[2:5]@2000' 'two.bin[1:]@3000' -o OUT" % IMAGE, [(0x2000, one[2:5]), (0x3000, two[1:])])
        for o in ("-o", "--output"):
            mk_("%s asm -d one.bin@2000 %s GAME" % (IMAGE, o), [(0x2000, one)], out="GAME")
        mk_("%s asm -d one.bin@2000 -o %s" % (IMAGE, c), [(0x2000, one)], out=c, ops=[])
        for o in ("-f", "--force"):
            mk_("%s asm -d one.bin@2000 -o %s %s" % (IMAGE, c, o), [(0x2000, one)], out=c, ops=[("del", c), ("add", c), ("save",)])
        mk_("%s --dry-run asm -d one.bin@2000 -o NEW" % IMAGE, [(0x2000, one)], out="NEW", ops=[])
        for word in ("vtoc", "v"):
            job(R_OPT, changed, kind, "%s %s" % (IMAGE, word), [])
            for o in ("-e", "--clear-empty"):
                job(R_OPT, changed, kind, "%s %s %s" % (IMAGE, word, o), [("shred",)])
        job(R_OPT, changed, kind, "%s --dry-run vtoc -e" % IMAGE, [])
    new = {"atari": "new.atr", "apple": "sub/new.dsk"}
    cls = {"atari": "KBootImage", "apple": "StandardDeliveryImage"}
    for kind in new:
        n = new[kind]

        def bt(line, want, run=None, save=True, **k):
            job(R_MAKE, made, kind, line, want, run, cls[kind], [("save", n)] if save else [], contents=D, **k)
        for word in ("boot", "b"):
            bt("%s %s -d one.bin@2000" % (n, word), [(0x2000, one)])
        for o in ("-d", "--data"):
            bt("%s boot %s one.bin@2000 two.bin@4000" % (n, o), [(0x2000, one), (0x4000, two)])
            bt("%s boot %s one.bin@2000 %s two.bin@4000" % (n, o, o), [(0x2000, one), (0x4000, two)])
        for o in ("-s", "--asm"):
            bt("%s boot %s src.s more.s -d one.bin@5000" % (n, o), D["src.s"] + D["more.s"] + [(0x5000, one)])
            bt("%s boot %s src.s %s more.s" % (n, o, o), D["src.s"] + D["more.s"])
        for o in ("-b", "--obj", "--bload"):
            bt("%s boot %s game.xex more.xex" % (n, o), D["game.xex"] + D["more.xex"])
            bt("%s boot %s more.xex %s game.xex" % (n, o, o), D["more.xex"] + D["game.xex"])
        for o in ("-r", "--run-addr", "--brun"):
            bt("%s boot -d one.bin@2000 %s 2004" % (n, o), [(0x2000, one)], 0x2004)
        bt("%s boot -d one.bin@2000" % n, [(0x2000, one)], save=False, host=[n])
        for o in ("-f", "--force"):
            bt("%s boot -d one.bin@2000 %s" % (n, o), [(0x2000, one)], host=[n])
        bt("--dry-run %s boot -d one.bin@2000" % n, [(0x2000, one)], save=False)
        bt("--dry-run %s boot -d one.bin@2000 -f" % n, [(0x2000, one)], save=False, host=[n])
        for word in ("create", "c"):
            job(R_OPT, created, kind, "%s %s dos2sd" % (n, word), n)
        job(R_OPT, created, kind, "%s create dos2sd" % n, None, host=[n])
        for o in ("-f", "--force"):
            job(R_OPT, created, kind, "%s create %s dos2sd" % (n, o), n, host=[n])
            job(R_OPT, created, kind, "%s create dos2sd %s" % (n, o), n)
        job(R_OPT, created, kind, "%s --dry-run create dos2sd" % n, None)
    parallel(rep, jobs)
