"""C08: unrecognised or malformed data ends in a documented error."""
from ..common import *

EXPLANATION = ("Exception-flow analysis of data identification.  (1) Every parser class is constructed with an image class that is replaced by "
               "an unknown object; every exception that decoding arbitrary bytes can raise is injected at its construction and at every method "
               "called on it, and what leaves the parser must be the signal to try the next format (or the documented 'recognised but "
               "unsupported').  (2) The identification functions are interpreted with parsers that succeed or fail as scripted: each parser of "
               "each format in the search order must be tried when all before it fail, its result must be the result, and when all fail the "
               "documented error must come out.  (3) Each container class is interpreted with the decompression library replaced by a handle "
               "that raises each of its documented errors, and DCM on data of every short length.  (4) Detail detection is interpreted for data "
               "shorter than the signature.")
ASSUMPTIONS = ["gzip reports bad data with OSError, EOFError or zlib.error; bz2 with OSError, EOFError or ValueError; lzma with LZMAError or EOFError"]
MINIMUM = 8

R_PARSE = "a parser failure only rules out that format"
R_UNSUP = "recognised but unsupported is reported as such"
R_ALL = "every format is tried"
R_NONE = "nothing recognised ends in the documented error"
R_CONT = "container errors are documented errors"
R_RAW = "identification lets no raw error out"

RAW = ["builtins.IndexError", "builtins.ValueError", "builtins.TypeError", "builtins.KeyError", "builtins.ZeroDivisionError",
       "builtins.OverflowError", "builtins.AttributeError", "builtins.UnicodeDecodeError", "builtins.AssertionError", "builtins.RuntimeError",
       "builtins.NotImplementedError", "builtins.OSError", "builtins.EOFError", "builtins.MemoryError", "builtins.StopIteration",
       "zipfile.BadZipFile", "zlib.error", "struct.error"]


def lib_errors():
    return subclasses(classval("AtrError")) + [classval("AtrError")]


def in_lib(x):
    return type(x.cls) is Cl and classval("AtrError").info in x.cls.info.mro()


def is_a(x, name):
    return type(x.cls) is Cl and classval(name).info in x.cls.info.mro()


# ------------------------------------------------------------- one parser

class Par(Client):
    def __init__(self, cls, exc=None, at=None):
        self.cls, self.exc, self.at = cls, exc, at
        self.image = sym("IMAGE", "obj")
        self.seen = []
        self.hit = False

    def inject(self, it, st, what, node):
        if what not in self.seen:
            self.seen.append(what)
        if self.exc is not None and self.at == what:
            self.hit = True
            return [("x", st, Xc(self.exc, site=node, tag="injected"))]
        return None

    def pre_call(self, it, st, f, args, kw, node):
        if type(f) is Cl and self.cls is not None and f.info is self.cls.info:
            return self.inject(it, st, "construction", node) or [("n", st, self.image)]

    def on_method(self, it, st, base, name, args, kw, node):
        if base is self.image or base == self.image:
            return self.inject(it, st, name, node) or [("n", st, NONE)]

    def attr(self, it, st, base, name, node):
        if base == self.image and name == "segments":
            x, r = it.alloc(st, node, Lst(()), "segs")
            return [("n", x, r)]


def classattr(cls, name):
    it = mkit()
    r = [v for k, x, v in it.getattr(St(), cls, name, CALL) if k == "n"]
    return r[0] if len(r) == 1 else None


def construct(cli, cls, strict, n):
    it = mkit(cli)
    outs = []
    for x, raw in new_segment_data(it, St(), n=n):
        outs += calls(it, x, cls, raw, C(strict))
    return it, outs


def parsers():
    """all parser classes, including those made by type()"""
    seen, out = set(), []
    for name in ("mime_parsers",):
        for mime, lst in topy(gval("parsers", name)).items():
            for c in lst:
                if type(c) is Cl and c.info not in seen:
                    seen.add(c.info)
                    out.append((mime, c))
    for c in subclasses(classval("SegmentParser")):
        if c.info not in seen:
            seen.add(c.info)
            out.append(("", c))
    return out


def one_parser(rep, mime, cls, full):
    img = classattr(cls, "image_type")
    con = cls.info.name
    where = "%s:%d" % ("atrcopy/parsers.py", getattr(getattr(cls.info, "node", None), "lineno", 0) or 0)
    if type(img) is not Cl:
        return
    n = N
    probes = []
    for strict in (True, False):
        cli = Par(img)
        it, outs = construct(cli, cls, strict, n)
        rep.absorb(it)
        probes += [(strict, p) for p in cli.seen]
    if not probes:
        rep.und(R_PARSE, con, "the image class is not reached")
        return
    excs = [Ex(r) for r in RAW] + lib_errors()
    for strict, at in probes:
        if not full and at != "construction":
            continue
        for e in excs:
            cli = Par(img, e, at)
            it, outs = construct(cli, cls, strict, n)
            rep.absorb(it)
            if not cli.hit:
                continue
            nm = xname(Xc(e))
            c = "%s: %s at %s" % (con, nm, at)
            unsup = type(e) is Cl and classval("UnsupportedDiskImage").info in e.info.mro()
            left = [v for k, y, v in outs if k == "x"]
            if unsup:
                if left and all(is_a(v, "UnsupportedDiskImage") for v in left):
                    rep.ok(R_UNSUP, c)
                elif at != "construction" and left and all(in_lib(v) for v in left):
                    rep.ok(R_PARSE, c)
                elif any(k == "n" for k, y, v in outs) or any(not is_a(v, "UnsupportedDiskImage") for v in left):
                    rep.bad(R_UNSUP, c, where, "an image that is recognised but unsupported is not reported as such (%s)" % ", ".join(xname(v) for v in left))
                continue
            wrong = [v for v in left if not is_a(v, "InvalidSegmentParser")]
            if not wrong:
                rep.ok(R_PARSE, c)
            else:
                rep.bad(R_PARSE, c, where_node(wrong[0].site) if wrong[0].site is not None else where,
                        "%s raised at the image's %s leaves the parser as %s" % (nm, at, xname(wrong[0])))


# ---------------------------------------------------------- the search

class Search(Client):
    """parsers behave as scripted: plan(class) -> 'ok' | exception"""
    unroll = 200
    exact_list = 300

    def __init__(self, plan, digest=None, cont=None):
        self.plan, self.digest, self.cont = plan, digest, cont

    def pre_call(self, it, st, f, args, kw, node):
        if type(f) is Cl and classval("SegmentParser").info in f.info.mro():
            r = self.plan(f.info)
            st = st.withmon((st.mon or ()) + (f.info,))
            if r == "ok":
                x, p = it.alloc(st, node, Inst(f.info, {"image": sym("IMAGE", "obj"), "menu_name": C("x"), "segments": NONE}), "parser")
                return [("n", x, p)]
            return [("x", st, Xc(r, site=node, tag="scripted"))]
        if type(f) is Cl and classval("DiskImageContainer").info in f.info.mro():
            r = self.cont(f.info) if self.cont else Xc(classval("InvalidContainer"), site=node)
            if isinstance(r, Xc):
                return [("x", st, r)]
            x, p = it.alloc(st, node, Inst(f.info, {"unpacked": Ar("U", C(0), C(1000))}), "cont")
            return [("n", x, p)]

    def on_method(self, it, st, base, name, args, kw, node):
        if name == "digest" and self.digest is not None:
            return [("n", st, C(self.digest))]


def order():
    ps = topy(gval("parsers", "mime_parsers"))
    out = []
    for m in topy(gval("parsers", "mime_parse_order")):
        for c in ps[m]:
            if type(c) is Cl and c.info not in out:
                out.append(c.info)
    return out


ENTRIES = [("", "find_diskimage_from_data"), ("parsers", "iter_parsers")]


def enter(it, entry, n):
    """call an identification function on n unknown bytes"""
    mod, name = entry
    f = gval(mod, name)
    st = storage(storage(St(), "U", C(1000)), "D", n)
    if name == "iter_parsers":
        outs = []
        for x, raw in new_segment_data(it, storage(St(), "U", C(1000)), n=n):
            outs += calls(it, x, f, raw)
        return outs
    return calls(it, st, f, Ar("D", C(0), n))


def result_classes(it, outs):
    """parser classes in the returned pairs; '?' for what is not known"""
    got = set()
    for k, y, v in outs:
        if k != "n":
            continue
        items = v.items if type(v) is Tup else (v,)
        hit = None
        for i in items:
            o = it.obj(y, i) if type(i) is R else None
            if type(o) is Inst and o.cls is not None and classval("SegmentParser").info in o.cls.mro():
                hit = o.cls
        got.add(hit if hit is not None else (None if all(i == NONE or type(i) is C or i is NONE for i in items) else "?"))
    return got


def fail(name="InvalidSegmentParser"):
    return classval(name)


def by_size(rep, part, parts):
    """the signature database: any size, listed and unlisted digests"""
    f = gval("parsers", "guess_parser_by_size")
    sigs = topy(gval("signatures", "sha1_signatures"))
    for s in sorted(sigs)[part::parts]:
        hs = sorted(sigs[s])
        for digest in [b"\0" * 20, hs[0]] + ([hs[-1]] if len(hs) > 1 else []):
            for plan in ("fail", "ok"):
                cli = Search(lambda i: "ok" if plan == "ok" else fail(), digest)
                it = mkit(cli)
                outs = []
                for x, raw in new_segment_data(it, St(), n=C(s)):
                    outs += calls(it, x, f, raw)
                rep.absorb(it)
                con = "guess_parser_by_size: %d bytes, %s, parsers %s" % (s, "unlisted digest" if digest == b"\0" * 20 else "digest %s" % digest.hex()[:8], plan)
                left = [v for k, y, v in outs if k == "x"]
                if left:
                    rep.bad(R_RAW, con, where_node(left[0].site) if left[0].site is not None else "atrcopy/parsers.py", "%s escapes" % xname(left[0]))
                else:
                    rep.ok(R_RAW, con)
                got = result_classes(it, outs)
                if left or "?" in got or not outs:
                    continue
                if digest != b"\0" * 20 and plan == "ok":
                    want = topy(gval("parsers", "mime_parsers"))[sigs[s][digest][0]]
                    if got <= {c.info for c in want} and None not in got:
                        rep.ok(R_ALL, con)
                    else:
                        rep.bad(R_ALL, con, "atrcopy/parsers.py", "data with a listed signature is not given the parser of its type")
                elif got == {None}:
                    rep.ok(R_NONE, con)
                else:
                    rep.bad(R_NONE, con, "atrcopy/parsers.py", "data %s is given a parser" % ("without a listed signature" if plan == "ok" else "every parser rejects"))


def search(rep, entry, n, label, digest):
    fn = gval(*entry)
    where = "%s:%d" % ("atrcopy/%s.py" % (entry[0] or "__init__"), getattr(getattr(fn, "node", None), "lineno", 0) or 0)
    ps = order()
    base_con = "%s (%s)" % (entry[1], label)
    # nothing matches
    cli = Search(lambda i: fail(), digest)
    it = mkit(cli)
    outs = enter(it, entry, n)
    rep.absorb(it)
    left = [v for k, y, v in outs if k == "x"]
    raw = [v for v in left if not in_lib(v)]
    con = base_con + ": nothing matches"
    if raw:
        rep.bad(R_RAW, con, where_node(raw[0].site) if raw[0].site is not None else where, "%s escapes when no format matches" % xname(raw[0]))
    else:
        rep.ok(R_RAW, con)
    if entry[1] == "find_diskimage_from_data":
        if left and all(is_a(v, "UnsupportedDiskImage") for v in left) and not any(k == "n" for k, y, v in outs):
            rep.ok(R_NONE, con)
        elif not raw:
            rep.bad(R_NONE, con, where, "data no parser accepts does not end in UnsupportedDiskImage but in %s" % ", ".join(sorted(k + ":" + (xname(v) if k == "x" else str(v)) for k, y, v in outs))[:200])
    elif not raw:
        got = result_classes(it, outs)
        if got == {None}:
            rep.ok(R_NONE, con)
        elif "?" in got:
            rep.und(R_NONE, con, str(got))
        else:
            rep.bad(R_NONE, con, where, "data no parser accepts is given a parser")
    tried = [set(y.mon or ()) for k, y, v in outs]
    if tried and not raw:
        for i in ps:
            c = "%s: %s" % (base_con, i.name)
            if all(i in t for t in tried):
                rep.ok(R_ALL, c)
            else:
                rep.bad(R_ALL, c, where, "%s is not tried although every other format failed" % i.name)
    # exactly one matches
    for p in ps:
        cli = Search(lambda i: "ok" if i is p else fail(), digest)
        it = mkit(cli)
        outs = enter(it, entry, n)
        rep.absorb(it)
        con = "%s: only %s matches" % (base_con, p.name)
        got = result_classes(it, outs)
        bad = [v for k, y, v in outs if k == "x"]
        if got == {p} and not bad:
            rep.ok(R_ALL, con)
        elif "?" in got or not outs:
            rep.und(R_ALL, con, str(got))
        else:
            rep.bad(R_ALL, con, where, "data only %s accepts gives %s" % (p.name, ", ".join([xname(b) for b in bad] + [getattr(g, "name", str(g)) for g in got]) or "nothing"))
    # one says: recognised but unsupported
    for p in ps[:6] + ps[-3:]:
        cli = Search(lambda i: fail("UnsupportedDiskImage") if i is p else fail(), digest)
        it = mkit(cli)
        outs = enter(it, entry, n)
        rep.absorb(it)
        con = "%s: %s recognises but does not support" % (base_con, p.name)
        if outs and all(k == "x" and is_a(v, "UnsupportedDiskImage") for k, y, v in outs):
            rep.ok(R_UNSUP, con)
        else:
            rep.bad(R_UNSUP, con, where, "UnsupportedDiskImage of %s is not passed on" % p.name)


def searches(rep, entry):
    sigs = topy(gval("signatures", "sha1_signatures"))
    sizes = sorted(sigs)
    free = next(n for n in range(5000, 10 ** 6) if n not in sigs)
    search(rep, entry, C(free), "%d bytes" % free, None)
    s = sizes[len(sizes) // 2]
    search(rep, entry, C(s), "%d bytes, unknown digest" % s, b"\0" * 20)
    for s in (sizes[0], sizes[-1]):
        h, m = sorted(sigs[s].items())[0]
        search(rep, entry, C(s), "%d bytes, listed digest" % s, h)


# ------------------------------------------------------------- containers

DOCUMENTED = {
    "gzip": ["gzip.BadGzipFile", "builtins.EOFError", "zlib.error"],
    "bz2": ["builtins.OSError", "builtins.EOFError"],
    "lzma": ["lzma.LZMAError", "builtins.EOFError"],
    "zlib": ["zlib.error"],
}
WHOLE = {"bz2.decompress": ["builtins.ValueError"]}


class Lib(Client):
    """the decompression libraries: plan {lib: exception or None (works)}"""
    unroll = 40

    def __init__(self, plan, only=()):
        self.plan = plan
        self.hit = set()
        self.whole = set()
        self.fine = mk("sym", "UNPACKED", kind="bytes")

    def lib(self, name):
        m = (name or "").split(".")[0]
        return m if m in DOCUMENTED else None

    def run(self, it, st, m, node, extra=None):
        self.hit.add(m)
        e = self.plan.get(m, DOCUMENTED[m][0])
        if e is None:
            return [("n", st, self.fine)]
        return [("x", st, Xc(Ex(e), site=node, tag="library"))]

    def on_ext(self, it, st, name, args, kw, node):
        m = self.lib(name)
        if m is None or name in models.EXT_EXC:
            return None
        last = name.split(".")[-1]
        if last == "decompress":
            self.whole.add(name)
            return self.run(it, st, m, node)
        return [("n", st, mk("sym", ("HANDLE", m), kind="obj"))]

    def on_method(self, it, st, base, name, args, kw, node):
        if type(base) is T and base.op == "sym" and type(base.args[0]) is tuple and base.args[0][0] == "HANDLE":
            m = base.args[0][1]
            if name in ("read", "readall", "read1", "decompress", "peek", "readlines", "flush"):
                return self.run(it, st, m, node)
            if name == "__enter__":
                return [("n", st, base)]
            return [("n", st, NONE)]


def run_container(rep, cls, plan):
    cli = Lib(plan)
    it = mkit(cli)
    st = storage(St(), "D", N)
    outs = calls(it, st, cls, Ar("D", C(0), N))
    rep.absorb(it)
    return cli, it, outs


def containers(rep):
    known = [c for c in topy(gval("parsers", "known_containers"))]
    gc = gval("parsers", "guess_container")
    for c in known:
        cli, it, outs = run_container(rep, c, {m: None for m in DOCUMENTED})
        libs = set(cli.hit)
        if not libs:
            continue
        if any(k == "n" for k, y, v in outs):
            rep.ok(R_CONT, "%s: unpacks" % c.info.name)
        for m in sorted(libs):
            errs = list(DOCUMENTED[m])
            for w in cli.whole:
                errs += WHOLE.get(w, [])
            for e in errs:
                con = "%s: %s" % (c.info.name, e.split(".", 1)[1] if e.startswith("builtins.") else e)
                _, it2, outs = run_container(rep, c, {m: e})
                left = [v for k, y, v in outs if k == "x"]
                raw = [v for v in left if not is_a(v, "InvalidContainer") and not is_a(v, "UnsupportedContainer")]
                if raw:
                    rep.bad(R_CONT, con, where_node(raw[0].site) if raw[0].site is not None else "atrcopy/container.py", "%s from the decompression library leaves the container as %s" % (e, xname(raw[0])))
                elif left:
                    rep.ok(R_CONT, con)
                else:
                    rep.und(R_CONT, con, "the error is not reached")
                # and identification goes on
                cli3 = Lib({m: e})
                it3 = mkit(cli3)
                outs = calls(it3, storage(St(), "D", N), gc, Ar("D", C(0), N))
                rep.absorb(it3)
                con = "guess_container: " + con
                esc = [v for k, y, v in outs if k == "x" and (v.tag == "library" or not in_lib(v)) and (v.tag == "library" or v.site is not None)]
                esc = [v for v in esc if v.tag == "library" or is_a(v, "InvalidContainer")]
                if esc:
                    rep.bad(R_CONT, con, where_node(esc[0].site) if esc[0].site is not None else "atrcopy/parsers.py", "%s leaves guess_container" % xname(esc[0]))
                else:
                    rep.ok(R_CONT, con)
    # unsupported is passed on, invalid goes on to the next
    for c in known:
        for nm in ("InvalidContainer", "UnsupportedContainer"):
            cli = Search(lambda i: fail(), None, lambda i: Xc(classval(nm if i is c.info else "InvalidContainer")))
            it = mkit(cli)
            outs = calls(it, storage(St(), "D", N), gc, Ar("D", C(0), N))
            rep.absorb(it)
            con = "guess_container: %s raises %s" % (c.info.name, nm)
            if nm == "InvalidContainer":
                if outs and all(k == "n" and (v == NONE or v is NONE) for k, y, v in outs):
                    rep.ok(R_CONT, con)
                elif any(k == "x" for k, y, v in outs):
                    rep.bad(R_CONT, con, "atrcopy/parsers.py", "plain data ends in %s" % [xname(v) for k, y, v in outs if k == "x"][0])
                else:
                    rep.und(R_CONT, con, str(outs)[:100])
            elif outs and all(k == "x" and is_a(v, "UnsupportedContainer") for k, y, v in outs):
                rep.ok(R_UNSUP, con)
            elif outs:
                rep.bad(R_UNSUP, con, "atrcopy/parsers.py", "a recognised but unsupported container is not reported as such")
        cli = Search(lambda i: fail(), None, lambda i: "ok" if i is c.info else Xc(classval("InvalidContainer")))
        it = mkit(cli)
        outs = calls(it, storage(storage(St(), "U", C(1000)), "D", N), gc, Ar("D", C(0), N))
        rep.absorb(it)
        con = "guess_container: only %s matches" % c.info.name
        good = outs and all(k == "n" and type(v) is R and getattr(it.obj(y, v), "cls", None) is c.info for k, y, v in outs)
        if good:
            rep.ok(R_ALL, con)
        elif outs:
            rep.bad(R_ALL, con, "atrcopy/parsers.py", "compressed data only %s accepts is not unpacked by it" % c.info.name)


def dcm(rep):
    cls = classval("DCMContainer")
    cases = [b""] + [bytes([a]) for a in (0, 0xf9, 0xfa)]
    for a in (0xf9, 0xfa):
        for f in range(256):
            cases.append(bytes([a, f]))
            if f & 0x1f == 1:
                cases.append(bytes([a, f]) + bytes(20))
    for raw in cases:
        it = mkit(Client())
        x, r = it.alloc(St(), CALL, Inst(cls.info, {}), "dcm")
        outs = method(it, x, r, "unpack_bytes", C(raw))
        rep.absorb(it)
        con = "DCMContainer: %s" % (raw[:2].hex() or "empty") + ("..." if len(raw) > 2 else "")
        bad = [v for k, y, v in outs if k == "x" and not is_a(v, "InvalidContainer") and not is_a(v, "UnsupportedContainer") and not (type(v.cls) is Ex and v.cls.name == "builtins.EOFError")]
        if bad:
            rep.bad(R_CONT, con, where_node(bad[0].site) if bad[0].site is not None else "atrcopy/dcm.py", "%s escapes" % xname(bad[0]))
        elif not outs:
            rep.und(R_CONT, con, "no outcome")
        else:
            rep.ok(R_CONT, con)
        if len(raw) == 22 and raw[1] >> 5 & 3 != 3:
            if outs and all(k == "x" and is_a(v, "InvalidContainer") for k, y, v in outs):
                rep.bad(R_UNSUP, con, "atrcopy/dcm.py", "a DCM archive is recognised but not reported as unsupported")
            else:
                rep.ok(R_UNSUP, con)


def prodos(rep):
    """the one disk format that is recognised but not supported"""
    cls = classval("ProdosSegmentParser")
    for magic, want in ((bytes([1, 56, 176, 3]), True), (bytes([1, 56, 176, 4]), False), (bytes([0, 56, 176, 3]), False)):
        it = mkit(Client())
        con = "ProdosSegmentParser: boot sector %s" % magic.hex()
        for x, raw in new_segment_data(it, St(), n=C(143360)):
            for i, b in enumerate(magic):
                x = it.setitem(x, Ar("D", C(0), C(143360)), C(i), C(b), CALL)[0][1]
            outs = calls(it, x, cls, raw, C(True))
            rep.absorb(it)
            un = [k == "x" and is_a(v, "UnsupportedDiskImage") for k, y, v in outs]
            iv = [k == "x" and is_a(v, "InvalidSegmentParser") for k, y, v in outs]
            if un and all(un if want else iv):
                rep.ok(R_UNSUP, con)
            elif un and all(iv if want else un):
                rep.bad(R_UNSUP, con, "atrcopy/dos33.py", "ProDOS boot code is %s" % ("not reported as recognised but unsupported" if want else "reported although it is not there"))
            else:
                rep.und(R_UNSUP, con, str([(k, str(v)) for k, y, v in outs])[:150])


# ----------------------------------------------------------- signatures

def details(rep):
    f = gval("magic", "guess_detail_for_mime")
    for m in topy(gval("parsers", "mime_parse_order")):
        for ln in (0, 1, 4, 9, 13, 0x17, 0x190, 0x1d6, 0x1e2, 0x850, 0x85c, 100000):
            it = mkit(Client())
            con = "guess_detail_for_mime(%s): %d bytes" % (m.split("vnd.")[-1], ln)
            for x, raw in new_segment_data(it, St(), n=C(ln)):
                outs = calls(it, x, f, C(m), raw, NONE)
                bad = [v for k, y, v in outs if k == "x" and not in_lib(v)]
                if bad:
                    rep.bad(R_RAW, con, where_node(bad[0].site) if bad[0].site is not None else "atrcopy/magic.py", "%s escapes" % xname(bad[0]))
                elif outs:
                    rep.ok(R_RAW, con)
            rep.absorb(it)


def check(rep):
    jobs = []
    groups = {}
    for i, (mime, c) in enumerate(parsers()):
        full = not c.info.name[-1].isdigit() or i % 9 == 0
        groups.setdefault(i % 8, []).append((mime, c, full))
    for g, lst in groups.items():
        def run(r, lst=lst):
            for mime, c, full in lst:
                guarded(r, R_PARSE, c.info.name, one_parser, r, mime, c, full)
        jobs.append(("parsers %d" % g, run))
    for e in ENTRIES:
        jobs.append((e[1], lambda r, e=e: searches(r, e)))
    for i in range(4):
        jobs.append(("by size %d" % i, lambda r, i=i: by_size(r, i, 4)))
    jobs.append(("containers", containers))
    jobs.append(("dcm", dcm))
    jobs.append(("prodos", prodos))
    jobs.append(("details", details))
    parallel(rep, jobs)
