"""C31: automatic detection picks the right format."""
from ..disk import *
from ..terms import *
from .c27 import plain, Plain, Xfd
from .c30 import Sparta, Enhanced

EXPLANATION = ("Three obligations that together give the format found for an image.  (1) For abstract images of each supported format (marks constant, contents unknown) the constructor of every parser of the package's "
               "own tables is interpreted in the strict mode used for detection; walking the tables in their order, every parser before the format's own must refuse on all paths, and its own must accept on all paths.  "
               "(2) Images with exactly one mark of the format damaged must be refused by the parser of that format.  (3) The search itself (find_diskimage_from_data, iter_parsers, guess_parser_for_system) is interpreted "
               "with parsers that accept or refuse by assignment: the first accepting parser in table order must be the result, with its MIME type, the parser must be asked strictly and about the (unpacked) data, and "
               "if none accepts the documented error is raised; images in the signature database and with special signatures get the type listed for them.")
ASSUMPTIONS = ["compressed containers are told apart by gzip, bz2 and lzma themselves: data that is none of them makes these libraries raise their format error",
               "the SHA-1 of an image is that of a listed dump only where the rule says so",
               "the marks of a format are those of its published description (ATR header word, VTOC code, SpartaDOS boot record, boot record limits, FF FF word of executables, CART header with type and size, DOS 3.3 VTOC, ProDOS boot code)"]
MINIMUM = 300
R_FIND, R_MARK, R_ORDER, R_SIG, R_BOX = ("an image of a format is taken for that format", "an image without the marks of a format is refused", "the first parser in order that accepts is chosen",
                                         "listed dumps and signatures", "packed data is looked at unpacked")
W = "atrcopy/parsers.py"
ERR = {"gzip": Ex("builtins.OSError"), "bz2": Ex("builtins.OSError"), "lzma": Ex("lzma.LZMAError"), "zlib": Ex("zlib.error")}


class Plainly(Exact):
    """data that no compression library accepts, and no zip file"""

    def on_ext(self, it, st, name, args, kw, node):
        m = name.split(".")[0]
        if m in ERR and not name.rsplit(".", 1)[-1].endswith(("Error", "error")):
            return [("x", st, Xc(ERR[m], site=node))]
        if name == "zipfile.is_zipfile":
            return [("n", st, C(False))]
        return None


def lists(it, st, v):
    o = it.obj(st, v)
    return list(o.items) if type(o) is Lst and o.exact else None


def tables():
    """[(mime, [parser class])] in the order of the search"""
    it = mkit(None, 1000)
    st = St()
    order = lists(it, st, gval("parsers", "mime_parse_order"))
    d = it.obj(st, gval("parsers", "mime_parsers"))
    m = {k.v: lists(it, st, v) for k, v in d.items}
    return [(k.v, m[k.v]) for k in order], m


def load(it, im):
    models.IMAGES[im.name] = im.b
    n = C(im.size)
    st = storage(storage(St(), "D", n, ("img", im.name)), "S", n, ("zeros",))
    r = calls(it, st, classval("SegmentData"), im.D, Ar("S", C(0), n))
    if len(r) != 1 or r[0][0] != "n":
        raise Open("SegmentData")
    return r[0][1], r[0][2]


def ask(rep, im, cl, strict=True):
    """{"accept": image class names, "refuse": True, "other": names} over all paths"""
    it = mkit(Plainly(), 400000)
    st, raw = load(it, im)
    acc, other, refuse = set(), set(), False
    types = set()
    for k, x, v in calls(it, st, cl, raw, C(strict)):
        if k == "x":
            n = xname(v)
            if n == "InvalidSegmentParser":
                refuse = True
            else:
                other.add(n)
        elif k == "n":
            o = it.obj(x, it.obj(x, v).attrs["image"])
            acc.add(o.cls.name)
            h = o.attrs.get("header")
            t = it.obj(x, h).attrs.get("cart_type") if h is not None and type(h) is R else None
            types.add(t.v if type(t) is C else None)
    rep.absorb(it)
    return acc, refuse, other, types


def name_of(cl):
    return cl.info.name


def identify(rep, con, im, want, unsupported=False, cart=None):
    """walk the tables: every parser before the image's own refuses"""
    order, m = tables()
    own = [p for ps in m.values() for p in ps if type(p.info.find("image_type")[0]) is Cl and p.info.find("image_type")[0].info.name == want]
    if own:
        try:
            if not any(ask(rep, im, p)[0] for p in own):
                rep.bad(R_FIND, con, where(want), "the image is refused by %s" % ", ".join(map(name_of, own)))
                return
        except Open:
            pass
    for mime, ps in order:
        for p in ps:
            try:
                acc, refuse, other, types = ask(rep, im, p)
            except Open as e:
                rep.und(R_FIND, con, "%s: %s" % (name_of(p), e))
                return
            if unsupported and other == {"UnsupportedDiskImage"} and not acc and not refuse:
                rep.ok(R_FIND, con, "unsupported, by " + name_of(p))
                return
            if other:
                rep.bad(R_FIND, con, W, "%s ends in %s" % (name_of(p), ", ".join(sorted(other))))
                return
            if acc and refuse:
                if acc == {want}:
                    rep.und(R_FIND, con, "%s accepts on some paths" % name_of(p))
                    return
                rep.und(R_FIND, con, "%s: both" % name_of(p))
                return
            if acc:
                if acc == {want} and (cart is None or types == {cart}):
                    rep.ok(R_FIND, con, "%s, %s" % (name_of(p), mime))
                elif acc == {want}:
                    rep.bad(R_FIND, con, W, "taken for cartridge type %s instead of %d" % (", ".join(map(str, types)), cart))
                else:
                    rep.bad(R_FIND, con, W, "taken for %s by %s, which comes before the parser of %s in the tables" % ("/".join(sorted(acc)), name_of(p), want or "any format"))
                return
    if want is None:
        rep.ok(R_FIND, con, "no parser accepts")
    else:
        rep.bad(R_FIND, con, W, "no parser accepts the image; it is one of %s" % want)


def refused(rep, con, im, *classes):
    """the parsers whose image class is given (strictly) refuse the image"""
    order, m = tables()
    n = 0
    for ps in m.values():
        for p in ps:
            t = p.info.find("image_type")[0]
            if type(t) is not Cl or t.info.name not in classes:
                continue
            n += 1
            c = "%s: %s" % (con, name_of(p))
            try:
                acc, refuse, other, types = ask(rep, im, p)
            except Open as e:
                rep.und(R_MARK, c, str(e))
                continue
            if other:
                rep.bad(R_MARK, c, W, "ends in %s" % ", ".join(sorted(other)))
            elif acc and not refuse:
                rep.bad(R_MARK, c, where(classes[0]), "the image is accepted as %s" % "/".join(sorted(acc)))
            elif acc:
                rep.und(R_MARK, c, "accepted on some paths")
            else:
                rep.ok(R_MARK, c)
    if not n:
        rep.und(R_MARK, con, "no parser for %s" % ", ".join(classes))


def where(cls):
    return "atrcopy/" + {"Dos33DiskImage": "dos33.py", "ProdosDiskImage": "dos33.py", "SpartaDosDiskImage": "spartados.py", "KBootImage": "kboot.py", "RomImage": "cartridge.py", "Atari8bitCartImage": "cartridge.py",
                         "Atari5200CartImage": "cartridge.py"}.get(cls, "ataridos.py")


# ------------------------------------------------------------------- images

DOS2 = bytes([0, 3, 0, 7, 0x40, 0x15, 0x4c, 0x14, 7, 3, 3, 0, 0x7c, 0x1a, 1, 4, 0, 0x7d, 0xcb, 7]) + bytes(20)


def dos2(ss=128, xfd=False, **edit):
    im = Atari("c31", range(600, 620), [entry_atari(0x42, 2, 50, b"ONE", b"DAT"), entry_atari(0x42, 1, 60, b"TWO", b"")], ss=ss)
    im.chain([50, 700], 0, 9)
    im.chain([60], 1, 3)
    im.put(im.pos(1), DOS2)
    return Xfd(im) if xfd else im


def enhanced():
    im = Enhanced([entry_atari(0x42, 1, 300, b"LOW", b"")])
    im.name = "c31"
    im.chain([300], 0, 9)
    im.put(im.pos(1), DOS2)
    return im


def sparta(ss=128, **kw):
    im = Sparta(ss, [(b"ONE", b"TXT", 5, [10], [11]), (b"TWO", b"", ss + 7, [12], [20, 19])])
    im.name = "c31"
    f = dict(num_sectors=(11, 2), first_free=(18, 2), bitmap=(16, 2), root_dir=(9, 2), fs_version=(32, 1), sector_size=(31, 1))
    for k, v in kw.items():
        o, n = f[k]
        im.put(im.pos(1) + o, list(v.to_bytes(n, "little")))
    return im


def kboot(n, short=0, spare=0):
    im = plain(3 + -(-n // 128) + spare, "KBootImage")
    im.name = "c31"
    im.put(16, bytes([0, 3, 0, 7, 0x14, 7, 0x4c, 0x14, 7]))
    im.put(16 + 9, struct.pack("<L", n + short)[:3])
    return im


def boot(n, num, addr):
    """a boot disk without a file system: if it is long enough to have a VTOC,
    what is there cannot be one"""
    im = plain(n, "BootDiskImage")
    im.name = "c31"
    im.put(16, bytes([0, num]) + struct.pack("<H", addr) + bytes([0x50, 0x20, 0x60, 0, 0, 255, 255, 255]) + bytes(30))
    if n >= 360:
        im.put(im.pos(360), [0x99] * 128)
    return im


def flat(n, data):
    im = Plain("c31", n)
    im.put(0, data)
    return im


def dos33(**kw):
    im = Dos33("c31", range(500, 520), [entry_dos33(18, 0, 4, b"PROG", 2), entry_dos33(18, 2, 0, b"TEXT", 2)], ncat=15)
    im.put(0, bytes([1, 0xa5, 0x27, 0xc9, 9, 0xd0, 0x18, 0xa5, 0x2b, 0x4a, 0x4a, 0x4a, 0x4a, 9, 0xc0, 0x85]) + bytes(32))
    im.tslist(288, [300])
    im.put(im.pos(300), struct.pack("<HH", 0x4000, 100))
    im.tslist(290, [16])
    for k, v in kw.items():
        im.put(dict(boot=0, vtoc=im.pos(272))[k], v)
    return im


def cartridge(t, k, magic=b"CART", extra=0):
    im = flat(16 + 1024 * k + extra, magic + struct.pack(">LLL", t, 0, 0))
    im.put(16, bytes(4))
    return im


def cart_types():
    it = mkit(None, 1000)
    st = St()
    out = []
    for c in lists(it, st, gval("cartridge", "known_cart_types"))[1:]:
        v = c.items if type(c) is Tup else lists(it, st, c)
        out.append((v[0].v, v[1].v, v[2].v))
    return out


def patched(im, edits):
    for off, data in edits:
        im.put(off, data)
    return im


# ------------------------------------------------------------------- search

class Chosen(Plainly):
    """parsers accept or refuse by assignment"""

    def __init__(self, parsers, accept, raises=None, digest=None, packed=False):
        self.parsers, self.accept, self.raises, self.digest, self.packed = parsers, accept, raises, digest, packed
        self.asked = []

    def pre_call(self, it, st, f, args, kwargs, node):
        if type(f) is Cl and f.info in self.parsers:
            strict = args[1] if len(args) > 1 else kwargs.get("strict", C(False))
            self.asked.append((f.info.name, args[0] if args else kwargs.get("segment_data"), strict, st))
            if f.info.name == self.raises:
                return [("x", st, Xc(classval("UnsupportedDiskImage"), site=node))]
            if f.info.name in self.accept:
                st, segs = it.alloc(st, node, Lst(()), "s:" + f.info.name)
                st, ref = it.alloc(st, node, Inst(f.info, {"menu_name": C("x"), "image": NONE, "segments": segs}), "p:" + f.info.name)
                return [("n", st, ref)]
            return [("x", st, Xc(classval("InvalidSegmentParser"), site=node))]
        return None

    def on_ext(self, it, st, name, args, kw, node):
        if name.startswith("hashlib."):
            return [("n", st, mk("sha", kind=None))]
        if self.packed and name in LIBS[self.packed]:
            return [("n", st, mk("unpacker"))]
        if self.packed and name in (self.packed + ".decompress", self.packed + ".open"):
            return [("n", st, C(INSIDE) if name.endswith("decompress") else mk("unpacker"))]
        return Plainly.on_ext(self, it, st, name, args, kw, node)

    def on_method(self, it, st, base, name, args, kw, node):
        if base == mk("sha", kind=None) and name == "digest":
            return [("n", st, C(self.digest or bytes(20)))]
        if base == mk("unpacker"):
            return [("n", st, C(INSIDE) if name.startswith("read") else NONE)]
        return None


def outcome(it, outs, pair):
    """(mime, parser class name) | exception name of a search with one outcome"""
    if len(outs) != 1:
        raise Open("%d outcomes" % len(outs))
    k, x, v = outs[0]
    if k == "x":
        return xname(v)
    if type(v) is not Tup or len(v.items) != 2:
        raise Open("result %s" % str(v)[:60])
    a, b = v.items if pair == "mp" else reversed(v.items)
    if b == NONE:
        return a, None
    o = it.obj(x, b) if type(b) is R else None
    if type(o) is not Inst:
        raise Open("parser %s" % str(b)[:60])
    return a, o.cls.name


SEARCH = (("find_diskimage_from_data", "", "pm"), ("iter_parsers", "parsers", "mp"))


def search(rep, con, fn, mod, pair, part):
    order, m = tables()
    flat_ = [(mime, p.info) for mime, ps in order for p in ps]
    infos = {p.info for ps in m.values() for p in ps}
    names = [i.name for _, i in flat_]
    im = flat(3000, bytes([1, 2, 3, 4, 5, 6, 7, 8]) + b"\xee" * 2992)

    def once(client):
        it = mkit(client, 3000000)
        st, raw = load(it, im)
        arg = im.D if fn.startswith("find") else raw
        return it, outcome(it, calls(it, st, gval(mod, fn), arg), pair)
    todo = []
    for j in range(len(flat_)):
        if j % 4 != part:
            continue
        todo.append(("only %s accepts" % names[j], [names[j]], None, (C(flat_[j][0]), names[j])))
        todo.append(("%s and all later ones accept" % names[j], names[j:], None, (C(flat_[j][0]), names[j])))
        todo.append(("%s finds it unsupported" % names[j], names[j + 1:], names[j], "UnsupportedDiskImage"))
    if part == 0:
        todo.append(("none accepts", [], None, "UnsupportedDiskImage" if fn.startswith("find") else None))
    for what, acc, raises, want in todo:
        c = "%s: %s" % (fn, what)
        cl = Chosen(infos, set(acc), raises)
        try:
            it, got = once(cl)
        except Open as e:
            rep.und(R_ORDER, c, str(e))
            continue
        if want is None:
            good = type(got) is tuple and got[1] is None
        else:
            good = got == want
        if not good:
            rep.bad(R_ORDER, c, W + " " + fn, "the result is %s" % (got if type(got) is str else "%s with type %s" % (got[1], got[0].v if type(got[0]) is C else got[0])))
            continue
        lax = [n for n, d, s, x in cl.asked if s != C(True)]
        wrong = [n for n, d, s, x in cl.asked if not same_data(it, x, d)]
        if lax:
            rep.bad(R_ORDER, c, W + " " + fn, "%s is not asked to check strictly" % lax[0])
        elif wrong:
            rep.und(R_ORDER, c, "data given to %s" % wrong[0])
        else:
            rep.ok(R_ORDER, c)
        rep.absorb(it)


def same_data(it, st, seg):
    o = it.obj(st, seg) if type(seg) is R else None
    if type(o) is not Inst:
        return False
    d = o.attrs.get("data")
    return type(d) is Ar and d.sid == "D" and d.off == C(0)


LIBS = {"gzip": ("gzip.GzipFile",), "bz2": ("bz2.BZ2File",), "lzma": ("lzma.LZMAFile",)}
INSIDE = bytes(range(40, 140))


def packed(rep, con, lib, fn, mod, pair):
    """every parser is asked about the data inside the container"""
    order, m = tables()
    infos = {p.info for ps in m.values() for p in ps}
    mime, last = [(mime, p.info.name) for mime, ps in order for p in ps][-1]
    im = flat(300, b"\xee" * 300)
    cl = Chosen(infos, {last}, packed=lib)
    it = mkit(cl, 3000000)
    st, raw = load(it, im)
    got = outcome(it, calls(it, st, gval(mod, fn), im.D if fn.startswith("find") else raw), pair)
    if got != (C(mime), last):
        rep.bad(R_BOX, con, W + " " + fn, "the result is %s" % (got if type(got) is str else "%s with type %s" % (got[1], got[0])))
        return
    und = 0
    for n, d, s, x in cl.asked:
        o = it.obj(x, d) if type(d) is R else None
        a = o.attrs.get("data") if type(o) is Inst else None
        if type(a) is not Ar or type(a.ln) is not C:
            und += 1
            continue
        v = [byte_at(it, x, a, i) for i in range(min(a.ln.v, 300))]
        if any(type(b) is not C for b in v):
            und += 1
        elif bytes(b.v for b in v) != INSIDE:
            rep.bad(R_BOX, con, W + " " + fn, "%s is given %s" % (n, "the packed data" if a.sid == "D" else "other data than the container holds"))
            return
    if und or not cl.asked:
        rep.und(R_BOX, con, "data given to %d parsers" % und)
    else:
        rep.ok(R_BOX, con, "%d parsers" % len(cl.asked))
    rep.absorb(it)


def by_system(rep, con, basename):
    order, m = tables()
    infos = {p.info for ps in m.values() for p in ps}
    im = flat(3000, b"\xee" * 3000)
    mine = [(mime, p.info.name) for mime, ps in order for p in ps if mime.startswith(basename)]
    other = {p.info.name for mime, ps in order for p in ps if not mime.startswith(basename)}
    for what, acc, want in [("all accept", {n for _, n in mine} | other, mine[0] if mine else None), ("the last of the system and all others accept", {mine[-1][1]} | other if mine else other, mine[-1] if mine else None),
                            ("only others accept", other, None)]:
        c = "guess_parser_for_system %s: %s" % (basename, what)
        it = mkit(Chosen(infos, acc), 3000000)
        st, raw = load(it, im)
        try:
            got = outcome(it, calls(it, st, gval("parsers", "guess_parser_for_system"), C(basename), raw), "mp")
        except Open as e:
            rep.und(R_ORDER, c, str(e))
            continue
        if got == ((C(want[0]), want[1]) if want else (NONE, None)):
            rep.ok(R_ORDER, c)
        else:
            rep.bad(R_ORDER, c, W, "the result is %s" % (got if type(got) is str else "%s with type %s" % (got[1], got[0])))
        rep.absorb(it)


def dumps(rep, con):
    """an image in the signature database gets the type listed there"""
    order, m = tables()
    infos = {p.info for ps in m.values() for p in ps}
    everyone = {i.name for i in infos}
    it0 = mkit(None, 1000)
    d = it0.obj(St(), gval("signatures", "sha1_signatures"))
    seen = {}
    for k, v in d.items:
        o = it0.obj(St(), v)
        for h, e in o.items:
            mime = (e.items if type(e) is Tup else lists(it0, St(), e))[0].v
            seen.setdefault(mime, []).append((k.v, h.v))
    for mime, es in sorted(seen.items()):
        for size, h in {es[0], es[len(es) // 2], es[-1]}:
            for fn, mod, pair in SEARCH:
                for acc, want, what in ((everyone, m[mime][0].info.name, "all accept"), ({m[mime][-1].info.name} | {p.info.name for mm, ps in m.items() if mm != mime for p in ps}, m[mime][-1].info.name, "the last of its type and others")):
                    c = "%s: listed dump of %d bytes, %s, %s" % (fn, size, mime, what)
                    im = flat(size, bytes([1, 2, 3, 4]))
                    it = mkit(Chosen(infos, acc, digest=h), 3000000)
                    st, raw = load(it, im)
                    try:
                        got = outcome(it, calls(it, st, gval(mod, fn), im.D if fn.startswith("find") else raw), pair)
                    except Open as e:
                        rep.und(R_SIG, c, str(e))
                        continue
                    if got == (C(mime), want):
                        rep.ok(R_SIG, c)
                    else:
                        rep.bad(R_SIG, c, W + " guess_parser_by_size", "the result is %s" % (got if type(got) is str else "%s with type %s" % (got[1], got[0])))
                    rep.absorb(it)


def special(rep, con):
    """magic.py: an image with all bytes of a signature has its type, with one
    of them changed the general type"""
    it0 = mkit(None, 1000)
    st0 = St()
    entries = []
    for e in lists(it0, st0, gval("magic", "magic")) or ():
        d = {k.v: v for k, v in it0.obj(st0, e).items}
        sig = []
        for s in lists(it0, st0, d["signature"]):
            i, x = s.items
            if type(i) is C and isinstance(i.v, int):
                sig.append((i.v, x.v))
            else:
                sl = slice(i.a.v, i.b.v)
                xs = [b.v for b in lists(it0, st0, x)]
                sig += [((sl.start or 0) + n, b) for n, b in enumerate(xs)]
        entries.append((d["mime"].v, sig))
    order, m = tables()
    for mime, sig in entries:
        gen = [k for k in m if mime.startswith(k)][0]
        hi = max(i for i, _ in sig) + 1
        cases = [("complete", None, hi + 50, mime)] + [("byte %d differs" % i, i, hi + 50, gen) for i, _ in sig] + [("too short", None, hi - 1, gen)]
        for what, skip, size, want in cases:
            c = "%s: %s" % (mime, what)
            im = flat(size, b"")
            for n in range(size):
                im.b[n] = 0xee
            for i, b in sig:
                if i < size:
                    im.b[i] = b ^ 1 if i == skip else b
            # an image that carries another signature as well keeps that one
            others = [e for e in entries if e[0] != mime and e[0].startswith(gen) and all(im.b.get(i) == b for i, b in e[1])]
            if others:
                continue
            it = mkit(Exact(), 3000000)
            st, raw = load(it, im)
            r = calls(it, st, gval("magic", "guess_detail_for_mime"), C(gen), raw, NONE)
            if len(r) != 1 or r[0][0] == "n" and type(r[0][2]) is not C:
                rep.und(R_SIG, c, "%d outcomes" % len(r))
            elif r[0][0] == "x":
                rep.bad(R_SIG, c, "atrcopy/magic.py", "ends in %s" % xname(r[0][2]))
            elif r[0][2] != C(want):
                rep.bad(R_SIG, c, "atrcopy/magic.py", "the type is %s instead of %s" % (r[0][2].v, want))
            else:
                rep.ok(R_SIG, c)
            rep.absorb(it)


def dcm(rep, con):
    for first in (0xf8, 0xf9, 0xfa, 0xfb, 0x96, 0):
        for flags in range(256):
            c = "DCM archive %02x %02x" % (first, flags)
            it = mkit(Exact(), 100000)
            st, o = it.alloc(St(), None, Inst(classval("DCMContainer").info, {}), "i:dcm")
            r = method(it, st, o, "unpack_bytes", C(bytes([first, flags, 0, 0])))
            want = "UnsupportedContainer" if first in (0xf9, 0xfa) and flags & 31 == 1 and flags >> 5 & 3 < 3 else "InvalidContainer"
            if len(r) != 1:
                rep.und(R_MARK, c, "%d outcomes" % len(r))
            elif r[0][0] != "x" or xname(r[0][2]) != want:
                rep.bad(R_MARK, c, "atrcopy/dcm.py", "ends in %s instead of %s" % (xname(r[0][2]) if r[0][0] == "x" else "data", want))
            else:
                rep.ok(R_MARK, c)


def guarded_(rep, rule, con, f, *a):
    try:
        f(rep, con, *a)
    except Open as e:
        rep.und(rule, con, str(e))


def check(rep):
    jobs = []

    def found(con, mk_, *a, **k):
        jobs.append((con, lambda r: guarded_(r, R_FIND, con, lambda r, c: identify(r, c, mk_(), *a, **k))))

    def no(con, mk_, *classes):
        jobs.append(("not " + con, lambda r: guarded_(r, R_MARK, con, lambda r, c: refused(r, c, mk_(), *classes))))

    def job(con, f, *a):
        jobs.append((con, lambda r: guarded_(r, R_ORDER, con, f, *a)))
    for ss in (128, 256):
        found("Atari DOS 2, %d byte sectors" % ss, lambda ss=ss: dos2(ss), "AtariDosDiskImage")
        found("Atari DOS 2, %d byte sectors, without header" % ss, lambda ss=ss: dos2(ss, True), "AtariDosDiskImage")
        found("SpartaDOS, %d byte sectors" % ss, lambda ss=ss: sparta(ss), "SpartaDosDiskImage")
        found("SpartaDOS 1.1, %d byte sectors" % ss, lambda ss=ss: sparta(ss, fs_version=0x11), "SpartaDosDiskImage")
        for k in ("first_free", "bitmap"):
            found("SpartaDOS, %d byte sectors, %s is the last sector" % (ss, k), lambda ss=ss, k=k: sparta(ss, **{k: 720}), "SpartaDosDiskImage")
        found("SpartaDOS X, %d byte sectors" % ss, lambda ss=ss: sparta(ss, fs_version=0x21), "SpartaDosDiskImage")
        for k, v in [("num_sectors", 719), ("first_free", 721), ("bitmap", 721), ("root_dir", 721), ("sector_size", 0x40)] + [("fs_version", v) for v in (0, 1, 0x10, 0x12, 0x1f, 0x22, 0x31, 0x80, 0xff)]:
            no("SpartaDOS, %d byte sectors, %s %d" % (ss, k, v), lambda ss=ss, k=k, v=v: sparta(ss, **{k: v}), "SpartaDosDiskImage")
    found("Atari DOS 2.5 enhanced density", enhanced, "AtariDosDiskImage")
    for n in (1, 128, 300, 5000, 70000):
        found("KBoot, %d bytes" % n, lambda n=n: kboot(n), "KBootImage")
        no("KBoot, %d bytes, length too large" % n, lambda n=n: kboot(n, 128), "KBootImage")
        if n % 128 == 0:
            # other programs write a sector more for a file of whole sectors
            found("KBoot, %d bytes and an empty sector" % n, lambda n=n: kboot(n, 0, 1), "KBootImage")
        if n > 200:
            no("KBoot, %d bytes, length too small" % n, lambda n=n: kboot(n, -200), "KBootImage")
    for n, num, addr in ((720, 3, 0x700), (720, 1, 0x3000), (40, 40, 0x2000), (359, 255, 0x3000), (720, 255, 0x4080)):
        found("boot disk of %d sectors, %d loaded at %04x" % (n, num, addr), lambda n=n, num=num, addr=addr: boot(n, num, addr), "BootDiskImage")
    for n, num, addr in ((720, 0, 0x700), (720, 255, 0x5000), (720, 2, 0xbf81), (720, 1, 0xc000), (720, 255, 0xffff), (720, 5, 0xf000), (720, 1, 0xc080), (720, 1, 0xff80), (720, 100, 0xd000)):
        no("boot disk of %d sectors, %d loaded at %04x" % (n, num, addr), lambda n=n, num=num, addr=addr: boot(n, num, addr), "BootDiskImage")
        found("Atari disk without file system or boot record, %d loaded at %04x" % (num, addr), lambda n=n, num=num, addr=addr: boot(n, num, addr), "AtariDiskImage")
    ATARI = ("AtariDosDiskImage", "SpartaDosDiskImage", "KBootImage", "BootDiskImage", "AtariDiskImage")
    for what, edits in (("without the ATR word", [(0, [0x97])]), ("with the ATR word reversed", [(0, [2, 0x96])]), ("with sectors of 127 bytes", [(4, [127, 0])])):
        no("ATR image " + what, lambda e=edits: patched(dos2(), e), *ATARI)
        no("SpartaDOS ATR image " + what, lambda e=edits: patched(sparta(), e), *ATARI)
        no("KBoot image " + what, lambda e=edits: patched(kboot(300), e), *ATARI)
    for n in (92159, 92161, 92160 + 128, 133119, 183935, 184321, 1000, 143360):
        no("%d bytes without header" % n, lambda n=n: flat(n, bytes([0, 3, 0, 7])), "BootDiskImage", "AtariDiskImage", "KBootImage")
    for code in (5, 20, 128, 255):
        no("Atari DOS 2 with VTOC code %d" % code, lambda c=code: patched(dos2(), [(16 + 359 * 128, [c])]), "AtariDosDiskImage")
    for what, e in (("begins at sector 721", entry_atari(0x42, 2, 721, b"BAD", b"")), ("begins at sector 0", entry_atari(0x42, 2, 0, b"BAD", b"")), ("has 721 sectors", entry_atari(0x42, 721, 80, b"BAD", b""))):
        no("Atari DOS 2 with a file that " + what, lambda e=e: patched(dos2(), [(16 + 360 * 128 + 32, e)]), "AtariDosDiskImage")
    found("Atari DOS 2 with a deleted entry beginning at sector 721", lambda: patched(dos2(), [(16 + 360 * 128 + 32, entry_atari(0x80, 2, 721, b"BAD", b""))]), "AtariDosDiskImage")
    for n, data in ((10, [255, 255, 0, 0x40, 3, 0x40]), (600, [255, 255, 0, 0x40, 81, 0x42]), (20000, [255, 255, 0, 0x40, 25, 0x8e])):
        found("executable of %d bytes" % n, lambda n=n, d=data: flat(n, d), "AtariDosFile")
    for what, data in (("starting with FE FF", [254, 255, 0, 0x40, 3, 0x40]), ("starting with FF FE", [255, 254, 0, 0x40, 3, 0x40]), ("with the end before the start", [255, 255, 4, 0x40, 2, 0x40])):
        no("executable " + what, lambda d=data: flat(10, d), "AtariDosFile")
    for t, nm, k in cart_types():
        cls = "Atari5200CartImage" if "5200" in nm else "Atari8bitCartImage"
        found("cartridge type %d, %dk" % (t, k), lambda t=t, k=k: cartridge(t, k), cls, cart=t)
    for what, mk_ in (("with another word", lambda: cartridge(1, 8, b"CARS")), ("of an unknown type", lambda: cartridge(200, 8)), ("shorter than its type", lambda: cartridge(1, 4)), ("longer than its type", lambda: cartridge(1, 16)),
                      ("not of whole kilobytes", lambda: cartridge(1, 8, extra=1)), ("of type 0", lambda: cartridge(0, 8))):
        no("cartridge " + what, mk_, "Atari8bitCartImage", "Atari5200CartImage")
    no("computer cartridge as 5200", lambda: cartridge(1, 8), "Atari5200CartImage")
    no("5200 cartridge as computer", lambda: cartridge(4, 32), "Atari8bitCartImage")
    found("DOS 3.3", dos33, "Dos33DiskImage")
    found("DOS 3.3, catalog elsewhere", lambda: patched(dos33(), [(272 * 256 + 1, [16, 15]), (271 * 256, bytes(256))]), "Dos33DiskImage")
    found("ProDOS", lambda: dos33(boot=[1, 0x38, 0xb0, 3]), None, unsupported=True)
    for i, x in enumerate((2, 0x39, 0xb1, 4)):
        b = [1, 0x38, 0xb0, 3]
        b[i] = x
        found("DOS 3.3 with boot code %s" % bytes(b).hex(), lambda b=b: dos33(boot=b), "Dos33DiskImage")
    for t, s in ((17, 16), (16, 40), (0, 255)):
        # an empty catalog where the numbers would lead if they were added up
        no("DOS 3.3, catalog at track %d sector %d, empty" % (t, s), lambda t=t, s=s: patched(dos33(vtoc=[0, t, s]), [((16 * t + s) * 256, bytes(256))]), "Dos33DiskImage")
    for t, s in ((35, 15), (255, 0), (17, 16), (17, 255)):
        no("DOS 3.3, catalog at track %d sector %d" % (t, s), lambda t=t, s=s: dos33(vtoc=[0, t, s]), "Dos33DiskImage")
    for n in (143359, 143361, 143104, 116480):
        no("DOS 3.3 of %d bytes" % n, lambda n=n: flat(n, bytes([1, 0xa5])), "Dos33DiskImage", "ProdosDiskImage")
    for n in (5, 260, 5000):
        found("BSAVE file of %d bytes" % n, lambda n=n: flat(n, struct.pack("<HH", 0x2000, n - 4)), "Dos33BinFile")
    for n in (2048, 8192, 65536, 16):
        found("ROM of %d bytes" % n, lambda n=n: flat(n, bytes([0x78, 0xd8, 0xa2, 0xff])), "RomImage")
    for n in (768, 1536, 2047, 2049, 3072, 40960):
        no("ROM of %d bytes" % n, lambda n=n: flat(n, bytes([0x78, 0xd8, 0xa2, 0xff])), "RomImage")
        found("unknown data of %d bytes" % n, lambda n=n: flat(n, bytes([0x78, 0xd8, 0xa2, 0xff])), None)
    for fn, mod, pair in SEARCH:
        for part in range(4):
            job("%s, part %d" % (fn, part), search, fn, mod, pair, part)
        for lib in LIBS:
            job("%s: data packed with %s" % (fn, lib), packed, lib, fn, mod, pair)
    for b in ("application/vnd.atari8bit", "application/vnd.atari5200", "application/vnd.apple2", "application/vnd", "application/vnd.atari8bit.xex", "application/vnd.nothing"):
        job("system " + b, by_system, b)
    job("listed dumps", dumps)
    job("signatures", special)
    job("DCM", dcm)
    parallel(rep, jobs)
