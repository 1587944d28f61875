"""C25: executables and boot disks load exactly the given data."""
from ..cli import *
from .c19 import Sd, Cli as RunCli, OBJ_RUN
from .c20 import seglist, data_of, src, known_other, Ex_, as_array

EXPLANATION = ("The writers of executables and boot disks are interpreted on segments of unknown contents.  The bytes they store are decoded as the target machine "
               "loads them (segment headers of an Atari executable, the header of an Apple binary, the page list and sector order of the Apple loader), "
               "which gives for each memory address the term that ends up there; it must be the byte of the segment that was given for this address.  "
               "The command line is interpreted with constant file contents, and the segments that reach the writer are compared with what the options denote.")
ASSUMPTIONS = ["where two segments give a byte for the same address, the later segment counts",
               "Apple boot disks: pages below 0xc0; the first page of a high resolution screen addressed as 0x2001 or 0x4001 is a documented special case outside the claim",
               "the Apple loader (fstbt) reads the sectors of a track in the order 0, 14, 13, ..., 1, 15 and a byte 0xe0+k in its list means k more sectors to the following pages"]
MINIMUM = 150

R_MEM = "each address is loaded with the byte given for it"
R_ONLY = "nothing else is loaded"
R_KIND = "the kind of file the name or the disk asks for"
R_CLI = "the options' data reaches the writer at the options' address"


def name(case):
    return ", ".join("%#x+%d" % s for s in case)


def wanted(case):
    """address -> (segment, index) of the last segment that covers it"""
    m = {}
    for i, (o, n) in enumerate(case):
        for a in range(n):
            m[o + a] = (i, a)
    return m


def probes(case):
    """addresses to look at: borders of the segments and of the pages"""
    s = set()
    for o, n in case:
        s |= {o, o + 1, o + n - 1, o + n // 2}
        for p in range(o & ~255, o + n + 256, 256):
            s |= {p - 1, p, p + 128}
    return sorted(s & set(wanted(case)))


def compare(rep, it, st, con, w, case, mem, every=False):
    want = wanted(case)
    for a in (sorted(want) if every else probes(case)):
        i, j = want[a]
        c2 = "%s: address %#06x" % (con, a)
        if a not in mem:
            rep.bad(R_MEM, c2, w, "byte %d of segment %d is not loaded" % (j, i))
            continue
        arr, pos = mem[a]
        t = byte_at(it, st, arr, pos)
        if t == src("W%d" % i, j):
            rep.ok(R_MEM, c2)
        elif t is None:
            rep.und(R_MEM, c2, "unknown")
        elif type(t) is C or known_other(t):
            rep.bad(R_MEM, c2, w, "%s is loaded instead of byte %d of segment %d" % (str(t)[:70], j, i))
        else:
            rep.und(R_MEM, c2, str(t)[:80])


def only(rep, con, w, mem, allowed):
    extra = [a for a in mem if a not in allowed]
    if extra:
        rep.bad(R_ONLY, con, w, "address %#06x is loaded although no segment asks for it" % min(extra))
    else:
        rep.ok(R_ONLY, con, "%d addresses" % len(mem))


# ------------------------------------------------------ Atari executables

def walk_xex(rep, it, st, d, start, stop, con, w):
    """address -> place in the file, as the Atari loads it"""
    mem, pos = {}, start
    b = [byte_at(it, st, d, pos + i) for i in range(2)]
    if b != [C(255), C(255)]:
        (rep.bad if all(type(t) is C for t in b) else rep.und)(R_MEM, con, *((w,) if all(type(t) is C for t in b) else ()), "the file does not start with 0xffff")
        return None
    pos += 2
    while pos < stop:
        b = [byte_at(it, st, d, pos + i) for i in range(4)]
        if pos + 4 <= stop and any(type(t) is T and known_other(t) for t in b):
            # a byte of the given data, of whatever value, is taken for an address
            rep.bad(R_MEM, con, w, "the file has data (%s) where the header of the next segment is read, at byte %d" % (
                str([t for t in b if type(t) is T][0])[:60], pos))
            return None
        if pos + 4 > stop or any(type(t) is not C for t in b):
            rep.und(R_MEM, con, "segment header at %d is not constant" % pos)
            return None
        if b[:2] == [C(255), C(255)]:
            pos += 2
            continue
        a, e = b[0].v + 256 * b[1].v, b[2].v + 256 * b[3].v
        if e < a:
            rep.bad(R_MEM, con, w, "segment header %#06x-%#06x ends before it begins" % (a, e))
            return None
        pos += 4
        if pos + e - a + 1 > stop:
            rep.bad(R_MEM, con, w, "segment %#06x-%#06x is longer than the rest of the file" % (a, e))
            return None
        for x in range(a, e + 1):
            mem[x] = (d, pos + x - a)
        pos += e - a + 1
    return mem


def xex(rep, case):
    w = "atrcopy/executables.py get_xex"
    con = "Atari executable of %s" % name(case)
    it = mkit(Sd())
    st, l = seglist(it, case)
    for k, x, v in calls(it, st, gval("executables", "get_xex"), l, NONE):
        if k != "n":
            rep.bad(R_MEM, con, w, "ends in %s" % xname(v))
            continue
        d = data_of(it, x, v.items[0]) if type(v) is Tup else None
        if type(d) is not Ar or type(d.ln) is not C:
            rep.und(R_MEM, con, "no data")
            continue
        mem = walk_xex(rep, it, x, d, 0, d.ln.v, con, w)
        if mem is not None:
            compare(rep, it, x, con, w, case, mem)
            only(rep, con, w, mem, set(wanted(case)) | {0x2e0, 0x2e1})


def kboot(rep, case):
    w = "atrcopy/kboot.py KBootImage.create_boot_image"
    con = "Atari boot disk of %s" % name(case)
    it = mkit(Sd())
    st, l = seglist(it, case)
    for k, x, m in it.getattr(st, classval("KBootImage"), "create_boot_image", CALL):
        for k, y, img in it.call_value(x, m, [l, NONE], {}, CALL) if k == "n" else ():
            if k != "n":
                rep.bad(R_MEM, con, w, "ends in %s" % xname(img))
                continue
            d = it.obj(y, img).attrs.get("bytes")
            if type(d) is not Ar or type(d.ln) is not C:
                rep.und(R_MEM, con, "no data")
                continue
            b = [byte_at(it, y, d, 16 + 9 + i) for i in range(3)]
            if any(type(t) is not C for t in b):
                rep.und(R_MEM, con, "size")
                continue
            size = b[0].v + (b[1].v << 8) + (b[2].v << 16)
            if 400 + size > d.ln.v:
                rep.bad(R_MEM, con, w, "the loader reads %d bytes, the disk has %d" % (size, d.ln.v - 400))
                continue
            mem = walk_xex(rep, it, y, d, 400, 400 + size, con, w)
            if mem is not None:
                compare(rep, it, y, con, w, case, mem)
                only(rep, con, w, mem, set(wanted(case)) | {0x2e0, 0x2e1})


# ---------------------------------------------------------- Apple binaries

def bsave(rep, case, run):
    w = "atrcopy/executables.py get_bsave"
    con = "Apple binary of %s, run address %s" % (name(case), "none" if run is None else "%#x" % run)
    it = mkit(Sd())
    st, l = seglist(it, case)
    lo, hi = min(o for o, n in case), max(o + n for o, n in case)
    for k, x, d in calls(it, st, gval("executables", "get_bsave"), l, NONE if run is None else C(run)):
        if k != "n":
            rep.bad(R_MEM, con, w, "ends in %s" % xname(d))
            continue
        if type(d) is not Ar or type(d.ln) is not C:
            rep.und(R_MEM, con, "no data")
            continue
        b = [byte_at(it, x, d, i) for i in range(4)]
        if any(type(t) is not C for t in b):
            rep.und(R_MEM, con, "header")
            continue
        org, size = b[0].v + 256 * b[1].v, b[2].v + 256 * b[3].v
        if size + 4 > d.ln.v:
            rep.bad(R_MEM, con, w, "the header announces %d bytes, the file has %d" % (size, d.ln.v - 4))
            continue
        mem = {org + i: (d, 4 + i) for i in range(size)}
        compare(rep, it, x, con, w, case, mem)
        only(rep, con, w, mem, set(range(lo if run in (None, lo) else lo - 3, hi)))


KINDS = [("AtariDosDiskImage", "a.xex", "xex"), ("AtariDosDiskImage", "A.XEX", "xex"), ("AtariDosDiskImage", "GAME", "xex"), ("AtariDosDiskImage", "a.dat", "xex"), ("AtariDosDiskImage", "a.bin", "bin"),
         ("AtariDosDiskImage", "a.bsave", "bin"), ("Dos33DiskImage", "A.BIN", "bin"), ("Dos33DiskImage", "HELLO", "bin"), ("Dos33DiskImage", "Prog.Bsave", "bin"), ("Dos33DiskImage", "a.xex", "xex"), ("Dos33DiskImage", "X.TXT", "bin")]


def by_name(rep, cls, out, kind):
    """assembling to a file on a disk image"""
    w = "atrcopy/diskimages.py DiskImageBase.create_executable_file_image"
    case = [(0x2000, 20), (0x2100, 5)]
    con = "%s.create_executable_file_image(%r)" % (cls, out)
    it = mkit(Sd())
    st, l = seglist(it, case)
    st, me = it.alloc(st, CALL, Inst(classval(cls).info, {}, True), "img")
    for k, x, v in method(it, st, me, "create_executable_file_image", C(out), l, NONE):
        if k != "n":
            rep.bad(R_KIND, con, w, "ends in %s" % xname(v))
            continue
        d, t = v.items if type(v) is Tup and len(v.items) == 2 else (None, None)
        if type(d) is not Ar or type(d.ln) is not C:
            rep.und(R_KIND, con, "no data")
            continue
        b = [byte_at(it, x, d, i) for i in range(4)]
        want = [C(255), C(255), C(0xe0), C(2)] if kind == "xex" else [C(0), C(0x20), C(5), C(1)]
        if any(type(q) is not C for q in b):
            rep.und(R_KIND, con, "header")
            continue
        if b != want or type(t) is C and t.v != {"xex": "XEX", "bin": "B"}[kind]:
            rep.bad(R_KIND, con, w, "the file starts with %s and has type %s" % (" ".join("%02x" % q.v for q in b), t))
            continue
        rep.ok(R_KIND, con, kind)
        mem = walk_xex(rep, it, x, d, 0, d.ln.v, con, w) if kind == "xex" else {0x2000 + i: (d, 4 + i) for i in range(d.ln.v - 4)}
        if mem is not None:
            compare(rep, it, x, con, w, case, mem)


def boot_kind(rep, out, cls):
    w = "atrcopy/parsers.py parsers_for_filename"
    con = "boot disk %s" % out
    it = mkit(Sd())
    for k, x, v in calls(it, St(), gval("parsers", "parsers_for_filename"), C(out)):
        if k == "x":
            if cls is None and xname(v) == "InvalidDiskImage":
                rep.ok(R_KIND, con, "refused")
            else:
                rep.bad(R_KIND, con, w, "ends in %s" % xname(v))
            continue
        o = it.obj(x, v) if k == "n" and type(v) is R else None
        if type(o) is not Lst or not o.exact or not o.items or type(o.items[0]) is not Cl:
            rep.und(R_KIND, con, "no class")
        elif cls is None or o.items[0].info is not classval(cls).info:
            rep.bad(R_KIND, con, w, "is created as %s" % o.items[0].info.name)
        else:
            rep.ok(R_KIND, con, cls)


# -------------------------------------------------------- Apple boot disks

ORDER = [0, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 15]


def place(index):
    """index-th sector the loader reads -> offset on the disk"""
    t, i = divmod(index, 16)
    return (t * 16 + ORDER[i]) * 256


def apple(rep, case):
    w = "atrcopy/standard_delivery.py StandardDeliveryImage.create_boot_image"
    con = "Apple boot disk of %s" % name(case)
    it = mkit(Sd())
    st, l = seglist(it, case)
    code = topy(gval("standard_delivery", "fstbt"))
    for k, x, m in it.getattr(st, classval("StandardDeliveryImage"), "create_boot_image", CALL):
        for k, y, img in it.call_value(x, m, [l, NONE], {}, CALL) if k == "n" else ():
            if k != "n":
                rep.bad(R_MEM, con, w, "ends in %s" % xname(img))
                continue
            d = it.obj(y, img).attrs.get("bytes")
            if type(d) is not Ar or type(d.ln) is not C:
                rep.und(R_MEM, con, "no data")
                continue
            mem, index, pos, page = {}, 1, len(code) + 2, None
            ok = False
            while pos < 256:
                t = byte_at(it, y, d, pos)
                if type(t) is not C:
                    rep.und(R_MEM, con, "command byte %d: %s" % (pos, str(t)[:60]))
                    break
                pos += 1
                if t.v == 0xc0:
                    ok = True
                    break
                if t.v in (0xd0, 0xd1, 0xd2):
                    continue
                if t.v >= 0xe0:
                    if page is None:
                        rep.bad(R_MEM, con, w, "the loader's list repeats a page before it names one")
                        break
                    pages = [page + 1 + i for i in range(t.v - 0xe0)]
                elif t.v < 0xc0:
                    pages = [t.v]
                else:
                    rep.bad(R_MEM, con, w, "the loader's list contains %#x" % t.v)
                    break
                for p in pages:
                    page = p
                    off = place(index)
                    index += 1
                    if off + 256 > d.ln.v:
                        rep.bad(R_MEM, con, w, "the loader's list reads past the end of the disk")
                        break
                    for i in range(256):
                        mem[p * 256 + i] = (d, off + i)
            else:
                rep.bad(R_MEM, con, w, "the loader's list does not end within the boot sector")
            if ok:
                compare(rep, it, y, con, w, case, mem)
                pages = {p for o, n in case for p in range(o >> 8, (o + n - 1 >> 8) + 1)}
                only(rep, con, w, mem, {p * 256 + i for p in pages for i in range(256)})


# ------------------------------------------------------------ command line

CONTENT = bytes((7 * i + 3) & 255 for i in range(200))
OTHER = bytes((5 * i + 1) & 255 for i in range(90))
FILES = {"f": CONTENT, "g.bin": OTHER, "a@b": CONTENT, "x[1]": OTHER}


class Cli(RunCli):
    unroll = 60

    def on_method(self, it, st, base, name, args, kwargs, node):
        if type(base) is R and name == "read" and not args:
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "file" and type(o.attrs["name"]) is C and o.attrs["name"].v in FILES:
                return [("n", st, C(FILES[o.attrs["name"].v]))]
        return RunCli.on_method(self, it, st, base, name, args, kwargs, node)

    def attr(self, it, st, base, name, node):
        """the segments of an object file: the whole file, loadable parts, run vector"""
        if type(base) is R and name == "segments":
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "parser":
                segs = []
                st = storage(st, "OW", C(2), ("const", (OBJ_RUN & 255, OBJ_RUN >> 8)))
                parts = [("DefaultSegment", "AW", 0, 0x240)] + [("ObjSegment",) + x for x in OBJECTS[:2]] + [("RunAddressSegment", "OW", 0x2e0, 2)] + [("ObjSegment",) + x for x in OBJECTS[2:]]
                for c, w, org, n in parts:
                    if w != "OW":
                        st = storage(st, w, C(n))
                    st = storage(st, w + "s", C(n), ("zeros",))
                    r = [(x, v) for k, x, v in calls(it, st, classval("SegmentData"), Ar(w, C(0), C(n)), Ar(w + "s", C(0), C(n))) if k == "n"]
                    st, raw = r[0]
                    a = (C(0),) if c == "DefaultSegment" else (C(0), C(0), C(org), C(org + n))
                    r = [(x, v) for k, x, v in calls(it, st, classval(c), raw, *a) if k == "n"]
                    st, sg = r[0]
                    segs.append(sg)
                st, l = it.alloc(st, node, Lst(segs), "psegs")
                return [("n", st, l)]
        return RunCli.attr(self, it, st, base, name, node)

    def image_op(self, it, st, img, name, args, kwargs, node):
        if name == "create_executable_file_image":
            y = st.fork()
            self.seen.append((name, tuple(args) + tuple(kwargs.items()), y))
        return RunCli.image_op(self, it, st, img, name, args, kwargs, node)

    def event(self, it, st, kind, data, node):
        if kind == "create_executable_file_image":
            return st
        return RunCli.event(self, it, st, kind, data, node)

    def do_open(self, it, st, args, kwargs, node):
        return [o for o in RunCli.do_open(self, it, st, args, kwargs, node) if o[0] == "n"]


def given(it, st, v):
    """(origin, [byte terms]) of each segment in the list"""
    o = it.obj(st, v) if type(v) is R else None
    if type(o) is Inst and "$list" in o.attrs:
        o = it.obj(st, o.attrs["$list"])
    if type(o) is not Lst or not o.exact:
        return None
    out = []
    for s in o.items:
        a = it.obj(st, s).attrs.get("origin")
        d = data_of(it, st, s)
        if type(d) is not Ar or type(d.ln) is not C or type(a) is not C:
            return None
        out.append((a.v, [byte_at(it, st, d, i) for i in range(d.ln.v)]))
    return out


OBJECTS = (("PW", 0x3000, 0x209), ("QW", 0x80, 4), ("RW", 1, 2), ("SW", 0xfff0, 16))
OBJECT = [(o, [src(w, i) for i in range(n)]) for w, o, n in OBJECTS]


def piece(data, lo=None, hi=None):
    return [C(b) for b in data[lo:hi]]


LINES = [
    (["f@2000"], 0, [(0x2000, piece(CONTENT))]),
    (["f@0x600", "g.bin@$4000"], 0, [(0x600, piece(CONTENT)), (0x4000, piece(OTHER))]),
    (["g.bin@4000", "f@600"], 0, [(0x4000, piece(OTHER)), (0x600, piece(CONTENT))]),
    (["f[10:20]@2000"], 0, [(0x2000, piece(CONTENT, 10, 20))]),
    (["f[0:1]@2000"], 0, [(0x2000, piece(CONTENT, 0, 1))]),
    (["f[:20]@2000"], 0, [(0x2000, piece(CONTENT, 0, 20))]),
    (["f[10:]@2000"], 0, [(0x2000, piece(CONTENT, 10))]),
    (["f[:]@#2000"], 0, [(2000, piece(CONTENT))]),
    (["f[199:200]@2000", "g.bin[3:77]@%101"], 0, [(0x2000, piece(CONTENT, 199, 200)), (5, piece(OTHER, 3, 77))]),
    (["f[3:500]@2000"], 0, [(0x2000, piece(CONTENT, 3))]),
    (["f[0:0]@2000", "g.bin@3000"], 0, [(0x2000, []), (0x3000, piece(OTHER))]),
    (["f[:5]@0", "g.bin[2:3]@1"], 0, [(0, piece(CONTENT, 0, 5)), (1, piece(OTHER, 2, 3))]),
    (["f@ffff"], 0, [(0xffff, piece(CONTENT))]),
    (["a@b@2000"], 0, [(0x2000, piece(CONTENT))]),
    (["x[1][2:5]@2000"], 0, [(0x2000, piece(OTHER, 2, 5))]),
    (["f@2000"], 1, [(0x2000, piece(CONTENT)), *OBJECT]),
    (["f[2:4]@600", "g.bin@700"], 1, [(0x600, piece(CONTENT, 2, 4)), (0x700, piece(OTHER)), *OBJECT]),
    ([], 1, [*OBJECT]),
    (["f@2000"], 2, [(0x2000, piece(CONTENT)), *OBJECT, *OBJECT]),
]


def cli(rep, command, data, obj, want):
    c = Cli(command, "", data, ["o.xex", "p.xex"][:obj])
    con = "%s %s%s" % (command, " ".join("-d " + n for n in data), " -o o.xex" * obj)
    w = "atrcopy/__init__.py assemble_segments"
    it, outs = run_command(c)
    if not c.seen:
        for k, x, v in outs:
            if k == "x" and xname(v) not in ("SystemExit",) and len(outs) == 1:
                rep.bad(R_CLI, con, w, "ends in %s" % xname(v))
        rep.und(R_CLI, con, "the writer is not reached")
    for kind, dat, st in c.seen:
        vals = [d for d in dat if type(d) is R]
        named = [d[1] for d in dat if isinstance(d, tuple) and len(d) == 2 and d[0] == "segments"]
        v = (named or vals or [None])[0]
        got = given(it, st, v)
        if got is None:
            rep.und(R_CLI, con, "segments not exact: %s" % str(v)[:60])
            continue
        if len(got) != len(want):
            rep.bad(R_CLI, con, w, "%d segments reach the writer, %d were given" % (len(got), len(want)))
            continue
        for i, ((a, b), (a2, b2)) in enumerate(zip(got, want)):
            c2 = "%s: segment %d" % (con, i)
            if a != a2:
                rep.bad(R_CLI, c2, w, "placed at %#x instead of %#x" % (a, a2))
            elif len(b) != len(b2):
                rep.bad(R_CLI, c2, w, "%d bytes instead of %d" % (len(b), len(b2)))
            else:
                wrong = [j for j in range(len(b)) if b[j] != b2[j]]
                sure = [j for j in wrong if type(b[j]) is C or b[j] is not None and known_other(b[j])]
                if sure:
                    rep.bad(R_CLI, c2, w, "byte %d is %s instead of %s" % (sure[0], str(b[sure[0]])[:60], str(b2[sure[0]])[:60]))
                elif wrong:
                    rep.und(R_CLI, c2, "byte %d: %s" % (wrong[0], str(b[wrong[0]])[:60]))
                else:
                    rep.ok(R_CLI, c2, "%d bytes" % len(b))


XEX = [[(0x2000, 16)], [(0x2000, 3), (0x3000, 300)], [(0x3000, 300), (0x2000, 256), (0x600, 1)], [(0x2000, 16), (0x2008, 16)], [(0x2008, 16), (0x2000, 16)],
       [(0x2000, 16), (0x2010, 16)], [(0x80, 0x100), (0xff00, 256)], [(0x2000, 100), (0x2010, 5), (0x2012, 1)], [(0xfffe, 2), (1, 1)], [(0x2e2, 2), (0x2000, 7), (0x480, 129)],
       [(0x2000, 0x4000)], [(0x1000 + 16 * i, 3 + i % 5) for i in range(20)]]
APPLE = [[(0x2000, 16)], [(0x6000, 256)], [(0x6000, 257)], [(0x6001, 255)], [(0x6001, 256)], [(0x60ff, 2)], [(0x4000, 300), (0x2000, 256)], [(0x6010, 1000), (0x800, 5)],
         [(0x2000, 0x2000)], [(0x4000, 0x2000)], [(0x6000, 0x2000)], [(0x6000, 0x2001)], [(0x6080, 0x2100)], [(0x6000, 0x2200)], [(0x6000, 0x2300), (0x800, 300)],
         [(0x2000, 0x2000), (0x2000, 0x2000)], [(0x4000, 0x2000), (0x2000, 0x2000), (0x6000, 100)], [(0x6000, 16), (0x6010, 16)], [(0x6020, 16), (0x6008, 16), (0x60f0, 32)],
         [(0x6000, 600), (0x6100, 5)], [(0x6100, 5), (0x6000, 600)], [(0x6000, 600), (0x6100, 5), (0x6000, 300)], [(0x800, 0x5800)], [(0x900 + 512 * i, 1 + 100 * i) for i in range(6)],
         [(0xbf00, 256), (0x300, 1)], [(0x2000, 0x1fff)], [(0x2000, 0x2100)], [(0x2000, 0x2001), (0x6000, 3)], [(0x2100, 0x2000)], [(0x20ff, 2), (0x40ff, 2), (0x3fff, 2)]]
BSAVE = [[(0x803, 5)], [(0x2000, 256)], [(0x1fff, 257)], [(0x4000, 10), (0x2000, 300)], [(0x2000, 10), (0x2100, 20), (0x2020, 4)], [(0x10, 3), (0xff00, 256)], [(0x2000, 16), (0x2008, 16)],
         [(0x2008, 16), (0x2000, 16)], [(0x2000, 100), (0x2010, 5), (0x2012, 1)]]


def check(rep):
    jobs = []
    xs, aps = list(XEX), list(APPLE)
    if rep.tier == "thorough":
        xs += [[(o, n)] for o in (0x80, 0x2fff, 0x80ff) for n in (1, 2, 127, 128, 129, 255, 256, 257, 1000)]
        aps += [[(0x6000 + o, n)] for o in (0, 1, 128, 255) for n in (1, 2, 255, 256, 257, 511, 512, 513, 767, 768, 769)]
        aps += [[(0x2000, 256 * n)] for n in (31, 32, 33, 34, 63, 64, 65, 66)]
    for c in xs:
        jobs.append(("xex %s" % c, lambda r, c=c: xex(r, c)))
        jobs.append(("kboot %s" % c, lambda r, c=c: kboot(r, c)))
    for c in BSAVE:
        runs = [None] + ([min(o for o, n in c), c[-1][0] + 1 if c[-1][1] > 1 else c[-1][0]] if min(o for o, n in c) >= 3 else [])
        for run in runs:
            jobs.append(("bsave %s %s" % (c, run), lambda r, c=c, run=run: bsave(r, c, run)))
    for c in aps:
        jobs.append(("apple %s" % c, lambda r, c=c: apple(r, c)))
    for c, o, k in KINDS:
        jobs.append(("name %s %s" % (c, o), lambda r, c=c, o=o, k=k: by_name(r, c, o, k)))
    for o, c in (("a.atr", "KBootImage"), ("A.ATR", "KBootImage"), ("a.dsk", "StandardDeliveryImage"), ("A.b.Dsk", "StandardDeliveryImage"), ("a.atr.dsk", "StandardDeliveryImage"), ("a.dsk.atr", "KBootImage"), ("noext", None), ("a.xfd", None), ("a.atr.txt", None)):
        jobs.append(("boot name %s" % o, lambda r, c=c, o=o: boot_kind(r, o, c)))
    for command in ("assemble", "boot"):
        for data, obj, want in LINES:
            jobs.append(("cli %s %s" % (command, data), lambda r, c=command, d=data, o=obj, w=want: cli(r, c, d, o, w)))
    parallel(rep, jobs)
