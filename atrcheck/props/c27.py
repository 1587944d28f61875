"""C27: the segments of an image are its parts, at their places."""
from ..disk import *
from .c30 import Sparta, Enhanced

EXPLANATION = ("parse_segments is interpreted on abstract disks (single, double and enhanced density Atari DOS, DOS 3.3 with catalogs of several lengths, SpartaDOS, KBoot, boot disks, "
               "disks without a file system) whose structures are constants and whose other bytes are unknown.  For each part the format documents - container header, all sectors, boot record "
               "with header and code at their load addresses, allocation table, directory, each listed file - the segment must contain exactly the bytes of that part of the image in order "
               "(compared as terms, so for all contents), carry its address, name each byte by its sector and offset, and have the comments on the fields of tables at the first byte of the field.  "
               "Truncated Atari executables are parsed for every length: the complete segments and the rest must be there, nothing may be counted twice.")
ASSUMPTIONS = ["the parts and their order are those of the published formats (Atari DOS 2/2.5, SpartaDOS, DOS 3.3: boot stages at 0800, 3700, 1B00 and 1D00 covering the 37 sectors that are loaded)",
               "a zero-length header segment of an image without container header is allowed"]
MINIMUM = 60
WA, WD, WS, WG = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/spartados.py", "atrcopy/segments.py"
R_PART, R_ADDR, R_LABEL, R_NOTE, R_STYLE, R_CUT = ("a segment holds exactly its part of the image", "a segment has the address of its part", "a byte is named by its sector and offset",
                                          "a comment is at the first byte of its field", "tables are marked as data", "damaged executables")


DATA = object()


class Part:
    def __init__(self, name, offs, origin=None, label=None):
        """offs: offsets in the image; label: function(index) -> text"""
        self.name, self.offs, self.origin, self.label = name, offs, origin, label


def run_of(start, n):
    return range(start, start + n)


def secs(im, first, n):
    """[(offset, sector, byte)] of sectors in order"""
    out = []
    for s in range(first, first + n):
        out += [(im.pos(s) + i, s, i) for i in range(im.size_of(s))]
    return out


def atari_label(cells):
    return lambda i: "s%03d:%02x" % cells[i][1:]


def apple_label(cells):
    return lambda i: "t%02ds%02d:%02x" % (cells[i][1] // 16, cells[i][1] % 16, cells[i][2])


def sector_part(name, im, first, n, label):
    cells = secs(im, first, n)
    return Part(name, [c[0] for c in cells], None, label(cells))


def length(it, st, sg):
    r = method(it, st, sg, "__len__")
    return r[0][2].v if len(r) == 1 and r[0][0] == "n" and type(r[0][2]) is C else None


def points(n):
    """positions to look at: all of short parts, else the ends and a grid that
    meets every residue of small sector sizes"""
    if n <= 4200:
        return range(n)
    return sorted(set(list(range(0, n, 125)) + list(range(300)) + list(range(n - 300, n)) + [i for k in range(0, n, 128) for i in (k, k + 127) if i < n]))


def elem(it, st, sg, i):
    r = [v for k, x, v in method(it, st, sg, "__getitem__", C(i)) if k == "n"]
    return r[0] if len(r) == 1 else None


def expect_part(rep, im, run, con, sg, p, w):
    it, st = run.it, run.st
    n = length(it, st, sg)
    if n is None:
        rep.und(R_PART, con, "length")
        return
    if n != len(p.offs):
        rep.bad(R_PART, con, w, "the segment has %d bytes, the part of the image has %d" % (n, len(p.offs)))
        return
    und = 0
    for i in points(n):
        t = elem(it, st, sg, i)
        want = im.unknown(p.offs[i])
        if t == want:
            continue
        if t is None or not (type(t) is C or type(t) is T and t.op == "load8" and t.args[0].args[1] == ()):
            und += 1
            continue
        rep.bad(R_PART, con, w, "byte %d of the segment is %s, not byte %d of the image" % (i, place(t), p.offs[i]))
        return
    if und:
        rep.und(R_PART, con, "%d bytes not determined" % und)
    else:
        rep.ok(R_PART, con, "%d bytes" % n)
    if p.origin is not None:
        v = it.obj(st, sg).attrs.get("origin")
        if type(v) is not C:
            rep.und(R_ADDR, con, str(v)[:60])
        elif v.v != p.origin:
            rep.bad(R_ADDR, con, w, "the segment is at %04x, the part is loaded at %04x" % (v.v, p.origin))
        else:
            rep.ok(R_ADDR, con)
    if p.label is not None:
        bad = und = 0
        pts = [i for i in points(n) if n <= 600 or i < 520 or i % 125 == 0 or i % 128 in (0, 127)][:1500]
        for i in pts:
            for low in (True, False):
                r = method(it, st, sg, "label", C(i), C(low))
                if len(r) != 1 or r[0][0] != "n" or type(r[0][2]) is not C:
                    if len(r) == 1 and r[0][0] == "x":
                        bad = bad or (i, xname(r[0][2]))
                    und += 1
                    continue
                want = p.label(i)
                if not low:
                    want = want[:want.index(":")] + want[want.index(":"):].upper()
                if r[0][2].v != want:
                    bad = bad or (i, r[0][2].v, want)
        if bad:
            rep.bad(R_LABEL, con, WG, "byte %d is named %s" % (bad[0], " instead of ".join(str(b) for b in bad[1:])))
        elif und:
            rep.und(R_LABEL, con, "%d names not determined" % und)
        else:
            rep.ok(R_LABEL, con, "%d bytes" % len(pts))


def place(t):
    if type(t) is C:
        return "the constant %s" % t.v
    return "byte %s" % (t.args[1].v if type(t.args[1]) is C else t.args[1])


def segments_of(it, st, img):
    v = it.obj(st, img).attrs["segments"]
    o = it.obj(st, v)
    if type(o) is Inst and "$list" in o.attrs:
        o = it.obj(st, o.attrs["$list"])
    return list(o.items) if type(o) is Lst and o.exact else None


def parse(rep, im, con, parts, w, notes=None, files=(), table=()):
    """parts: expected segments; files: [(name, offsets)] at the end; notes: {offset: text}"""
    run = Run(im)
    outs = method(run.it, run.st, run.img, "parse_segments")
    e = run.one(outs, "parse_segments")
    if e is not None:
        rep.bad(R_PART, con, w, "listing the segments ends in %s" % xname(e))
        return
    it, st = run.it, run.st
    got = segments_of(it, st, run.img)
    if got is None:
        rep.und(R_PART, con, "list of segments not determined")
        return
    parts = list(parts) + [Part(n, o, a) for n, o, a in files]
    if got and length(it, st, got[0]) == 0 and len(got) == len(parts) + 1:
        got = got[1:]
    if len(got) != len(parts):
        rep.bad(R_PART, con, w, "%d segments are listed, the image has %d parts (%s)" % (len(got), len(parts), ", ".join(p.name for p in parts)))
        return
    rep.ok(R_PART, con + ": number of segments", str(len(got)))
    for sg, p in zip(got, parts):
        expect_part(rep, im, run, "%s: %s" % (con, p.name), sg, p, w)
    for (n, o, a), sg in zip(files, got[len(parts) - len(files):]):
        nm = it.obj(st, sg).attrs.get("name")
        if type(nm) is C and isinstance(nm.v, str):
            if n not in nm.v:
                rep.bad(R_PART, "%s: name of %s" % (con, n), w, "the segment of the file is called %r" % nm.v)
            else:
                rep.ok(R_PART, "%s: name of %s" % (con, n))
    if notes is not None:
        comments(rep, run, con, notes, w)
    # tables are marked as data, nothing else of the image is touched
    s = Ar("S", C(0), C(im.size))
    r = [v.v for k, x, v in calls(it, st, gval("segments", "get_style_bits"), data=C(True)) if k == "n" and type(v) is C]
    for lo, n, val in table if len(r) == 1 else ():
        if val is DATA:
            val = r[0]
        bad = [i for i in range(lo, lo + n) if byte_at(it, st, s, i) != C(val)]
        if not bad:
            rep.ok(R_STYLE, "%s: %d bytes at %d" % (con, n, lo))
        else:
            v = byte_at(it, st, s, bad[0])
            if type(v) is C:
                rep.bad(R_STYLE, "%s: %d bytes at %d" % (con, n, lo), w, "byte %d of the image has style %02x instead of %02x" % (bad[0], v.v, val))
            else:
                rep.und(R_STYLE, "%s: %d bytes at %d" % (con, n, lo), str(v)[:60])
    rep.absorb(it)


def comments(rep, run, con, want, w):
    it, st = run.it, run.st
    raw = it.obj(st, run.img).attrs["rawdata"]
    o = it.obj(st, it.obj(st, it.obj(st, raw).attrs["extra"]).attrs["comments"])
    if type(o) is not Dct or o.open_ is not None or any(type(k) is not C or type(v) is not C for k, v in o.items):
        rep.und(R_NOTE, con, "comments not determined")
        return
    got = {k.v: v.v for k, v in o.items}
    for k in sorted(set(got) | set(want)):
        c = "%s: comment at byte %d" % (con, k)
        a, b = got.get(k), want.get(k)
        if b is None:
            rep.bad(R_NOTE, c, w, "there is a comment '%s', but no field begins there" % a)
        elif a is None:
            rep.bad(R_NOTE, c, w, "the field beginning there has no comment (%s)" % " ".join(b))
        elif all(x in a.lower() for x in b):
            rep.ok(R_NOTE, c)
        else:
            rep.bad(R_NOTE, c, w, "the comment is '%s', the field is: %s" % (a, " ".join(b)))


# ------------------------------------------------------------------ Atari

def at(base, d):
    return {base + k: v for k, v in d.items()}


VTOC = {0: ["type"], 1: ["total", "sectors"], 3: ["free sectors"], 5: ["reserved"], 6: ["unused"], 10: ["bit map"], 100: ["unused"]}
VTOC2 = {0: ["repeat"], 0x44: ["bit map"], 0x7a: ["free sectors"], 0x7c: ["unused"]}
DIR = {0: "flag", 1: "number of sectors", 3: "starting sector", 5: "filename", 13: "extension"}


def atari_notes(im):
    n = at(im.pos(360), VTOC)
    for i in range(64):
        n.update({im.pos(361) + 16 * i + k: ["#%d:" % i, v] for k, v in DIR.items()})
    return n


def boot_parts(im, flag, num, addr, hdr, first=1):
    im.put(im.pos(1), struct.pack("<BBHH", flag, num, addr, addr ^ 0x1553))
    if flag:
        return []
    offs = [c[0] for c in secs(im, 1, max(num, 1))]
    return [Part("boot sectors", offs, addr), Part("boot header", offs[:hdr], addr), Part("boot code", offs[hdr:], addr + hdr)]


def all_sectors(im, n):
    return sector_part("all sectors", im, 1, n, atari_label)


class Xfd(Image):
    """the same disk without a container header"""
    ext = ".xfd"

    def __init__(self, im):
        self.im, self.cls, self.ss, self.payload = im, im.cls, im.ss, im.payload
        Image.__init__(self, im.name, im.size - 16)
        self.b = {k - 16: v for k, v in im.b.items() if k >= 16}

    def pos(self, s):
        return self.im.pos(s) - 16

    def size_of(self, s):
        return self.im.size_of(s)


def atari(rep, con, ss, flag, num, addr, xfd=False):
    im = Atari("c27", range(600, 620), [entry_atari(0x42, 2, 50, b"ONE", b"DAT"), entry_atari(0x80, 1, 70, b"GONE", b""), entry_atari(0x62, 1, 4, b"TWO", b"")], ss=ss)
    im.chain([50, 700], 0, 9)
    im.chain([4], 2, 1)
    if xfd:
        im = Xfd(im)
    p = im.payload
    boot = boot_parts(im, flag, num, addr, 20)
    files = [("ONE.DAT", list(run_of(im.pos(50), p)) + list(run_of(im.pos(700), 9)), None), ("TWO", list(run_of(im.pos(4), 1)), None)]
    head = [] if xfd else [Part("ATR header", run_of(0, 16), 0)]
    parse(rep, im, con, head + [all_sectors(im, 720)] + boot + [sector_part("VTOC", im, 360, 1, atari_label), sector_part("directory", im, 361, 8, atari_label)], WA,
          atari_notes(im), files, [(im.pos(360), ss * 9, DATA), (im.pos(1), im.pos(360) - im.pos(1), 0), (im.pos(369), im.size - im.pos(369), 0)])


def enhanced(rep, con):
    im = Enhanced([entry_atari(0x42, 1, 300, b"LOW", b"")])
    im.name = "c27"
    im.chain([300], 0, 9)
    boot = boot_parts(im, 0, 3, 0x700, 20)
    n = atari_notes(im)
    parts = [Part("ATR header", run_of(0, 16), 0), all_sectors(im, 1040)] + boot + [sector_part("VTOC", im, 360, 1, atari_label)]
    parts.append(sector_part("VTOC2", im, 1024, 1, atari_label))
    n.update(at(im.pos(1024), VTOC2))
    parse(rep, im, con, parts + [sector_part("directory", im, 361, 8, atari_label)], WA, n, [("LOW", list(run_of(im.pos(300), 9)), None)])


def bootdisk(rep, con, n, num, addr):
    im = plain(n, "BootDiskImage")
    boot = boot_parts(im, 0, num, addr, 6)
    parse(rep, im, con, [Part("ATR header", run_of(0, 16), 0), all_sectors(im, n)] + boot, WA, {})


class Plain(Image):
    ss, ext = 128, ".atr"
    pos, size_of = Atari.pos, Atari.size_of


def plain(n, cls):
    im = Plain("c27", 16 + 128 * n)
    im.cls = cls
    im.put(0, struct.pack("<HHHBLBL", 0x296, n * 8, 128, 0, 0, 0, 0)[:16].ljust(16, b"\0"))
    return im


def unidentified(rep, con, n):
    im = plain(n, "AtariDiskImage")
    parse(rep, im, con, [Part("ATR header", run_of(0, 16), 0), all_sectors(im, n)], WA, {})


def kboot(rep, con, n):
    im = plain(3 + -(-n // 128), "KBootImage")
    im.put(16, bytes([0, 3, 0, 7, 0x14, 7, 0x4c, 0x14, 7]))
    im.put(16 + 9, struct.pack("<L", n)[:3])
    parse(rep, im, con, [Part("ATR header", run_of(0, 16), 0), all_sectors(im, (im.size - 16) // 128), Part("executable", run_of(16 + 384, n))], "atrcopy/kboot.py", {})


# ---------------------------------------------------------------- DOS 3.3

V33 = {0: ["unused"], 1: ["track", "catalog"], 2: ["sector", "catalog"], 3: ["release"], 4: ["unused"], 6: ["volume"], 7: ["unused"], 0x27: ["pairs"], 0x28: ["unused"], 0x30: ["last track"], 0x31: ["direction"],
       0x32: ["unused"], 0x34: ["tracks per disk"], 0x35: ["sectors per track"], 0x36: ["bytes per sector"]}
C33 = {0: ["unused"], 1: ["track"], 2: ["sector"], 3: ["unused"]}
E33 = {0: "track", 1: "sector", 2: "type", 3: "filename", 0x21: "number of sectors"}


def dos33(rep, con, ncat):
    im = Dos33("c27", range(500, 520), [entry_dos33(18, 0, 4, b"PROG", 2), entry_dos33(18, 2, 0, b"TEXT", 2), entry_dos33(18, 4, 0x84, b"LOCKED", 3)], ncat=ncat)
    im.tslist(288, [300])
    im.put(im.pos(300), struct.pack("<HH", 0x4000, 100))
    im.tslist(290, [16])
    im.tslist(292, [400, 40])
    im.put(im.pos(400), struct.pack("<HH", 0x300, 400))
    im.put(im.pos(300) + 4, [0])
    sect = lambda a, n: [c[0] for c in secs(im, a, n)]
    n = at(im.pos(272), V33)
    n.update({im.pos(272) + 0x38 + 4 * t: ["free", "track %d" % t] for t in range(35)})
    num = 0
    for s in im.cat:
        n.update(at(im.pos(s), C33))
        for j in range(7):
            n.update({im.pos(s) + 11 + 35 * j + k: ["#%d:" % num, v] for k, v in E33.items()})
            num += 1
    cat = [o for s in im.cat for o in run_of(im.pos(s), 256)]
    parts = [sector_part("all sectors", im, 0, 560, apple_label), Part("boot 1", sect(0, 1), 0x800), Part("boot 2", sect(1, 9), 0x3700), Part("relocator", sect(10, 2), 0x1b00), Part("boot 3", sect(12, 25), 0x1d00),
             sector_part("VTOC", im, 272, 1, apple_label), Part("catalog", cat)]
    parse(rep, im, con, parts, WD, n, [("PROG", sect(300, 1), 0x3ffc), ("TEXT", sect(16, 1), 0), ("LOCKED", sect(400, 1) + sect(40, 1), 0x2fc)], [(im.pos(s), 256, DATA) for s in [272] + im.cat] + [(im.pos(300), 4, DATA), (im.pos(300) + 4, 252, 0), (im.pos(16), 256, 0)])


def sparta(rep, con, ss, num):
    im = Sparta(ss, [(b"ONE", b"TXT", 5, [10], [11]), (b"TWO", b"", ss + 7, [12], [20, 19])])
    im.name = "c27"
    im.put(im.pos(1) + 1, [num])
    offs = [c[0] for c in secs(im, 1, max(num, 1))]
    parts = [Part("ATR header", run_of(0, 16), 0), all_sectors(im, 720), Part("boot header", offs[:43], 0x3000)]
    if num:
        parts += [Part("boot sectors", offs, 0x3000), Part("boot code", offs[43:], 0x3000 + 43)]
    d = [o for s in im.dirs for o in run_of(im.pos(s), ss)][:23 * 3]
    parts += [sector_part("bitmap", im, 4, 1, atari_label), Part("directory", d)]
    parse(rep, im, con, parts, WS, {}, [("ONE.TXT", list(run_of(im.pos(11), 5)), None), ("TWO", list(run_of(im.pos(20), ss)) + list(run_of(im.pos(19), 7)), None)])


# ----------------------------------------------------- damaged executables

SEGS = [(0x4000, 5), (0x2e0, 2), (0x8000, 1)]


def cut(rep, con, marks):
    """an executable of three segments, cut off at every length"""
    b, where = {}, []
    p = 0
    for i, (a, n) in enumerate(SEGS):
        if i in marks:
            b[p], b[p + 1] = 255, 255
            p += 2
        for j, x in enumerate(struct.pack("<HH", a, a + n - 1)):
            b[p + j] = x
        where.append((p, p + 4, a, n))
        p += 4 + n
    for size in range(2, p + 1):
        models.IMAGES["c27x"] = {k: v for k, v in b.items() if k < size}
        it = mkit(Exact(), 3000000)
        st = storage(storage(St(), "D", C(size), ("img", "c27x")), "S", C(size), ("zeros",))
        un = lambda i: C(b[i]) if i in b else mk("load8", mk("content", ("img", "c27x"), ()), C(i), kind="byte")
        data = [v.v for k, x, v in calls(it, st, gval("segments", "get_style_bits"), data=C(True)) if k == "n" and type(v) is C]
        want = []           # (offsets, origin)
        heads = set()
        for hp, dp, a, n in where:
            if hp >= size:
                break
            if size < dp:
                want.append((range(hp, size), None))
            elif size < dp + n:
                if size > hp:
                    want.append((range(dp, size), a))
            else:
                want.append((range(dp, dp + n), a))
        c = "%s, %d of %d bytes" % (con, size, p)
        for k, x, raw in calls(it, st, classval("SegmentData"), Ar("D", C(0), C(size)), Ar("S", C(0), C(size))):
            for k, y, f in calls(it, x, classval("AtariDosFile"), raw):
                for k, z, v in method(it, y, f, "parse_segments"):
                    if k == "x":
                        # a lone mark byte of a later segment
                        rep.bad(R_CUT, c, WA, "parsing ends in %s" % xname(v))
                        continue
                    got = segments_of(it, z, f)
                    if got is None:
                        rep.und(R_CUT, c, "segments not determined")
                        continue
                    res = []
                    for sg in got:
                        n = length(it, z, sg)
                        res.append(([elem(it, z, sg, i) for i in range(n)] if n is not None else None, it.obj(z, sg).attrs.get("origin")))
                    exp = [([un(i) for i in o], a) for o, a in want]
                    lone = [i for i, (hp, dp, a, n) in enumerate(where) if i in marks and i and size == hp - 1]
                    if lone:
                        exp.append(([un(size - 1)], None))
                    if any(r[0] is None or None in r[0] for r in res):
                        rep.und(R_CUT, c, "bytes not determined")
                    elif len(res) != len(exp) or any(r[0] != e[0] for r, e in zip(res, exp)):
                        rep.bad(R_CUT, c, WA, "the segments have %s bytes; in the file there are %s" % ([len(r[0]) for r in res], [len(e[0]) for e in exp]))
                    elif any(e[1] is not None and type(r[1]) is C and r[1].v != e[1] for r, e in zip(res, exp)):
                        rep.bad(R_CUT, c, WA, "a segment has another address than in the file")
                    else:
                        rep.ok(R_CUT, c)
                    # the headers read are marked as data, the bytes of the segments are not
                    sty = Ar("S", C(0), C(size))
                    for i, (hp, dp, a, n) in enumerate(where):
                        if size < dp or len(data) != 1:
                            break
                        for j in list(range(hp - (2 if i in marks else 0), min(dp + n, size))):
                            t, q = byte_at(it, z, sty, j), data[0] if j < dp else 0
                            if type(t) is not C:
                                rep.und(R_STYLE, c, "byte %d" % j)
                                break
                            if t.v != q:
                                rep.bad(R_STYLE, c, WA, "byte %d of the file (%s of segment %d) has style %02x instead of %02x" % (
                                    j, "header" if j < dp else "data", i, t.v, q))
                                break
                        else:
                            rep.ok(R_STYLE, c + ": segment %d" % i)
        rep.absorb(it)


# ------------------------------------------------- damaged files, BSAVE files

R_FILE, R_BSAVE = "a damaged file does not hide the others", "BSAVE files"


def damaged(rep, con, kind):
    """three files, the middle one damaged: its segment is empty and says why"""
    if kind.startswith("DOS 3.3"):
        im = Dos33("c27", range(500, 520), [entry_dos33(18, 0, 0, b"GOOD", 2), entry_dos33(18, 2, 0, b"HURT", 2), entry_dos33(18, 4, 0, b"LAST", 2)], ncat=15)
        im.tslist(288, [300])
        im.tslist(290, [301], nxt=290)
        im.tslist(292, [302])
        good, last = run_of(im.pos(300), 256), run_of(im.pos(302), 256)
        w = WD
    else:
        im = Atari("c27", range(600, 620), [entry_atari(0x42, 1, 50, b"GOOD", b""), entry_atari(0x42, 2, 70, b"HURT", b""), entry_atari(0x42, 1, 90, b"LAST", b"")])
        im.chain([50], 0, 10)
        im.chain([90], 2, 20)
        if "cyclic" in kind:
            im.link(70, 71, 1, 125)
            im.link(71, 70, 1, 125)
        elif "number" in kind:
            im.chain([70, 71], 5, 3)
        else:
            im.link(70, 900, 1, 125)
        good, last = run_of(im.pos(50), 10), run_of(im.pos(90), 20)
        w = WA
    run = Run(im)
    e = run.one(method(run.it, run.st, run.img, "get_file_segments"), "get_file_segments")
    if e is not None:
        rep.bad(R_FILE, con, w, "listing the files ends in %s" % xname(e))
        return
    it, st = run.it, run.st
    rv = run.val
    o = it.obj(st, rv)
    if type(o) is not Lst or not o.exact:
        rep.und(R_FILE, con, "list of segments not determined")
        return
    got = list(o.items)
    if len(got) != 3:
        rep.bad(R_FILE, con, w, "%d segments for three listed files" % len(got))
        return
    for sg, p in ((got[0], Part("GOOD", good)), (got[2], Part("LAST", last))):
        expect_part(rep, im, run, "%s: %s" % (con, p.name), sg, p, w)
    a = it.obj(st, got[1]).attrs
    n = length(it, st, got[1])
    nm, er = a.get("name"), a.get("error")
    if n is None or type(nm) is not C:
        rep.und(R_FILE, con, "damaged file")
    elif n != 0 or "HURT" not in nm.v:
        rep.bad(R_FILE, con, w, "the damaged file is listed as %r with %d bytes" % (nm.v, n))
    elif er == C(None) or er == C(""):
        rep.bad(R_FILE, con, w, "the segment of the damaged file does not carry the error")
    else:
        rep.ok(R_FILE, con)
    rep.absorb(it)


def bsave(rep, con):
    for size in (0, 1, 3, 4, 5, 7, 260):
        for count in {0, 1, size - 5, size - 4, size - 3, 65535}:
            if count < 0 or size < 4 and count:
                continue
            c = "%s: %d bytes, header says %d" % (con, size, count)
            b = dict(enumerate(struct.pack("<HH", 0x9600, count)))
            models.IMAGES["c27b"] = {k: v for k, v in b.items() if k < size}
            it = mkit(Exact(), 3000000)
            st = storage(storage(St(), "D", C(size), ("img", "c27b")), "S", C(size), ("zeros",))
            valid = size >= 4 and count == size - 4
            for k, x, raw in calls(it, st, classval("SegmentData"), Ar("D", C(0), C(size)), Ar("S", C(0), C(size))):
                for k, y, f in calls(it, x, classval("Dos33BinFile"), raw):
                    for k, z, v in method(it, y, f, "parse_segments"):
                        if k == "x":
                            if valid:
                                rep.bad(R_BSAVE, c, WD, "a valid file is refused with %s" % xname(v))
                            elif xname(v) in ("InvalidBinaryFile",):
                                rep.ok(R_BSAVE, c)
                            else:
                                rep.bad(R_BSAVE, c, WD, "an invalid file ends in %s" % xname(v))
                            continue
                        got = segments_of(it, z, f)
                        if not valid:
                            rep.bad(R_BSAVE, c, WD, "the file is accepted")
                        elif got is None:
                            rep.und(R_BSAVE, c, "segments not determined")
                        else:
                            n = [length(it, z, g) for g in got]
                            o = [it.obj(z, g).attrs.get("origin") for g in got]
                            e = [elem(it, z, got[0], i) for i in range(n[0])] if n == [count] else []
                            if n != [count] or o != [C(0x9600)]:
                                rep.bad(R_BSAVE, c, WD, "segments of %s bytes at %s" % (n, [x.v if type(x) is C else "?" for x in o]))
                            elif e != [mk("load8", mk("content", ("img", "c27b"), ()), C(4 + i), kind="byte") for i in range(count)]:
                                rep.bad(R_BSAVE, c, WD, "the segment does not hold the data behind the header")
                            else:
                                rep.ok(R_BSAVE, c)
            rep.absorb(it)


def labels(rep, con, cls, fmt):
    """sector segments made directly: any first sector, boot sectors of their own size"""
    for first, boots, bsize, ss in ((1, 3, 128, 256), (1, 3, 128, 128), (0, 0, 256, 256), (287, 0, 0, 256), (361, 0, 0, 128), (5, 2, 64, 512), (1, 1, 512, 512), (1000, 0, 128, 256)):
        size = boots * bsize + 4 * ss
        it = mkit(Exact(), 6000000)
        st = storage(storage(St(), "D", C(size), ("img", "c27l")), "S", C(size), ("zeros",))
        models.IMAGES["c27l"] = {}
        cells = [(i, j) for i in range(boots) for j in range(bsize)] + [(boots + i, j) for i in range(4) for j in range(ss)]
        pts = [i for i, (s, j) in enumerate(cells) if j in (0, 1, 77, 127, 128, 255) or j == (bsize if s < boots else ss) - 1]
        c = "%s from sector %d, %d boot sectors of %d, %d" % (con, first, boots, bsize, ss)
        bad = None
        und = 0
        for k, x, raw in calls(it, st, classval("SegmentData"), Ar("D", C(0), C(size)), Ar("S", C(0), C(size))):
            for k, y, g in calls(it, x, classval(cls), raw, C(first), C(boots + 4), C(size), C(bsize), C(boots), C(ss)):
                if k == "x":
                    rep.bad(R_LABEL, c, WG, "making the segment ends in %s" % xname(g))
                    continue
                for i in pts:
                    s, j = cells[i]
                    for low in (True, False):
                        r = method(it, y, g, "label", C(i), C(low))
                        want = fmt(first + s) + ":" + ("%02x" if low else "%02X") % j
                        if len(r) == 1 and r[0][0] == "x":
                            bad = bad or (i, xname(r[0][2]), want)
                        elif len(r) != 1 or type(r[0][2]) is not C:
                            und += 1
                        elif r[0][2].v != want:
                            bad = bad or (i, r[0][2].v, want)
        if bad:
            rep.bad(R_LABEL, c, WG, "byte %d is named %s instead of %s" % bad)
        elif und:
            rep.und(R_LABEL, c, "%d names not determined" % und)
        else:
            rep.ok(R_LABEL, c, "%d names" % (2 * len(pts)))
        rep.absorb(it)


def opened(rep, f, con, *a):
    try:
        f(rep, con, *a)
    except Open as e:
        rep.und(R_PART, con, str(e))


def check(rep):
    jobs = []

    def job(con, f, *a):
        jobs.append((con, lambda r: opened(r, f, con, *a)))
    for ss in (128, 256):
        for flag, num, addr in ((0, 3, 0x700), (0, 1, 0x3000), (0, 9, 0x2000), (2, 3, 0x700)):
            job("Atari DOS %d, boot record %d/%d/%04x" % (ss, flag, num, addr), atari, ss, flag, num, addr)
        for num in (3, 1, 0, 5):
            job("SpartaDOS %d, %d boot sectors" % (ss, num), sparta, ss, num)
        job("Atari DOS %d without header" % ss, atari, ss, 0, 3, 0x700, True)
    job("DOS 2.5 enhanced density", enhanced)
    for n, num, addr in ((720, 3, 0x700), (40, 40, 0x3000), (720, 1, 0x600), (720, 130, 0x2000)):
        job("boot disk of %d sectors, %d loaded" % (n, num), bootdisk, n, num, addr)
    for n in (720, 4, 1040):
        job("disk of %d sectors without a file system" % n, unidentified, n)
    for n in (1, 128, 300, 5000):
        job("KBoot executable of %d bytes" % n, kboot, n)
    for ncat in (15, 1, 3):
        job("DOS 3.3, catalog of %d sectors" % ncat, dos33, ncat)
    for m in ((0,), (0, 1), (0, 2), (0, 1, 2)):
        job("executable with marks before %s" % (m,), cut, m)
    for k in ("Atari DOS, cyclic chain", "Atari DOS, foreign file number", "Atari DOS, link beyond the disk", "DOS 3.3, cyclic track/sector list"):
        job("damaged file: " + k, damaged, k)
    job("BSAVE file", bsave)
    job("sector segment", labels, "RawSectorsSegment", lambda s: "s%03d" % s)
    job("track and sector segment", labels, "RawTrackSectorSegment", lambda s: "t%02ds%02d" % divmod(s, 16))
    parallel(rep, jobs)
