"""C30: files read back byte for byte."""
from ..cli import *
from ..disk import *

EXPLANATION = ("Provenance of file contents.  Abstract disks have constant structures and unknown contents; write_file, delete_file and get_file "
               "are interpreted on them and every byte that is read is traced to the byte it came from.  Round trips: for families of free maps and "
               "file lengths at and next to sector boundaries, the file read through the same image object and through a fresh load of the resulting "
               "bytes must consist of the bytes given, in order, and nothing else (DOS 3.3: followed by at most the rest of the last sector).  Histories: "
               "after every addition and deletion all other files still consist of their own bytes.  Readers: files laid out by an independent encoder "
               "(Atari DOS 2 single, double and enhanced density, MyDOS, DOS 3.3 with several lists, SpartaDOS with several map sectors, KBoot) are read as exactly the "
               "bytes in their extents.  Commands: on every path of add and extract what is stored is the host file's contents resp. the contents "
               "of the entry whose name is used, unchanged unless --text is given, and then only by replacing 0x7f by tab and 0x9b by newline; "
               "checksums are computed from the same contents.")
ASSUMPTIONS = ["free maps, lengths and histories are bounded by the listed families; contents are unknown bytes, so the result holds for all contents",
               "DOS 3.3 keeps no byte length for files: the rest of the last sector is not part of the comparison",
               "holes of sparse files are outside"]
MINIMUM = 100
WA, WD, WI = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/__init__.py"
PAY = {"128": 125, "256": 253, "dos33": 256}
LABEL = {"128": "Atari DOS, 128 byte sectors", "256": "Atari DOS, 256 byte sectors", "dos33": "DOS 3.3"}


def new(kind, free, entries=(), **k):
    if kind == "dos33":
        return Dos33("c30", free, entries, **k)
    return Atari("c30", free, entries, ss=int(kind), **k)


def where(kind):
    return WD if kind == "dos33" else WA


class Long(Exact):
    exact_list = 80000
    unroll = peel = 40000
    max_writes = 60000


def reload(run):
    """a second image object over the bytes as they are now"""
    outs = []
    im, it = run.im, run.it
    n = C(im.size)
    for k, x, raw in calls(it, run.st, classval("SegmentData"), im.D, Ar("S", C(0), n)):
        if k == "n":
            outs += calls(it, x, classval(im.cls), raw, C("f" + im.ext))
    if len(outs) != 1 or outs[0][0] != "n":
        raise Open("loading again has %d outcomes" % len(outs))
    r = object.__new__(Run)
    r.im, r.it, r.st, r.img = im, it, outs[0][1], outs[0][2]
    return r


def alive(run, name):
    """entries with this name that are in use"""
    out = []
    for n, d in files_of(run.it, run.st, run.img):
        if n is None:
            raise Open("file names not determined")
        if n == name:
            dead = [v for k, x, v in run.it.getattr(run.st, d, "deleted", CALL) if k == "n"]
            if dead and type(dead[0]) is C and dead[0].v:
                continue
            out.append(d)
    return out


def compare(rep, rule, con, w, got, want, pad):
    """pad: number of bytes that may follow"""
    if not isinstance(got, list):
        rep.bad(rule, con, w, "reading the file raises %s" % xname(got))
        return
    for i, t in enumerate(want):
        if i >= len(got):
            rep.bad(rule, con, w, "%d of %d bytes are read back" % (len(got), len(want)))
            return
        g = got[i]
        if g != t:
            if type(g) is C or type(g) is T and g.op == "load8" and type(g.args[1]) is C and g.args[0].args[1] == ():
                rep.bad(rule, con, w, "byte %d of the file is read as %s instead of %s" % (i, describe(g), describe(t)))
            else:
                rep.und(rule, con, "byte %d is %s" % (i, str(g)[:80]))
            return
    if len(got) > len(want) + pad:
        rep.bad(rule, con, w, "%d bytes are read back from a file of %d" % (len(got), len(want)))
        return
    rep.ok(rule, con)


def describe(t):
    if type(t) is T and t.op == "load8" and type(t.args[1]) is C:
        c = t.args[0].args[0]
        if c[0] == "tok":
            return "byte %d of the data %s" % (t.args[1].v, c[1])
        return "the original byte at offset %d of the image" % t.args[1].v
    return str(t)[:60]


def readback(rep, run, con, kind, name, terms):
    pad = (256 - len(terms) % 256) % 256 if kind == "dos33" else 0
    if kind == "dos33" and not terms:
        pad = 256
    for how, r in (("", run), (" after loading it again", None)):
        if r is None:
            r = reload(run)
        ds = alive(r, name)
        c = con + how
        if len(ds) != 1:
            rep.bad("round-trip", c, where(kind), "%d files named %s are listed" % (len(ds), name))
            continue
        sv = r.st
        got = r.read(ds[0])
        r.st = sv
        compare(rep, "round-trip", c, where(kind), got, terms, pad)
    # by name
    sv = run.st
    got = run.same(method(run.it, run.st, run.img, "find_file", C(name)), "find_file")
    run.st = sv
    compare(rep, "by-name", con, where(kind), got, terms, pad)


FAMILIES = {
    "128": [("contiguous", range(400, 412)), ("scattered", [4, 7, 8, 15, 16, 31, 100, 255, 256, 257, 359, 369, 511, 512, 719]),
            ("two gaps", [20, 21, 23, 24, 26, 27, 28, 30]), ("around the map", list(range(355, 360)) + list(range(369, 375)))],
    "dos33": [("contiguous", range(300, 310)), ("scattered", [17, 31, 32, 33, 47, 48, 254, 256, 271, 288, 303, 319, 559]),
              ("two gaps", [20, 21, 23, 24, 26, 27, 28, 30]), ("last", range(552, 560))],
}
FAMILIES["256"] = FAMILIES["128"]


def round_trip(rep, kind, label, free):
    p = PAY[kind]
    for n in (0, 1, 2, 3, 4, 5, p - 1, p, p + 1, 2 * p - 1, 2 * p, 2 * p + 1, 3 * p, 5 * p - 2):
        con = "%s, %s free sectors, %d bytes" % (LABEL[kind], label, n)
        guarded(rep, "round-trip", con, trip1, rep, kind, con, list(free), n)


def trip1(rep, kind, con, free, n, ft="B", name="FILE.BIN"):
    run = Run(new(kind, free), client=Long())
    x = run.write(name, ft, n, "W")
    if x is not None:
        rep.und("round-trip", con, "writing raises %s" % xname(x))
        return
    readback(rep, run, con, kind, name, run.terms)
    rep.absorb(run.it)


def types(rep, kind):
    for ft in ("T", "I", "A", "B", "S", "R", None) if kind == "dos33" else ("B", None):
        for name in ("X", "AUTORUN.SYS", "EIGHTCHR.EXT"):
            con = "%s, type %s, name %s" % (LABEL[kind], ft, name)
            guarded(rep, "round-trip", con, trip1, rep, kind, con, list(FAMILIES[kind][2][1]), 2 * PAY[kind] + 5, ft, name)


def long_file(rep, kind, n, free):
    con = "%s, %d bytes" % (LABEL[kind], n)
    guarded(rep, "round-trip", con, trip1, rep, kind, con, free, n)


HISTORIES = [
    [("+", "A", 3), ("+", "B", 1), ("-", "A"), ("+", "C", 4), ("-", "B"), ("+", "D", 2)],
    [("+", "A", 1), ("+", "B", 2), ("+", "C", 1), ("-", "B"), ("+", "D", 1), ("+", "B", 1), ("+", "F", 1)],
    [("+", "A", 2), ("-", "A"), ("+", "A", 3), ("-", "A"), ("+", "B", 3)],
    [("+", "A", 2), ("+", "B", 2), ("+", "C", 2), ("-", "A"), ("+", "A", 1), ("-", "C"), ("+", "C", 3)],
    [("+", "C", 2), ("+", "B", 0), ("+", "A", 1), ("-", "B"), ("-", "C"), ("+", "E", 3)],
]


def history(rep, kind, k, preexisting):
    p = PAY[kind]
    free = [s for s in FAMILIES[kind][1][1] if s != 271]
    known = {}
    if preexisting:
        if kind == "dos33":
            im = new(kind, free, [entry_dos33(20, 0, 4, b"OLD", 3), entry_dos33(21, 1, 0x80, b"OLD2", 2)])
            im.tslist(320, [322, 321])
            im.tslist(337, [330])
            known = {"OLD": [im.unknown(im.pos(s) + i) for s in (322, 321) for i in range(256)], "OLD2": [im.unknown(im.pos(330) + i) for i in range(256)]}
        else:
            im = new(kind, free, [entry_atari(0x42, 2, 90, b"OLD", b""), entry_atari(0x62, 1, 88, b"OLD2", b"")])
            im.chain([90, 85], 0, 17)
            im.chain([88], 1, p)
            known = {"OLD": [im.unknown(im.pos(90) + i) for i in range(p)] + [im.unknown(im.pos(85) + i) for i in range(17)], "OLD2": [im.unknown(im.pos(88) + i) for i in range(p)]}
    else:
        im = new(kind, free)
    run = Run(im)
    seq = ""
    for j, ev in enumerate(HISTORIES[k]):
        seq += " %s%s" % (ev[0], ev[1])
        con = "%s%s, history%s" % (LABEL[kind], " with files" if preexisting else "", seq)
        if ev[0] == "+":
            n = max(0, ev[2] * p - (7 if j % 2 else 0))
            x = run.write(ev[1], "B", n, "W%d" % j)
            if x is not None:
                rep.und("others-kept", con, "writing raises %s" % xname(x))
                return
            known[ev[1]] = run.terms
        else:
            x = run.delete(ev[1])
            if x is not None:
                rep.und("others-kept", con, "deleting raises %s" % xname(x))
                return
            known.pop(ev[1])
        for how in ("", " after loading it again"):
            r = reload(run) if how else run
            for name, terms in known.items():
                c = "%s: %s%s" % (con, name, how)
                ds = alive(r, name)
                if len(ds) != 1:
                    rep.bad("others-kept", c, where(kind), "%d files named %s are listed" % (len(ds), name))
                    continue
                sv = r.st
                got = r.read(ds[0])
                r.st = sv
                compare(rep, "others-kept", c, where(kind), got, terms, 256 if kind == "dos33" else 0)
            if how:
                names = [n for n, d in files_of(r.it, r.st, r.img) if alive(r, n)]
                extra = sorted(set(names) - set(known))
                if extra:
                    rep.bad("others-kept", con, where(kind), "%s is listed although it was deleted" % extra[0])
                else:
                    rep.ok("others-kept", con + ": nothing else listed")
    rep.absorb(run.it)


# ---------------------------------------------------------------- readers

def read_all(rep, im, wants, con, w, pad=0):
    run = Run(im, client=Long())
    for name, terms in wants.items():
        ds = alive(run, name)
        c = "%s: %s" % (con, name)
        if len(ds) != 1:
            rep.bad("reader", c, w, "%d files named %s are listed" % (len(ds), name))
            continue
        sv = run.st
        got = run.read(ds[0])
        run.st = sv
        compare(rep, "reader", c, w, got, terms, pad)
    rep.absorb(run.it)


def piece(im, s, n):
    return [im.unknown(im.pos(s) + i) for i in range(n)]


def atari_reader(rep, ss, chains, con):
    """chains: [(flag, [sectors], last byte count, mydos)]"""
    ents = [entry_atari(fl, len(ch), ch[0], b"F%d" % i, b"DAT") for i, (fl, ch, last, my) in enumerate(chains)]
    im = Atari("c30", range(600, 620), ents, ss=ss)
    wants = {}
    for i, (fl, ch, last, my) in enumerate(chains):
        im.chain(ch, i, last, my)
        t = []
        for j, s in enumerate(ch):
            t += piece(im, s, im.payload if j + 1 < len(ch) else last)
        wants["F%d.DAT" % i] = t
    read_all(rep, im, wants, con, WA)


def short_sectors(rep, ss):
    """sectors in the middle of a file need not be full (appended files)"""
    im = Atari("c30", range(600, 620), [entry_atari(0x42, 3, 50, b"APPEND", b"")], ss=ss)
    p = im.payload
    im.link(50, 51, 0, 9)
    im.link(51, 700, 0, p)
    im.link(700, 0, 0, 0)
    read_all(rep, im, {"APPEND": piece(im, 50, 9) + piece(im, 51, p)}, "Atari DOS %d, file with a short sector in the middle" % ss, WA)


class Enhanced(Atari):
    """DOS 2.5 enhanced density: 1040 sectors of 128 bytes"""

    def __init__(self, entries):
        Atari.__init__(self, "c30", range(600, 620), entries)
        self.size = 16 + 1040 * 128
        self.put(2, struct.pack("<H", 1040 * 8))


def enhanced(rep):
    im = Enhanced([entry_atari(0x42, 3, 300, b"LOW", b""), entry_atari(0x03, 3, 800, b"HIGH", b""), entry_atari(0x42, 3, 700, b"BOTH", b"")])
    im.chain([300, 301, 4], 0, 9)
    im.chain([800, 1023, 721], 1, 125)
    im.chain([700, 1000, 719], 2, 1)
    want = {"LOW": [(300, 125), (301, 125), (4, 9)], "HIGH": [(800, 125), (1023, 125), (721, 125)], "BOTH": [(700, 125), (1000, 125), (719, 1)]}
    del want["HIGH"]        # flags of files above sector 719 are not decided here
    read_all(rep, im, {n: [t for s, k in v for t in piece(im, s, k)] for n, v in want.items()}, "DOS 2.5 enhanced density", WA)


def dos33_reader(rep, what):
    if what == "lists":
        secs = list(range(320, 320 + 130))
        im = Dos33("c30", range(500, 520), [entry_dos33(18, 0, 4, b"LONG", 132), entry_dos33(18, 2, 0, b"TEXT", 2)])
        im.tslist(288, secs[:122], 289)
        im.tslist(289, secs[122:], 0, 122)
        im.tslist(290, [16])
        read_all(rep, im, {"LONG": [t for s in secs for t in piece(im, s, 256)], "TEXT": piece(im, 16, 256)}, "DOS 3.3, file of two lists", WD)
    elif what == "empty":
        im = Dos33("c30", range(500, 520), [entry_dos33(18, 0, 0, b"NOTHING", 1), entry_dos33(18, 1, 0x84, b"NOTHING2", 1), entry_dos33(18, 2, 0, b"TEXT", 2)])
        im.tslist(288, [])
        im.tslist(289, [])
        im.tslist(290, [16])
        read_all(rep, im, {"NOTHING": [], "NOTHING2": [], "TEXT": piece(im, 16, 256)}, "DOS 3.3, files without data sectors", WD)
    else:
        secs = [559, 16, 300, 301, 17, 255, 271, 288]
        im = Dos33("c30", range(500, 520), [entry_dos33(34, 14, 0x84, b"MIXED ORDER", len(secs) + 1)])
        im.tslist(558, secs)
        read_all(rep, im, {"MIXED ORDER": [t for s in secs for t in piece(im, s, 256)]}, "DOS 3.3, scattered file", WD)


class Sparta(Image):
    cls, ext = "SpartaDosDiskImage", ".atr"

    def __init__(self, ss, files):
        """files: [(name, ext, length, map sectors, data sectors)]"""
        self.ss = ss
        n = 720
        payload = n * ss if ss == 128 else 3 * 128 + (n - 3) * ss
        Image.__init__(self, "c30", 16 + payload)
        par = payload // 16
        self.put(0, struct.pack("<HHHBLBL", 0x296, par & 0xffff, ss, par >> 16, 0, 0, 0)[:16].ljust(16, b"\0"))
        boot = struct.pack("<BBHHBHHHHBHHH8sBBB", 0, 3, 0x3000, 0x3100, 0x4c, 0x3080, 5, n, 100, 1, 4, 50, 60, b"VOLUME  ", 40, 128 if ss == 128 else 0, 0x20)
        self.put(self.pos(1), boot)
        d = bytearray(23 * (len(files) + 1))
        d[0:23] = struct.pack("<BHHB8s3s6s", 0x28, 0, len(d), 0, b"MAIN    ", b"   ", bytes(6))
        self.wants = {}
        for i, (name, ex, ln, maps, data) in enumerate(files):
            o = 23 * (i + 1)
            d[o:o + 23] = struct.pack("<BHHB8s3s6s", 0x08, maps[0], ln & 0xffff, ln >> 16, name.ljust(8), ex.ljust(3), bytes([1, 2, 93, 4, 5, 6]))
            self.maps(maps, data)
            t = []
            for s in data:
                t += piece(self, s, self.size_of(s))
            self.wants[(name + (b"." + ex if ex else b"")).decode()] = t[:ln]
        self.dirs = list(range(600, 600 + -(-len(d) // ss)))
        self.maps([5], self.dirs)
        for i, x in enumerate(self.dirs):
            self.put(self.pos(x), d[i * ss:(i + 1) * ss].ljust(ss, b"\0"))

    pos, size_of = Atari.pos, Atari.size_of

    def maps(self, maps, data):
        per = (self.ss - 4) // 2
        for i, m in enumerate(maps):
            c = bytearray(self.ss)
            struct.pack_into("<HH", c, 0, maps[i + 1] if i + 1 < len(maps) else 0, maps[i - 1] if i else 0)
            for j, s in enumerate(data[i * per:(i + 1) * per]):
                struct.pack_into("<H", c, 4 + 2 * j, s)
            self.put(self.pos(m), c)


def sparta(rep, ss):
    per = (ss - 4) // 2
    im = Sparta(ss, [(b"ONE", b"TXT", 5, [10], [11]), (b"FULL", b"", 3 * ss, [12], [20, 19, 18]), (b"NIL", b"", 0, [15], []), (b"MANY", b"BIN", (per + 2) * ss + 7, [13, 300], list(range(100, 100 + per)) + [400, 399, 720]),
                     (b"EXACT", b"MAP", per * ss, [14], list(range(440, 440 + per)))])
    read_all(rep, im, im.wants, "SpartaDOS, %d byte sectors" % ss, "atrcopy/spartados.py")


def sparta_long(rep):
    n = 65536 + 300
    im = Sparta(256, [(b"BIG", b"", n, [10, 11, 12], list(range(100, 358))), (b"SMALL", b"", 3, [13], [14])])
    read_all(rep, im, im.wants, "SpartaDOS, file of more than 64 KB", "atrcopy/spartados.py")


def kboot(rep, n):
    """the payload of a KBoot image is the file"""
    pad = -n % 128
    size = 16 + 384 + n + pad
    im = Image("c30", size)
    im.cls, im.ext = "KBootImage", ".atr"
    par = (size - 16) // 16
    im.put(0, struct.pack("<HHHBLBL", 0x296, par & 0xffff, 128, par >> 16, 0, 0, 0)[:16].ljust(16, b"\0"))
    im.put(16, bytes([0, 3, 0, 7, 0x14, 7, 0x4c, 0x14, 7]))
    im.put(16 + 9, struct.pack("<L", n)[:3])
    run = Run(im)
    con = "KBoot payload of %d bytes" % n
    fs = files_of(run.it, run.st, run.img)
    if len(fs) != 1:
        rep.bad("reader", con, "atrcopy/kboot.py", "%d files are listed" % len(fs))
        return
    got = run.read(fs[0][1])
    compare(rep, "reader", con, "atrcopy/kboot.py", got, [im.unknown(16 + 384 + i) for i in range(n)], 0)
    rep.absorb(run.it)


# --------------------------------------------------------------- commands

OPT = lambda n: mk("sym", ("option", n))


def within(a, t):
    s = [t]
    while s:
        x = s.pop()
        if x == a:
            return True
        if type(x) is T:
            s.extend(x.args)
        elif isinstance(x, tuple):
            s.extend(x)
        elif type(x) is Tup:
            s.extend(x.items)
    return False


def stripped(t):
    while type(t) is T and t.op in ("tobytes", "bytes", "bytesof") and len(t.args) == 1:
        t = t.args[0]
    return t


def others(path, who):
    """other directory entries a path is made of"""
    out, s = [], [path]
    while s:
        x = s.pop()
        if type(x) is T:
            if x.op == "dirent" and x != who:
                out.append(x)
            s.extend(x.args)
        elif isinstance(x, tuple):
            s.extend(x)
    return out


class Cmd(CliClient):
    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep = rep
        self.n = 0

    def event(self, it, st, kind, data, node):
        fn = it.active[-1].qual if it.active else "?"
        if self.command == "extract" and kind == "fwrite":
            self.n += 1
            self.extracted(it, st, data, node, "extract: write in %s" % fn)
        if self.command in ("add", "assemble") and kind == "write_file":
            self.n += 1
            self.added(it, st, data, node, "%s: write_file in %s" % (self.command, fn))
        return st

    def extracted(self, it, st, data, node, con):
        path, mode, d = data
        d = stripped(d)
        text = query(st.facts, it.truth(st, mk("sym", ("option", "text"), kind="bool")))
        seen = []
        while type(d) is T and d.op == "m" and d.args[0] in ("replace", C("replace")):
            seen.append(tuple(a.v if type(a) is C else None for a in d.args[2:4]))
            d = stripped(d.args[1])
        if not (type(d) is T and d.op == "filecontents"):
            self.rep.und("extract-contents", con, "what is written is %s" % str(d)[:100])
            return
        who = d.args[0]
        if within(who, path) or type(who) is T and who.op == "dirent" and within(who.args[0], path):
            self.rep.ok("extract-contents", con, str(d)[:80])
        elif any(within(x, path) for x in others(path, who)):
            self.rep.bad("extract-contents", con, it.where(node), "the file %s gets the contents of %s" % (str(path)[:80], str(who)[:80]))
        else:
            self.rep.und("extract-contents", con, "the file %s gets the contents of %s" % (str(path)[:80], str(who)[:80]))
        want = {(b"\x7f", b"\t"), (b"\x9b", b"\n")}
        if text is True:
            if set(seen) == want and len(seen) == 2:
                self.rep.ok("text-conversion", con)
            elif any(None in s for s in seen):
                self.rep.und("text-conversion", con)
            else:
                self.rep.bad("text-conversion", con, it.where(node), "with --text the replacements are %s" % (seen,))
        elif seen and text is False:
            self.rep.bad("extract-contents", con, it.where(node), "without --text %s is replaced in the contents" % (seen,))
        elif seen and text is None:
            self.rep.bad("extract-contents", con, it.where(node), "%s is replaced in the contents whether or not --text is given" % (seen,))
        else:
            self.rep.ok("extract-plain", con)

    def added(self, it, st, data, node, con):
        if self.command == "assemble":
            want = mk("sym", "EXE_DATA", kind="bytes")
            got = stripped(data[3]) if len(data) > 3 else None
            if got == want:
                self.rep.ok("add-contents", con)
            elif type(got) is T:
                self.rep.und("add-contents", con, str(got)[:100])
            return
        got = stripped(data[3]) if len(data) > 3 else None
        if not (type(got) is T and got.op == "filedata"):
            self.rep.und("add-contents", con, "what is stored is %s" % str(got)[:100])
            return
        if len(got.args) > 1 and got.args[1] not in (C(-1), NONE):
            self.rep.bad("add-contents", con, it.where(node), "only %s bytes of the host file are read" % str(got.args[1])[:40])
            return
        name = data[1]
        if within(got.args[0], name):
            self.rep.ok("add-contents", con, "%s under %s" % (str(got)[:60], str(name)[:60]))
        else:
            self.rep.und("add-contents", con, "the contents of %s are stored as %s" % (str(got.args[0])[:60], str(name)[:60]))


class Crc(CliClient):
    def __init__(self, rep, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep, self.n = rep, 0

    def on_ext(self, it, st, name, args, kwargs, node):
        if name in ("zlib.crc32", "binascii.crc32"):
            self.n += 1
            con = "%s: %s" % (self.command, it.active[-1].qual if it.active else "?")
            a = stripped(models.tv(it, st, args[0]))
            if len(args) > 1 and args[1] != C(0):
                self.rep.bad("checksum", con, it.where(node), "the checksum starts from %s" % str(args[1])[:60])
            elif type(a) is T and a.op == "filecontents":
                self.rep.ok("checksum", con)
            else:
                self.rep.und("checksum", con, str(a)[:80])
        return CliClient.on_ext(self, it, st, name, args, kwargs, node)


def command(rep, c):
    cli = Cmd(rep, c, dry_run=C(False))
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.n:
        rep.und("extract-contents" if c == "extract" else "add-contents", c, "nothing is written")


def checksum(rep, c):
    cli = Crc(rep, c)
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.n:
        rep.und("checksum", c, "no checksum computed")


def check(rep):
    js = []

    def job(name, f, *a):
        js.append((name, lambda r, f=f, a=a, name=name: guarded(r, "reader", name, f, r, *a)))

    for kind in ("128", "256", "dos33"):
        for label, free in FAMILIES[kind]:
            job("round trip %s %s" % (kind, label), round_trip, kind, label, free)
        for h in range(len(HISTORIES)):
            for pre in (False, True):
                job("history %s %d %s" % (kind, h, pre), history, kind, h, pre)
        job("types " + kind, types, kind)
    job("long 128", long_file, "128", 261 * 125 + 3, list(range(20, 270)) + list(range(400, 420)))
    job("long SpartaDOS", sparta_long)
    job("long 256", long_file, "256", 66 * 253 + 1, list(range(20, 100)))
    job("long dos33", long_file, "dos33", 122 * 256 + 1, list(range(16, 80)) + list(range(300, 370)))
    for ss in (128, 256):
        p = ss - 3
        job("reader %d" % ss, atari_reader, ss, [(0x42, [50, 51, 40], 17, False), (0x42, [719, 4, 359, 369], p, False), (0x62, [100], 0 + 1, False), (0x42, [255, 256, 257, 511, 512], p - 1, False)], "Atari DOS %d" % ss)
        job("MyDOS %d" % ss, atari_reader, ss, [(0x46, [50, 51, 40], 17, True), (0x46, [719, 4, 300], p, True), (0x66, [256, 512], 1, True)], "MyDOS %d" % ss)
        job("short %d" % ss, short_sectors, ss)
        job("SpartaDOS %d" % ss, sparta, ss)
    job("enhanced", enhanced)
    job("DOS 3.3 lists", dos33_reader, "lists")
    job("DOS 3.3 empty", dos33_reader, "empty")
    job("DOS 3.3 scattered", dos33_reader, "scattered")
    for n in (1, 127, 128, 129, 1000, 70000 if rep.tier == "thorough" else 5000):
        job("KBoot %d" % n, kboot, n)
    for c in ("extract", "add", "assemble"):
        job("command " + c, command, c)
    for c in ("crc", "list"):
        job("checksum " + c, checksum, c)
    js.sort(key=lambda j: not j[0].startswith("long"))
    parallel(rep, js)
