"""C23: the listing shows exactly the files in use."""
from ..disk import *
from .c30 import Sparta, piece

EXPLANATION = ("The image constructors are interpreted on abstract disks whose directories contain entries with every flag byte the format gives a meaning to, "
               "in every position, before and after the end mark; the resulting file list, its order and the attributes of each entry are "
               "compared with an independent decoder of the published directory formats (Atari DOS 2 and MyDOS, DOS 3.3, SpartaDOS).  find_dirent is then "
               "interpreted for each name: with a deleted entry of the same name before or after it must lead to the entry in use, and a name that only "
               "a deleted entry carries must be reported as not found.")
ASSUMPTIONS = ["flag bytes that are both in use and deleted, or open for output, have no published meaning for a listing and are left out",
               "DOS 2.5 entries of files above sector 719 (flag 3) are left out"]
MINIMUM = 60
WA, WD, WS = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/spartados.py"


def listed(rep, run, con, want, w):
    """want: [(name, {attr: value})] in order"""
    got = files_of(run.it, run.st, run.img)
    names = [n for n, d in got]
    if None in names:
        rep.und("listing", con, "a name is not determined")
        return
    wn = [n for n, a in want]
    if names != wn:
        for i in range(max(len(names), len(wn))):
            a, b = names[i] if i < len(names) else None, wn[i] if i < len(wn) else None
            if a != b:
                break
        rep.bad("listing", con, w, "file %d of the list is %s; on the image it is %s" % (i, a or "missing", b or "no file in use"))
        return
    rep.ok("listing", con, "%d files" % len(names))
    for (n, d), (_, attrs) in zip(got, want):
        for a, v in attrs.items():
            vs = [x for k, s, x in run.it.getattr(run.st, d, a, CALL) if k == "n"]
            if len(vs) != 1 or type(vs[0]) is not C:
                rep.und("attributes", con + ": " + n, a)
            elif (bool(vs[0].v) if isinstance(v, bool) else vs[0].v) != v:
                rep.bad("attributes", con + ": " + n, w, "%s of the entry is read as %s, on the image it is %s" % (a, vs[0].v, v))
            else:
                rep.ok("attributes", con + ": " + n)
    rep.absorb(run.it)


def lookup(rep, run, con, name, want, w):
    """want: index in the file list, or None"""
    outs = method(run.it, run.st, run.img, "find_dirent", C(name))
    got = files_of(run.it, run.st, run.img)
    con = "%s: looking up %s" % (con, name)
    if len(outs) != 1:
        rep.und("lookup", con, "%d outcomes" % len(outs))
        return
    k, x, v = outs[0]
    if want is None:
        if k == "x" and xname(v) == "FileNotFound":
            rep.ok("lookup", con)
        elif k == "x":
            rep.bad("lookup", con, w, "a name that is not on the disk is answered with %s" % xname(v))
        else:
            rep.bad("lookup", con, w, "a name that no file in use has is found")
    elif k == "x":
        rep.bad("lookup", con, w, "the file is on the disk, but %s is raised" % xname(v))
    elif v == got[want][1]:
        rep.ok("lookup", con)
    else:
        rep.bad("lookup", con, w, "the name leads to another entry")


# ------------------------------------------------------------------ Atari

def atari_flags():
    """every flag byte with a meaning"""
    return [f for f in range(1, 256) if not f & 1 and f & 0xc0 != 0xc0]


def atari(rep, ss, flags, con, tail=(), counts=()):
    ents = []
    want = []
    for i, f in enumerate(flags):
        nm, ex = b"F%02X" % f, b"E%d" % (i % 10) if i % 3 else b""
        n = counts[i] if i < len(counts) else i + 1
        ents.append(entry_atari(f, n, 100 + i, nm, ex))
        if f & 0x40:
            want.append(((nm + (b"." + ex if ex else b"")).decode(), dict(locked=bool(f & 0x20), deleted=False, in_use=True, num_sectors=n, starting_sector=100 + i, file_num=i)))
    if tail:
        ents.append(bytes(16))
        for f in tail:
            ents.append(entry_atari(f, 1, 50, b"AFTER%d" % len(ents), b""))
    im = Atari("c23", range(600, 700), ents, ss=ss)
    run = Run(im)
    if len(ents) > len(flags) + 1 or tail:
        con += ", entries after the end of the directory"
    listed(rep, run, con, want, WA)


def atari_jobs(job):
    fl = atari_flags()
    for ss in (128, 256):
        for i in range(0, len(fl), 64):
            # a directory of 256 byte sectors holds entries in their first half only by convention; both densities share the code
            job("Atari DOS %d, flags %02x to %02x" % (ss, fl[i], fl[min(i + 63, len(fl) - 1)]), atari, ss, fl[i:i + 64])
        job("Atari DOS %d, one file" % ss, atari, ss, [0x42])
        job("Atari DOS %d, no file" % ss, atari, ss, [])
        job("Atari DOS %d, odd counts" % ss, atari, ss, [0x42, 0x62, 0x42, 0x46, 0x42], (), (0, 0, 719, 256, 0))
        job("Atari DOS %d, no file in use" % ss, atari, ss, [0x80, 0x80], [0x42])
        job("Atari DOS %d, end mark" % ss, atari, ss, [0x42, 0x80, 0x62], [0x42, 0x42])
        job("Atari DOS %d, 63 files" % ss, atari, ss, [0x42] * 8 + [0x80] * 8 + [0x62] * 47)


def atari_names(rep, con):
    ents = [entry_atari(0x80, 1, 50, b"TWICE", b"DAT"), entry_atari(0x42, 1, 60, b"TWICE", b"DAT"), entry_atari(0x80, 1, 70, b"TWICE", b"DAT"),
            entry_atari(0x80, 1, 80, b"GONE", b""), entry_atari(0x42, 1, 90, b"TWICE", b""), entry_atari(0x62, 1, 91, b"TWICEDAT", b""), entry_atari(0x42, 1, 92, b"lower", b"x"),
            entry_atari(0x42, 1, 93, b"A", b"B")]
    run = Run(Atari("c23", range(600, 700), ents))
    for n, i in (("TWICE.DAT", 0), ("TWICE", 1), ("TWICEDAT", 2), ("GONE", None), ("NEVER", None), ("TWICE.D", None), ("", None), ("lower.x", 3), ("LOWER.X", None),
                 ("twice.dat", None), ("A.B", 4), ("A", None), ("TWICE.DAT ", None), (" A.B", None), ("A.B.C", None), ("TWICEDAT.", None)):
        lookup(rep, run, con, n, i, WA)
    rep.absorb(run.it)


# ---------------------------------------------------------------- DOS 3.3

TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 16: "R"}


def dos33(rep, spec, con, ncat=15, counts=()):
    """spec: list of ('live', flag) / 'dead' / 'never'"""
    ents, want = [], []
    for i, e in enumerate(spec):
        nm = b"FILE %d" % i
        if e == "dead":
            x = bytearray(entry_dos33(18, i % 16, 4, nm, 2))
            x[0], x[0x20] = 0xff, 18
            ents.append(bytes(x))
        elif e == "never":
            ents.append(bytes(35))
        else:
            # the count is only informative: any value, 0 included, can be there
            n = counts[i] if i < len(counts) else 2 + i
            ents.append(entry_dos33(18 + i // 16, i % 16, e, nm, n))
            at = dict(locked=bool(e & 0x80), deleted=False, track=18 + i // 16, sector=i % 16, num_sectors=n)
            if e & 0x7f in TYPES:
                at["file_type"] = TYPES[e & 0x7f]
            want.append((nm.decode(), at))
    run = Run(Dos33("c23", range(500, 520), ents, ncat=ncat))
    listed(rep, run, con, want, WD)


def dos33_jobs(job):
    job("DOS 3.3, every type", dos33, [0, 1, 2, 4, 8, 16, 32, 64, 0x80, 0x81, 0x82, 0x84, 0x88, 0x90, 0xa0, 0xc0])
    job("DOS 3.3, deleted entries", dos33, ["dead", 4, "dead", "dead", 0, 2, 0x84, "dead", "dead", 4, 4, "dead"])
    job("DOS 3.3, no files", dos33, [])
    job("DOS 3.3, odd counts", dos33, [4, 0, 2, 0x84, 4], 15, (0, 1, 559, 0, 256))
    job("DOS 3.3, one file", dos33, [4])
    job("DOS 3.3, only deleted entries", dos33, ["dead"] * 9)
    job("DOS 3.3, seven files", dos33, [4] * 7)
    job("DOS 3.3, eight files", dos33, [4] * 8)
    job("DOS 3.3, 105 files", dos33, [4, 0x82, 0] * 35)
    job("DOS 3.3, one catalog sector", dos33, [4, 0, 2, 4, "dead", 0x84, 4], 1)


def dos33_names(rep, con):
    def dead(t, s, nm):
        x = bytearray(entry_dos33(t, s, 4, nm, 2))
        x[0], x[0x20] = 0xff, t
        return bytes(x)
    ents = [dead(18, 0, b"TWICE"), entry_dos33(18, 1, 4, b"TWICE", 2), dead(18, 2, b"TWICE"), dead(18, 3, b"GONE"), entry_dos33(18, 4, 0, b"TWICE TOO", 2), entry_dos33(18, 5, 0, b"A NAME OF EXACTLY 30 CHARACTRS", 2),
            entry_dos33(18, 6, 0, b"lower.x", 2)]
    run = Run(Dos33("c23", range(500, 520), ents))
    for n, i in (("TWICE", 0), ("TWICE TOO", 1), ("A NAME OF EXACTLY 30 CHARACTRS", 2), ("GONE", None), ("NEVER", None), ("TWIC", None), ("lower.x", 3), ("LOWER.X", None), ("twice", None), ("TWICE ", None), ("", None)):
        lookup(rep, run, con, n, i, WD)
    rep.absorb(run.it)


# -------------------------------------------------------------- SpartaDOS

class Flags(Sparta):
    def __init__(self, ss, flags, names=None, lengths=()):
        self.flags = flags
        Sparta.__init__(self, ss, [(names[i] if names else b"F%02X" % f, b"" if f & 0x20 else b"EXT", 5, [20 + i], [100 + i]) for i, f in enumerate(flags)])
        dpos = [self.pos(s) + k for s in self.dirs for k in range(ss)]
        for i, f in enumerate(flags):
            self.b[dpos[23 * (i + 1)]] = f
            for j in range(3) if i < len(lengths) else ():
                self.b[dpos[23 * (i + 1) + 3 + j]] = lengths[i] >> 8 * j & 255


def sparta(rep, ss, flags, con, lengths=()):
    im = Flags(ss, flags, None, lengths)
    want = []
    for i, f in enumerate(flags):
        if f & 8:
            at = dict(locked=bool(f & 1), hidden=bool(f & 2), archived=bool(f & 4), in_use=True, deleted=False, is_dir=bool(f & 0x20), length=lengths[i] if i < len(lengths) else 5, starting_sector=20 + i, file_num=i + 1)
            want.append(("F%02X" % f + ("" if f & 0x20 else ".EXT"), at))
    listed(rep, Run(im), con, want, WS)


def sparta_names(rep, con):
    im = Flags(128, [0x10, 0x08, 0x10, 0x10, 0x09, 0x08], [b"TWICE", b"TWICE", b"TWICE", b"GONE", b"LAST", b"low"])
    run = Run(im)
    for n, i in (("TWICE.EXT", 0), ("LAST.EXT", 1), ("GONE.EXT", None), ("TWICE", None), ("low.EXT", 2), ("LOW.EXT", None), ("last.ext", None)):
        lookup(rep, run, con, n, i, WS)
    rep.absorb(run.it)


def check(rep):
    js = []

    def job(name, f, *a):
        def g(r, f=f, a=a, name=name):
            if f is atari:
                guarded(r, "listing", name, f, r, a[0], a[1], name, *a[2:])
            elif f is dos33:
                guarded(r, "listing", name, f, r, a[0], name, *a[1:])
            elif f is sparta:
                guarded(r, "listing", name, f, r, a[0], a[1], name, *a[2:])
            else:
                guarded(r, "lookup", name, f, r, name)
        js.append((name, g))
    atari_jobs(job)
    dos33_jobs(job)
    fl = [f for f in range(1, 0x40) if f & 0x18 not in (0, 0x18)]
    for ss in (128, 256):
        job("SpartaDOS %d, flags" % ss, sparta, ss, fl)
        job("SpartaDOS %d, deleted entries" % ss, sparta, ss, [0x08, 0x10, 0x0a, 0x10, 0x10, 0x2c])
        job("SpartaDOS %d, lengths" % ss, sparta, ss, [0x08, 0x08, 0x0a, 0x08, 0x09, 0x08, 0x10, 0x0c], (0, 255, 256, 65535, 65536, 0x123456, 0xffffff, 0x800001))
    job("Atari DOS, names", atari_names)
    job("DOS 3.3, names", dos33_names)
    job("SpartaDOS, names", sparta_names)
    parallel(rep, js)
