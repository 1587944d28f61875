"""C14: deleting removes exactly the named live file."""
from ..common import *
from ..disk import *
from .c12 import live, owned, where, LABEL, meta, mapbytes, vtoc_rest, account

EXPLANATION = ("delete_file is interpreted on abstract disks with unknown contents whose directories and links are built from the "
               "published formats: fragmented and long chains, MyDOS links, several track/sector lists, sparse files with holes, "
               "deleted entries of the same name before and after the live one, locked files and full directories.  The entry that "
               "changes, its new bytes, and the bits of the free map that change are compared with the file's chain as an independent "
               "decoder finds it; every other entry, map bit and byte of the image must be the term it was.  A name no live entry has "
               "must end in the library's error and store nothing.")
ASSUMPTIONS = ["images without a second VTOC (DOS 2.5 enhanced density and MyDOS disks of more than 720 sectors are outside)",
               "directories and chains are those of the families listed in the check; contents are unknown bytes"]
MINIMUM = 40


def live_entry(im, e):
    return bool(e[0] & 0x40) if isinstance(im, Atari) else e[0] not in (0, 0xff)


class Case:
    """one disk: label, image, name to delete, index expected to go (None: no such file)"""

    def __init__(self, label, kind, im, name, target, pick=None):
        self.label, self.kind, self.im, self.name, self.target, self.pick = label, kind, im, name, target, pick


def ename(kind, e):
    if kind == "dos33":
        return bytes(c & 0x7f for c in e[3:33]).rstrip().decode()
    n, x = e[5:13].rstrip(), e[13:16].rstrip()
    return (n + (b"." + x if x else b"")).decode("latin1")


def atari_cases(kind):
    ss = int(kind)
    out = []

    def build(label, files, name, target, free=range(600, 610), pick=None):
        """files: (flag, name, ext, sectors, used in last)"""
        ents = [entry_atari(f, len(secs), secs[0] if secs else 0, n, x) for f, n, x, secs, u in files]
        im = Atari("c14", free, ents, ss=ss)
        for i, (f, n, x, secs, u) in enumerate(files):
            if secs and f != 0x80:
                im.chain(secs, i, u, bool(f & 4))
            elif secs:
                im.chain(secs, i, u)
        out.append(Case("%s, %s" % (LABEL[kind], label), kind, im, name, target, pick))
    frag = [5, 300, 17, 16, 511, 512, 719, 255, 256]
    for t, nm in ((0, "A"), (1, "B.TXT"), (2, "C")):
        build("three files", [(0x42, b"A", b"", [10, 11, 12], 3), (0x42, b"B", b"TXT", frag, 125), (0x62, b"C", b"", [400], 0)], nm, t)
    build("one sector", [(0x42, b"ONE", b"BIN", [719], 1)], "ONE.BIN", 0)
    build("MyDOS links", [(0x42, b"A", b"", [10], 3), (0x46, b"M", b"", [20, 700, 255, 256, 21], 7), (0x42, b"C", b"", [30], 3)], "M", 1)
    build("locked", [(0x62, b"L", b"", [40, 41], 9)], "L", 0)
    build("deleted namesake before", [(0x80, b"X", b"", [50, 51], 3), (0x42, b"X", b"", [60, 61], 3), (0x42, b"Y", b"", [70], 3)], "X", 1)
    build("deleted namesake after", [(0x42, b"X", b"", [60, 61], 3), (0x80, b"X", b"", [50, 51], 3)], "X", 0)
    build("only deleted namesake", [(0x80, b"X", b"", [50, 51], 3), (0x42, b"Y", b"", [70], 3)], "X", None)
    build("prefix of a name", [(0x42, b"XY", b"", [50, 51], 3), (0x42, b"X", b"Y", [70], 3)], "X", None)
    build("name and extension", [(0x42, b"X", b"", [50], 3), (0x42, b"X", b"A", [51], 3), (0x42, b"X", b"B", [52], 3)], "X.B", 2)
    build("no such file", [(0x42, b"A", b"", [10], 3)], "B", None)
    twin = [(0x80, b"T", b"", [80], 3), (0x42, b"T", b"", [90, 91], 3), (0x42, b"U", b"", [92], 3), (0x42, b"T", b"", [94, 93], 3)]
    build("namesakes, the first by its entry", twin, "T", 1, pick=0)
    build("namesakes, the second by its entry", twin, "T", 3, pick=2)
    build("by its entry", twin, "U", 2, pick=1)
    build("a deleted entry of the same sectors before", [(0x80, b"T", b"", [90, 91], 3), (0x42, b"U", b"", [92], 3), (0x42, b"T", b"", [90, 91], 3)], "T", 2, pick=1)
    build("no free sectors", [(0x42, b"A", b"", [10, 13], 3), (0x42, b"B", b"", [11], 3)], "A", 0, [])
    build("chain of 300", [(0x42, b"A", b"", list(range(20, 320)), 3), (0x42, b"B", b"", [4], 3)], "A", 0)
    full = [(0x42, b"F%d" % i, b"X", [10 + i, 400 + i], 1 + i) for i in range(64)]
    for t in (0, 8, 63):
        build("full directory, entry %d" % t, full, "F%d.X" % t, t)
    return out


def dos33_cases(kind):
    out = []

    def build(label, files, name, target, free=range(500, 510), deleted=(), pick=None):
        """files: (flag, name, lists [(sector, [sectors])], extra)"""
        ents = []
        for i, (f, n, lists) in enumerate(files):
            cnt = len(lists) + sum(len(d) for s, d in lists)
            t, k = divmod(lists[0][0], 16)
            e = bytearray(entry_dos33(t, k, f, n, cnt))
            if i in deleted:
                e[0x20], e[0] = e[0], 0xff
            ents.append(bytes(e))
        im = Dos33("c14", free, ents)
        for f, n, lists in files:
            for j, (s, d) in enumerate(lists):
                im.tslist(s, d, lists[j + 1][0] if j + 1 < len(lists) else 0, 122 * j)
        out.append(Case("%s, %s" % (LABEL[kind], label), kind, im, name, target, pick))
    frag = [16, 300, 17, 31, 32, 559, 255, 256, 303]
    three = [(4, b"A", [(40, [41, 42])]), (0x84, b"HELLO WORLD", [(60, frag)]), (0, b"C", [(400, [401])])]
    for t, nm in ((0, "A"), (1, "HELLO WORLD"), (2, "C")):
        build("three files", three, nm, t)
    build("sparse file", [(4, b"S", [(40, [41, 0, 0, 44, 0, 46])]), (4, b"B", [(50, [51])])], "S", 0)
    build("sparse file ending in a hole", [(4, b"S", [(40, [41, 42, 0])])], "S", 0)
    build("two lists", [(4, b"L", [(40, list(range(64, 186))), (30, [310, 312])]), (4, b"B", [(50, [51])])], "L", 0)
    build("three lists", [(4, b"L", [(40, list(range(64, 186))), (30, list(range(290, 412))), (31, [559])])], "L", 0)
    build("deleted namesake before", [(4, b"X", [(40, [41])]), (4, b"X", [(60, [61, 62])]), (4, b"Y", [(70, [71])])], "X", 1, deleted=(0,))
    build("deleted namesake after", [(4, b"X", [(60, [61, 62])]), (4, b"X", [(40, [41])])], "X", 0, deleted=(1,))
    build("only deleted namesake", [(4, b"X", [(60, [61, 62])]), (4, b"Y", [(40, [41])])], "X", None, deleted=(0,))
    build("prefix of a name", [(4, b"XY", [(60, [61, 62])]), (4, b"Y", [(40, [41])])], "X", None)
    build("no such file", [(4, b"XY", [(60, [61, 62])])], "B", None)
    twin = [(4, b"T", [(40, [41])]), (4, b"T", [(60, [61, 62])]), (4, b"U", [(70, [71])]), (4, b"T", [(80, [82, 81])])]
    build("namesakes, the first by its entry", twin, "T", 1, deleted=(0,), pick=0)
    build("namesakes, the second by its entry", twin, "T", 3, deleted=(0,), pick=2)
    build("by its entry", twin, "U", 2, deleted=(0,), pick=1)
    build("a deleted entry of the same sectors before", [(4, b"T", [(40, [41])]), (4, b"U", [(70, [71])]), (4, b"T", [(40, [41])])], "T", 2, deleted=(0,), pick=1)
    many = [(4, b"F%d" % i, [(18 * 16 + i, [20 * 16 + i])]) for i in range(30)]
    for t in (0, 6, 7, 29):
        build("30 files, entry %d" % t, many, "F%d" % t, t)
    return out


def one(rep, c):
    w = where(c.kind)
    im, con = c.im, "%s: delete %s" % (c.label, c.name)
    rep.count("deletions analysed")
    run = Run(im)
    st0 = run.st
    before = run.entries()
    free0 = run.free()
    chain = owned(run, c.target) if c.target is not None else []
    if c.pick is None:
        x = run.delete(c.name)
    else:
        # by directory entry instead of by name, as the command line does
        x = run.one(method(run.it, run.st, run.img, "delete_file", run.dirent(c.pick)), "delete_file")
    rep.absorb(run.it)
    if c.target is None:
        if x is None:
            rep.bad("no-such-file", con, w, "no file of that name is in use, but the deletion succeeds")
        else:
            rep.ok("no-such-file", con, xname(x))
        return
    if x is not None:
        rep.bad("deletes", con, w, "the file exists, but %s is raised" % xname(x))
        return
    after = run.entries()
    n = len(before[0])
    for i, (b, a) in enumerate(zip(before, after)):
        if i == c.target:
            continue
        if i < len(im.entries) and live_entry(im, im.entries[i]):
            if a == b:
                rep.ok("other-entry", "%s, entry %d" % (con, i))
            elif all(type(q) is C for q in a):
                rep.bad("other-entry", "%s, entry %d" % (con, i), w, "entry %d (%s) changes from %s to %s" % (
                    i, ename(c.kind, im.entries[i]), hx(b), hx(a)))
            else:
                rep.und("other-entry", "%s, entry %d" % (con, i))
        else:
            f = a[0]
            if type(f) is C and ((f.v & 0x40) if n == 16 else f.v not in (0, 0xff)):
                rep.bad("other-entry", "%s, entry %d" % (con, i), w, "the unused entry %d is in use after a deletion: %s" % (i, hx(a)))
    e, b = after[c.target], im.entries[c.target]
    if any(type(q) is not C for q in e):
        rep.und("entry-deleted", con)
    else:
        e = bytes(q.v for q in e)
        if n == 16:
            want = "flag bit 7 set, bit 6 clear"
            ok = e[0] & 0x80 and not e[0] & 0x40
        else:
            want = "track 255, the old track in the last byte of the name"
            ok = e[0] == 0xff and e[0x20] == b[0]
        if ok:
            rep.ok("entry-deleted", con)
        else:
            rep.bad("entry-deleted", con, w, "the entry becomes %s (was %s); expected %s" % (e.hex(), b.hex(), want))
        # what an undelete needs: the name, where the file starts and how long it is
        keep = range(1, 16) if n == 16 else [j for j in range(1, 35) if j not in (2, 0x20)]
        lost = [j for j in keep if e[j] != b[j]]
        if lost:
            rep.bad("entry-kept", con, w, "byte %d of the deleted entry changes: %s (was %s)" % (lost[0], e.hex(), b.hex()))
        else:
            rep.ok("entry-kept", con)
    free1 = run.free()
    if free1 - free0 == set(chain) and not free0 - free1:
        rep.ok("frees", con, "%d sectors" % len(chain))
    else:
        missing, extra, lost = sorted(set(chain) - free1), sorted(free1 - free0 - set(chain)), sorted(free0 - free1)
        what = []
        if missing:
            what.append("sectors %s of the file stay allocated" % missing[:8])
        if extra:
            what.append("sectors %s, not of this file, become free" % extra[:8])
        if lost:
            what.append("free sectors %s become allocated" % lost[:8])
        rep.bad("frees", con, w, "; ".join(what))
    bad = [o for o in run.written() - meta(run) if im.byte(run.it, run.st, o) != im.byte(run.it, st0, o)]
    if bad:
        rep.bad("stores", con, w, "the byte at offset %d of the image, outside map and directory, changes" % min(bad))
    else:
        rep.ok("stores", con)
    vtoc_rest(rep, run, con, w)
    if n == 16:
        k = im.free_count(run.it, run.st)
        if k is None:
            rep.und("free-count", con)
        elif k != len(free1):
            rep.bad("free-count", con, w, "the image says %d free sectors, its map %d" % (k, len(free1)))
        else:
            rep.ok("free-count", con)
    left = run.names()
    gone = ename(c.kind, b)
    want = [ename(c.kind, q) for i, q in enumerate(im.entries) if live_entry(im, q) and i != c.target]
    if sorted(left) != sorted(want):
        rep.bad("listing", con, w, "after the deletion the image lists %s; expected %s" % (left[:8], want[:8]))
    else:
        rep.ok("listing", con)


def hx(e):
    return "".join("%02x" % q.v if type(q) is C else "??" for q in e)


def check(rep):
    js = []
    for kind in ("128", "256", "dos33"):
        cases = dos33_cases(kind) if kind == "dos33" else atari_cases(kind)
        for c in cases:
            js.append((c.label + " " + c.name, lambda r, c=c: guarded(r, "deletes", "%s: delete %s" % (c.label, c.name), one, r, c)))
    parallel(rep, js)
