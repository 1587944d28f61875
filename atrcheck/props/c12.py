"""C12: space is accounted for: no sector gets two owners."""
from ..common import *
from ..disk import *

EXPLANATION = ("Map rule: the free map is decoded by the package from abstract disks whose maps separate every pair of sectors (one per "
               "binary digit of the sector number, and its complement), so the place and bit order read is determined for each "
               "sector; recomputing the map without a change must store the bytes read.  Allocation rule: write_file is interpreted "
               "on abstract disks with unknown contents for a family of free maps and file lengths (empty, within one sector, at and "
               "next to sector boundaries, exactly filling and just exceeding the free space, more than one track/sector list) and "
               "for histories of additions and deletions; the sectors taken are read off the stored links by an independent decoder. "
               "They must be free before, used after, distinct, and be all that changed in the map; nothing but those sectors, the "
               "map and the directory may be stored to; the free count must be the number of free bits.  Too little space or a full "
               "directory must end in an error on every path.  Shredding may store to free sectors only.")
ASSUMPTIONS = ["images without a second VTOC (DOS 2.5 enhanced density and MyDOS disks of more than 720 sectors are outside)",
               "free maps, file lengths and histories are bounded by the families listed in the check; contents are unknown bytes"]
MINIMUM = 60
WA, WD, WU = "atrcopy/ataridos.py", "atrcopy/dos33.py", "atrcopy/utils.py"


def new(kind, free, entries=(), **k):
    if kind == "dos33":
        return Dos33("c12", free, entries, **k)
    return Atari("c12", free, entries, ss=int(kind))


LABEL = {"128": "Atari DOS, 128 byte sectors", "256": "Atari DOS, 256 byte sectors", "dos33": "DOS 3.3"}


def where(kind):
    return WD if kind == "dos33" else WA


# ------------------------------------------------------------------- map

def mapping(rep, kind):
    n = 560 if kind == "dos33" else 720
    # boot, map and directory sectors are never free on a disk
    system = set(range(16)) | set(range(272, 288)) if kind == "dos33" else set(range(4)) | set(range(360, 369))
    data = [s for s in range(n) if s not in system]
    fams = []
    for k in range(10):
        fams.append(("bit %d of the number set" % k, [s for s in data if s >> k & 1]))
        fams.append(("bit %d of the number clear" % k, [s for s in data if not s >> k & 1]))
    for label, free in fams:
        con = "%s: free where %s" % (LABEL[kind], label)
        guarded(rep, "map-place", con, mapping1, rep, kind, con, free, n)


def mapping1(rep, kind, con, free, n):
    im = new(kind, free)
    run = Run(im)
    it = run.it
    o = [(k, x, v) for k, x, v in method(it, run.st, run.img, "get_vtoc_object")]
    if len(o) != 1 or o[0][0] != "n":
        raise Open("get_vtoc_object: %d outcomes" % len(o))
    st, v = o[0][1:]
    m = it.obj(st, v).attrs.get("sector_map")
    got = None
    if m is not None:
        got = [byte_at(it, st, m, s) if type(m) is Ar else C(m.v[s]) for s in range(n)]
    if got is None or any(type(b) is not C for b in got):
        rep.und("map-place", con, "the sector map is not a constant array")
    else:
        fs = set(free)
        bad = [s for s in range(n) if bool(got[s].v) != (s in fs)]
        if bad:
            rep.bad("map-place", con, where(kind), "sector %d is taken for %s; on the image its bit is %d" % (bad[0], "free" if got[bad[0]].v else "used", bad[0] in fs))
        else:
            rep.ok("map-place", con)
    rep.absorb(it)
    # recomputing the map
    vs = 272 if kind == "dos33" else 360
    for k, x, _ in method(it, st, v, "calc_bitmap"):
        if k != "n":
            rep.und("map-identity", con, "calc_bitmap ends in %s" % k)
            continue
        for k2, y, _ in method(it, x, run.img, "write_sector_list", v):
            if k2 != "n":
                rep.und("map-identity", con, "write_sector_list ends in %s" % k2)
                continue
            b = im.bytes(it, y, im.pos(vs), im.size_of(vs))
            for i, t in enumerate(b):
                w = im.unknown(im.pos(vs) + i)
                if t != w:
                    if type(t) is C:
                        rep.bad("map-identity", con, where(kind), "byte %#x of the map sector is %s and is written back as %s" % (i, w, t))
                    else:
                        rep.und("map-identity", con, "byte %d is %s" % (i, t))
                    break
            else:
                rep.ok("map-identity", con)


# ------------------------------------------------------------ allocation

def owned(run, i):
    return run.stored(i)[0]


def live(run):
    """indexes of entries in use, as the image has them"""
    out = []
    for i, e in enumerate(run.entries()):
        if type(e[0]) is not C:
            raise Open("entry %d not determined" % i)
        f = e[0].v
        if (f & 0x40) if isinstance(run.im, Atari) else f not in (0, 0xff):
            out.append(i)
    return out


def account(rep, run, con, w):
    """every sector has one owner at most, and none of the owned ones is free"""
    free = run.free()
    owner = {}
    ok = True
    for i in live(run):
        for s in owned(run, i):
            if s in owner:
                rep.bad("one-owner", con, w, "sector %d belongs to the files of entries %d and %d" % (s, owner[s], i))
                ok = False
            if s in free:
                rep.bad("one-owner", con, w, "sector %d belongs to entry %d and is marked free" % (s, i))
                ok = False
            owner[s] = i
    if isinstance(run.im, Atari):
        n = run.im.free_count(run.it, run.st)
        if n is None:
            rep.und("free-count", con)
        elif n != len(free):
            rep.bad("free-count", con, w, "the image says %d free sectors, its map %d" % (n, len(free)))
        else:
            rep.ok("free-count", con)
    if ok:
        rep.ok("one-owner", con)


def regions(run, secs):
    im = run.im
    out = set()
    for s in secs:
        out |= set(range(im.pos(s), im.pos(s) + im.size_of(s)))
    return out


def meta(run):
    """offsets of the map and of the directory"""
    if isinstance(run.im, Atari):
        d = range(run.im.pos(361), run.im.pos(368) + run.im.ss)
        return regions(run, [360]) | set(d)
    return regions(run, [272]) | regions(run, run.im.cat)


def mapbytes(run):
    if isinstance(run.im, Atari):
        p = run.im.pos(360)
        return {p + 3, p + 4} | set(range(p + 10, p + 100))
    p = run.im.pos(272)
    return {p + 0x30, p + 0x31} | {p + 0x38 + 4 * t + j for t in range(35) for j in (0, 1)}


def vtoc_rest(rep, run, con, w):
    im = run.im
    vs = 360 if isinstance(im, Atari) else 272
    mb = mapbytes(run)
    for i in range(im.size_of(vs)):
        o = im.pos(vs) + i
        if o in mb:
            continue
        t = im.byte(run.it, run.st, o)
        if t != im.unknown(o):
            if type(t) is C:
                rep.bad("map-sector-rest", con, w, "byte %#x of the map sector changes from %s to %s" % (i, im.unknown(o), t))
                return
            rep.und("map-sector-rest", con)
            return
    rep.ok("map-sector-rest", con)


def add(rep, run, con, kind, name, n, sid, need, expect=True):
    """write one file and settle the accounts; True when it was written"""
    w = where(kind)
    before = run.free()
    ents = live(run)
    st0 = run.st
    x = run.write(name, "B", n, sid)
    if x is not None:
        if expect:
            rep.bad("enough-space", con, w, "%d bytes need %d sectors of %d free, but %s is raised" % (n, need, len(before), xname(x)))
        else:
            rep.ok("refused", con, xname(x))
        return False
    if not expect:
        rep.bad("refused", con, w, "%d bytes need %d sectors, %d are free and %d entries are in use; the file is written all the same" % (n, need, len(before), len(ents)))
        return False
    after = run.free()
    newe = [i for i in live(run) if i not in ents]
    if len(newe) != 1:
        rep.bad("allocation", con, w, "%d entries are new after adding one file" % len(newe))
        return False
    try:
        secs = owned(run, newe[0])
    except Broken as e:
        rep.bad("allocation", con, w, str(e))
        return False
    if len(set(secs)) != len(secs):
        rep.bad("allocation", con, w, "a sector occurs twice in the file: %s" % secs)
    elif not set(secs) <= before:
        rep.bad("allocation", con, w, "sectors %s are taken but not free" % sorted(set(secs) - before))
    elif before - after != set(secs) or after - before:
        rep.bad("allocation", con, w, "the file takes %s; in the map %s become used and %s free" % (secs[:12], sorted(before - after)[:12], sorted(after - before)[:12]))
    elif len(secs) != need:
        rep.bad("allocation", con, w, "%d bytes take %d sectors instead of %d" % (n, len(secs), need))
    else:
        rep.ok("allocation", con)
    extra = [o for o in run.written() - meta(run) - regions(run, before) if run.im.byte(run.it, run.st, o) != run.im.byte(run.it, st0, o)]
    if extra:
        o = min(extra)
        rep.bad("stores", con, w, "a byte at offset %d of the image is stored to, outside free sectors, map and directory" % o)
    else:
        rep.ok("stores", con)
    if kind != "dos33":
        cnt = run.entry(newe[0])[1:3]
        if all(type(b) is C for b in cnt) and cnt[0].v + 256 * cnt[1].v != len(secs):
            rep.bad("sector-count", con, w, "the entry says %d sectors, the file has %d" % (cnt[0].v + 256 * cnt[1].v, len(secs)))
        else:
            rep.ok("sector-count", con)
    account(rep, run, con, w)
    vtoc_rest(rep, run, con, w)
    return True


FAMILIES = {
    "128": [("contiguous", range(400, 412)), ("scattered", [4, 7, 8, 15, 16, 31, 100, 255, 256, 257, 359, 369, 511, 512, 719]),
            ("one", [511]), ("two gaps", [20, 21, 23, 24, 26, 27, 28, 30]), ("none", []), ("before the map", range(350, 360)), ("last", range(712, 720))],
    "dos33": [("contiguous", range(300, 310)), ("scattered", [17, 31, 32, 33, 47, 48, 254, 256, 271, 288, 303, 319, 559]),
              ("two", [16, 559]), ("two gaps", [20, 21, 23, 24, 26, 27, 28, 30]), ("one", [400]), ("none", []), ("last", range(552, 560))],
}
FAMILIES["256"] = FAMILIES["128"]


def needed(kind, n, payload):
    d = max(1, -(-n // payload))
    return d + -(-d // 122) if kind == "dos33" else d


def lengths(kind, nfree):
    p = {"128": 125, "256": 253, "dos33": 256}[kind]
    room = nfree
    if kind == "dos33":
        room = nfree - -(-nfree // 123) if nfree else 0
    out = {0, 1, p - 1, p, p + 1, 2 * p, 3 * p - 1, room * p, room * p + 1}
    return p, sorted(out)


def alloc(rep, kind, label, free):
    free = list(free)
    p, ls = lengths(kind, len(free))
    for n in ls:
        need = needed(kind, n, p)
        con = "%s, %s free sectors, %d bytes" % (LABEL[kind], label, n)
        guarded(rep, "allocation", con, alloc1, rep, kind, con, free, n, need)


def alloc1(rep, kind, con, free, n, need):
    im = new(kind, free)
    run = Run(im)
    add(rep, run, con, kind, "F", n, "W", need, need <= len(free))
    rep.absorb(run.it)


def long_file(rep, kind):
    """more sectors than one list, or than one byte, counts"""
    n = {"128": 260 * 125 + 3, "256": 258 * 253, "dos33": 122 * 256 + 1}[kind]
    p = {"128": 125, "256": 253, "dos33": 256}[kind]
    free = list(range(20, 270)) + list(range(400, 420)) if kind != "dos33" else list(range(16, 80)) + list(range(300, 370))
    con = "%s, %d bytes" % (LABEL[kind], n)
    guarded(rep, "allocation", con, alloc1, rep, kind, con, free, n, needed(kind, n, p))


def full_directory(rep, kind):
    con = "%s, directory full" % LABEL[kind]
    if kind == "dos33":
        for ncat in (1, 15):
            n = 7 * ncat
            ents = [entry_dos33(18 + i // 16, i % 16, 4, b"F%d" % i, 2) for i in range(n)]
            im = new(kind, range(432, 480), ents, ncat=ncat)
            for i in range(n):
                im.tslist(288 + i, [480 + i % 80])
            run = Run(im)
            add(rep, run, "%s (%d entries)" % (con, n), kind, "NEW", 5, "W", 2, False)
            rep.absorb(run.it)
            # one entry less: the last place is used
            im = new(kind, range(432, 480), ents[:-1], ncat=ncat)
            for i in range(n - 1):
                im.tslist(288 + i, [480 + i % 70])
            run = Run(im)
            x = run.write("NEW", "B", 5, "W")
            last_entry(rep, run, "%s but for the last of %d" % (con, n), kind, x)
        return
    ents = [entry_atari(0x42, 1, 10 + i, b"F%d" % i, b"") for i in range(64)]
    im = new(kind, range(400, 420), ents)
    for i in range(64):
        im.chain([10 + i], i, 3)
    run = Run(im)
    add(rep, run, con, kind, "NEW", 5, "W", 1, False)
    rep.absorb(run.it)
    im = new(kind, range(400, 420), ents[:-1])
    for i in range(63):
        im.chain([10 + i], i, 3)
    run = Run(im)
    x = run.write("NEW", "B", 5, "W")
    last_entry(rep, run, con + " but for the last", kind, x)
    rep.absorb(run.it)


def last_entry(rep, run, con, kind, x):
    if x is not None:
        rep.bad("enough-space", con, where(kind), "an entry is free, but %s is raised" % xname(x))
    else:
        rep.ok("enough-space", con)


HISTORIES = [
    [("+", "A", 3), ("+", "B", 1), ("-", "A"), ("+", "C", 4)],
    [("+", "A", 1), ("+", "B", 2), ("+", "C", 1), ("-", "B"), ("+", "D", 1), ("+", "E", 1), ("+", "F", 1)],
    [("+", "A", 2), ("-", "A"), ("+", "A", 2), ("-", "A"), ("+", "B", 3)],
    [("+", "A", 2), ("+", "B", 2), ("-", "A"), ("-", "B"), ("+", "C", 5)],
]


def history(rep, kind, k):
    p = {"128": 125, "256": 253, "dos33": 256}[kind]
    free = [s for i, s in enumerate(FAMILIES[kind][1][1]) if s != 271]
    im = new(kind, free)
    run = Run(im)
    seq = ""
    for j, ev in enumerate(HISTORIES[k]):
        seq += " %s%s" % (ev[0], ev[1])
        con = "%s, history%s" % (LABEL[kind], seq)
        if ev[0] == "+":
            n = ev[2] * p - (7 if j % 2 else 0)
            if not add(rep, run, con, kind, ev[1], n, "W%d" % j, needed(kind, n, p)):
                return
        else:
            x = run.delete(ev[1])
            if x is not None:
                rep.bad("history", con, where(kind), "deleting raises %s" % xname(x))
                return
            account(rep, run, con, where(kind))
    rep.absorb(run.it)


def shred(rep, kind, label, free):
    con = "%s, %s free sectors" % (LABEL[kind], label)
    im = new(kind, free)
    run = Run(im)
    x = run.one(method(run.it, run.st, run.img, "shred"), "shred")
    rep.absorb(run.it)
    if x is not None:
        rep.bad("shred", con, WU, "clearing the free sectors raises %s" % xname(x))
        return
    wr = run.written()
    must = regions(run, [s for s in free])
    if wr - must:
        o = min(wr - must)
        rep.bad("shred", con, WU, "a byte at offset %d, outside the free sectors, is overwritten" % o)
    elif must - wr:
        rep.bad("shred", con, WU, "the free sector at offset %d is not cleared" % min(must - wr))
    else:
        rep.ok("shred", con)


def check(rep):
    js = []
    for kind in ("128", "256", "dos33"):
        js.append(("map " + kind, lambda r, k=kind: mapping(r, k)))
        for label, free in FAMILIES[kind]:
            js.append(("alloc %s %s" % (kind, label), lambda r, k=kind, l=label, f=free: alloc(r, k, l, f)))
            js.append(("shred %s %s" % (kind, label), lambda r, k=kind, l=label, f=free: shred(r, k, l, [s for s in f if k == "dos33" or s > 0])))
        js.append(("directory " + kind, lambda r, k=kind: full_directory(r, k)))
        for h in range(len(HISTORIES)):
            js.append(("history %s %d" % (kind, h), lambda r, k=kind, h=h: history(r, k, h)))
        js.append(("long " + kind, lambda r, k=kind: long_file(r, k)))
    js.sort(key=lambda j: not j[0].startswith("long"))
    parallel(rep, js)
