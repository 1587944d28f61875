"""C13: sectors map to consecutive, non-overlapping pieces of the image."""
from ..common import *

EXPLANATION = ("Each header class is instantiated abstractly (with and without a stored header) and given every published image size and a "
               "symbolic one; get_pos is then interpreted on a symbolic sector number.  Inside each interval of sector numbers of the "
               "published geometry the returned position and size must be the published affine functions of the sector number (compared as "
               "polynomials), outside it only the library's error may result, and for any size and sector size position(s+1) must be "
               "position(s)+size(s), starting at the header offset.  The image's sector readers and writers are interpreted on the same "
               "headers and the extents of the image bytes they read or store are compared with get_pos.")
ASSUMPTIONS = ["published geometries: Atari 720x128, 1040x128, 720x256 with and without three 128 byte boot sectors; Apple 560x256 numbered from 0",
               "numpy slices behave as specified by numpy"]
MINIMUM = 20

S = mk("sym", "SECTOR", kind="int")
ATARI = {92160: [(1, 720, 128)], 133120: [(1, 1040, 128)], 184320: [(1, 720, 256)], 183936: [(1, 3, 128), (4, 720, 256)]}
APPLE = {143360: [(0, 559, 256)]}


class Cli(Client):
    unroll = 40
    peel = 8

    def on_store(self, it, st, sid, off, n, valdesc, node):
        if sid in ("D", "S"):
            y = st.fork()
            y.mon = (st.mon or ()) + ((sid, off, n, valdesc),)
            return y
        return None


def family(cl):
    names = [c.name for c in mro(cl)]
    if "AtrHeader" in names:
        return ATARI, 1
    if "Dos33Header" in names or "StandardDeliveryHeader" in names:
        return APPLE, 0
    return {}, None


def mro(cl):
    return [c for c in cl.info.mro() if hasattr(c, "env")]


def ge(st, t, c):
    """assume t >= c"""
    return st.assume(*fact_key(mk("not", mk("cmp", "<", t, C(c), kind="bool"), kind="bool")))


def between(st, lo, hi):
    st = ge(st, S, lo)
    return st.assume(*fact_key(mk("cmp", "<", S, C(hi + 1), kind="bool")))


def headers(it, cls):
    """(label, state, header ref) for the ways a header comes into being"""
    st0 = storage(St(), "H", C(16))
    out = []
    for label, args in (("no stored header", []), ("stored header", [Ar("H", C(0), C(16))])):
        try:
            for k, x, h in calls(it, st0, cls, *args):
                if k == "n" and type(h) is R:
                    out.append((label, x, h))
        except Exception as e:
            if os.environ.get("ATRCHECK_DEBUG"):
                print("header", cls.info.name, label, e)
    return out


def lib(exc):
    c = exc.cls
    return type(c) is Cl and "AtrError" in [m.name for m in mro(c)]


def attr(it, st, ref, name):
    o = it.obj(st, ref)
    return o.attrs.get(name)


def check_get_pos(rep, it, con, st, h, table, where):
    """table: list of (lo, hi, size)"""
    off = attr(it, st, h, "header_offset")
    if type(off) is not C:
        rep.und("position", con, "header offset %s" % off)
        return
    base_ = off.v
    for lo, hi, size in table:
        x = between(st, lo, hi)
        want = add(C(base_ - lo * size), mul(C(size), S))
        probes = [s for s in (lo, lo + 1, (lo + hi) // 2, hi - 1, hi) if lo <= s <= hi]
        proved = True
        outs = method(it, x, h, "get_pos", S)
        for k, y, v in outs:
            if k != "n" or type(v) is not Tup or len(v.items) != 2 or v.items[0] != want or v.items[1] != C(size):
                proved = False
        c2 = "%s sectors %d-%d" % (con, lo, hi)
        if proved and outs:
            rep.ok("position", c2, "%s, %d" % (want, size))
        else:
            bad = None
            for s in probes:
                r = method(it, st, h, "get_pos", C(s))
                if len(r) != 1:
                    continue
                k, y, v = r[0]
                if k == "x":
                    bad = "sector %d of %d-%d is refused" % (s, table[0][0], table[-1][1])
                elif type(v) is Tup and all(type(a) is C for a in v.items):
                    w = (base_ + (s - lo) * size, size)
                    if tuple(a.v for a in v.items) != w:
                        bad = "sector %d is placed at %s, not %s" % (s, tuple(a.v for a in v.items), w)
                if bad:
                    break
            if bad:
                rep.bad("position", c2, where, bad)
            else:
                rep.und("position", c2, "no affine form")
        base_ += (hi - lo + 1) * size
    lo, hi = table[0][0], table[-1][1]
    for side, x, probes in (("below", st.assume(*fact_key(mk("cmp", "<", S, C(lo), kind="bool"))), (lo - 1, lo - 2)),
                            ("above", ge(st, S, hi + 1), (hi + 1, hi + 2, hi + 1000))):
        c2 = "%s sectors %s %d" % (con, side, lo if side == "below" else hi)
        outs = method(it, x, h, "get_pos", S)
        if outs and all(k == "x" and lib(v) for k, y, v in outs):
            rep.ok("rejected", c2)
            continue
        bad = None
        for s in probes:
            r = method(it, st, h, "get_pos", C(s))
            if len(r) != 1:
                continue
            k, y, v = r[0]
            if k == "n":
                bad = "sector %d, outside %d-%d, is accepted and placed at %s" % (s, lo, hi, v)
            elif k == "x" and not lib(v):
                bad = "sector %d is refused with %s instead of the library's error" % (s, xname(v))
            if bad:
                break
        if bad:
            rep.bad("rejected", c2, where, bad)
        else:
            rep.und("rejected", c2, "not decided symbolically")


def where_of(cls, name):
    f, owner = cls.info.find(name)
    m = (owner or cls.info).module.name
    return "atrcopy/%s.py" % (m.split(".")[-1] if m != "atrcopy" else "__init__")


def header_part(rep, cls):
    it = mkit(Cli())
    where = where_of(cls, "get_pos")
    table, label = family(cls)
    for hl, st, h in headers(it, cls):
        for size in sorted(table):
            con = "%s %d bytes, %s" % (cls.info.name, size, hl)
            got = False
            for k, y, v in method(it, st, h, "check_size", C(size)):
                if k != "n":
                    if k == "x":
                        rep.bad("geometry", con, where, "the size %d of a standard image is refused" % size) if size in table and not got and len([1 for q in method(it, st, h, "check_size", C(size))]) == 1 else None
                    continue
                got = True
                sz = attr(it, y, h, "sector_size")
                tab = table[size]
                if type(sz) is not C:
                    continue        # the sector size comes from the stored header: any size below
                mx = attr(it, y, h, "max_sectors")
                n = tab[-1][1] - tab[0][0] + 1
                if type(mx) is C and mx.v != n and mx.v >= 0:
                    rep.bad("geometry", con, where, "%d sectors instead of %d" % (mx.v, n))
                else:
                    rep.ok("geometry", con, "%s sectors" % mx)
                isz = attr(it, y, h, "image_size")
                if type(isz) is C and isz.v != size:
                    rep.bad("geometry", con, where, "image size %d instead of %d" % (isz.v, size))
                check_get_pos(rep, it, con, y, h, tab, where)
        # any size
        con = "%s any size, %s" % (cls.info.name, hl)
        try:
            outs = method(it, st, h, "check_size", N)
        except Exception:
            outs = []
        if cls.info.name == "BaseHeader":
            outs = [("n", st, NONE)]
        for k, y, v in outs:
            if k == "n":
                tiling(rep, it, con, y, h, where)
    rep.absorb(it)


def tiling(rep, it, con, st, h, where):
    off = attr(it, st, h, "header_offset")
    start = attr(it, st, h, "starting_sector_label")
    ini = attr(it, st, h, "num_initial_sectors")
    s1 = add(S, C(1))
    st = ge(st, S, 0)
    if type(start) is C:
        st = ge(st, S, start.v)
    pieces = [(y, v) for k, y, v in method(it, st, h, "get_pos", S) if k == "n" and type(v) is Tup and len(v.items) == 2]
    if not pieces:
        rep.und("tiling", con, "no position")
        return
    for y, v in pieces:
        pos, size = v.items
        if not all(isinstance(t, (C, T)) for t in (pos, size)):
            rep.und("tiling", con, str(v))
            continue
        d = sub(subst(pos, {S: s1}), pos)
        if d == size:
            rep.ok("tiling", con, "%s, %s" % (pos, size))
        else:
            # a difference that is a constant polynomial is definite
            if d is not None and type(sub(d, size)) is C and not facts_pin(y):
                rep.bad("tiling", con, where, "the next sector starts %s bytes after a sector of %s bytes" % (d, size))
            else:
                rep.und("tiling", con, "%s vs %s" % (d, size))
    if type(start) is C:
        for k, y, v in method(it, st, h, "get_pos", start):
            if k == "n" and type(v) is Tup:
                if v.items[0] == off:
                    rep.ok("tiling", con + " first", str(off))
                elif type(sub(v.items[0], off)) is C:
                    rep.bad("tiling", con + " first", where, "the first sector starts at %s, not after the header at %s" % (v.items[0], off))
                else:
                    rep.und("tiling", con + " first", str(v))


def facts_pin(st):
    return any("==" in str(k) and "SECTOR" in str(k) for k in st.facts)


# ------------------------------------------------ the image's accessors

def bounds(v):
    if type(v) is Sl:
        return v.a, v.b
    return None


def image_part(rep, icls, hcls, size, tab, first):
    """readers and writers of one image class on one geometry"""
    it = mkit(Cli())
    where = "atrcopy/diskimages.py"
    st = storage(storage(storage(St(), "D", C(size)), "S", C(size)), "V", N)
    done = False
    for k, x, h in calls(it, st, hcls):
        if k != "n":
            continue
        for k2, y, v in method(it, x, h, "check_size", C(size)):
            if k2 != "n":
                continue
            done = True
            y, img = it.alloc(y, CALL, Inst(icls.info, {"bytes": Ar("D", C(0), C(size)), "style": Ar("S", C(0), C(size)), "header": h}, False), "img")
            accessors(rep, it, icls, y, img, h, tab, where, first)
    rep.absorb(it)


def layout(tab):
    out, pos = {}, 0
    for lo, hi, size in tab:
        for s in range(lo, hi + 1):
            out[s] = (pos, size)
            pos += size
    return out


def accessors(rep, it, icls, st, img, h, tab, where, first):
    name = icls.info.name
    L = layout(tab)
    geo = "%s, sectors %s" % (name, "+".join("%dx%d" % (b - a + 1, s) for a, b, s in tab))
    lo0 = tab[0][0]
    edge = tab[0][1] if len(tab) > 1 else lo0 + 2
    spans = [(lo0, lo0), (edge, edge), (edge, edge + 1), (edge - 1, edge + 2), (lo0, lo0 + 3)]

    def cmp(rule, con, got, want):
        if got is None or not all(type(g) is C for g in got):
            rep.und(rule, con, str(got))
        elif tuple(g.v for g in got) == want:
            rep.ok(rule, con, str(want))
        else:
            rep.bad(rule, con, where, "covers bytes %d to %d instead of %d to %d" % (tuple(g.v for g in got) + want))

    def norm(outs):
        return [(y, v) for k, y, v in outs if k == "n"], [v for k, y, v in outs if k == "x"]

    # symbolic: every reader and writer of a single sector against the layout
    base_ = 0
    for lo, hi, size in tab:
        x = between(st, lo, hi)
        want = (add(C(base_ - lo * size), mul(C(size), S)), C(size))
        con = "%s.get_raw_bytes %d-%d" % (name, lo, hi)
        for k, y, v in method(it, x, img, "get_raw_bytes", S):
            if k == "n" and type(v) is Tup and v.items and type(v.items[0]) is Ar:
                a = v.items[0]
                extent(rep, "read-extent", con, where, a.sid, a.off, a.ln, want, "D")
                if len(v.items) == 3:
                    if (v.items[1], v.items[2]) == want:
                        rep.ok("read-extent", con + " (returned position)")
                    else:
                        extent(rep, "read-extent", con + " (returned position)", where, "D", v.items[1], v.items[2], want, "D")
            else:
                rep.und("read-extent", con, "%s %s" % (k, v))
        con = "%s.get_sectors %d-%d" % (name, lo, hi)
        for k, y, v in method(it, x, img, "get_sectors", S):
            if k == "n" and type(v) is Tup and all(type(a) is Ar for a in v.items):
                for a, sid in zip(v.items, ("D", "S")):
                    extent(rep, "read-extent", con + " " + sid, where, a.sid, a.off, a.ln, want, sid)
            else:
                rep.und("read-extent", con, "%s %s" % (k, v))
        # a sector that is written
        con = "%s.write_sector_list %d-%d" % (name, lo, hi)
        y, data = it.alloc(x, CALL, Sto(("tok", "data"), (), C(size)), "data")
        y, sec = it.alloc(y, CALL, Opq("sector", {"sector_num": S, "data": Ar(data.id, C(0), C(size))}), "sec")
        y, l = it.alloc(y, CALL, Lst([sec]), "secs")
        y = y.fork()
        y.mon = ()
        for k, z, v in method(it, y, img, "write_sector_list", l):
            if k != "n":
                rep.und("write-extent", con, "%s %s" % (k, v))
                continue
            ev = [e for e in (z.mon or ()) if e[0] == "D"]
            if len(ev) == 1:
                extent(rep, "write-extent", con, where, "D", ev[0][1], ev[0][2], want, "D")
            elif not ev:
                rep.bad("write-extent", con, where, "writing a sector stores nothing in the image")
            else:
                rep.und("write-extent", con, "%d stores" % len(ev))
        base_ += (hi - lo + 1) * size
    # runs of sectors
    for a, b in spans:
        w = (L[a][0], L[b][0] + L[b][1])
        con = "%s.get_sector_slice(%d, %d)" % (geo, a, b)
        for y, v in norm(method(it, st, img, "get_sector_slice", C(a), C(b)))[0]:
            cmp("run-extent", con, bounds(v), w)
        con = "%s.get_contiguous_sectors(%d, %d)" % (geo, a, b - a + 1)
        for y, v in norm(method(it, st, img, "get_contiguous_sectors", C(a), C(b - a + 1)))[0]:
            g = None
            if type(v) is Tup and len(v.items) == 2:
                g = (v.items[0], add(v.items[0], v.items[1]) if isint(v.items[0]) and isint(v.items[1]) else NONE)
            cmp("run-extent", con, g, w)
    for con, m, args in (("%s.assert_valid_sector(%d)" % (geo, lo0 - 1), "assert_valid_sector", [C(lo0 - 1)]),
                         ("%s.assert_valid_sector(%d)" % (geo, tab[-1][1] + 1), "assert_valid_sector", [C(tab[-1][1] + 1)]),
                         ("%s.get_sector_slice past the end" % geo, "get_sector_slice", [C(tab[-1][1]), C(tab[-1][1] + 1)]),
                         ("%s.get_contiguous_sectors past the end" % geo, "get_contiguous_sectors", [C(tab[-1][1]), C(2)])):
        outs = method(it, st, img, m, *args)
        if outs and all(k == "x" and lib(v) for k, y, v in outs):
            rep.ok("rejected", con)
        elif len(outs) == 1:
            k, y, v = outs[0]
            rep.bad("rejected", con, where, "accepted" if k == "n" else "refused with %s instead of the library's error" % xname(v))
        else:
            rep.und("rejected", con)


def extent(rep, rule, con, where, sid, off, ln, want, wsid):
    if sid == wsid and off == want[0] and ln == want[1]:
        rep.ok(rule, con, "%s+%s" % (off, ln))
        return
    if sid != wsid:
        rep.und(rule, con, "reads %s" % sid)
        return
    d1, d2 = sub(off, want[0]), sub(ln, want[1])
    if all(d is not None and only_sector(d) for d in (d1, d2)):
        rep.bad(rule, con, where, "touches %s bytes at %s, the sector has %s bytes at %s" % (ln, off, want[1], want[0]))
    else:
        rep.und(rule, con, "%s+%s" % (off, ln))


def only_sector(d):
    return type(d) is C or all(t == S for t in leaves(d))


def iter_part(rep, hcls, size, tab):
    """iter_sectors yields the same pieces from the first sector on"""
    it = mkit(Cli())
    con = "%s.iter_sectors" % hcls.info.name
    where = where_of(hcls, "iter_sectors")
    lo, hi, sz = tab[0]
    for k, x, h in calls(it, St(), hcls):
        if k != "n":
            continue
        for k2, y, v in method(it, x, h, "check_size", C(size)):
            if k2 != "n":
                continue
            for k3, z, g in method(it, y, h, "iter_sectors"):
                if k3 != "n":
                    continue
                if type(g) is not Gen:
                    rep.und("iteration", con, str(g)[:80])
                    continue
                got = []

                def body(w, val):
                    got.append(val)
                    return [("n", w, NONE)]
                it.iterate_gen(z, g, body, CALL)
                for n, e in enumerate(got):
                    if type(e) is not Tup or len(e.items) != 3 or not all(isint(a) for a in e.items):
                        rep.und("iteration", con, str(e)[:80])
                        continue
                    i, pos, size = e.items
                    if n == 0 and i != C(lo):
                        rep.bad("iteration", con, where, "the first sector is %s, not %d" % (i, lo)) if type(i) is C else rep.und("iteration", con, str(i))
                    if n and type(i) is C and type(got[n - 1].items[0]) is C and i.v != got[n - 1].items[0].v + 1:
                        rep.bad("iteration", con, where, "sector %s follows sector %s" % (i, got[n - 1].items[0]))
                    d = sub(pos, mul(C(sz), sub(i, C(lo))))
                    if d == C(0) and size == C(sz):
                        rep.ok("iteration", con, "item %d: %s" % (n, i))
                    elif type(d) is C and type(size) is C:
                        rep.bad("iteration", con, where, "sector %s comes with position %s and size %s" % (i, pos, size))
                    else:
                        rep.und("iteration", con, str(e)[:80])
                if not got:
                    rep.bad("iteration", con, where, "no sector is produced")
    rep.absorb(it)


def check(rep):
    root = classval("BaseHeader")
    heads = [root] + subclasses(root)
    jobs = []
    for cls in heads:
        jobs.append(("position", cls.info.name, header_part, (cls,)))
    # image classes with accessors of their own
    iroot = classval("DiskImageBase")
    names = ("get_raw_bytes", "get_sector_slice", "get_contiguous_sectors", "get_sectors", "write_sector_list", "assert_valid_sector")
    seen = []
    for icls in [iroot] + subclasses(iroot):
        key = tuple(id(icls.info.find(n)[1]) for n in names)
        if key in seen:
            continue
        seen.append(key)
        atr, apple = classval("AtrHeader"), classval("Dos33Header")
        for hcls, size, tab in ((atr, 183936, ATARI[183936]), (atr, 92160, ATARI[92160]), (apple, 143360, APPLE[143360])):
            jobs.append(("read-extent", "%s on %s" % (icls.info.name, hcls.info.name), image_part, (icls, hcls, size, tab, hcls is atr)))
    jobs.append(("iteration", "AtrHeader", iter_part, (classval("AtrHeader"), 92160, ATARI[92160])))
    jobs.append(("iteration", "Dos33Header", iter_part, (classval("Dos33Header"), 143360, APPLE[143360])))
    for rule, con, f, a in jobs:
        guarded(rep, rule, con, f, rep, *a)
