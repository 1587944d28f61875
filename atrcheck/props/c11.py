"""C11: sector chains read back exactly as they were linked."""
from ..common import *

EXPLANATION = ("Writers: build_sectors and assign_sector_numbers of the image and VTOC classes are interpreted on data of symbolic content, with "
               "symbolic free sector numbers and a symbolic file number; the bytes stored in every sector are compared, as bit vectors over "
               "those symbols, with the published link layout.  Readers: read_sector and the track/sector list readers are interpreted on "
               "images of symbolic content and the decoded next sector, byte count and extents are compared with the same layout over all "
               "256 values of each byte.  Chains: the byte order get_file_segment builds is derived on images in which only the link bytes "
               "of a chain are fixed.")
ASSUMPTIONS = ["published layouts: Atari DOS 2 link bytes at the end of a sector are file number (6 bits) with next sector (10 bits, high bits first) "
               "and byte count; MyDOS gives all 16 bits to the next sector; DOS 3.3 track/sector list: next list at 1,2, pairs from 0x0c"]
MINIMUM = 10

F = mk("sym", "FILENUM", kind="nat")
R_LAY = "what is written is the published link layout"
R_READ = "what is read is the published link layout"
R_DATA = "the data of the file is cut into sectors without loss"
R_CHAIN = "a chain is read in order, payload only"


def num(i):
    return mk("sym", "NUM%d" % i, kind="nat")


class Wr(Client):
    """free sector numbers are symbols"""
    unroll = 300
    peel = 300
    exact_list = 300
    max_writes = 700

    def pre_call(self, it, st, f, args, kw, node):
        if type(f) is Bm and type(f.fn) is Fn and f.fn.info.node.name in ("reserve_space", "get_next_free_sector", "calc_bitmap"):
            nm = f.fn.info.node.name
            y = st.fork()
            taken = st.mon or 0
            if nm == "calc_bitmap":
                return [("n", st, NONE)]
            if nm == "get_next_free_sector":
                y.mon = taken + 1
                return [("n", y, num(taken))]
            n = args[0]
            if type(n) is not C:
                return None
            y.mon = taken + n.v
            y, r = it.alloc(y, node, Lst([num(taken + i) for i in range(n.v)]), "order")
            return [("n", y, r)]
        return None


class Rd(Client):
    unroll = 600
    peel = 300
    exact_list = 3000

    def __init__(self):
        self.idx = []
        self.segs = []

    def on_method(self, it, st, base, name, args, kw, node):
        if name == "get_indexed" and args:
            y = st.fork()
            o = it.obj(st, args[0])
            y.mon = ("idx", tuple(o.items) if type(o) is Lst and o.summ is None else None)
            return [("n", y, mk("sym", "RAWIDX"))]
        return None

    def pre_call(self, it, st, f, args, kw, node):
        if type(f) is Cl and f.info.name.endswith("Segment"):
            y = st.fork()
            if f.info.name == "EmptySegment":
                y.mon = ("idx", ())
            return [("n", y, mk("sym", "SEG"))]
        return None


def header_of(it, st, cls, size=None, **kw):
    for k, x, h in calls(it, st, cls):
        if k != "n":
            continue
        if size is not None:
            r = [y for k2, y, _ in method(it, x, h, "check_size", C(size)) if k2 == "n"]
            if not r:
                return None
            x = r[0]
        return setattrs(it, x, h, **kw), h
    return None


def image_of(it, st, cls, h, ln):
    st = storage(st, "D", ln)
    st = storage(st, "S", ln)
    st, raw = it.alloc(st, CALL, Opq("rawdata"), "raw")
    return it.alloc(st, CALL, Inst(cls.info, {"bytes": Ar("D", C(0), ln), "style": Ar("S", C(0), ln), "header": h, "rawdata": raw}, False), "img")


def attr(it, st, ref, name):
    o = it.obj(st, ref)
    return o.attrs.get(name) if type(o) in (Inst, Opq) else None


def image_classes(root):
    r = classval(root)
    return [r] + subclasses(r)


# ------------------------------------------------------------ atari writers

def atari_write(rep, size, nbytes):
    it = mkit(Wr())
    cls = classval("AtariDosDiskImage")
    con = "AtariDosDiskImage size %d, %d byte file" % (size, nbytes)
    where = "atrcopy/ataridos.py"
    st = storage(St(), "W", C(nbytes))
    hx = header_of(it, st, classval("AtrHeader"), size)
    x, h = hx
    x, img = image_of(it, x, cls, h, C(size))
    ss = {92160: 128, 133120: 128, 183936: 256, 184320: 256}[size]
    pay = ss - 3
    want_n = max(1, -(-nbytes // pay))
    done = 0
    for k, y, sl in method(it, x, img, "build_sectors", Ar("W", C(0), C(nbytes))):
        if k != "n":
            rep.bad(R_DATA, con, where, "building the sectors of a file ends in %s" % (xname(sl) if k == "x" else k))
            continue
        vt = [v for k2, y2, v in it.getattr(y, img, "vtoc_class", CALL) if k2 == "n"]
        vcl = vt[0] if vt and type(vt[0]) is Cl else classval("AtariDosVTOC")
        y, v = it.alloc(y, CALL, Inst(vcl.info, {"header": h}, True), "vtoc")
        y, de = it.alloc(y, CALL, Opq("dirent", {"file_num": F}), "de")
        for k3, z, _ in method(it, y, v, "assign_sector_numbers", de, sl):
            if k3 != "n":
                if k3 == "x":
                    rep.bad(R_LAY, con, where, "linking %d sectors ends in %s although as many were reserved" % (want_n, xname(_)))
                continue
            lst = it.obj(z, attr(it, z, sl, "sectors"))
            if type(lst) is not Lst or lst.summ is not None:
                rep.und(R_LAY, con, "sector list not exact")
                continue
            if len(lst.items) != want_n:
                rep.bad(R_DATA, con, where, "%d bytes are put into %d sectors of %d payload bytes, not %d" % (nbytes, len(lst.items), pay, want_n))
                continue
            done += 1
            for i, s in enumerate(lst.items):
                a = it.obj(z, s).attrs
                d = a.get("data")
                if type(d) is not Ar:
                    rep.und(R_LAY, con, "sector data")
                    continue
                c2 = "%s, sector %d of %d" % (con, i + 1, want_n)
                sn = [v2 for k4, _, v2 in it.getattr(z, s, "sector_num", CALL) if k4 == "n"]
                expect_term(rep, R_LAY, c2, where, sn[0] if sn else None, num(i), {num(j): (0, 1023) for j in range(want_n)}, "the sector's own number")
                n_here = min(pay, nbytes - i * pay)
                nxt = num(i + 1) if i + 1 < want_n else C(0)
                dom = {num(j): (0, 1023) for j in range(want_n)}
                dom[F] = (0, 63)
                hi = C(0) if nxt == C(0) else mk("shr", nxt, C(8), kind="nat")
                b0, b1, b2 = (byte_at(it, z, d, j) for j in (ss - 3, ss - 2, ss - 1))
                want0 = mul(F, C(4))
                want0 = want0 if nxt == C(0) else add(want0, hi)
                lo = C(0) if nxt == C(0) else mk("band", nxt, C(255), kind="nat")
                expect_term(rep, R_LAY, c2 + " [file number and high bits of the next sector]", where, b0, want0, dom, "link byte 0")
                expect_term(rep, R_LAY, c2 + " [low byte of the next sector]", where, b1, lo, dom, "link byte 1")
                expect_term(rep, R_LAY, c2 + " [bytes used]", where, b2, C(n_here), dom, "link byte 2")
                # data
                if n_here <= 0:
                    continue
                for j in sorted({0, min(1, n_here - 1), n_here // 2, n_here - 1}):
                    g, w = byte_at(it, z, d, j), byte_at(it, z, Ar("W", C(0), C(nbytes)), i * pay + j)
                    if g == w:
                        rep.ok(R_DATA, c2 + " [byte %d]" % j, "file byte %d" % (i * pay + j))
                    elif g is not None and w is not None and (type(g) is C or _is_load(g)):
                        rep.bad(R_DATA, c2 + " [byte %d]" % j, where, "holds %s instead of byte %d of the file" % (str(g)[:60], i * pay + j))
                    else:
                        rep.und(R_DATA, c2, "byte %d: %s" % (j, str(g)[:60]))
    rep.absorb(it)
    if not done:
        rep.und(R_LAY, con, "no exact path")


def _is_load(t):
    return type(t) is T and t.op == "load8" and "'tok'" in str(t) and "joined" not in str(t)


# ------------------------------------------------------------ atari readers

def atari_read(rep, dcls, size, mydos):
    it = mkit(Rd())
    ss, pos0 = {92160: (128, 50 * 128), 183936: (256, 3 * 128 + 47 * 256)}[size]
    con = "%s, %d byte sectors" % (dcls, ss)
    where = "atrcopy/ataridos.py %s.read_sector" % dcls
    x, h = header_of(it, St(), classval("AtrHeader"), size)
    x, img = image_of(it, x, classval("AtariDosDiskImage"), h, C(size))
    D = Ar("D", C(0), C(size))
    fn = C(3)
    x, dc = [(y, s) for k, y, s in calls(it, x, classval(dcls), NONE, fn) if k == "n"][0]
    x = setattrs(it, x, dc, starting_sector=C(51), num_sectors=C(2), is_sane=C(True), in_use=C(True))
    B = [byte_at(it, x, D, pos0 + ss - 3 + j) for j in range(3)]
    if None in B:
        rep.und(R_READ, con, "symbolic link bytes")
        return
    outs = []
    for k, y, _ in method(it, x, dc, "start_read", img):
        if k == "n":
            outs += method(it, y, dc, "read_sector", img)
    pay = ss - 3
    paths = []
    for k, y, v in outs:
        if k == "n" and type(v) is Tup and len(v.items) == 4:
            nxt = attr(it, y, dc, "current_sector")
            paths.append(("n", y, v.items, nxt))
        elif k == "x":
            paths.append(("x", y, xname(v), None))
        else:
            rep.und(R_READ, con, "unexpected outcome %s" % k)
    rep.absorb(it)
    import itertools
    pts = [(a, b, c) for a in range(256) for b, c in ((7, 10), (255, 0), (0, pay), (200, pay - 1))]
    pts += [((3 << 2) | 1, 17, c) for c in range(256)] + [((3 << 2) | 2, b, 5) for b in range(256)]
    tested, bad, und = 0, {}, 0
    for b0, b1, b2 in pts:
        tab = {B[0]: C(b0), B[1]: C(b1), B[2]: C(b2)}
        want_next = b0 << 8 | b1 if mydos else (b0 & 3) << 8 | b1
        for p in paths:
            ok = feasible_at(p[1], tab, {k: v for k, v in p[1].facts.items() if not _about_seen(k)})
            if ok is not True:
                und += ok is None
                continue
            tested += 1
            wit = "link bytes %02x %02x %02x" % (b0, b1, b2)
            match = mydos or b0 >> 2 == 3
            if p[0] == "x":
                if "Mismatch" in p[2] and match:
                    bad.setdefault("file number", "%s: refused although the file number is that of the directory entry" % wit)
                elif match and want_next != 51 and not any(_about_seen(k) for k in p[1].facts):
                    bad.setdefault("refused", "%s: a valid sector ends in %s" % (wit, p[2]))
                continue
            if not match:
                bad.setdefault("file number", "%s: a sector of file %d is accepted as part of file 3" % (wit, b0 >> 2))
                continue
            raw, last, pos, n = p[2]
            nv = subst(p[3], tab) if p[3] is not None else None
            if type(nv) is C and nv.v != want_next:
                bad.setdefault("next", "%s: next sector read as %s, not %d" % (wit, nv.v, want_next))
            lv = last
            if type(lv) is T:
                kk, pol = fact_key(lv)
                f = fact_at(kk, tab)
                lv = C(f == pol) if f is not None else lv
            if type(lv) is C and bool(lv.v) != (want_next == 0):
                bad.setdefault("last", "%s: taken %s the last sector" % (wit, "for" if lv.v else "not for"))
            c = subst(n, tab) if isint(n) else None
            if type(c) is C:
                if c.v > pay:
                    bad.setdefault("count", "%s: %d bytes are taken from a sector with %d data bytes" % (wit, c.v, pay))
                elif b2 <= pay and c.v != b2:
                    bad.setdefault("count", "%s: %d bytes are taken, the count says %d" % (wit, c.v, b2))
            pv = subst(pos, tab) if isint(pos) else None
            if type(pv) is C and pv.v != pos0:
                bad.setdefault("pos", "%s: data of sector 51 read at %d, not %d" % (wit, pv.v, pos0))
            if type(raw) is Ar and raw.sid == "D":
                a = subst(sub(raw.off, C(0)), tab)
                l = subst(raw.ln, tab)
                if type(a) is C and a.v != pos0:
                    bad.setdefault("data", "%s: data starts at %d, not %d" % (wit, a.v, pos0))
                if type(l) is C and type(c) is C and l.v != c.v:
                    bad.setdefault("data", "%s: %d bytes returned, %d announced" % (wit, l.v, c.v))
    rep.count("link_byte_valuations", tested)
    for what, d in bad.items():
        rep.bad(R_READ, "%s [%s]" % (con, what), where, d)
    if tested >= len(pts) // 2:
        for what in ("next", "last", "count", "pos", "data", "file number"):
            if what not in bad:
                rep.ok(R_READ, "%s [%s]" % (con, what), "%d valuations of the link bytes" % tested)
    else:
        rep.und(R_READ, con, "%d of %d valuations decided" % (tested, len(pts)))


def _about_seen(k):
    return k[0] == "cmp" and k[1] == "in" or k[0] == "t" and type(k[1]) is T and k[1].op == "in"


# --------------------------------------------------------------- atari chain

def put(it, x, D, pos, v):
    return it.setitem(x, D, C(pos), C(v), CALL)[0][1]


def atari_chain(rep, dcls, chain, mydos=False, fnum=3):
    """chain: [(sector, used)]; the link bytes are fixed, all else symbolic"""
    it = mkit(Rd())
    size = 720 * 8
    con = "%s, chain %s" % (dcls, "-".join(str(c[0]) for c in chain))
    where = "atrcopy/ataridos.py AtariDosDiskImage.get_file_segment"
    x, h = header_of(it, St(), classval("AtrHeader"), 92160)
    x = setattrs(it, x, h, sector_size=C(8), payload_bytes=C(5), max_sectors=C(720), image_size=C(size))
    x, img = image_of(it, x, classval("AtariDosDiskImage"), h, C(size))
    D = Ar("D", C(0), C(size))
    want = []
    for i, (sec, n) in enumerate(chain):
        nxt = chain[i + 1][0] if i + 1 < len(chain) else 0
        p = (sec - 1) * 8
        x = put(it, x, D, p + 5, nxt >> 8 if mydos else fnum << 2 | nxt >> 8)
        x = put(it, x, D, p + 6, nxt & 255)
        x = put(it, x, D, p + 7, n)
        want += range(p, p + n)
    x, dc = [(y, s) for k, y, s in calls(it, x, classval(dcls), NONE, C(fnum)) if k == "n"][0]
    x = setattrs(it, x, dc, starting_sector=C(chain[0][0]), num_sectors=C(len(chain)), is_sane=C(True), in_use=C(True))
    compare_order(rep, it, con, where, method(it, x, img, "get_file_segment", dc), want)
    rep.absorb(it)


def compare_order(rep, it, con, where, outs, want):
    for k, y, v in outs:
        if k == "x":
            rep.bad(R_CHAIN, con, where, "an intact chain cannot be read: %s" % xname(v))
            continue
        m = y.mon
        if k != "n" or not m or m[1] is None or not all(type(i) is C for i in m[1]):
            rep.und(R_CHAIN, con, "byte order not exact")
            continue
        got = [i.v for i in m[1]]
        if got == list(want):
            rep.ok(R_CHAIN, con, "%d bytes in order" % len(got))
        else:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            rep.bad(R_CHAIN, con, where, "file byte %d is read from image byte %s, its place is %s (%d bytes read, %d expected)" % (
                i, got[i] if i < len(got) else "none", want[i] if i < len(want) else "none", len(got), len(want)))


# ------------------------------------------------------------------ dos 3.3

def dos_header(it, st, size=256, pairs=122):
    x, h = header_of(it, st, classval("Dos33Header"), 143360)
    return setattrs(it, x, h, sector_size=C(size), ts_pairs=C(pairs), payload_bytes=C(size), image_size=C(560 * size)), h


def dos_write(rep, nsec, pairs):
    """add_metadata_sectors on nsec data sectors"""
    it = mkit(Wr())
    con = "Dos33Dirent.add_metadata_sectors, %d data sectors, %d pairs per list" % (nsec, pairs)
    where = "atrcopy/dos33.py Dos33TSSector.set_tslist"
    x, h = dos_header(it, St(), 256, pairs)
    x, sl = [(y, s) for k, y, s in calls(it, x, classval("BaseSectorList"), h) if k == "n"][0]
    secs = []
    for i in range(nsec):
        x, s = [(y, s) for k, y, s in calls(it, x, classval("WriteableSector"), C(256), NONE, mk("sym", "DATA%d" % i, kind="nat")) if k == "n"][0]
        x = method(it, x, sl, "append", s)[0][1]
        secs.append(s)
    x, v = it.alloc(x, CALL, Inst(classval("Dos33VTOC").info, {"header": h}, True), "vtoc")
    x, de = [(y, s) for k, y, s in calls(it, x, classval("Dos33Dirent"), NONE, C(0)) if k == "n"][0]
    nlist = -(-nsec // pairs)
    dom = {mk("sym", "DATA%d" % i, kind="nat"): (0, 559) for i in range(nsec)}
    dom.update({num(i): (0, 559) for i in range(nlist)})

    def ts(t):
        return mk("div", t, C(16), kind="nat"), mk("mod", t, C(16), kind="nat")
    done = 0
    for k, y, _ in method(it, x, de, "add_metadata_sectors", v, sl, h):
        if k != "n":
            if k == "x":
                rep.bad(R_LAY, con, where, "ends in %s" % xname(_))
            continue
        lst = it.obj(y, attr(it, y, sl, "sectors"))
        if type(lst) is not Lst or lst.summ is not None:
            rep.und(R_LAY, con, "sector list not exact")
            continue
        done += 1
        new = [s for s in lst.items if s not in secs]
        if [s for s in lst.items if s in secs] != secs:
            rep.bad(R_LAY, con, where, "data sectors are lost or reordered")
        if len(new) != nlist:
            rep.bad(R_LAY, con, where, "%d track/sector lists are made, %d are needed" % (len(new), nlist))
            continue
        t, s_ = ts(num(0))
        expect_term(rep, R_LAY, con + " [track in the directory entry]", where, attr(it, y, de, "track"), t, dom, "track of the first list")
        expect_term(rep, R_LAY, con + " [sector in the directory entry]", where, attr(it, y, de, "sector"), s_, dom, "sector of the first list")
        for i, s in enumerate(new):
            a = it.obj(y, s).attrs
            d = a.get("data")
            if type(d) is not Ar:
                rep.und(R_LAY, con, "list data")
                continue
            c2 = "%s, list %d" % (con, i + 1)
            sn = [v2 for k4, _, v2 in it.getattr(y, s, "sector_num", CALL) if k4 == "n"]
            expect_term(rep, R_LAY, c2 + " [own number]", where, sn[0] if sn else None, num(i), dom, "sector number of the list")
            t, s_ = ts(num(i + 1)) if i + 1 < nlist else (C(0), C(0))
            expect_term(rep, R_LAY, c2 + " [next track]", where, byte_at(it, y, d, 1), t, dom, "byte 1")
            expect_term(rep, R_LAY, c2 + " [next sector]", where, byte_at(it, y, d, 2), s_, dom, "byte 2")
            here = range(i * pairs, min(nsec, (i + 1) * pairs))
            for j in range(min(pairs, 6)):
                if i * pairs + j in here:
                    t, s_ = ts(mk("sym", "DATA%d" % (i * pairs + j), kind="nat"))
                else:
                    t, s_ = C(0), C(0)
                expect_term(rep, R_LAY, c2 + " [track of pair %d]" % j, where, byte_at(it, y, d, 12 + 2 * j), t, dom, "byte %d" % (12 + 2 * j))
                expect_term(rep, R_LAY, c2 + " [sector of pair %d]" % j, where, byte_at(it, y, d, 13 + 2 * j), s_, dom, "byte %d" % (13 + 2 * j))
    rep.absorb(it)
    if not done:
        rep.und(R_LAY, con, "no exact path")


def dos_read(rep):
    """the list reader on a sector of symbolic content"""
    it = mkit(Rd())
    con = "Dos33TSSector"
    where = "atrcopy/dos33.py Dos33TSSector.get_tslist"
    x, h = dos_header(it, storage(St(), "W", C(256)), 256)
    W = Ar("W", C(0), C(256))
    for k, y, s in calls(it, x, classval("Dos33TSSector"), h, data=W):
        if k != "n":
            continue
        for k2, z, l in method(it, y, s, "get_tslist"):
            o = it.obj(z, l) if k2 == "n" and type(l) is R else None
            if type(o) is not Lst or o.summ is not None:
                rep.und(R_READ, con, "list not exact")
                continue
            if len(o.items) != 122:
                rep.bad(R_READ, con + " [number of pairs]", where, "%d pairs are read from a list, 122 are stored" % len(o.items))
                continue
            rep.ok(R_READ, con + " [number of pairs]", "122")
            for j in (0, 1, 60, 121):
                bt, bs = byte_at(it, z, W, 12 + 2 * j), byte_at(it, z, W, 13 + 2 * j)
                expect_term(rep, R_READ, con + " [pair %d]" % j, where, o.items[j], add(mul(bt, C(16)), bs), {bt: (0, 34), bs: (0, 15)}, "pair %d" % j)
        for k2, z, v in it.getattr(y, s, "next_sector_num", CALL):
            bt, bs = byte_at(it, z, W, 1), byte_at(it, z, W, 2)
            if k2 == "n":
                expect_term(rep, R_READ, con + " [next]", "atrcopy/dos33.py Dos33TSSector.next_sector_num", v, add(mul(bt, C(16)), bs),
                            {bt: (0, 34), bs: (0, 15)}, "next list")
    rep.absorb(it)


def dos_chain(rep, lists, nsectors=None, ftype=0):
    """lists: [(sector, pairs)] with two pairs per list"""
    it = mkit(Rd())
    con = "Dos33Dirent, lists %s" % "-".join("%d:%s" % (a, list(b)) for a, b in lists)
    where = "atrcopy/dos33.py Dos33DiskImage.get_file_segment"
    x, h = dos_header(it, St(), 16, 2)
    x, img = image_of(it, x, classval("Dos33DiskImage"), h, C(560 * 16))
    D = Ar("D", C(0), C(560 * 16))
    data = [q for _, ps in lists for q in ps]
    for i, (sec, ps) in enumerate(lists):
        nxt = lists[i + 1][0] if i + 1 < len(lists) else 0
        p = sec * 16
        x = put(it, x, D, p + 1, nxt // 16)
        x = put(it, x, D, p + 2, nxt % 16)
        for j in range(2):
            q = ps[j] if j < len(ps) else 0
            x = put(it, x, D, p + 12 + 2 * j, q // 16)
            x = put(it, x, D, p + 13 + 2 * j, q % 16)
    x, dc = [(y, s) for k, y, s in calls(it, x, classval("Dos33Dirent"), NONE, C(3)) if k == "n"][0]
    x = setattrs(it, x, dc, track=C(lists[0][0] // 16), sector=C(lists[0][0] % 16), num_sectors=C(nsectors or len(data) + len(lists)), is_sane=C(True), _file_type=C(ftype))
    want = [b for q in data for b in range(q * 16, q * 16 + 16)]
    compare_order(rep, it, con, where, method(it, x, img, "get_file_segment", dc), want)
    rep.absorb(it)


def check(rep):
    jobs = []

    def job(name, f, *a):
        jobs.append((name, lambda r: guarded(r, R_LAY, name, f, r, *a)))
    for size in (92160, 133120, 183936, 184320):
        pay = 125 if size < 180000 else 253
        for n in (0, 1, pay - 1, pay, pay + 1, 2 * pay, 2 * pay + 50):
            job("atari write %d %d" % (size, n), atari_write, size, n)
    for size in (92160, 183936):
        job("atari read %d" % size, atari_read, "AtariDosDirent", size, False)
        job("mydos read %d" % size, atari_read, "MydosDirent", size, True)
    for ch in ([(5, 5), (300, 2)], [(719, 5), (4, 5), (300, 5), (257, 1)], [(512, 3)], [(20, 0)], [(20, 5), (21, 0)], [(255, 2), (256, 5), (3, 5)]):
        job("chain %s" % ch, atari_chain, "AtariDosDirent", ch)
    for ch in ([(5, 5), (300, 2)], [(719, 5), (4, 5), (300, 5)]):
        job("mydos chain %s" % ch, atari_chain, "MydosDirent", ch, True)
    for n, p in ((1, 122), (122, 122), (123, 122), (3, 2), (5, 2), (4, 2), (7, 3)):
        job("dos33 write %d/%d" % (n, p), dos_write, n, p)
    job("dos33 read", dos_read)
    for ls in ([(20, (100, 101)), (45, (333,))], [(20, (100,))], [(559, (3, 2)), (17, (500, 1)), (300, (16,))], [(33, (5, 6))]):
        job("dos33 chain %s" % ls, dos_chain, ls)
    parallel(rep, jobs)
