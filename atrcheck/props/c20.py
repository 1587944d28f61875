"""C20: headers are written the way they are read."""
import itertools

from ..common import *

EXPLANATION = ("Every header writer (ATR, cartridge, Atari executable, Apple BSAVE, KBoot) is interpreted on symbolic field values and symbolic data; the "
               "bytes it stores are compared, bit by bit, with the published layout, and the program's own reader is interpreted on exactly those "
               "stored bytes: the fields and the data it delivers must be the terms the writer started from.")
ASSUMPTIONS = ["values a format cannot express (an ATR of 2^28 bytes or more, an origin or length above 16 bits, a segment at 0xffff, an empty segment) are outside the claim",
               "executables: the number of segments goes up to four; lengths and contents of the segments and single origins are symbolic"]
MINIMUM = 150

ORG, CRC, UNU, FLG, PAR, SSZ = (sym(n, "nat") for n in ("ORG", "CRC", "UNUSED", "FLAGS", "PARAGRAPHS", "SECSIZE"))
DOM = {PAR: (0, 2**24 - 1), SSZ: (0, 65535), CRC: (0, 2**32 - 1), UNU: (0, 2**32 - 1), FLG: (0, 255), ORG: (0, 65535)}
W_LAY = "written layout is the published one"
W_RT = "read back as written"
W_DATA = "data behind the header unchanged"


class Ex_(Client):
    unroll = 400
    peel = 400
    exact_list = 400
    max_writes = 5000


def byte_of(t, i):
    return mk("byte", t, C(i), kind="byte") if type(t) is not C else C(t.v >> 8 * i & 255)


def le(t, n):
    return [byte_of(t, i) for i in range(n)]


def be(t, n):
    return le(t, n)[::-1]


def expect_bytes(rep, it, st, arr, off, want, con, where, what, dom=DOM):
    for i, w in enumerate(want):
        expect_term(rep, W_LAY, "%s: byte %d (%s)" % (con, off + i, what), where, byte_at(it, st, arr, off + i), w, dom, "the byte")


def expect_len(rep, con, where, arr, n):
    if type(arr) is not Ar:
        rep.und(W_LAY, con + ": length", "not an array")
    elif arr.ln == n:
        rep.ok(W_LAY, con + ": length", str(n))
    elif type(arr.ln) is C and type(n) is C:
        rep.bad(W_LAY, con + ": length", where, "%s bytes are written, not %s" % (arr.ln, n))
    else:
        rep.und(W_LAY, con + ": length", "%s, not %s" % (arr.ln, n))


# ---------------------------------------------------------------- ATR header

def atr(rep):
    it = mkit(Ex_())
    w = "atrcopy/ataridos.py AtrHeader.encode"
    con = "ATR header"
    H = classval("AtrHeader")
    size = mul(C(16), PAR)
    for k, x, h in calls(it, St(), H, create=TRUE):
        if k != "n":
            continue
        x = setattrs(it, x, h, image_size=size, sector_size=SSZ, crc=CRC, unused=UNU, flags=FLG)
        for k, y, raw in method(it, x, h, "to_array"):
            if k != "n":
                rep.bad(W_LAY, con, w, "writing the header ends in %s" % xname(raw))
                continue
            expect_len(rep, con, w, raw, C(16))
            for off, t, what in ((0, [C(0x96), C(0x02)], "magic number 0x0296"), (2, le(PAR, 2), "size in paragraphs, low word"), (4, le(SSZ, 2), "sector size"),
                                 (6, [byte_of(PAR, 2)], "size in paragraphs, high byte"), (7, le(CRC, 4), "CRC"), (11, le(UNU, 4), "unused"), (15, [byte_of(FLG, 0)], "flags")):
                expect_bytes(rep, it, y, raw, off, t, con, w, what)
            n = 0
            for k, z, h2 in calls(it, y, H, raw):
                if k == "x":
                    small = any(feasible_at(z, {SSZ: C(v)}) is not False for v in (128, 256, 512, 8192))
                    if small and xname(h2) == "InvalidAtrHeader" and any(feasible_at(z, {SSZ: C(v)}) is True for v in (128, 256, 512)):
                        rep.bad(W_RT, con, w, "the reader refuses a header written with a sector size of 128, 256 or 512")
                    continue
                if k != "n":
                    continue
                n += 1
                o = it.obj(z, h2)
                for nm, t in (("image_size", size), ("sector_size", SSZ), ("crc", CRC), ("unused", UNU), ("flags", FLG), ("header_offset", C(16))):
                    expect_term(rep, W_RT, "%s: %s" % (con, nm), w, o.attrs.get(nm), t, DOM, nm)
            if not n:
                rep.bad(W_RT, con, w, "the reader accepts no header that was written")
    # the header put in front of raw sectors
    w = "atrcopy/ataridos.py add_atr_header"
    for size, ss, init in ((92160, 128, None), (133120, 128, None), (184320, 256, None), (183936, 256, 3), (16384, 128, None), (1048576 * 2, 128, None)):
        con = "add_atr_header on %d bytes" % size
        it = mkit(Ex_())
        st = storage(St(), "W", C(size))
        for k, x, arr in calls(it, st, gval("ataridos", "add_atr_header"), Ar("W", C(0), C(size))):
            if k != "n":
                rep.bad(W_LAY, con, w, "ends in %s" % xname(arr))
                continue
            expect_len(rep, con, w, arr, C(size + 16))
            p = size // 16
            expect_bytes(rep, it, x, arr, 0, [C(v) for v in (0x96, 2, p & 255, p >> 8 & 255, ss & 255, ss >> 8, p >> 16)], con, w, "magic, size, sector size")
            expect_same(rep, it, x, arr, 16, "W", size, con, w)


def src(sid, i):
    return mk("load8", mk("content", ("tok", sid), ()), C(i) if isinstance(i, int) else i, kind="byte")


def points(n):
    return sorted({0, 1, 2, n // 3, n // 2, n - 2, n - 1} & set(range(n)))


def expect_same(rep, it, st, arr, off, sid, n, con, where, rule=None):
    """the n bytes at off of arr are those of the input array sid"""
    for i in points(n):
        t = byte_at(it, st, arr, off + i)
        want = src(sid, i)
        if t == want:
            rep.ok(W_DATA, "%s: byte %d" % (con, i))
        elif t is None:
            rep.und(W_DATA, "%s: byte %d" % (con, i), "unknown")
        elif type(t) is C or known_other(t):
            rep.bad(W_DATA, "%s: byte %d" % (con, i), where, "holds %s instead of byte %d of the data" % (str(t)[:60], i))
        else:
            rep.und(W_DATA, "%s: byte %d" % (con, i), str(t)[:80])


def known_other(t):
    """a byte of an untouched input array at a constant place"""
    return type(t) is T and t.op == "load8" and type(t.args[1]) is C and type(t.args[0]) is T and t.args[0].op == "content" and t.args[0].args[1] == () and t.args[0].args[0][0] == "tok" and isinstance(t.args[0].args[0][1], str)


# --------------------------------------------------------------- cartridges

def cart(rep):
    H = classval("A8CartHeader")
    rows = topy(gval("cartridge", "known_cart_types"))
    w = "atrcopy/cartridge.py A8CartHeader"
    for row in rows:
        t = row[0]
        con = "CART header type %d" % t
        it = mkit(Ex_())
        for k, x, h in calls(it, St(), H):
            if k != "n":
                continue
            for k, x, _ in method(it, x, h, "set_type", C(t)):
                if k != "n":
                    rep.bad(W_RT, con, w, "set_type ends in %s" % xname(_))
                    continue
                x = setattrs(it, x, h, crc=CRC)
                for k, y, raw in method(it, x, h, "to_array"):
                    if k != "n":
                        rep.bad(W_LAY, con, w, "writing the header ends in %s" % xname(raw))
                        continue
                    expect_len(rep, con, w, raw, C(16))
                    expect_bytes(rep, it, y, raw, 0, [C(c) for c in b"CART"], con, w, "magic")
                    expect_bytes(rep, it, y, raw, 4, be(C(t), 4), con, w, "type, big endian")
                    expect_bytes(rep, it, y, raw, 8, be(CRC, 4), con, w, "CRC, big endian")
                    expect_bytes(rep, it, y, raw, 12, [C(0)] * 4, con, w, "reserved")
                    ok = 0
                    for k, z, h2 in calls(it, y, H, raw):
                        if k != "n":
                            rep.bad(W_RT, con, w, "the reader refuses the header it wrote: %s" % xname(h2))
                            continue
                        ok += 1
                        o = it.obj(z, h2)
                        for nm, v in (("cart_type", C(t)), ("crc", CRC), ("cart_name", C(row[1])), ("cart_size", C(row[2])), ("header_offset", C(16))):
                            got = o.attrs.get(nm)
                            if nm == "cart_name":
                                if got == v:
                                    rep.ok(W_RT, "%s: name" % con)
                                elif type(got) is C:
                                    rep.bad(W_RT, "%s: name" % con, w, "%s, not %s" % (got, v))
                                continue
                            expect_term(rep, W_RT, "%s: %s" % (con, nm), w, got, v, DOM, nm)


# -------------------------------------------------------------- executables

def segment(it, st, i, org, n):
    """a segment with unknown contents: n may be symbolic"""
    n = C(n) if isinstance(n, int) else n
    org = C(org) if isinstance(org, int) else org
    w, y = "W%d" % i, "Y%d" % i
    st = storage(storage(st, w, n), y, n)
    for k, st, raw in calls(it, st, classval("SegmentData"), Ar(w, C(0), n), Ar(y, C(0), n)):
        if k == "n":
            for k, st, s in calls(it, st, classval("DefaultSegment"), raw, org):
                if k == "n":
                    return st, s
    raise ValueError("no segment")


def seglist(it, segs):
    st, refs = St(), []
    for i, (org, n) in enumerate(segs):
        st, s = segment(it, st, i, org, n)
        refs.append(s)
    return it.alloc(st, CALL, Lst(tuple(refs)), "segs")


def data_of(it, st, v):
    """the array behind a segment"""
    for k, x, d in it.getattr(st, v, "data", CALL):
        if k == "n" and type(d) is Ar:
            return d
    o = it.obj(st, v)
    r = o.attrs.get("rawdata")
    return it.obj(st, r).attrs.get("data") if type(r) is R else None


def xex_layout(rep, n_seg):
    """symbolic origins and lengths, in the written file"""
    w = "atrcopy/executables.py get_xex"
    orgs = [sym("ORG%d" % i, "nat") for i in range(n_seg)]
    lens = [sym("LEN%d" % i, "nat") for i in range(n_seg)]
    for runs, label in ((NONE, "no run address"),):
        it = mkit(Ex_())
        st, l = seglist(it, list(zip(orgs, lens)))
        con = "XEX of %d segments, any origin and length" % n_seg
        for k, x, v in calls(it, st, gval("executables", "get_xex"), l, runs):
            if k != "n" or type(v) is not Tup:
                continue
            d = data_of(it, x, v.items[0])
            if d is None:
                rep.und(W_LAY, con, "no data")
                continue
            expect_bytes(rep, it, x, d, 0, [C(255), C(255)], con, w, "0xffff")
            own = any(kk == ("eq", sub(o, C(0x2e0))) and vv for kk, vv in x.facts.items() for o in orgs)
            # with or without a run vector in front
            b2 = byte_at(it, x, d, 2)
            pos = C(2)
            cc = con
            if b2 == C(0xe0):
                pos = C(8)
                cc = con + ", run vector added"
                expect_bytes(rep, it, x, d, 2, [C(0xe0), C(2), C(0xe1), C(2)], cc, w, "run vector header")
            for i in range(n_seg):
                end = sub(add(orgs[i], lens[i]), C(1))
                for j, t in enumerate(le(orgs[i], 2) + le(end, 2)):
                    p = add(pos, C(j))
                    expect_term(rep, W_LAY, "%s: header of segment %d, byte %d" % (cc, i, j), w, sbyte(it, x, d, p), t, {}, "the byte")
                pos = add(add(pos, C(4)), lens[i])
            if d.ln == pos:
                rep.ok(W_LAY, cc + ": length")
            else:
                diff = sub(d.ln, pos) if isint(d.ln) else None
                if type(diff) is C:
                    rep.bad(W_LAY, cc + ": length", w, "the file is %d bytes too %s" % (abs(diff.v), "long" if diff.v > 0 else "short"))
                else:
                    rep.und(W_LAY, cc + ": length", str(d.ln))


def sbyte(it, st, arr, p):
    """the byte at a possibly symbolic position"""
    return byte_at(it, st, arr, p)


ORGS = [0x0001, 0x0480, 0x1000, 0x1234, 0x2fff, 0x80ff, 0xff00 - 700, 0xa5a5, 0x5a5a, 0x0100, 0x00ff, 0x0200]


def xex_cases(tier):
    cases = [[(o, n)] for o, n in zip(ORGS, (1, 2, 3, 255, 256, 257, 511, 4, 5, 100, 200, 512))]
    cases += [[(0x2000, 3), (0x3000, 300)], [(0x3000, 300), (0x2000, 256), (0x4000, 1)], [(0x2000, 10), (0x2005, 10)],
              [(0x600, 255), (0x2e0, 2)], [(0x2e2, 2), (0x2e0, 2), (0x1000, 7)], [(0xfffe, 1), (0x10, 2), (0xff, 0x101), (0x1ff, 2)]]
    if tier == "thorough":
        cases += [[(o, n)] for o in ORGS for n in (1, 2, 127, 255, 256, 257, 300) if o + n <= 0x10000]
        cases += [[(a, 3), (b, 300)] for a, b in itertools.permutations(ORGS[:6], 2)]
    return cases


def xex(rep, case):
    w = "atrcopy/executables.py get_xex"
    con = "XEX of %s" % ", ".join("%d at %#06x" % (n, o) for o, n in case)
    it = mkit(Ex_())
    st, l = seglist(it, case)
    own = any(o == 0x2e0 for o, n in case)
    want = ([] if own else [(0x2e0, 2, None)]) + [(o, n, i) for i, (o, n) in enumerate(case)]
    for k, x, v in calls(it, st, gval("executables", "get_xex"), l, NONE):
        if k != "n":
            rep.bad(W_LAY, con, w, "writing the executable ends in %s" % xname(v))
            continue
        d = data_of(it, x, v.items[0])
        if type(d) is not Ar:
            rep.und(W_LAY, con, "no data")
            continue
        expect_len(rep, con, w, d, C(2 + sum(4 + n for o, n, i in want)))
        expect_bytes(rep, it, x, d, 0, [C(255), C(255)], con, w, "0xffff")
        read_xex(rep, it, x, d, want, con)


def read_xex(rep, it, x, d, want, con):
    w = "atrcopy/ataridos.py AtariDosFile.parse_segments"
    for k2, y, r in calls(it, x, classval("SegmentData"), d):
        if k2 != "n":
            continue
        for k3, z, im in calls(it, y, classval("AtariDosFile"), r):
            if k3 != "n":
                rep.bad(W_RT, con, w, "the reader refuses the file: %s" % xname(im))
                continue
            for k4, z, _ in method(it, z, im, "parse_segments"):
                if k4 != "n":
                    rep.bad(W_RT, con, w, "the reader refuses the file: %s" % (xname(_) if k4 == "x" else k4))
                    continue
                same_segments(rep, it, z, im, want, con, w)


def same_segments(rep, it, z, im, want, con, w):
    sg = it.obj(z, it.obj(z, im).attrs["segments"])
    if type(sg) is not Lst or not sg.exact:
        rep.und(W_RT, con, "segment list not exact")
        return
    if len(sg.items) != len(want):
        rep.bad(W_RT, con, w, "%d segments are read, %d were written" % (len(sg.items), len(want)))
        return
    rep.ok(W_RT, con + ": number of segments", str(len(want)))
    for s, (o, n, i) in zip(sg.items, want):
        c2 = "%s: segment at %#06x" % (con, o)
        v = it.obj(z, s).attrs.get("origin")
        expect_term(rep, W_RT, c2 + ", origin", w, v, C(o), {}, "the origin")
        dd = data_of(it, z, s)
        if type(dd) is not Ar:
            rep.und(W_RT, c2, "no data")
            continue
        if type(dd.ln) is C and dd.ln.v != n:
            rep.bad(W_RT, c2 + ", length", w, "%d bytes are read, %d were written" % (dd.ln.v, n))
            continue
        rep.ok(W_RT, c2 + ", length", str(n))
        if i is not None:
            expect_same(rep, it, z, dd, 0, "W%d" % i, n, c2, w)


# -------------------------------------------------------------------- BSAVE

def bsave(rep, case):
    w = "atrcopy/executables.py get_bsave"
    con = "BSAVE of %s" % ", ".join("%d at %#06x" % (n, o) for o, n in case)
    it = mkit(Ex_())
    st, l = seglist(it, case)
    org = min(o for o, n in case)
    last = max(o + n for o, n in case)
    for k, x, d in calls(it, st, gval("executables", "get_bsave"), l, NONE):
        if k != "n":
            rep.bad(W_LAY, con, w, "writing the file ends in %s" % xname(d))
            continue
        size = last - org
        expect_len(rep, con, w, d, C(size + 4))
        expect_bytes(rep, it, x, d, 0, le(C(org), 2) + le(C(size), 2), con, w, "origin and length")
        for i, (o, n) in enumerate(case):
            rest = case[i + 1:]
            if not any(o < o2 + n2 and o2 < o + n for o2, n2 in rest):
                expect_same(rep, it, x, d, 4 + o - org, "W%d" % i, n, "%s: segment %d" % (con, i), w)
        gaps = [a for a in range(org, last) if not any(o <= a < o + n for o, n in case)]
        for a in {gaps[0], gaps[-1]} if gaps else ():
            expect_term(rep, W_DATA, "%s: gap at %#x" % (con, a), w, byte_at(it, x, d, 4 + a - org), C(0), {}, "the byte between two segments")
        read_bsave(rep, it, x, d, org, size, con)


def read_bsave(rep, it, x, d, org, size, con, sid=None):
    w = "atrcopy/dos33.py Dos33BinFile.parse_segments"
    for k2, y, r in calls(it, x, classval("SegmentData"), d):
        if k2 != "n":
            continue
        for k3, z, im in calls(it, y, classval("Dos33BinFile"), r):
            if k3 != "n":
                rep.bad(W_RT, con, w, "the reader refuses the file: %s" % xname(im))
                continue
            for k4, z, _ in method(it, z, im, "parse_segments"):
                if k4 != "n":
                    rep.bad(W_RT, con, w, "the reader refuses the file: %s" % (xname(_) if k4 == "x" else k4))
                    continue
                sg = it.obj(z, it.obj(z, im).attrs["segments"])
                if type(sg) is not Lst or not sg.exact:
                    rep.und(W_RT, con, "segment list not exact")
                    continue
                if len(sg.items) != 1:
                    rep.bad(W_RT, con, w, "%d segments are read" % len(sg.items))
                    continue
                s = sg.items[0]
                v = it.obj(z, s).attrs.get("origin")
                expect_term(rep, W_RT, con + ": origin", w, v, org if isinstance(org, Val) else C(org), DOM, "the origin")
                dd = data_of(it, z, s)
                if type(dd) is Ar and dd.ln == C(size):
                    rep.ok(W_RT, con + ": length")
                    for i in points(size):
                        a, b = byte_at(it, z, dd, i), byte_at(it, x, d, 4 + i)
                        if a is None:
                            rep.und(W_RT, "%s: byte %d" % (con, i), "")
                        elif a == b:
                            rep.ok(W_RT, "%s: byte %d" % (con, i))
                        elif type(a) is C or known_other(a):
                            rep.bad(W_RT, "%s: byte %d" % (con, i), w, "byte %d is read as %s" % (i, a))
                elif type(dd) is Ar and type(dd.ln) is C:
                    rep.bad(W_RT, con + ": length", w, "%s bytes are read, %d were written" % (dd.ln, size))
                else:
                    rep.und(W_RT, con + ": length", "")


def bsaver(rep, n):
    """the exporter of single segments"""
    w = "atrcopy/segments.py BSAVESaver.encode_data"
    con = "BSAVE export of %d bytes" % n
    it = mkit(Ex_())
    st, s = segment(it, St(), 0, ORG, n)
    S = classval("BSAVESaver")
    for k, x, m in it.getattr(st, S, "encode_data", CALL):
        if k != "n":
            continue
        for k, y, d in it.call_value(x, m, [s, NONE], {}, CALL):
            if k != "n":
                rep.bad(W_LAY, con, w, "ends in %s" % xname(d))
                continue
            arr = as_array(it, y, d)
            if arr is None:
                rep.und(W_LAY, con, "the result is %s" % str(d)[:100])
                continue
            y, arr = arr
            expect_len(rep, con, w, arr, C(n + 4))
            expect_bytes(rep, it, y, arr, 0, le(ORG, 2) + le(C(n), 2), con, w, "origin and length")
            expect_same(rep, it, y, arr, 4, "W0", n, con, w)
            read_bsave(rep, it, y, arr, ORG, n, con)


def as_array(it, st, v):
    """bytes-like result as an array to look into"""
    if type(v) is Ar:
        return st, v
    for nm in ("numpy.frombuffer",):
        for k, x, a in it.call_value(st, Ex(nm), [v], {"dtype": Ex("numpy.uint8")}, CALL):
            if k == "n" and type(a) is Ar:
                return x, a
    return None


# -------------------------------------------------------------------- KBoot

def kboot(rep, n):
    """create_boot_image, then the reader of the class on the result"""
    w = "atrcopy/kboot.py"
    parts = [(0x2000, min(n, 0x8000))]
    while sum(p[1] for p in parts) + 4 * (len(parts) - 1) < n:
        parts.append((0x2000 + len(parts), min(0x8000, n - sum(p[1] for p in parts) - 4 * len(parts))))
    n = sum(p[1] for p in parts)
    con = "KBoot image of %d segments, %d bytes" % (len(parts), n)
    it = mkit(Ex_())
    cls = classval("KBootImage")
    st, l = seglist(it, parts)
    xex_size = n + 4 * len(parts) + 2 + 6
    for k, x, m in it.getattr(st, cls, "create_boot_image", CALL):
        if k != "n":
            continue
        for k, y, img in it.call_value(x, m, [l, C(0x2000)], {}, CALL):
            if k != "n":
                rep.bad(W_LAY, con, w, "creating the boot image ends in %s" % xname(img))
                continue
            o = it.obj(y, img)
            d = o.attrs.get("bytes")
            if type(d) is not Ar:
                rep.und(W_LAY, con, "no image data")
                continue
            pad = -(-xex_size // 128) * 128 + 384
            expect_len(rep, con, w, d, C(16 + pad))
            p = pad // 16
            expect_bytes(rep, it, y, d, 0, [C(v) for v in (0x96, 2, p & 255, p >> 8 & 255, 128, 0, p >> 16)], con, w, "ATR header")
            expect_bytes(rep, it, y, d, 16 + 9, le(C(xex_size), 3), con, w, "size in the loader")
            for k, z, raw in calls(it, y, classval("SegmentData"), d):
                for k2, z, im in calls(it, z, cls, raw, C("f.atr")) if k == "n" else ():
                    if k2 != "n":
                        rep.bad(W_RT, con, w, "the image is not recognised when it is read: %s" % xname(im))
                        continue
                    fl = it.obj(z, it.obj(z, im).attrs.get("files"))
                    if type(fl) is not Lst or not fl.exact or len(fl.items) != 1:
                        rep.und(W_RT, con, "file list")
                        continue
                    de = fl.items[0]
                    at = it.obj(z, de).attrs
                    expect_term(rep, W_RT, con + ": size", w, at.get("exe_size"), C(xex_size), {}, "exe_size")
                    expect_term(rep, W_RT, con + ": start", w, at.get("exe_start"), C(400), {}, "exe_start")
                    for k3, q, sgm in method(it, z, im, "get_file_segment", de):
                        if k3 != "n":
                            rep.bad(W_RT, con, w, "reading the file ends in %s" % xname(sgm))
                            continue
                        dd = data_of(it, q, sgm)
                        if type(dd) is not Ar:
                            rep.und(W_RT, con, "no data")
                            continue
                        if type(dd.ln) is C and dd.ln.v != xex_size:
                            rep.bad(W_RT, con + ": length", w, "%s bytes are read, %d were written" % (dd.ln, xex_size))
                            continue
                        read_xex(rep, it, q, dd, [(0x2e0, 2, None)] + [(o, m, i) for i, (o, m) in enumerate(parts)], con)


def check(rep):
    jobs = [("atr", atr), ("cart", cart)]
    jobs += [("xex layout %d" % n, lambda r, n=n: xex_layout(r, n)) for n in (1, 2, 3)]
    jobs += [("xex %s" % (c,), lambda r, c=c: xex(r, c)) for c in xex_cases(rep.tier)]
    jobs += [("bsave %s" % (c,), lambda r, c=c: bsave(r, c)) for c in
             [[(0x803, 5)], [(0x2000, 256)], [(0x1fff, 257)], [(0x4000, 10), (0x2000, 300)], [(0x2000, 10), (0x2100, 20), (0x2020, 4)], [(0x10, 3), (0xff00, 256)], [(0x2000, 16), (0x2008, 16)]]]
    jobs += [("bsaver %d" % n, lambda r, n=n: bsaver(r, n)) for n in (1, 255, 256, 300, 0x1234)]
    sizes = [1, 116, 117, 244, 1000, 0xffff - 12, 0x10000 - 12, 0x10000, 70000 - 12, 0x20000 + 5]
    if rep.tier == "thorough":
        sizes += list(range(100, 360, 7)) + [0x12345, 0x30000]
    jobs += [("kboot %d" % n, lambda r, n=n: kboot(r, n)) for n in sizes]
    parallel(rep, jobs)
