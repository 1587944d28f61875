"""C18: segments are live views, copies are independent."""
import itertools

from ..common import *
from ..disk import Exact, Image, Atari, Dos33, entry_atari, entry_dos33

EXPLANATION = ("Slices, reorderings and chains of them are built by interpreting SegmentData on a base array of unknown bytes.  Which base position "
               "every element stands for is derived by alias analysis of the array views (storage, offset, index list), for bytes and styles, and "
               "compared with the composition of the index lists; stores through a segment are interpreted and every base position is compared "
               "before and after.  Copies must own storage that no store through the original reaches and vice versa.")
ASSUMPTIONS = ["chains of up to three slices or reorderings (thorough: four) over a base of 24 bytes; index lists and slice bounds are constants, contents, styles and stored values are unknown",
               "slices are of consecutive bytes (step 1), indexes lie inside the segment"]
MINIMUM = 300
W = "atrcopy/segments.py"
SIZE = 24
V = sym("VALUE", "byte")

R_POS = "an element stands for its base position"
R_WR = "a store reaches exactly its base position"
R_BACK = "a store to the image is seen"
R_ANN = "annotations are shared"
R_STY = "style operations reach exactly their positions"
R_COPY = "a copy is independent"
R_MIX = "combined segments stand for their base positions"
R_GROW = "segments follow a grown image"
R_IMG = "the segments of an image are views of it"


def base_state(it):
    n = C(SIZE)
    st = storage(storage(St(), "D", n), "S", n)
    for k, x, r in calls(it, st, classval("SegmentData"), Ar("D", C(0), n), Ar("S", C(0), n)):
        if k == "n":
            return x, r
    raise ValueError("no segment data")


def D():
    return Ar("D", C(0), C(SIZE))


def S():
    return Ar("S", C(0), C(SIZE))


def orig(sid, i):
    return mk("load8", mk("content", ("tok", sid), ()), C(i), kind="byte")


def apply(it, st, sd, op):
    """one operation on a SegmentData"""
    if op[0] == "s":
        a, b = (NONE if v is None else C(v) for v in op[1:])
        outs = it.getitem(st, sd, Sl(a, b, NONE), CALL)
    else:
        st, l = it.alloc(st, CALL, Lst([C(i) for i in op[1]]), "ix")
        outs = method(it, st, sd, "get_indexed", l)
    return outs


def oracle(idx, op):
    return idx[slice(op[1], op[2])] if op[0] == "s" else [idx[i] for i in op[1]]


SLICES = [("s", 4, 14), ("s", None, 9), ("s", 5, None), ("s", 0, 3), ("s", 2, 3), ("s", -8, -1), ("s", None, None)]
INDEXES = [("i", (3, 1, 5, 0, 7)), ("i", (0, 1, 2, 3)), ("i", (6, 6, 2)), ("i", (2,))]


def chains(depth):
    ops = SLICES + INDEXES
    out = [()]
    for d in range(1, depth + 1):
        for c in itertools.product(ops, repeat=d):
            if d == 3 and (c[0] in SLICES[3:] or c[1] in SLICES[4:] or c[2] in SLICES[3:5]):
                continue
            if d == 4 and not (c[0] in SLICES[:2] + INDEXES[:1] and c[1] in (SLICES[2], INDEXES[0]) and c[2] in (SLICES[0], SLICES[5], INDEXES[3]) and c[3] in (SLICES[3], INDEXES[3])):
                continue
            idx, ok = list(range(SIZE)), True
            for o in c:
                if o[0] == "i" and any(i >= len(idx) for i in o[1]):
                    ok = False
                    break
                idx = oracle(idx, o)
            if ok and idx:
                out.append(c)
    return out


def name(c):
    if not c:
        return "whole image"
    return " of ".join(("slice [%s:%s]" % ("" if o[1] is None else o[1], "" if o[2] is None else o[2]) if o[0] == "s" else "index %s" % (list(o[1]),)) for o in reversed(c))


def elem(it, st, arr, i):
    r = [(k, v) for k, x, v in it.getitem(st, arr, C(i), CALL)]
    if len(r) == 1 and r[0][0] == "n":
        return r[0][1]
    return ("x", xname(r[0][1])) if r and r[0][0] == "x" else None


def definite(t):
    """a term we can tell apart from an original byte of D or S"""
    if type(t) is C or t == V or isinstance(t, tuple):
        return True
    return type(t) is T and t.op == "load8" and type(t.args[1]) is C and t.args[0].args[1] == () and t.args[0].args[0][0] == "tok" and isinstance(t.args[0].args[0][1], str)


def mentions(key, terms):
    if isinstance(key, (tuple, list)):
        return any(mentions(k, terms) for k in key)
    return type(key) in (T, Tup) and any(x in terms for x in leaves(key))


def same(rep, rule, con, got, want, what, st=None):
    """st: the state of the path, given where terms computed from original
    bytes may be compared by evaluation; a path with a fact about one of the
    bytes is left undecided"""
    if got == want:
        rep.ok(rule, con)
        return True
    if got is not None and definite(got) and definite(want):
        rep.bad(rule, con, W, "%s is %s, not %s" % (what, short(got), short(want)))
        return False
    dom = {}
    if st is not None:
        for v in (got, want):
            if type(v) is T:
                dom.update({x: (0, 255) for x in leaves(v) if x.op == "load8" and definite(x)})
        if any(mentions(k, dom) for k in st.facts):
            dom = {}
    r = terms_equal(got, want, dom) if not isinstance(got, tuple) and got is not None else None
    if r is True:
        rep.ok(rule, con)
        return True
    if isinstance(r, tuple):
        rep.bad(rule, con, W, "%s is %s, not %s (for example %s)" % (what, str(got)[:80], short(want), ", ".join("%s=%s" % (str(k)[-14:], v) for k, v in r[1].items())))
        return False
    rep.und(rule, con, "%s: %s" % (what, short(got)))
    return None


def short(t):
    if type(t) is T and t.op == "load8" and type(t.args[1]) is C and t.args[0].args[0][0] == "tok":
        return "%s[%d]" % ({"D": "data", "S": "style"}.get(t.args[0].args[0][1], t.args[0].args[0][1]), t.args[1].v)
    return str(t)[:60]


def build(it, c):
    st, sd = base_state(it)
    root = sd
    for o in c:
        outs = [x for x in apply(it, st, sd, o)]
        if len(outs) != 1 or outs[0][0] != "n":
            return st, root, outs[0] if outs else None, False
        k, st, sd = outs[0]
    return st, root, sd, True


def segment_of(it, st, sd, org=0):
    for k, x, s in calls(it, st, classval("DefaultSegment"), sd, C(org)):
        if k == "n":
            return x, s
    raise ValueError("no segment")


def view(rep, c):
    it = mkit(Exact())
    con = name(c)
    st, root, sd, ok = build(it, c)
    if not ok:
        rep.bad(R_POS, con, W, "building the segment ends in %s" % (xname(sd[2]) if sd and sd[0] == "x" else sd))
        return
    idx = list(range(SIZE))
    for o in c:
        idx = oracle(idx, o)
    at = it.obj(st, sd).attrs
    data, style = at.get("data"), at.get("style")
    ln = [v for k, x, v in it.call_value(st, Ex("builtins.len"), [sd], {}, CALL) if k == "n"]
    if ln != [C(len(idx))]:
        if len(ln) == 1 and type(ln[0]) is C:
            rep.bad(R_POS, con + ": length", W, "%s, not %d" % (ln[0], len(idx)))
        else:
            rep.und(R_POS, con + ": length", str(ln))
        return
    rep.ok(R_POS, con + ": length")
    for i, b in enumerate(idx):
        same(rep, R_POS, "%s: byte %d" % (con, i), elem(it, st, data, i), orig("D", b), "the byte")
        same(rep, R_POS, "%s: style %d" % (con, i), elem(it, st, style, i), orig("S", b), "the style")
        r = [v for k, x, v in method(it, st, sd, "get_raw_index", C(i)) if k == "n"]
        same(rep, R_POS, "%s: base index of %d" % (con, i), r[0] if len(r) == 1 else None, C(b), "the base index")
    for b in range(SIZE):
        r = method(it, st, sd, "get_reverse_index", C(b))
        if len(r) != 1:
            rep.und(R_POS, "%s: position of base byte %d" % (con, b), "")
            continue
        k, x, v = r[0]
        w = [i for i, q in enumerate(idx) if q == b]
        cc = "%s: position of base byte %d" % (con, b)
        if not w:
            if k == "x" and xname(v) == "IndexError":
                rep.ok(R_POS, cc, "not in the segment")
            else:
                rep.bad(R_POS, cc, W, "the base byte is not in the segment but %s is given" % (v if k == "n" else xname(v)))
        elif k == "n" and type(v) is C and v.v in w:
            rep.ok(R_POS, cc)
        elif k == "n" and type(v) is not C:
            rep.und(R_POS, cc, str(v)[:60])
        else:
            rep.bad(R_POS, cc, W, "%s, not %s" % (v if k == "n" else xname(v), w))
    if at.get("extra") == it.obj(st, root).attrs.get("extra"):
        rep.ok(R_ANN, con)
    else:
        rep.bad(R_ANN, con, W, "the segment keeps its own comments and user data")
    stores(rep, it, st, root, sd, idx, con)
    copies(rep, it, st, sd, idx, con)
    rep.absorb(it)


def changed(rep, rule, con, it, st, want_d, want_s):
    for b in range(SIZE):
        if not same(rep, rule, "%s: data[%d]" % (con, b), byte_at(it, st, D(), b), want_d.get(b, orig("D", b)), "base byte %d" % b, st):
            return
        if not same(rep, rule, "%s: style[%d]" % (con, b), byte_at(it, st, S(), b), want_s.get(b, orig("S", b)), "base style %d" % b, st):
            return


def stores(rep, it, st, root, sd, idx, con):
    st, sg = segment_of(it, st, sd)
    n = len(idx)
    for i in sorted({0, n // 2, n - 1}):
        for k, x, v in it.setitem(st, sg, C(i), V, CALL):
            cc = "%s: store at %d" % (con, i)
            if k != "n":
                rep.bad(R_WR, cc, W, "ends in %s" % xname(v))
                continue
            changed(rep, R_WR, cc, it, x, {idx[i]: V}, {})
        searched(rep, it, st, sg, idx, i, con)
        # through the image
        for k, x, v in it.setitem(st, D(), C(idx[i]), V, CALL):
            if k == "n":
                same(rep, R_BACK, "%s: base byte %d" % (con, idx[i]), elem(it, x, it.obj(x, sg).attrs["data"], i), V, "the byte seen through the segment")
        for k, x, v in it.setitem(st, S(), C(idx[i]), V, CALL):
            if k == "n":
                same(rep, R_BACK, "%s: base style %d" % (con, idx[i]), elem(it, x, it.obj(x, sg).attrs["style"], i), V, "the style seen through the segment")
        # comments
        st2, whole = segment_of(it, st, root)
        for k, x, v in method(it, st2, sg, "set_comment_at", C(i), C("note")):
            cc = "%s: comment at %d" % (con, i)
            if k != "n":
                rep.bad(R_ANN, cc, W, "ends in %s" % xname(v))
                continue
            for who, j in ((whole, idx[i]), (sg, i)):
                r = [v for k, y, v in method(it, x, who, "get_comment", C(j)) if k == "n"]
                if r == [C("note")]:
                    rep.ok(R_ANN, cc)
                elif len(r) == 1 and type(r[0]) is C:
                    rep.bad(R_ANN, cc, W, "the comment is %s when read through %s" % (r[0], "the image" if who is whole else "the segment"))
                else:
                    rep.und(R_ANN, cc, str(r)[:60])
            other = [b for b in range(SIZE) if b != idx[i]]
            r = [v for k, y, v in method(it, x, whole, "get_comment", C(other[i % len(other)])) if k == "n"]
            if len(r) == 1 and r[0] == C("note"):
                rep.bad(R_ANN, cc, W, "the comment appears at base byte %d too" % other[i % len(other)])
        for k, x, v in method(it, st2, whole, "set_comment_at", C(idx[i]), C("note")):
            r = [v for k, y, v in method(it, x, sg, "get_comment", C(i)) if k == "n"]
            cc = "%s: image comment at %d" % (con, i)
            if r == [C("note")]:
                rep.ok(R_ANN, cc)
            elif len(r) == 1 and type(r[0]) is C:
                rep.bad(R_ANN, cc, W, "a comment set on the image at the byte's position reads as %s" % r[0])
    if n >= 2:
        a, b = (1, n) if n < 4 else (1, n - 1)
        for k, x, v in it.setitem(st, sg, Sl(C(a), C(b), NONE), V, CALL):
            cc = "%s: store at [%d:%d]" % (con, a, b)
            if k != "n":
                rep.bad(R_WR, cc, W, "ends in %s" % xname(v))
                continue
            changed(rep, R_WR, cc, it, x, {idx[i]: V for i in range(a, b)}, {})
    if len(set(idx)) == n:
        styles(rep, it, st, sg, idx, con)


def searched(rep, it, st, sg, idx, i, con):
    """the bytes a search works on are the current ones, also when they were asked for before the store"""
    cc = "%s: bytes to search after a store at %d" % (con, i)
    for k, x, v in it.getattr(st, sg, "search_copy", CALL):
        if k != "n":
            continue
        for k, x, _ in it.setitem(x, sg, C(i), V, CALL):
            for k, y, v in it.getattr(x, sg, "search_copy", CALL) if k == "n" else ():
                if k != "n":
                    rep.bad(R_WR, cc, W, "ends in %s" % xname(v))
                    continue
                same(rep, R_WR, cc, elem(it, y, v, i), V, "the byte searched", y)


def styles(rep, it, st, sg, idx, con):
    n = len(idx)
    a, b = 0, max(1, n // 2)

    def ranges(st):
        st, l = it.alloc(st, CALL, Lst([Tup([C(a), C(b)])]), "rg")
        return st, l

    def ored(i, v):
        return mk("bor", orig("S", i), C(v), kind="byte")

    def anded(i, v):
        return mk("band", orig("S", i), C(v), kind="byte")
    x, l = ranges(st)
    half = [idx[i] for i in range(a, b)]
    x2, il = it.alloc(st, CALL, Lst([C(i) for i in range(a, b)]), "il")
    for what, x0, args, kw, exp in (
            ("set_style_ranges", x, [l], {"comment": TRUE}, {i: ored(i, 0x40) for i in half}),
            ("set_style_ranges", x, [l], {"user": C(3)}, {i: ored(i, 3) for i in half}),
            ("set_style_ranges", x, [l], {"selected": TRUE, "match": TRUE}, {i: ored(i, 0xa0) for i in half}),
            ("clear_style_ranges", x, [l], {"comment": TRUE}, {i: anded(i, 0xbf) for i in half}),
            ("clear_style_ranges", x, [l], {"user": C(1)}, {i: anded(i, 0xff ^ user_mask()) for i in half}),
            ("clear_style_bits", x, [], {"match": TRUE}, {i: anded(i, 0xdf) for i in idx}),
            ("clear_style_bits", x, [], {"diff": TRUE, "selected": TRUE}, {i: anded(i, 0x6f) for i in idx}),
            ("set_style_at_indexes", x2, [il], {"selected": TRUE}, {i: ored(i, 0x80) for i in half})):
        cc = "%s: %s(%s)" % (con, what, ", ".join(sorted(kw)))
        for k, y, v in method(it, x0, sg, what, *args, **kw):
            if k != "n":
                rep.bad(R_STY, cc, W, "ends in %s" % xname(v))
                continue
            changed(rep, R_STY, cc, it, y, {}, exp)


def user_mask():
    return topy(gval("segments", "user_bit_mask"))


def copies(rep, it, st, sd, idx, con):
    for k, x, c in method(it, st, sd, "copy"):
        if k != "n":
            rep.bad(R_COPY, con, W, "copying ends in %s" % xname(c))
            continue
        x, cg = segment_of(it, x, c)
        at = it.obj(x, c).attrs
        for i, b in enumerate(idx):
            same(rep, R_COPY, "%s: byte %d of the copy" % (con, i), elem(it, x, at["data"], i), orig("D", b), "the byte")
            same(rep, R_COPY, "%s: style %d of the copy" % (con, i), elem(it, x, at["style"], i), orig("S", b), "the style")
        i = len(idx) - 1
        for k2, y, v in it.setitem(x, cg, C(i), V, CALL):
            if k2 == "n":
                changed(rep, R_COPY, con + ": store into the copy", it, y, {}, {})
        for sty in ("style",):
            for k2, y, v in it.setitem(x, at["style"], C(i), V, CALL):
                if k2 == "n":
                    changed(rep, R_COPY, con + ": style store into the copy", it, y, {}, {})
        for k2, y, v in it.setitem(x, D(), C(idx[i]), V, CALL):
            if k2 == "n":
                same(rep, R_COPY, con + ": store into the original", elem(it, y, at["data"], i), orig("D", idx[i]), "the copy's byte")
        for k2, y, v in it.setitem(x, S(), C(idx[i]), V, CALL):
            if k2 == "n":
                same(rep, R_COPY, con + ": style store into the original", elem(it, y, at["style"], i), orig("S", idx[i]), "the copy's style")


# -------------------------------------------- combinations and growing

def positions(rep, rule, con, it, st, sd, idx):
    """the elements of a SegmentData stand for these base positions"""
    at = it.obj(st, sd).attrs
    ln = [v for k, x, v in it.call_value(st, Ex("builtins.len"), [sd], {}, CALL) if k == "n"]
    if ln != [C(len(idx))]:
        (rep.bad(rule, con + ": length", W, "%s, not %d" % (ln[0], len(idx))) if len(ln) == 1 and type(ln[0]) is C else rep.und(rule, con + ": length", str(ln)))
        return
    for i, b in enumerate(idx):
        same(rep, rule, "%s: byte %d" % (con, i), elem(it, st, at["data"], i), orig("D", b), "the byte")
        same(rep, rule, "%s: style %d" % (con, i), elem(it, st, at["style"], i), orig("S", b), "the style")


def index_of(c):
    idx = list(range(SIZE))
    for o in c:
        idx = oracle(idx, o)
    return idx


def extend(it, st, root, c):
    sd = root
    for o in c:
        (k, st, sd), = apply(it, st, sd, o)
        assert k == "n"
    return st, sd


PAIRS = [((("s", 0, 8),), (("s", 8, 16),)), ((("s", 3, 12),), (("s", 12, 20),)), ((("i", (5, 4, 3, 2, 1, 0)),), (("i", (10, 12, 14, 16, 18, 20)),)),
         ((("s", 2, 9),), (("i", (20, 3, 19, 4, 18, 5, 17)),)), ((("i", (9, 1, 2, 8)), ("s", 1, 4)), (("s", 10, 20), ("s", 2, 6)))]


def interleaving(rep):
    for a, b in PAIRS:
        for n in (1, 2, 3):
            it = mkit(Exact())
            st, root = base_state(it)
            st, x = extend(it, st, root, a)
            st, y = extend(it, st, root, b)
            st, sa = segment_of(it, st, x)
            st, sb = segment_of(it, st, y)
            st, l = it.alloc(st, CALL, Lst([sa, sb]), "segs")
            ia, ib = index_of(a), index_of(b)
            size = min(len(ia), len(ib))
            size -= size % n
            want = []
            for p in range(0, size, n):
                want += ia[p:p + n] + ib[p:p + n]
            con = "%s and %s interleaved by %d" % (name(a), name(b), n)
            for k, z, sg in calls(it, st, gval("segments", "interleave_segments"), l, C(n)):
                if k != "n":
                    rep.bad(R_MIX, con, W, "ends in %s" % xname(sg))
                    continue
                positions(rep, R_MIX, con, it, z, it.obj(z, sg).attrs["rawdata"], want)
                i = len(want) // 2
                for k, u, v in it.setitem(z, sg, C(i), V, CALL):
                    if k == "n":
                        changed(rep, R_MIX, con + ": store at %d" % i, it, u, {want[i]: V}, {})
            rep.absorb(it)


SUBSETS = [(("s", 4, 14),), (("i", (3, 1, 5, 0, 7)),), (("s", 4, 14), ("i", (3, 1, 5, 0, 7))), ()]


def subsets(rep):
    for c in SUBSETS:
        it = mkit(Exact())
        st, root = base_state(it)
        st, sd = extend(it, st, root, c)
        st, sg = segment_of(it, st, sd)
        idx = index_of(c)
        for order in ((2, 0, 1), (4, 4, 3)):
            st2, l = it.alloc(st, CALL, Lst([C(i) for i in order]), "order")
            con = "subset %s of %s" % (list(order), name(c))
            for k, z, s2 in method(it, st2, sg, "create_subset", l, C("n")):
                if k != "n":
                    rep.bad(R_MIX, con, W, "ends in %s" % xname(s2))
                    continue
                positions(rep, R_MIX, con, it, z, it.obj(z, s2).attrs["rawdata"], [idx[i] for i in order])
        # the same place in another image
        n = C(SIZE)
        st3 = storage(storage(st, "D2", n), "S2", n)
        for k, z, r2 in calls(it, st3, classval("SegmentData"), Ar("D2", C(0), n), Ar("S2", C(0), n)):
            if k != "n":
                continue
            z, other = segment_of(it, z, r2)
            con = "the place of %s in another image" % name(c)
            for k, u, raw in method(it, z, other, "get_parallel_raw_data", sg):
                if k != "n":
                    rep.bad(R_MIX, con, W, "ends in %s" % xname(raw))
                    continue
                at = it.obj(u, raw).attrs
                for i, b in enumerate(idx):
                    same(rep, R_MIX, "%s: byte %d" % (con, i), elem(it, u, at["data"], i), orig("D2", b), "the byte")
                    same(rep, R_MIX, "%s: style %d" % (con, i), elem(it, u, at["style"], i), orig("S2", b), "the style")
        rep.absorb(it)


def growing(rep):
    """after the image grows, its segments still stand for the same positions
    of the grown image"""
    big = SIZE + 10
    for c in [x for x in SUBSETS if x] + [(("i", (0, 1, 2, 3)), ("s", 1, 3)), (("s", 5, None), ("s", 2, 6))]:
        it = mkit(Exact())
        st, root = base_state(it)
        st, whole = segment_of(it, st, root)
        st = setattrs(it, st, whole, can_resize=TRUE)
        st, sd = extend(it, st, root, c)
        st, sg = segment_of(it, st, sd)
        idx = index_of(c)
        con = "%s after growing the image" % name(c)
        for k, z, r in method(it, st, whole, "resize", C(big)):
            if k != "n":
                rep.bad(R_GROW, con, W, "growing ends in %s" % xname(r))
                continue
            nd, ns = (it.obj(z, it.obj(z, whole).attrs["rawdata"]).attrs[a] for a in ("data", "style"))
            for b in range(big):
                same(rep, R_GROW, "%s: image byte %d" % (con, b), elem(it, z, nd, b), orig("D", b) if b < SIZE else C(0), "the byte")
                same(rep, R_GROW, "%s: image style %d" % (con, b), elem(it, z, ns, b), orig("S", b) if b < SIZE else C(0), "the style")
            for k, u, r in method(it, z, sg, "replace_data", whole):
                if k != "n":
                    rep.bad(R_GROW, con, W, "replacing the data ends in %s" % xname(r))
                    continue
                at = it.obj(u, sg).attrs
                for i, b in enumerate(idx):
                    same(rep, R_GROW, "%s: byte %d" % (con, i), elem(it, u, at["data"], i), orig("D", b), "the byte")
                    same(rep, R_GROW, "%s: style %d" % (con, i), elem(it, u, at["style"], i), orig("S", b), "the style")
                i = len(idx) - 1
                for k, w, r in it.setitem(u, nd, C(idx[i]), V, CALL):
                    if k == "n":
                        same(rep, R_GROW, con + ": store to the image", elem(it, w, at["data"], i), V, "the byte seen through the segment")
                for k, w, r in it.setitem(u, sg, C(i), V, CALL):
                    if k == "n":
                        same(rep, R_GROW, con + ": store to the segment", elem(it, w, nd, idx[i]), V, "the byte seen through the image")
                for k, w, r in it.setitem(u, ns, C(idx[i]), V, CALL):
                    if k == "n":
                        same(rep, R_GROW, con + ": style store to the image", elem(it, w, at["style"], i), V, "the style seen through the segment")
        rep.absorb(it)


def comparing(rep):
    """the difference marks of a comparison lie exactly where bytes differ"""
    for c in SUBSETS[:3]:
        it = mkit(Exact())
        st, root = base_state(it)
        st, sd = extend(it, st, root, c)
        st, sg = segment_of(it, st, sd)
        idx = index_of(c)
        m = len(idx)
        st = storage(storage(st, "D2", C(m)), "S2", C(m))
        for k, z, r2 in calls(it, st, classval("SegmentData"), Ar("D2", C(0), C(m)), Ar("S2", C(0), C(m))):
            if k != "n":
                continue
            z, other = segment_of(it, z, r2)
            con = "%s compared" % name(c)
            for k, u, r in method(it, z, sg, "compare_segment", other):
                if k != "n":
                    rep.bad(R_STY, con, W, "ends in %s" % xname(r))
                    continue
                for b in range(SIZE):
                    if b not in idx:
                        same(rep, R_STY, "%s: style[%d]" % (con, b), byte_at(it, u, S(), b), orig("S", b), "a style outside the segment")
                    same(rep, R_STY, "%s: data[%d]" % (con, b), byte_at(it, u, D(), b), orig("D", b), "base byte %d" % b)
        rep.absorb(it)


# ------------------------------------------------------- segments of images

def root_storage(it, st, v):
    """storage an array or ordered array stands on"""
    if type(v) is Ar:
        return v.sid
    o = it.obj(st, v) if type(v) is R else None
    if type(o) is Inst and "np_data" in o.attrs:
        return root_storage(it, st, o.attrs["np_data"])
    return None


def parsed(it, im):
    """[(kind, state, parser)]: a parser class applied to the image's bytes"""
    models.IMAGES[im.name] = im.b
    n = C(im.size)
    st = storage(storage(St(), "D", n, ("img", im.name)), "S", n, ("zeros",))
    outs = []
    for k, x, raw in calls(it, st, classval("SegmentData"), im.D, Ar("S", C(0), n)):
        outs += [(k, y, p, raw) for k, y, p in calls(it, x, im.parser, raw, FALSE)]
    return outs


def image_segments(rep, im, label):
    it = mkit(Exact())
    for k, x, p, raw in parsed(it, im):
        if k != "n":
            rep.und(R_IMG, label, "not loaded: %s" % xname(p))
            continue
        extra = it.obj(x, raw).attrs.get("extra")
        l = it.obj(x, it.obj(x, p).attrs["segments"])
        if type(l) is not Lst or not l.exact:
            rep.und(R_IMG, label, "segment list not exact")
            continue
        rep.count("image segments", len(l.items))
        for n, s in enumerate(l.items):
            o = it.obj(x, s)
            nm = o.attrs.get("name")
            con = "%s: segment %d (%s)" % (label, n, nm.v if type(nm) is C else "?")
            if o.cls.name == "EmptySegment":
                continue
            rd = it.obj(x, o.attrs["rawdata"])
            ds, ss = root_storage(it, x, rd.attrs.get("data")), root_storage(it, x, rd.attrs.get("style"))
            for what, got, want in (("bytes", ds, "D"), ("styles", ss, "S")):
                if got == want:
                    rep.ok(R_IMG, con + ": " + what)
                elif got is None:
                    rep.und(R_IMG, con + ": " + what, "")
                else:
                    rep.bad(R_IMG, con + ": " + what, W, "the %s are not those of the image" % what)
            if rd.attrs.get("extra") == extra:
                rep.ok(R_IMG, con + ": annotations")
            else:
                rep.bad(R_IMG, con + ": annotations", W, "comments and user data are not those of the image")
    rep.absorb(it)


def cart_parser(t):
    from .c08 import classattr, parsers
    for mime, c in parsers():
        if c.info.name.startswith("Atari") and classattr(c, "cart_type") == C(t):
            return c
    raise ValueError("no parser for cart type %d" % t)


def plain(name, parser, size, *parts):
    im = Image(name, size)
    im.parser = classval(parser) if isinstance(parser, str) else parser
    for off, b in parts:
        im.put(off, b)
    return im


def images():
    a = Atari("c18a", range(20, 700), [entry_atari(0x42, 2, 10, b"A", b"X"), entry_atari(0x42, 1, 12, b"BB", b"")])
    a.chain([10, 11], 0, 50)
    a.chain([12], 1, 125)
    b = Atari("c18b", range(20, 700), [entry_atari(0x42, 2, 10, b"A", b"X")], ss=256)
    b.chain([10, 11], 0, 50)
    d = Dos33("c18d", range(100, 200), [entry_dos33(5, 0, 4, b"PROG", 3), entry_dos33(6, 0, 0, b"TEXT", 2)])
    d.tslist(80, [81, 82])
    d.put(d.pos(81), bytes([0, 8, 100, 0]))
    d.tslist(96, [97])
    a.parser = b.parser = classval("AtariDosSegmentParser")
    d.parser = classval("Dos33SegmentParser")
    car = b"CART" + bytes([0, 0, 0])
    return [(a, "Atari DOS image"), (b, "Atari DOS double density image"), (d, "DOS 3.3 image"),
            (plain("c18x", "XexSegmentParser", 68, (0, bytes([0xff, 0xff, 0, 0x20, 9, 0x20])), (16, bytes([0xff, 0xff, 0, 0x30, 4, 0x30])), (27, bytes([0xe0, 2, 0xe1, 2])), (33, bytes([0, 0x40, 30, 0x40]))), "Atari executable"),
            (plain("c18y", "XexSegmentParser", 40, (0, bytes([0xff, 0xff, 0, 0x20, 9, 0x20])), (16, bytes([0, 0x30, 4, 0x33]))), "incomplete Atari executable"),
            (plain("c18n", "Dos33BinSegmentParser", 68, (0, bytes([0, 8, 64, 0]))), "Apple executable"),
            (plain("c18k", "KBootSegmentParser", 16 + 128 * 40, (0, bytes([0x96, 2, 0x40, 1, 128, 0])), (16, bytes([0, 3, 0, 7, 0x14, 7, 0x4c, 0x14, 7, 78, 18, 0])), (16 + 384, bytes([0xff, 0xff, 0, 0x20, 9, 0x20]))), "KBoot image"),
            (plain("c18o", "AtariBootDiskSegmentParser", 16 + 128 * 720, (0, bytes([0x96, 2, 0x80, 0x16, 128, 0])), (16, bytes([0, 3, 0, 7, 0x14, 7, 0x4c, 0x14, 7, 200, 1, 0]))), "boot disk image"),
            (plain("c18r", "RomParser", 4096), "ROM image"),
            (plain("c18q", "DefaultSegmentParser", 77), "raw data"),
            (plain("c18c", cart_parser(2), 16 + 16384, (0, car + bytes([2] + [0] * 8))), "16 KB cartridge"),
            (plain("c18e", cart_parser(12), 16 + 32768, (0, car + bytes([12] + [0] * 8))), "banked cartridge"),
            (plain("c18f", cart_parser(12), 32768, (0, bytes([7, 7, 7, 7]))), "banked cartridge without header")]


def check(rep):
    cs = chains(4 if rep.tier == "thorough" else 3)
    rep.count("chains", len(cs))
    jobs = []
    for i in range(0, len(cs), 12):
        jobs.append(("chains %d" % i, lambda r, part=cs[i:i + 12]: [guarded(r, R_POS, name(c), view, r, c) for c in part]))
    for f in (interleaving, subsets, growing, comparing):
        jobs.append((f.__name__, lambda r, f=f: guarded(r, R_MIX, f.__name__, f, r)))
    for im, label in images():
        jobs.append((label, lambda r, im=im, label=label: guarded(r, R_IMG, label, image_segments, r, im, label)))
    parallel(rep, jobs)
