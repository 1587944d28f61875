"""C26: annotations are set, found, removed and restored exactly."""
import bisect

from ..common import *
from ..disk import Exact
from . import c18
from .c18 import D, S, SIZE, orig, same, segment_of, index_of, extend, name, byte_at

EXPLANATION = ("Segments (the whole image, slices, reorderings and slices of them) over an image of unknown bytes and unknown styles with comments at fixed base positions are "
               "built by interpretation.  Undo: the restore data is taken, every style is overwritten with another unknown and every comment replaced, removed or added, "
               "and after the restore each style inside the ranges must be the unknown it was, each comment inside the ranges the one it was, and everything outside as changed.  Setting, clearing "
               "and repairing comments, rectangles and user data: the resulting style terms and comment entries are compared for every base position.  Queries (ranges of a style, "
               "sections of equal style, next and previous match, comments in a range) are evaluated by constant propagation for a family of style patterns and compared with what the pattern denotes.")
ASSUMPTIONS = ["base of 24 bytes; slices and reorderings up to two deep; styles and replacement styles are unknown for all changing operations, constants for queries",
               "comments are non-empty texts; ranges are given in ascending order for comments",
               "the previous match is sought from the start of a match"]
MINIMUM = 300
W = "atrcopy/segments.py"
R_UNDO = "undo restores styles and comments exactly"
R_SET = "a change reaches exactly its bytes and comments"
R_QUERY = "a query reports exactly the matching bytes"
R_USER = "user data is kept per byte"

CHAINS = [(), (("s", 4, 14),), (("s", 5, None),), (("s", None, 9),), (("i", (3, 1, 5, 0, 7)),), (("i", (0, 1, 2, 3)),), (("s", 4, 14), ("i", (3, 1, 5, 0, 7))), (("i", (3, 1, 5, 0, 7)), ("s", 1, 4)),
          (("s", 4, 14), ("s", 2, 6)), (("i", (20, 18, 16, 14, 12, 10, 8, 6)), ("i", (7, 0, 3)))]
NOTES = {0: "first", 3: "three", 5: "five", 6: "six", 9: "nine", 14: "fourteen", 18: "eighteen", 23: "last"}


def setup(it, c, notes=NOTES, style=None):
    st, root = c18.base_state(it)
    if style is not None:
        st = storage(st, "S", C(SIZE), ("const", tuple(style)))
    st, sd = extend(it, st, root, c)
    st, sg = segment_of(it, st, sd)
    st, whole = segment_of(it, st, root)
    st = put_notes(it, st, whole, notes)
    return st, sg, whole, index_of(c)


def comments_ref(it, st, whole):
    raw = it.obj(st, whole).attrs["rawdata"]
    return it.obj(st, it.obj(st, raw).attrs["extra"]).attrs["comments"]


def put_notes(it, st, whole, notes):
    r = comments_ref(it, st, whole)
    return st.put(r.id, Dct(tuple((C(k), C(v)) for k, v in notes.items())))


def notes_of(it, st, whole):
    o = it.obj(st, comments_ref(it, st, whole))
    if type(o) is not Dct or o.open_ is not None or any(type(k) is not C for k, v in o.items):
        return None
    return {k.v: v for k, v in o.items}


def expect_notes(rep, rule, con, it, st, whole, want, size=SIZE):
    got = notes_of(it, st, whole)
    if got is None:
        rep.und(rule, con + ": comments", "not exact")
        return
    want = {k: C(v) if isinstance(v, str) else v for k, v in want.items()}
    for b in range(size):
        g, w = got.get(b), want.get(b)
        cc = "%s: comment at base byte %d" % (con, b)
        if g == w:
            rep.ok(rule, cc)
        elif (g is None or type(g) is C) and (w is None or type(w) is C):
            rep.bad(rule, cc, W, "the comment is %s instead of %s" % (g, w))
        else:
            rep.und(rule, cc, str(g)[:60])
    for b in got:
        if b not in range(size):
            rep.bad(rule, con, W, "a comment is kept at %s, outside the image" % (b,))


def expect_styles(rep, rule, con, it, st, want):
    for b in range(SIZE):
        if not same(rep, rule, "%s: style of base byte %d" % (con, b), byte_at(it, st, S(), b), want.get(b, orig("S", b)), "the style", st):
            return


def expect_data(rep, rule, con, it, st):
    for b in (0, 7, SIZE - 1):
        same(rep, rule, "%s: base byte %d" % (con, b), byte_at(it, st, D(), b), orig("D", b), "the byte", st)


def ranges_for(n):
    out = [[(0, n)], [(0, 1)], [(n - 1, n)]]
    if n > 2:
        out += [[(1, n - 1)], [(0, 1), (2, n)]]
    if n > 6:
        out += [[(2, 4), (5, 7)], [(5, 7), (1, 3)]]
    return out


def rlist(it, st, rs):
    return it.alloc(st, CALL, Lst([Tup([C(a), C(b)]) for a, b in rs]), "rg")


def N_(i):
    return orig("N", i)


def undo(rep, c):
    it = mkit(Exact())
    for mode in ("replace", "remove", "add"):
        for rs in ranges_for(len(index_of(c))):
            st, sg, whole, idx = setup(it, c)
            con = "%s, undo of %s %s" % (name(c), mode, rs)
            st, l = rlist(it, st, rs)
            for k, x, data in method(it, st, sg, "get_comment_restore_data", l):
                if k != "n":
                    rep.bad(R_UNDO, con, W, "taking the restore data ends in %s" % xname(data))
                    continue
                # everything changes
                x = storage(x, "N", C(SIZE))
                o = [y for k, y, v in it.setitem(x, S(), Sl(NONE, NONE, NONE), Ar("N", C(0), C(SIZE)), CALL) if k == "n"]
                if len(o) != 1:
                    continue
                new = {"replace": {b: "new %d" % b for b in NOTES}, "remove": {}, "add": {b: "new %d" % b for b in range(SIZE)}}[mode]
                x = put_notes(it, o[0], whole, new)
                for k, y, v in method(it, x, sg, "restore_comments", data):
                    if k != "n":
                        rep.bad(R_UNDO, con, W, "restoring ends in %s" % xname(v))
                        continue
                    cov = {idx[i] for a, b in rs for i in range(a, b)}
                    expect_styles(rep, R_UNDO, con, it, y, {b: orig("S", b) if b in cov else N_(b) for b in range(SIZE)})
                    want = dict(new)
                    for b in cov:
                        want.pop(b, None)
                        if b in NOTES:
                            want[b] = NOTES[b]
                    expect_notes(rep, R_UNDO, con, it, y, whole, want)
                    expect_data(rep, R_UNDO, con, it, y)
    rep.absorb(it)


def ored(b, v):
    return mk("bor", orig("S", b), C(v), kind="byte")


def anded(b, v):
    return mk("band", orig("S", b), C(v), kind="byte")


KINDS = [({"comment": True}, 0x40), ({"match": True}, 0x20), ({"selected": True}, 0x80), ({"diff": True}, 0x10), ({"data": True}, 1), ({"user": 5}, 5), ({"user": 7, "match": True}, 0x27),
         ({"comment": True, "selected": True, "diff": True}, 0xd0)]


def changes(rep, c):
    it = mkit(Exact())
    n = len(index_of(c))
    for rs in ranges_for(n):
        st, sg, whole, idx = setup(it, c)
        cov = {idx[i] for a, b in rs for i in range(a, b)}
        st, l = rlist(it, st, rs)

        def each(what, *args, **kw):
            con = "%s, %s %s %s" % (name(c), what, rs, "" if not kw else sorted(kw))
            for k, y, v in method(it, st, sg, what, *args, **{a: C(b) for a, b in kw.items()}):
                if k != "n":
                    rep.bad(R_SET, con, W, "ends in %s" % xname(v))
                else:
                    expect_data(rep, R_SET, con, it, y)
                    yield con, y
        for con, y in each("set_comment", l, C("text")):
            expect_styles(rep, R_SET, con, it, y, {b: ored(b, 0x40) for b in cov})
            expect_notes(rep, R_SET, con, it, y, whole, {**NOTES, **{idx[a]: "text" for a, b in rs}})
        for con, y in each("clear_comment", l):
            expect_styles(rep, R_SET, con, it, y, {b: anded(b, 0xbf) for b in cov})
            expect_notes(rep, R_SET, con, it, y, whole, {b: v for b, v in NOTES.items() if b not in cov})
        for kw, bits in KINDS:
            for con, y in each("set_style_ranges", l, **kw):
                expect_styles(rep, R_SET, con, it, y, {b: ored(b, bits) for b in cov})
                expect_notes(rep, R_SET, con, it, y, whole, NOTES)
            if "data" in kw:
                continue
            for con, y in each("clear_style_ranges", l, **kw):
                m = bits | (7 if "user" in kw else 0)
                expect_styles(rep, R_SET, con, it, y, {b: anded(b, 0xff ^ m) for b in cov})
        if all(b - a > 1 for a, b in rs):
            st, l = rlist(it, st, [(b, a) for a, b in rs])
            for con, y in each("set_style_ranges", l, match=True):
                expect_styles(rep, R_SET, con + " reversed", it, y, {b: ored(b, 0x20) for b in cov})
            for con, y in each("clear_style_ranges", l, match=True):
                expect_styles(rep, R_SET, con + " reversed", it, y, {b: anded(b, 0xdf) for b in cov})
    st, sg, whole, idx = setup(it, c)
    for i, b in enumerate(idx):
        con = "%s, remove_comment(%d)" % (name(c), i)
        for k, y, v in method(it, st, sg, "remove_comment", C(i)):
            if k != "n":
                rep.bad(R_SET, con, W, "ends in %s" % xname(v))
                continue
            expect_notes(rep, R_SET, con, it, y, whole, {q: v for q, v in NOTES.items() if q != b})
    # repair: the mark is set exactly where there is a comment
    con = "%s, fixup_comments" % name(c)
    for k, y, v in method(it, st, sg, "fixup_comments"):
        if k != "n":
            rep.bad(R_SET, con, W, "ends in %s" % xname(v))
            continue
        got = {}
        for b in range(SIZE):
            want = mk("bor", anded(b, 0xbf), C(0x40), kind="byte") if b in NOTES else anded(b, 0xbf)
            same(rep, R_SET, "%s: style of base byte %d" % (con, b), byte_at(it, y, S(), b), want, "the style", y)
        expect_notes(rep, R_SET, con, it, y, whole, NOTES)
    rep.absorb(it)


def corners(a, b, w):
    """the cells of the rectangle between cursor positions a and b: its corners are byte a and the byte before b, or byte b when b is not after a"""
    e = b - 1 if b > a else b
    (r1, c1), (r2, c2) = divmod(a, w), divmod(e, w)
    return min(r1, r2), min(c1, c2), max(r1, r2) + 1, max(c1, c2) + 1


def rects(rep, c):
    it = mkit(Exact())
    idx = index_of(c)
    n = len(idx)
    full = rep.tier == "thorough"
    for w in (1, 3, 4, 5, 8):
        top = min(3 * w, n + w)
        for a in range(top + 1):
            for b in range(top + 1):
                if a >= n or not full and (a + 2 * b + w) % 4:
                    continue
                r1, c1, r2, c2 = corners(a, b, w)
                st, sg, whole, _ = setup(it, c)
                con = "%s, rectangle %d-%d of %d columns" % (name(c), a, b, w)
                st, l = rlist(it, st, [(a, b)])
                for k, y, v in method(it, st, sg, "set_style_ranges_rect", l, C(w), match=TRUE):
                    if k != "n":
                        rep.bad(R_SET, con, W, "ends in %s" % xname(v))
                        continue
                    cells = {r * w + q for r in range(r1, r2) for q in range(c1, c2)}
                    expect_styles(rep, R_SET, con, it, y, {idx[i]: ored(idx[i], 0x20) for i in cells if i < n})
    if len(idx) == SIZE:
        st, sg, whole, _ = setup(it, c)
        for w in (1, 3, 4, 8, 40):
            for a in range(0, 3 * w, 1 if w < 9 else 7):
                for b in range(0, 3 * w, 1 if w < 9 else 5):
                    r1, c1, r2, c2 = corners(a, b, w)
                    con = "rectangle between %d and %d of %d columns" % (a, b, w)
                    want = [r1 * w + c1, (r2 - 1) * w + c2, (r1, c1), (r2, c2)]
                    answer(rep, con, it, method(it, st, sg, "get_rect_indexes", C(a), C(b), C(w)), want)
                    y, l = it.alloc(st, CALL, Lst([Tup([Tup([C(r1), C(c1)]), Tup([C(r2), C(c2)])])]), "rc")
                    answer(rep, con + " as a range", it, method(it, y, sg, "rects_to_ranges", l, C(w)), [tuple(want[:2])])
    rep.absorb(it)


# ----------------------------------------------------------------- queries

PATTERNS = [
    [0] * SIZE,
    [0x20] * SIZE,
    [0x20 if i % 2 else 0 for i in range(SIZE)],
    [0x20 if i % 2 == 0 else 0x40 for i in range(SIZE)],
    [0x27 if i in (0, 1, 2, 10, 11, 23) else 0x07 for i in range(SIZE)],
    [0x60 if 3 <= i < 9 else 0x20 if 9 <= i < 12 else 0x40 if i == 15 else 0x01 if i > 18 else 0 for i in range(SIZE)],
    [(i // 3) % 8 for i in range(SIZE)],
    [0x80 if i in (4, 5, 6, 13, 22, 23) else 0x20 if i in (0, 7, 8) else 0xa0 if i in (9, 10, 20) else 1 for i in range(SIZE)],
    [0x20 if i in (0, 23) else 0 for i in range(SIZE)],
]
QUERIES = [({"match": True}, 0x20), ({"comment": True}, 0x40), ({"user": 7}, 7), ({"user": 1}, 1), ({"selected": True, "match": True}, 0xa0), ({"selected": True}, 0x80), ({"match": True, "user": 7}, 0x27)]


def runs(flags):
    out, i = [], 0
    while i < len(flags):
        if flags[i]:
            j = i
            while j < len(flags) and flags[j]:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def as_py(it, st, v):
    try:
        return topy(v, st.heap)
    except ValueError:
        return None


def norm(v):
    return [tuple(norm(x)) if isinstance(x, (list, tuple)) else x for x in v]


def answer(rep, con, it, outs, want, conv=norm):
    if len(outs) != 1:
        rep.und(R_QUERY, con, "several outcomes")
        return
    for k, x, v in outs:
        if k != "n":
            rep.bad(R_QUERY, con, W, "ends in %s" % xname(v))
            continue
        g = as_py(it, x, v)
        if g is None and v != NONE:
            rep.und(R_QUERY, con, str(v)[:80])
            continue
        g = conv(g) if g is not None and conv else g
        if g == want:
            rep.ok(R_QUERY, con)
        else:
            rep.bad(R_QUERY, con, W, "the answer is %s instead of %s" % (str(g)[:80], str(want)[:80]))


def queries(rep, c, p):
    it = mkit(Exact())
    st, sg, whole, idx = setup(it, c, style=PATTERNS[p])
    styles = [PATTERNS[p][b] for b in idx]
    n = len(idx)
    for kw, bits in QUERIES:
        k2 = {a: C(b) for a, b in kw.items()}
        con = "%s, pattern %d, %s" % (name(c), p, sorted(kw.items()))
        want = runs([s & bits == bits for s in styles])
        answer(rep, "get_style_ranges of " + con, it, method(it, st, sg, "get_style_ranges", **k2), want)
        starts = [a for a, b in want]
        for i in range(0, n, 1 + n // 8):
            w = None if not starts else next((a for a in starts if a > i), starts[0])
            answer(rep, "find_next(%d) of %s" % (i, con), it, method(it, st, sg, "find_next", C(i), **k2), w, None)
        for i in sorted(set(starts) | {min(a + 1, n - 1) for a in starts} | set(range(0, n, 1 + n // 8))):
            w = None if not starts else next((a for a in reversed(starts) if a < i), starts[-1])
            answer(rep, "find_previous(%d) of %s" % (i, con), it, method(it, st, sg, "find_previous", C(i), **k2), w, None)
        # sections of equal style: the comment marks come from the comments
        if len(set(idx)) == n:
            marks = [NOTES.get(b) is not None for b in idx]
            for split in ((), (bits,), (0,)):
                st2, l = it.alloc(st, CALL, Lst([C(v) for v in split]), "split")
                outs = method(it, st2, sg, "get_entire_style_ranges", split_comments=l, **k2)
                sections(rep, "sections of %s, split %s" % (con, list(split)), it, outs, [s & bits for s in styles], marks, split, bits)
    for a, b in ((0, n), (0, 1), (1, n), (n // 2, n), (2, 2)):
        want = {i: NOTES[x] for i, x in enumerate(idx) if x in NOTES and a <= i < b}
        if len(set(idx)) == n:
            answer(rep, "%s: comments in %d-%d" % (name(c), a, b), it, method(it, st, sg, "get_comments_in_range", C(a), C(b)), want, dict)
    for i, b in enumerate(idx):
        answer(rep, "%s: comment at %d" % (name(c), i), it, method(it, st, sg, "get_comment", C(i)), NOTES.get(b, ""), None)
        st2, l = rlist(it, st, [(i, n), (0 if i == n - 1 else n - 1, n)])
        j = min(i, 0 if i == n - 1 else n - 1)
        answer(rep, "%s: first comment from %d" % (name(c), j), it, method(it, st2, sg, "get_first_comment", l), NOTES.get(idx[j], ""), None)
    answer(rep, "%s: all comments" % name(c), it, method(it, st, sg, "get_sorted_comments"), [(k, v) for k, v in sorted(NOTES.items())])
    rep.absorb(it)


def sections(rep, con, it, outs, values, marks, split, bits):
    """contiguous sections over the whole segment, one value each; neighbours
    differ in value or begin at a commented byte that is to split"""
    if len(outs) != 1:
        rep.und(R_QUERY, con, "several outcomes")
        return
    k, x, v = outs[0]
    if k != "n":
        rep.bad(R_QUERY, con, W, "ends in %s" % xname(v))
        return
    g = as_py(it, x, v)
    if g is None:
        rep.und(R_QUERY, con, str(v)[:80])
        return
    pos = 0
    starts = set()
    for (a, b), s in g:
        if a != pos or b <= a:
            rep.bad(R_QUERY, con, W, "the sections do not follow each other: %s-%s after %s" % (a, b, pos))
            return
        wrong = [i for i in range(a, b) if values[i] & ~(0x40 if not bits & 0x40 else 0) != s & ~(0x40 if not bits & 0x40 else 0)] if not bits & 0x40 else []
        if wrong:
            rep.bad(R_QUERY, con, W, "section %s-%s is reported as %#x but byte %d has %#x" % (a, b, s, wrong[0], values[wrong[0]]))
            return
        starts.add(a)
        pos = b
    if pos != len(values):
        rep.bad(R_QUERY, con, W, "the sections end at %d, the segment has %d bytes" % (pos, len(values)))
        return
    if not bits & 0x40:
        must = {i for i in range(1, len(values)) if values[i] != values[i - 1]}
        may = must | {i for i in range(1, len(values)) if marks[i] and not marks[i - 1] and values[i] in split}
        # a commented section that splits starts a section; a comment that does not split starts none
        extra = [i for i in starts - {0} if i not in may]
        if extra:
            rep.bad(R_QUERY, con, W, "the section is split at byte %d where nothing changes" % extra[0])
            return
        lost = [i for i in may if i not in starts]
        if lost:
            rep.bad(R_QUERY, con, W, "no section starts at byte %d" % lost[0])
            return
    rep.ok(R_QUERY, con, "%d sections" % len(g))


# --------------------------------------------------------------- user data

def user(rep, c):
    it = mkit(Exact())
    idx = index_of(c)
    n = len(idx)
    for rs in ranges_for(n):
        st, sg, whole, _ = setup(it, c)
        st, l = rlist(it, st, rs)
        con = "%s, user data at %s" % (name(c), rs)
        for k, x, v in method(it, st, sg, "set_user_data", l, C(1), C(77)):
            if k != "n":
                rep.bad(R_USER, con, W, "ends in %s" % xname(v))
                continue
            cov = {idx[i] for a, b in rs for i in range(a, b)}
            for who, pos in ((sg, idx), (whole, range(SIZE))):
                for i, b in enumerate(pos):
                    for u in (1, 2):
                        r = [v for k, y, v in method(it, x, who, "get_user_data", C(i), C(u)) if k == "n"]
                        want = C(77 if b in cov and u == 1 else 0)
                        cc = "%s: value %d of base byte %d" % (con, u, b)
                        if r == [want]:
                            rep.ok(R_USER, cc)
                        elif len(r) == 1 and type(r[0]) is C:
                            rep.bad(R_USER, cc, W, "is %s instead of %s" % (r[0], want))
                        else:
                            rep.und(R_USER, cc, str(r)[:60])
            for k, y, v in method(it, x, sg, "set_user_data", rlist(it, x, [(0, 1)])[1], C(1), C(5)) if False else ():
                pass
            outs = method(it, x, sg, "get_sorted_user_data", C(1))
            want = [((a, b), 77) for a, b in runs([b in cov for b in range(SIZE)])]
            r = [(as_py(it, y, v), v) for k, y, v in outs if k == "n"]
            cc = con + ": ranges"
            if len(r) != 1 or r[0][0] is None:
                rep.und(R_USER, cc, str(r)[:80])
            elif norm(r[0][0]) == want:
                rep.ok(R_USER, cc)
            else:
                rep.bad(R_USER, cc, W, "%s instead of %s" % (str(norm(r[0][0]))[:80], str(want)[:80]))
    rep.absorb(it)


def copying(rep, c, off, how):
    """comments of a segment carried to a segment of another image"""
    it = mkit(Exact())
    st, sg, whole, idx = setup(it, c)
    if len(set(idx)) != len(idx):
        return
    n = len(idx) + off
    big = n + 7
    to, chain = {"whole": (list(range(big)), ()), "slice": (list(range(5, big)), (("s", 5, None),)),
                 "reversed": (list(range(big - 1, big - 1 - n, -1)), (("i", tuple(range(big - 1, big - 1 - n, -1))),)),
                 "shuffled": ([(3 + 2 * i) % n for i in range(n)] if n % 2 else [i ^ 1 for i in range(n)], None)}[how]
    if chain is None:
        chain = (("i", tuple(to)),)
    st = storage(storage(st, "D2", C(big)), "S2", C(big))
    for k, x, r2 in calls(it, st, classval("SegmentData"), Ar("D2", C(0), C(big)), Ar("S2", C(0), C(big))):
        if k != "n":
            continue
        x, sd = extend(it, x, r2, chain)
        x, other = segment_of(it, x, sd)
        con = "%s, comments copied to offset %d, target %s" % (name(c), off, how)
        for k, y, v in method(it, x, other, "copy_user_data", sg, C(off)):
            if k != "n":
                rep.bad(R_SET, con, W, "ends in %s" % xname(v))
                continue
            expect_notes(rep, R_SET, con, it, y, other, {to[i + off]: NOTES[b] for i, b in enumerate(idx) if b in NOTES}, big)
            expect_notes(rep, R_SET, con + ", source", it, y, whole, NOTES)
    rep.absorb(it)


def repairing(rep, c, p):
    """the repair of the comment marks on known styles"""
    it = mkit(Exact())
    st, sg, whole, idx = setup(it, c, style=PATTERNS[p])
    con = "%s, fixup_comments, pattern %d" % (name(c), p)
    for k, y, v in method(it, st, sg, "fixup_comments"):
        if k != "n":
            rep.bad(R_SET, con, W, "ends in %s" % xname(v))
            continue
        for b in range(SIZE):
            want = (PATTERNS[p][b] & 0xbf) | (0x40 if b in NOTES else 0)
            same(rep, R_SET, "%s: style of base byte %d" % (con, b), byte_at(it, y, S(), b), C(want), "the style", y)
        expect_notes(rep, R_SET, con, it, y, whole, NOTES)
    rep.absorb(it)


def check(rep):
    jobs = []
    cs = list(CHAINS)
    if rep.tier == "thorough":
        cs += [c for c in c18.chains(2) if c not in cs]
    for c in cs:
        jobs.append(("undo %s" % name(c), lambda r, c=c: undo(r, c)))
        jobs.append(("changes %s" % name(c), lambda r, c=c: changes(r, c)))
        jobs.append(("rects %s" % name(c), lambda r, c=c: rects(r, c)))
        jobs.append(("user %s" % name(c), lambda r, c=c: user(r, c)))
        for off in (0, 4):
            for how in ("whole", "slice", "reversed", "shuffled"):
                jobs.append(("copy %s %d" % (name(c), off), lambda r, c=c, off=off, how=how: copying(r, c, off, how)))
        for p in range(len(PATTERNS)):
            jobs.append(("repair %s %d" % (name(c), p), lambda r, c=c, p=p: repairing(r, c, p)))
            jobs.append(("queries %s %d" % (name(c), p), lambda r, c=c, p=p: queries(r, c, p)))
    parallel(rep, jobs)
