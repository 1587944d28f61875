"""C17: saved session state restores completely."""
from ..common import *
from ..disk import Exact
from . import c18

EXPLANATION = ("Every segment class is built by interpreting its constructor with unknown arguments, every attribute is given a fresh unknown value, its saved state is passed "
               "through a model of JSON and into the restore of a blank instance; each attribute must come back as the same unknown.  The restored segment is attached to another "
               "image and the base position of every element derived by alias analysis must be that of the original.  A session is saved from and restored to interpreted "
               "segments, key by key, for a family of style patterns that contains every combination of user style and comment bit; comment texts are unknown.")
ASSUMPTIONS = ["what jsonpickle does to plain values is modelled: tuples and lists come back as lists, string keys, None, numbers and strings unchanged; other objects are not expected in saved state",
               "base of 24 bytes; slices and reorderings of C18 up to two deep"]
MINIMUM = 300
W = "atrcopy/segments.py"
R_ATTR = "an attribute comes back"
R_POS = "a restored segment stands for the same positions"
R_KEY = "a session key restores its meaning"
R_ALL = "a session restores all annotations"
R_OLD = "older files are understood"
R_PAR = "a restored parser has its segments"
R_JSON = "saved state is plain data"
DERIVED = ("rawdata", "data", "style", "_search_copy", "_rawdata_bounds", "_order_list")


class Plain(Exception):
    pass


def jsonify(it, st, v):
    """the value after a trip through JSON"""
    if type(v) is C and isinstance(v.v, tuple):
        st, l = it.alloc(st, CALL, Lst([C(x) for x in v.v]), "js")
        return jsonify(it, st, l)
    if type(v) in (C, T):
        return st, v
    if type(v) is Tup:
        items = v.items
    elif type(v) is R:
        o = it.obj(st, v)
        if type(o) is Dct:
            if o.open_ is not None:
                raise Plain("a dictionary that is not exact")
            items = []
            for k, x in o.items:
                if not (type(k) is C and isinstance(k.v, str)):
                    if type(k) is C and (k.v is None or isinstance(k.v, (int, bool))):
                        k = C(str(k.v))
                    else:
                        raise Plain("key %s" % k)
                st, x = jsonify(it, st, x)
                items.append((k, x))
            return it.alloc(st, CALL, Dct(tuple(items)), "js")
        if type(o) is not Lst:
            raise Plain("%s instance" % (o.cls.name if type(o) is Inst and o.cls else type(o).__name__))
        if not o.exact:
            raise Plain("a list that is not exact")
        items = o.items
    else:
        raise Plain(str(v)[:60])
    out = []
    for x in items:
        st, x = jsonify(it, st, x)
        out.append(x)
    return it.alloc(st, CALL, Lst(out), "js")


def plain(it, st, v):
    """python value of nested lists and dictionaries; leaves stay values"""
    if type(v) is Tup:
        return [plain(it, st, x) for x in v.items]
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact:
            return [plain(it, st, x) for x in o.items]
        if type(o) is Dct and o.open_ is None:
            return {(k.v if type(k) is C else k): plain(it, st, x) for k, x in o.items}
    return v


def classes():
    root = classval("DefaultSegment")
    return [root] + [c for c in subclasses(root) if c.info is not root.info]


def params(cls):
    f, c = cls.info.find("__init__")
    a = f.fn.info.node.args if hasattr(f, 'fn') else f.info.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
    return names


def build(it, st, cls, sd):
    """instances of a segment class with every argument unknown"""
    kw = {}
    for n in params(cls)[1:]:
        if n in ("name", "verbose_name", "error"):
            kw[n] = sym("ARG." + n, "str")
        elif n == "memory_map":
            continue
        else:
            kw[n] = sym("ARG." + n, "nat")
    return calls(it, st, cls, sd, **kw)


def blank(it, st, cls):
    return it.alloc(st, CALL, Inst(cls.info, {}), "blank")


def through(rep, rule, con, it, st, seg, cls):
    """[(state, restored segment)]"""
    out = []
    for k, x, state in method(it, st, seg, "__getstate__"):
        if k != "n":
            rep.bad(rule, con, W, "saving ends in %s" % xname(state))
            continue
        try:
            x, j = jsonify(it, x, state)
        except Plain as e:
            rep.und(R_JSON, con, str(e))
            continue
        rep.ok(R_JSON, con)
        x, b = blank(it, x, cls)
        for k, y, r in method(it, x, b, "__setstate__", j):
            if k != "n":
                rep.bad(rule, con, W, "restoring ends in %s" % xname(r))
                continue
            out.append((y, b))
    return out


NAMED = ("page_size", "map_width", "uuid", "can_resize", "memory_map")


def from_args(v):
    return type(v) is T and any(type(x) is T and x.op == "sym" and str(x).startswith("ARG.") for x in leaves(v))


def readable(it, st, ref, a):
    return all(k == "n" for k, x, v in it.getattr(st, ref, a, CALL))


def attached(it, restored, sd):
    """after the segment has been given its data again"""
    out = []
    for x, b in restored:
        for k, y, r in method(it, x, b, "reconstruct_raw", sd):
            out.append((y, b) if k == "n" else (x, b))
    return out


def attributes(rep, cls):
    it = mkit(Exact())
    con = cls.info.name
    st, sd = c18.base_state(it)
    n = 0
    for k, x, seg in build(it, st, cls, sd):
        if k != "n":
            rep.und(R_ATTR, con, "constructor: %s" % xname(seg))
            continue
        n += 1
        at = dict(it.obj(x, seg).attrs)
        x, mm = it.alloc(x, CALL, Dct(((C(0x2000), C("ram")), (C(5), C("rom")))), "mm")
        new = {}
        for a, v in at.items():
            if a in DERIVED:
                continue
            if a == "memory_map":
                new[a] = mm
            elif type(v) in (C, T):
                new[a] = sym("NOW." + a, "str" if type(v) is T and v.kind == "str" or type(v) is C and isinstance(v.v, str) else None)
        x = setattrs(it, x, seg, **new)
        for y, b in attached(it, through(rep, R_ATTR, con, it, x, seg, cls), sd):
            got = it.obj(y, b).attrs
            for a in at:
                cc = "%s.%s" % (con, a)
                if a in DERIVED:
                    continue
                own = a in NAMED or from_args(at[a])
                if a not in got and (own or not readable(it, y, b, a)):
                    rep.bad(R_ATTR, cc, W, "the attribute is missing after a restore")
                    continue
                if not own:
                    rep.ok(R_ATTR, cc, "not an argument; present")
                    continue
                w, g = plain(it, y, new.get(a, at[a])), plain(it, y, got[a])
                if w == g:
                    rep.ok(R_ATTR, cc)
                elif type(g) in (C, T, dict, list) and (type(g) is not T or g.op == "sym"):
                    rep.bad(R_ATTR, cc, W, "the attribute comes back as %s" % str(g)[:60])
                else:
                    rep.und(R_ATTR, cc, str(g)[:80])
        # a state without the attributes that were added later
        for k2, y, state in method(it, x, seg, "__getstate__"):
            if k2 != "n":
                continue
            y, j = jsonify(it, y, state)
            d = it.obj(y, j)
            drop = ("memory_map", "uuid", "can_resize")
            y = y.put(j.id, Dct(tuple((k, v) for k, v in d.items if k.v not in drop)))
            y, b = blank(it, y, cls)
            for k3, z, r in method(it, y, b, "__setstate__", j):
                cc = "%s without %s" % (con, ", ".join(drop))
                if k3 != "n":
                    rep.bad(R_OLD, cc, W, "restoring ends in %s" % xname(r))
                    continue
                got = it.obj(z, b).attrs
                dflt = [v for k4, _, v in it.getattr(z, cls, "can_resize_default", CALL) if k4 == "n"]
                for a in drop:
                    if a not in got:
                        rep.bad(R_OLD, cc, W, "%s is missing after the restore" % a)
                    elif a == "memory_map" and plain(it, z, got[a]) != {} or a == "can_resize" and [got[a]] != dflt:
                        rep.bad(R_OLD, cc, W, "%s is %s after the restore" % (a, str(plain(it, z, got[a]))[:40]))
                    else:
                        rep.ok(R_OLD, cc)
            # an origin under its old name
            o = [v for k, v in d.items if k.v == "origin"]
            y2 = y.put(j.id, Dct(tuple((C("start_addr") if k.v == "origin" else k, v) for k, v in d.items)))
            y2, b = blank(it, y2, cls)
            for k3, z, r in method(it, y2, b, "__setstate__", j):
                cc = "%s with start_addr" % con
                if k3 != "n":
                    rep.bad(R_OLD, cc, W, "restoring ends in %s" % xname(r))
                elif it.obj(z, b).attrs.get("origin") == o[0]:
                    rep.ok(R_OLD, cc)
                else:
                    rep.bad(R_OLD, cc, W, "the origin is %s after the restore" % it.obj(z, b).attrs.get("origin"))
    if not n:
        rep.und(R_ATTR, con, "no instance")
    rep.absorb(it)


def positions(rep, c):
    it = mkit(Exact())
    con = c18.name(c)
    cls = classval("DefaultSegment")
    st, root, sd, ok = c18.build(it, c)
    if not ok:
        rep.und(R_POS, con, "not built")
        return
    idx = c18.index_of(c)
    st, seg = c18.segment_of(it, st, sd)
    n = C(c18.SIZE)
    for x, b in through(rep, R_POS, con, it, st, seg, cls):
        x = storage(storage(x, "D2", n), "S2", n)
        for k, y, raw in calls(it, x, classval("SegmentData"), Ar("D2", C(0), n), Ar("S2", C(0), n)):
            if k != "n":
                continue
            for k, z, r in method(it, y, b, "reconstruct_raw", raw):
                if k != "n":
                    rep.bad(R_POS, con, W, "attaching the segment ends in %s" % xname(r))
                    continue
                at = it.obj(z, b).attrs
                ln = [v for k, _, v in it.call_value(z, Ex("builtins.len"), [b], {}, CALL) if k == "n"]
                if ln != [C(len(idx))]:
                    (rep.bad(R_POS, con + ": length", W, "%s, not %d" % (ln[0], len(idx))) if len(ln) == 1 and type(ln[0]) is C else rep.und(R_POS, con + ": length", str(ln)))
                    continue
                rep.ok(R_POS, con + ": length")
                for i, p in enumerate(idx):
                    c18.same(rep, R_POS, "%s: byte %d" % (con, i), c18.elem(it, z, at["data"], i), c18.orig("D2", p), "the byte")
                    c18.same(rep, R_POS, "%s: style %d" % (con, i), c18.elem(it, z, at["style"], i), c18.orig("S2", p), "the style")
                ex = it.obj(z, at["rawdata"]).attrs.get("extra")
                if ex == it.obj(z, raw).attrs.get("extra"):
                    rep.ok(R_POS, con + ": annotations")
                else:
                    rep.bad(R_POS, con + ": annotations", W, "the restored segment has its own comments and user data")
    rep.absorb(it)


# ------------------------------------------------------------------ sessions

def styled(it, pattern, comments=()):
    """a whole-image segment with constant styles"""
    n = C(len(pattern))
    st = storage(storage(St(), "D", n), "S", n, ("const", bytes(pattern)))
    for k, st, sd in calls(it, st, classval("SegmentData"), Ar("D", C(0), n), Ar("S", C(0), n)):
        st, seg = c18.segment_of(it, st, sd, 0x600)
        for p, t in comments:
            for k, st, _ in method(it, st, seg, "set_comment_at", C(p), t):
                pass
        return st, seg


def fresh(it, st, n):
    st = storage(storage(st, "D2", C(n)), "S2", C(n), ("zeros",))
    for k, st, sd in calls(it, st, classval("SegmentData"), Ar("D2", C(0), C(n)), Ar("S2", C(0), C(n))):
        return c18.segment_of(it, st, sd, 0x600)


def patterns():
    out = [bytes(range(8)) + bytes(0x40 + i for i in range(8)), bytes([0] * 16), bytes([0x40] * 16), bytes([7, 7, 0, 0x47, 0x47, 1, 1, 0x41, 2, 0x42, 0x42, 2, 0, 0, 0x40, 3])]
    for u in range(8):
        out.append(bytes([u, u, 0, u | 0x40, 0x40, 0, u, 7, u | 0x40, u, 1, 0, 0x40, u, 0, u]))
    for u in range(1, 8):
        out.append(bytes([0] * 5 + [u] * 6 + [0] * 5))
        out.append(bytes([0xf8 & ~0x40 | u] * 3 + [0] * 5 + [0x98 | u] * 8))
    return out


T1, T2, T3 = sym("TEXT.1", "str"), sym("TEXT.2", "str"), sym("TEXT.3", "str")
COMMENTS = [(), ((3, T1),), ((9, T1), (0, T2), (15, T3))]


def bits_at(it, st, n):
    out = []
    for i in range(n):
        b = byte_at(it, st, Ar("S2", C(0), C(n)), i)
        out.append(b.v if type(b) is C else None)
    return out


def ranges(mask, pat, want):
    out, i = [], 0
    while i < len(pat):
        if want(pat[i]):
            j = i
            while j < len(pat) and want(pat[j]):
                j += 1
            out.append([i, j])
            i = j
        else:
            i += 1
    return out


def session(rep, pat, com):
    it = mkit(Exact())
    n = len(pat)
    con = "styles %s, comments at %s" % (pat.hex(), [p for p, t in com])
    st, seg = styled(it, pat, com)
    user, cbit = c18.user_mask(), topy(gval("segments", "comment_bit_mask"))
    st, d = it.alloc(st, CALL, Dct(()), "session")
    for k, x, r in method(it, st, seg, "serialize_session", d):
        if k != "n":
            rep.bad(R_ALL, con, W, "saving ends in %s" % xname(r))
            continue
        try:
            x, j = jsonify(it, x, d)
        except Plain as e:
            rep.und(R_ALL, con, "session: %s" % e)
            continue
        y, s2 = fresh(it, x, n)
        for k, z, r in method(it, y, s2, "restore_session", j):
            if k != "n":
                rep.bad(R_ALL, con, W, "restoring ends in %s" % xname(r))
                continue
            got = bits_at(it, z, n)
            for i in range(n):
                cc = "%s: byte %d" % (con, i)
                if got[i] is None:
                    rep.und(R_ALL, cc, "")
                elif got[i] == pat[i] & (user | cbit):
                    rep.ok(R_ALL, cc)
                else:
                    rep.bad(R_ALL, cc, W, "style %#04x is restored as %#04x" % (pat[i], got[i]))
            ex = it.obj(z, it.obj(z, s2).attrs["rawdata"]).attrs["extra"]
            have = plain(it, z, it.obj(z, ex).attrs["comments"])
            if have == dict(com):
                rep.ok(R_ALL, con + ": comments")
            elif isinstance(have, dict):
                rep.bad(R_ALL, con + ": comments", W, "comments restored at %s" % sorted(have, key=str))
            else:
                rep.und(R_ALL, con + ": comments", str(have)[:60])
        for i in range(n):
            b = byte_at(it, x, Ar("S", C(0), C(n)), i)
            if b != C(pat[i]):
                (rep.bad if type(b) is C else rep.und)(R_ALL, con + ": saving", *((W,) if type(b) is C else ()), "saving changes the style of byte %d" % i)
                break
        one_by_one(rep, it, x, j, pat, con, user, cbit)
    rep.absorb(it)


def one_by_one(rep, it, st, j, pat, con, user, cbit):
    n = len(pat)
    data = topy(gval("segments", "data_style"))
    meaning = {"comment ranges": cbit, "data ranges": data}
    meaning.update({"user style %d" % i: i for i in range(1, user)})
    for key, val in it.obj(st, j).items:
        if key.v not in meaning:
            continue
        bits = meaning[key.v]
        x, one = it.alloc(st, CALL, Dct(((key, val),)), "one")
        y, s2 = fresh(it, x, n)
        cc = "%s: %s" % (con, key.v)
        for k, z, r in method(it, y, s2, "restore_session", one):
            if k != "n":
                rep.bad(R_KEY, cc, W, "restoring ends in %s" % xname(r))
                continue
            got = bits_at(it, z, n)
            want = [bits if b & bits == bits else 0 for b in pat]
            if None in got:
                rep.und(R_KEY, cc, "")
            elif got == want:
                rep.ok(R_KEY, cc)
            else:
                rep.bad(R_KEY, cc, W, "styles %s restore as %s" % (pat.hex(), bytes(got).hex()))


def old_sessions(rep):
    it = mkit(Exact())
    n = 16
    d1, cb = 1, 0x40

    def lst(st, v):
        if isinstance(v, list):
            out = []
            for e in v:
                st, e = lst(st, e)
                out.append(e)
            return it.alloc(st, CALL, Lst(out), "l")
        return st, C(v)
    for key, val, want in (("display list ranges", [[2, 5]], {2: 1, 3: 1, 4: 1}), ("user ranges 1", [[[1, 3], 0], [[6, 8], 1], [[10, 11], 2]], {1: 2, 2: 2, 6: 3, 7: 3, 10: 4}),
                           ("comment ranges", [[9, 4]], {i: 0x40 for i in range(4, 9)}),
                           ("comment ranges", [[i % 8, i % 8 + 1] for i in range(300)] + [[12, 13]], {i: 0x40 for i in [0, 1, 2, 3, 4, 5, 6, 7, 12]}),
                           ("user style 3", [[i % 8, i % 8 + 1] for i in range(300)] + [[12, 13]], {i: 3 for i in [0, 1, 2, 3, 4, 5, 6, 7, 12]})):
        st, v = lst(St(), val)
        st, e = it.alloc(st, CALL, Dct(((C(key), v),)), "e")
        st, s2 = fresh(it, st, n)
        for k, z, r in method(it, st, s2, "restore_session", e):
            if k != "n":
                rep.bad(R_OLD, key, W, "restoring ends in %s" % xname(r))
                continue
            got = bits_at(it, z, n)
            if None in got:
                rep.und(R_OLD, key, "")
            elif got == [want.get(i, 0) for i in range(n)]:
                rep.ok(R_OLD, key)
            else:
                rep.bad(R_OLD, key, W, "%s restores styles %s" % (val, bytes(got).hex()))
    rep.absorb(it)


def parser(rep):
    """parsers keep their segments and are attached to the image again"""
    for im, label in c18.images()[:8]:
        it = mkit(Exact())
        for k, x, p, raw in c18.parsed(it, im):
            if k != "n":
                continue
            cls = Cl(it.obj(x, p).cls)
            segs = it.obj(x, it.obj(x, p).attrs["segments"])
            for k, y, state in method(it, x, p, "__getstate__"):
                if k != "n":
                    rep.bad(R_PAR, label, "atrcopy/parsers.py", "saving ends in %s" % xname(state))
                    continue
                saved = plain(it, y, state)
                st = y
                got = saved.get("segments") if isinstance(saved, dict) else None
                if got == list(segs.items) and saved.get("strict") == it.obj(x, p).attrs["strict"]:
                    rep.ok(R_PAR, label + ": saved")
                else:
                    rep.bad(R_PAR, label + ": saved", "atrcopy/parsers.py", "the segments are not in the saved state")
                    continue
                # every segment saved and restored on its own
                new = []
                for n, s in enumerate(segs.items):
                    o = it.obj(st, s)
                    r = through(rep, R_PAR, "%s: segment %d" % (label, n), it, st, s, Cl(o.cls))
                    if len(r) != 1:
                        break
                    st, b = r[0]
                    new.append(b)
                if len(new) != len(segs.items):
                    rep.und(R_PAR, label, "not all segments restored")
                    continue
                st, l = it.alloc(st, CALL, Lst(new), "segs")
                st, js = it.alloc(st, CALL, Dct(((C("segments"), l), (C("strict"), it.obj(x, p).attrs["strict"]))), "state")
                st, q = blank(it, st, cls)
                for k, z, r in method(it, st, q, "__setstate__", js):
                    if k != "n":
                        rep.bad(R_PAR, label, "atrcopy/parsers.py", "restoring ends in %s" % xname(r))
                        continue
                    for k, u, r in method(it, z, q, "reconstruct_segments", raw):
                        if k != "n":
                            rep.bad(R_PAR, label, "atrcopy/parsers.py", "attaching the image ends in %s" % xname(r))
                            continue
                        compare(rep, it, x, segs.items, u, new, label)
        rep.absorb(it)


def place(it, st, sd, i):
    """(storage, offset) of an element"""
    return [v for k, x, v in method(it, st, sd, "get_raw_index", C(i)) if k == "n"]


def compare(rep, it, st, old, st2, new, label):
    for n, (a, b) in enumerate(zip(old, new)):
        oa, ob = it.obj(st, a), it.obj(st2, b)
        con = "%s: segment %d" % (label, n)
        ra, rb = (it.call_value(s, Ex("builtins.len"), [q], {}, CALL) for s, q in ((st, a), (st2, b)))
        la, lb = ([v for k, x, v in r if k == "n"] for r in (ra, rb))
        if len(la) == len(ra) == 1 and rb and all(k == "x" for k, x, v in rb):
            rep.bad(R_PAR, con, "atrcopy/parsers.py", "the restored segment cannot be used: its length ends in %s" % xname(rb[0][2]))
            continue
        if len(la) != 1 or len(lb) != 1 or type(la[0]) is not C or type(lb[0]) is not C:
            rep.und(R_PAR, con, "length")
            continue
        if la != lb:
            rep.bad(R_PAR, con, W, "length %s is restored as %s" % (la[0], lb[0]))
            continue
        ra, rb = oa.attrs["rawdata"], ob.attrs["rawdata"]
        m = la[0].v
        for i in sorted({0, 1, m // 3, m // 2, m - 2, m - 1}):
            if 0 <= i < m:
                pa, pb = place(it, st, ra, i), place(it, st2, rb, i)
                if pa == pb:
                    rep.ok(R_PAR, "%s: element %d" % (con, i))
                elif len(pa) == len(pb) == 1 and type(pa[0]) is C and type(pb[0]) is C:
                    rep.bad(R_PAR, "%s: element %d" % (con, i), W, "base position %s is restored as %s" % (pa[0], pb[0]))
                else:
                    rep.und(R_PAR, "%s: element %d" % (con, i), "%s %s" % (pa, pb))
        da, db = (c18.root_storage(it, s, it.obj(s, r).attrs["data"]) for s, r in ((st, ra), (st2, rb)))
        if da == db:
            rep.ok(R_PAR, con + ": data")
        else:
            rep.bad(R_PAR, con + ": data", W, "the restored segment is not a view of the image")


def check(rep):
    jobs = []
    for c in classes():
        jobs.append(("class " + c.info.name, lambda r, c=c: guarded(r, R_ATTR, c.info.name, attributes, r, c)))
    cs = c18.chains(3 if rep.tier == "thorough" else 2)
    cs.append((("i", ()),))
    for i in range(0, len(cs), 12):
        jobs.append(("chains %d" % i, lambda r, part=cs[i:i + 12]: [guarded(r, R_POS, c18.name(c), positions, r, c) for c in part]))
    ps = patterns()
    for i in range(0, len(ps), 4):
        jobs.append(("sessions %d" % i, lambda r, part=ps[i:i + 4]: [guarded(r, R_ALL, p.hex(), session, r, p, c) for p in part for c in COMMENTS]))
    jobs.append(("old sessions", lambda r: guarded(r, R_OLD, "old sessions", old_sessions, r)))
    jobs.append(("parsers", lambda r: guarded(r, R_PAR, "parsers", parser, r)))
    rep.count("segment classes", len(classes()))
    parallel(rep, jobs)
