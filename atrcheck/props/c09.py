"""C09: reading never modifies an image."""
from ..common import *
from ..disk import Exact
from . import c18
from .c08 import classattr, parsers

EXPLANATION = ("Effect analysis of everything that only reads.  All parsers are interpreted on an image of unknown bytes and on images whose file system structures are "
               "constants, then the reading operations of the resulting image (files, segments, listings, checks) are interpreted on every distinct result; the storage of "
               "the image's bytes must carry no store on any path, also on those that end in an exception.  The queries of segments are interpreted on slices and reorderings of "
               "unknown bytes and styles with comments set; neither bytes, styles nor comments may carry a store or a changed entry.")
ASSUMPTIONS = ["styles may be set while an image is loaded (headers of executables are marked as data); queries may not set them",
               "arrays that the analysis cannot attribute to a storage are counted as undecided"]
MINIMUM = 200
R_LOAD = "loading does not store into the image"
R_READ = "reading does not store into the image"
R_SEG = "a segment query changes nothing"
R_USE = "using segments changes nothing"
W = "atrcopy/segments.py"


class Watch(Exact):
    """remembers where storages are stored into"""

    def __init__(self):
        self.stores = {}

    def on_store(self, it, st, sid, off, n, value, node):
        self.stores.setdefault(sid, []).append(node)
        return st


class Loose(Watch):
    unroll = 3
    peel = 0
    soft = False
    exact_list = 64
    max_writes = 40


def sto(it, st, sid):
    return it.obj(st, R(sid))


def same_store(a, b):
    return a is b or (a.base == b.base and a.writes == b.writes)


def node_of(cli, sid):
    for n in reversed(cli.stores.get(sid, [])):
        if n is not None and hasattr(n, "lineno"):
            return where_node(n)
    return None


def judge(rep, rule, con, where, cli, it, before, outs, what="data bytes", sid="D"):
    bad = [x for k, x, v in outs if not same_store(sto(it, x, sid), before)]
    if bad:
        rep.bad(rule, con, node_of(cli, sid) or where, "%s of the image are stored into" % what)
        return False
    rep.ok(rule, con)
    return True


def fresh_raw(it, n, base=None):
    st = storage(storage(St(), "D", n, base), "S", n, ("zeros",) if base is not None else None)
    return [(x, r) for k, x, r in calls(it, st, classval("SegmentData"), Ar("D", C(0), n), Ar("S", C(0), n)) if k == "n"]


# --------------------------------------------------- operations on an image

def attr(it, st, ref, name):
    r = [v for k, x, v in it.getattr(st, ref, name, CALL) if k == "n"]
    return r[0] if len(r) == 1 else None


def has_method(it, st, ref, name):
    o = it.obj(st, ref)
    return o.cls is not None and o.cls.find(name)[0] is not None


READS = ["__str__", "__len__", "strict_check", "relaxed_check", "get_boot_segments", "get_vtoc_segments", "get_directory_segments", "get_file_segments", "get_metadata",
         "get_vtoc_object", "get_boot_sector_info", "check_sane", "check_size", "create_emulator_boot_segment", "get_crc", "dir"]


def dirents(it, st, img):
    l = attr(it, st, img, "files")
    o = it.obj(st, l) if type(l) is R else None
    if type(o) is Lst:
        return list(o.items)[:6] if o.exact else ([o.summ] if isinstance(o.summ, Val) else [])
    return []


def operations(it, st, img):
    """[(label, thunk returning outcomes)]"""
    out = []
    for m in READS:
        if has_method(it, st, img, m):
            f, c = it.obj(st, img).cls.find(m)
            out.append((m, lambda m=m: read(it, st, img, m)))
    for i, d in enumerate(dirents(it, st, img)):
        for m in ("get_file", "get_file_segment"):
            if has_method(it, st, img, m):
                out.append(("%s of file %d" % (m, i), lambda m=m, d=d: method(it, st, img, m, d)))
        o = it.obj(st, d) if type(d) is R else None
        if type(o) is Inst:
            for m in ("__str__", "filename", "verbose_info", "summary", "catalog_filename", "is_sane"):
                if o.cls.find(m)[0] is not None:
                    out.append(("%s of directory entry %d" % (m, i), lambda m=m, d=d: read(it, st, d, m)))
            if o.cls.find("extra_metadata")[0] is not None:
                out.append(("extra_metadata of directory entry %d" % i, lambda d=d: method(it, st, d, "extra_metadata", img)))
            if o.cls.find("get_sectors_in_vtoc")[0] is not None:
                out.append(("sectors of directory entry %d" % i, lambda d=d: method(it, st, d, "get_sectors_in_vtoc", img)))
    for m in ("find_file", "find_dirent"):
        if has_method(it, st, img, m):
            out.append((m, lambda m=m: method(it, st, img, m, sym("NAME", "str"))))
    for m in ("get_raw_bytes",):
        if has_method(it, st, img, m):
            out.append((m, lambda m=m: method(it, st, img, m, sym("SECTOR", "nat"))))
    for m in ("get_sector_slice", "get_sectors", "get_contiguous_sectors"):
        if has_method(it, st, img, m):
            out.append((m, lambda m=m: method(it, st, img, m, C(5), C(7))))
    return out


def read(it, st, ref, name):
    """a method without arguments or a property"""
    o = it.obj(st, ref)
    f, c = o.cls.find(name)
    r = it.getattr(st, ref, name, CALL)
    out = []
    for k, x, v in r:
        if k == "n" and type(v) is Bm:
            out += it.call_value(x, v, [], {}, CALL)
        else:
            out.append((k, x, v))
    return out


def loaded(rep, con, where, cli, it, outs, before, limit=4):
    """construction must not store; then the reading operations on distinct
    results"""
    if not judge(rep, R_LOAD, con, where, cli, it, before, outs):
        return
    seen = 0
    for k, x, v in outs:
        if k != "n" or type(v) is not R or type(it.obj(x, v)) is not Inst:
            continue
        o = it.obj(x, v)
        img = o.attrs.get("image") if "image" in o.attrs else v
        if type(img) is not R or type(it.obj(x, img)) is not Inst:
            continue
        seen += 1
        if seen > limit:
            break
        for label, run in operations(it, x, img):
            cc = "%s #%d: %s" % (con, seen, label)
            guarded(rep, R_READ, cc, lambda: judge(rep, R_READ, cc, where, cli, it, before, run()))
    rep.count("images read", seen)


def generic(rep, cls, strict):
    """a parser on a file of unknown size and bytes"""
    cli = Loose()
    it = mkit(cli, 4000000)
    con = "%s(%s)" % (cls.info.name, "strict" if strict else "relaxed")
    for x, raw in fresh_raw(it, N):
        before = sto(it, x, "D")
        loaded(rep, con, "atrcopy/parsers.py", cli, it, calls(it, x, cls, raw, C(strict)), before)
    rep.absorb(it)


def exact(rep, im, label):
    cli = Watch()
    it = mkit(cli)
    models.IMAGES[im.name] = im.b
    for x, raw in fresh_raw(it, C(im.size), ("img", im.name)):
        before = sto(it, x, "D")
        loaded(rep, label, "atrcopy/diskimages.py", cli, it, calls(it, x, im.parser, raw, FALSE), before)
    rep.absorb(it)


# ------------------------------------------------------------ segment queries

def queries(it, st, seg, n):
    def rg(*pairs):
        s = st
        ls = []
        for a, b in pairs:
            ls.append(Tup([C(a), C(b)]))
        s, l = it.alloc(s, CALL, Lst(ls), "rg")
        return s, l

    def ix(*v):
        return it.alloc(st, CALL, Lst([C(i) for i in v]), "ix")
    h = max(1, n // 2)
    s1, r1 = rg((0, h))
    s2, i2 = ix(0, h - 1)
    s3, ar = it.alloc(st, CALL, Lst([C(0), C(h - 1)]), "ix")
    kws = [{"comment": TRUE}, {"data": TRUE}, {"user": C(3)}, {"selected": TRUE, "match": TRUE}, {"diff": TRUE}]
    out = []
    for kw in kws:
        k = ",".join(sorted(kw))
        out += [("get_style_ranges(%s)" % k, st, "get_style_ranges", [], kw), ("find_next(%s)" % k, st, "find_next", [C(0)], kw), ("find_previous(%s)" % k, st, "find_previous", [C(h)], kw),
                ("get_style_bits(%s)" % k, st, "get_style_bits", [], kw), ("get_style_mask(%s)" % k, st, "get_style_mask", [], kw),
                ("get_comment_locations(%s)" % k, st, "get_comment_locations", [], kw), ("get_entire_style_ranges(%s)" % k, st, "get_entire_style_ranges", [], kw)]
    s4, sc = ix(0, 1)
    out.append(("get_entire_style_ranges(split)", s4, "get_entire_style_ranges", [sc], {"user": C(1)}))
    out += [(m, st, m, [], {}) for m in ("__str__", "__len__", "tobytes", "byte_bounds_offset", "get_sorted_comments", "iter_comments_in_segment", "search_copy", "verbose_info", "__getstate__", "get_raw")]
    out += [("get_sorted_user_data", st, "get_sorted_user_data", [C(1)], {}), ("get_user_data", st, "get_user_data", [C(0), C(1)], {}), ("get_comment", st, "get_comment", [C(0)], {}),
            ("get_comment(absent)", st, "get_comment", [C(n - 1)], {}), ("label", st, "label", [C(0)], {}), ("get_raw_index", st, "get_raw_index", [C(0)], {}),
            ("is_valid_index", st, "is_valid_index", [C(n)], {}), ("get_index_from_base_index", st, "get_index_from_base_index", [C(1)], {}), ("get_raw_index_from_address", st, "get_raw_index_from_address", [C(0)], {}),
            ("get_first_comment", s1, "get_first_comment", [r1], {}), ("get_comments_in_range", st, "get_comments_in_range", [C(0), C(n)], {}),
            ("get_comment_restore_data", s1, "get_comment_restore_data", [r1], {}), ("get_comments_at_indexes", s2, "get_comments_at_indexes", [i2], {}),
            ("get_style_at_indexes", s2, "get_style_at_indexes", [i2], {}), ("get_rect_indexes", st, "get_rect_indexes", [C(0), C(n - 1), C(4)], {}),
            ("create_subset", s2, "create_subset", [i2, C("x")], {}), ("__getitem__", st, "__getitem__", [C(0)], {})]
    s5, d = it.alloc(st, CALL, Dct(()), "d")
    out.append(("serialize_session", s5, "serialize_session", [d], {}))
    return out


def extra_of(it, st, seg):
    ex = it.obj(st, it.obj(st, it.obj(st, seg).attrs["rawdata"]).attrs["extra"])
    com = it.obj(st, ex.attrs["comments"])
    ud = it.obj(st, ex.attrs["user_data"])
    return dict(com.items), com.open_, {k: (tuple(it.obj(st, v).items), it.obj(st, v).open_) for k, v in ud.items}


def drained(it, outs):
    """generators are run to their end"""
    res = []
    for k, x, v in outs:
        if k == "n" and type(v) in (Gen, Iter):
            res += [(k2, y, w) for k2, y, w in it.call_value(x, Ex("builtins.list"), [v], {}, CALL)]
        else:
            res.append((k, x, v))
    return res


CHAINS = [(), (("s", 4, 14),), (("i", (3, 1, 5, 0, 7)),), (("s", 4, 14), ("i", (3, 1, 5, 0, 7))), (("i", (0, 1, 2, 3, 9, 8)), ("s", 1, 5))]


def segment_queries(rep, c, patterned, bare=False):
    cli = Watch()
    it = mkit(cli)
    con = c18.name(c) + (" with known styles" if patterned else "") + (" without comments" if bare else "")
    st, root, sd, ok = c18.build(it, c)
    if patterned:
        st = st.put("S", Sto(("const", bytes([0, 0x40, 0x41, 1, 1, 2, 0x80, 0x30, 7, 0x47, 0, 0, 0x10, 0x20, 0x60, 3, 3, 3, 0, 0, 0x40, 0x40, 5, 6])), (), C(c18.SIZE)))
    st, seg = c18.segment_of(it, st, sd)
    idx = c18.index_of(c)
    for i in () if bare else (0, len(idx) // 2):
        for k, st, _ in method(it, st, seg, "set_comment_at", C(i), sym("TEXT%d" % i, "str")):
            pass
    s, r = it.alloc(st, CALL, Lst([Tup([C(0), C(2)])]), "rg")
    for k, y, _ in () if bare else method(it, s, seg, "set_user_data", r, C(1), C(9)):
        st = y
    bd, bs, be = sto(it, st, "D"), sto(it, st, "S"), extra_of(it, st, seg)
    for label, s, m, args, kw in queries(it, st, seg, len(idx)):
        if not has_method(it, s, seg, m):
            continue
        cc = "%s: %s" % (con, label)
        f, _ = it.obj(s, seg).cls.find(m)

        def run(m=m, s=s, args=args, kw=kw, cc=cc):
            outs = []
            for k, x, v in it.getattr(s, seg, m, CALL):
                if k == "n" and type(v) is Bm:
                    outs += drained(it, it.call_value(x, v, args, kw, CALL))
                else:
                    outs.append((k, x, v))
            a = judge(rep, R_SEG, cc + ": bytes", W, cli, it, bd, outs, "data bytes")
            b = judge(rep, R_SEG, cc + ": styles", W, cli, it, bs, outs, "styles", "S")
            if any(extra_of(it, x, seg) != be for k, x, v in outs):
                rep.bad(R_SEG, cc + ": annotations", W, "comments or user data are changed")
            else:
                rep.ok(R_SEG, cc + ": annotations")
        guarded(rep, R_SEG, cc, run)
    rep.absorb(it)


def uses(rep):
    """writing executables from segments, comparing with and copying from them"""
    for c in CHAINS[:4]:
        it = mkit(Watch())
        cli = it.client
        st, root, sd, ok = c18.build(it, c)
        st, seg = c18.segment_of(it, st, sd, 0x2000)
        n = C(8)
        st = storage(storage(st, "D2", n), "S2", n)
        (k, st, r2), = calls(it, st, classval("SegmentData"), Ar("D2", C(0), n), Ar("S2", C(0), n))
        st, other = c18.segment_of(it, st, r2)
        st, l = it.alloc(st, CALL, Lst([seg]), "segs")
        bd, bs, be = sto(it, st, "D"), sto(it, st, "S"), extra_of(it, st, seg)
        ops = [("an Atari executable", lambda: calls(it, st, gval("executables", "get_xex"), l, NONE)), ("an Apple binary", lambda: calls(it, st, gval("executables", "get_bsave"), l, NONE)),
               ("comments copied from it", lambda: method(it, st, other, "copy_user_data", seg, C(0))),
               ("its raw data export", lambda: [o for cl in ("SegmentSaver", "BSAVESaver") for k, x, f in it.getattr(st, classval(cl), "encode_data", CALL) for o in it.call_value(x, f, [seg, NONE], {}, CALL)]),
               ("a copy", lambda: method(it, st, sd, "copy"))]
        for label, run in ops:
            cc = "%s: %s" % (c18.name(c), label)

            def go(run=run, cc=cc):
                outs = run()
                judge(rep, R_USE, cc + ": bytes", W, cli, it, bd, outs, "data bytes")
                judge(rep, R_USE, cc + ": styles", W, cli, it, bs, outs, "styles", "S")
                if any(extra_of(it, x, seg) != be for k, x, v in outs):
                    rep.bad(R_USE, cc + ": annotations", W, "comments or user data are changed")
            guarded(rep, R_USE, cc, go)
        rep.absorb(it)


def check(rep):
    jobs = []
    for mime, cls in parsers():
        if type(classattr(cls, "image_type")) is not Cl:
            continue
        if cls.info.name.startswith(("Atari8bitCartSegmentParser", "Atari5200CartSegmentParser")) and not cls.info.name.endswith(("r1", "r12", "r4", "r59")):
            continue
        for strict in (True, False):
            jobs.append(("%s %s" % (cls.info.name, strict), lambda r, c=cls, s=strict: guarded(r, R_LOAD, c.info.name, generic, r, c, s)))
    for im, label in c18.images():
        jobs.append((label, lambda r, im=im, label=label: guarded(r, R_LOAD, label, exact, r, im, label)))
    for c in CHAINS:
        for p in (False, True):
            jobs.append(("queries " + c18.name(c), lambda r, c=c, p=p: guarded(r, R_SEG, c18.name(c), segment_queries, r, c, p)))
        jobs.append(("bare queries " + c18.name(c), lambda r, c=c: guarded(r, R_SEG, c18.name(c), segment_queries, r, c, True, True)))
    jobs.append(("uses", lambda r: guarded(r, R_USE, "uses", uses, r)))
    parallel(rep, jobs)
