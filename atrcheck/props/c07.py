"""C07: cyclic links on an image never hang the program."""
from ..common import *
from . import c11

EXPLANATION = ("For every way links are followed (Atari DOS and MyDOS sector chains, DOS 3.3 track/sector lists and catalog, SpartaDOS sector "
               "maps) the readers, the deletion path and the listing path are interpreted abstractly on images that are unknown except for "
               "link bytes that form a cycle (a sector linking to itself, to the first, to one in the middle, far away, with and without "
               "data in the sectors).  A loop of which more iterations than the image has sectors are entered with every branch decided by "
               "the links alone is an endless loop and is reported with its position; otherwise the analysis must leave the loop with data "
               "or with one of the library's errors.  In addition every while loop of the package is checked for a path that comes back to "
               "the loop head with nothing changed.")
ASSUMPTIONS = ["a loop that follows links for more than 1500 iterations on an image of 40 to 720 sectors does not end"]
MINIMUM = 8

R_END = "following a cycle ends"
R_ERR = "a cycle ends with data or a library error"
R_SPIN = "no iteration leaves everything unchanged"


class Endless(Exception):
    pass


class Spin(Client):
    """reports paths through a while loop that come back to its head with
    nothing changed that the path depends on"""
    unroll = 2
    soft = False

    def __init__(self):
        self.found = {}
        self.edges = set()

    def on_backedge(self, it, head, st, node):
        if not isinstance(node, ast.While):
            return st
        self.edges.add(node)
        names = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
        changed = set()
        for n, v in head.env.items():
            if n.startswith("$") or st.env.get(n) == v:
                continue
            if n in names or type(v) is not T:
                return st
            changed |= {v} | leaves(v)
        seen = {v.id for n, v in head.env.items() if n in names and type(v) is R}
        for i, o in head.heap.items():
            if st.heap.get(i) == o:
                continue
            if i in seen or type(o) is not Lst or o.exact:
                return st
            for v in (o.ln, o.summ):
                if type(v) is T:
                    changed |= {v} | leaves(v)
        if head.stack != st.stack:
            return st
        for k, b in st.facts.items():
            if head.facts.get(k) != b and leaves(tuple(k)) & changed:
                return st
        self.found[node] = node
        return st


class Cli(c11.Rd):
    peel = 1500
    unroll = 40
    exact_list = 4000
    max_writes = 700

    def __init__(self):
        self.where = None

    def on_endless(self, it, node, st, n):
        if any(k[0] == "cmp" and k[1] == "in" for k in st.facts):
            return          # rests on an undecided membership
        self.where = node
        raise Endless()


def is_lib(x):
    c = x.cls
    return type(c) is Cl and any(getattr(m, "name", "") == "AtrError" for m in c.info.mro())


def judge(rep, con, run):
    cli = Cli()
    it = mkit(cli)
    try:
        outs = run(it)
    except Endless:
        n = cli.where
        rep.bad(R_END, con, where_node(n), "the loop at line %d goes round for ever" % n.lineno)
        rep.absorb(it)
        return
    rep.absorb(it)
    if outs is None:
        rep.und(R_END, con, "not applicable")
        return
    rep.ok(R_END, con)
    for k, y, v in outs:
        if k == "x" and not is_lib(v):
            rep.und(R_ERR, con, "ends in %s" % xname(v))
        elif k == "x":
            rep.ok(R_ERR, con, xname(v))
        else:
            rep.ok(R_ERR, con, "ends with data")


def span(links):
    return 40 if max(b for a, b in links) <= 40 else 720


def small_atari(it, links, mydos, n, fnum=3):
    cnt = span(links)
    size = cnt * 8
    x, h = c11.header_of(it, St(), classval("AtrHeader"), 92160)
    x = setattrs(it, x, h, sector_size=C(8), payload_bytes=C(5), max_sectors=C(cnt), image_size=C(size))
    x, img = c11.image_of(it, x, classval("AtariDosDiskImage"), h, C(size))
    D = Ar("D", C(0), C(size))
    for a, b in links:
        p = (a - 1) * 8
        x = c11.put(it, x, D, p + 5, b >> 8 if mydos else fnum << 2 | b >> 8)
        x = c11.put(it, x, D, p + 6, b & 255)
        x = c11.put(it, x, D, p + 7, n)
    dcls = classval("MydosDirent" if mydos else "AtariDosDirent")
    x, dc = [(y, s) for k, y, s in calls(it, x, dcls, NONE, C(fnum)) if k == "n"][0]
    x = setattrs(it, x, dc, starting_sector=C(links[0][0]), num_sectors=C(len(links)), is_sane=C(True), in_use=C(True))
    return x, img, dc


def small_dos(it, links, base=None, dirent=True, size=16):
    x, h = c11.dos_header(it, St(), size, 2)
    x, img = c11.image_of(it, x, classval("Dos33DiskImage"), h, C(560 * size))
    if base is not None:
        x = storage(x, "D", C(560 * size), base)
    D = Ar("D", C(0), C(560 * size))
    for a, b in links:
        x = c11.put(it, x, D, a * size + 1, b // 16)
        x = c11.put(it, x, D, a * size + 2, b % 16)
    x = setattrs(it, x, h, first_directory=C(links[0][0]), max_sectors=C(560))
    if not dirent:
        return x, img, None
    x, dc = [(y, s) for k, y, s in calls(it, x, classval("Dos33Dirent"), NONE, C(3)) if k == "n"][0]
    x = setattrs(it, x, dc, track=C(links[0][0] // 16), sector=C(links[0][0] % 16), num_sectors=C(len(links) * 3), is_sane=C(True), _file_type=C(0))
    return x, img, dc


def small_sparta(it, links):
    cnt = span(links)
    size = cnt * 128
    x, h = c11.header_of(it, St(), classval("AtrHeader"), 92160)
    x = setattrs(it, x, h, max_sectors=C(cnt), image_size=C(size))
    x, img = c11.image_of(it, x, classval("SpartaDosDiskImage"), h, C(size))
    D = Ar("D", C(0), C(size))
    for a, b in links:
        x = c11.put(it, x, D, (a - 1) * 128, b & 255)
        x = c11.put(it, x, D, (a - 1) * 128 + 1, b >> 8)
    x = setattrs(it, x, img, root_dir=C(links[0][0]))
    return x, img


def cycles(*pools):
    for i, p in enumerate(pools):
        for what, links in some(p)[1 if i else 0:]:
            yield what + (" (sectors %s)" % ", ".join(map(str, p)) if i else ""), links


def some(pool):
    a, b, c, d = pool
    long = [3] + [i for i in range(4, 39) if i != 3]
    return [("of 36 sectors", list(zip(long, long[1:] + long[:1]))),
            ("to itself", [(a, a)]),
            ("back to the first", [(a, b), (b, a)]),
            ("to the middle", [(a, b), (b, c), (c, b)]),
            ("last to itself", [(a, b), (b, c), (c, c)]),
            ("long", [(a, b), (b, c), (c, d), (d, a)]),
            ("not the previous", [(a, b), (b, c), (c, d), (d, b)])]


def spin(rep, con, run):
    cli = Spin()
    it = mkit(cli)
    run(it)
    rep.absorb(it)
    for n in cli.edges:
        c = "%s, %s" % (con, it.where(n).split(":")[0])
        if n in cli.found:
            rep.bad(R_SPIN, con, where_node(n), "a path through the loop at line %d returns to its head with nothing changed" % n.lineno)
        else:
            rep.ok(R_SPIN, "%s, loop in line %d" % (con, n.lineno))


def raw_arg(it, n=None):
    return new_segment_data(it, St(), n=n)[0]


def spin_jobs():
    def xex(it):
        x, raw = raw_arg(it)
        for k, y, f in calls(it, x, classval("AtariDosFile"), raw):
            if k == "n":
                method(it, y, f, "parse_segments")

    def images(cls):
        def run(it):
            for lab, y, img in load_images(it, classval(cls)):
                for m in ("get_directory", "parse_segments"):
                    method(it, y, img, m)
        return run

    def build(cls, hcls, size):
        def run(it):
            x, h = c11.header_of(it, storage(St(), "W", N), classval(hcls), size)
            x, img = c11.image_of(it, x, classval(cls), h, C(size))
            method(it, x, img, "build_sectors", Ar("W", C(0), N))
            A, B = mk("sym", "FIRST", kind="nat"), mk("sym", "LAST", kind="nat")
            method(it, x, img, "get_sector_slice", A, B)
            method(it, x, img, "get_contiguous_sectors", A, B)
        return run
    yield "executable parser", xex
    for c in ("AtariDosDiskImage", "Dos33DiskImage", "SpartaDosDiskImage", "KBootImage"):
        yield c, images(c)
    yield "AtariDosDiskImage sector list", build("AtariDosDiskImage", "AtrHeader", 92160)
    yield "Dos33DiskImage sector list", build("Dos33DiskImage", "Dos33Header", 143360)


def try_method(it, x, ref, name, *args):
    """None when there is no such method"""
    g = it.getattr(x, ref, name, CALL)
    if not any(k == "n" for k, _, _ in g):
        return None
    return method(it, x, ref, name, *args)


def check(rep):
    jobs = []

    def job(con, run):
        jobs.append((con, lambda r: judge(r, con, run)))

    for mydos in (False, True):
        fs = "MyDOS" if mydos else "Atari DOS"
        for what, links in cycles((5, 30, 12, 7), (300, 557, 600, 700), (44, 300, 556, 43)):
            for n in (5, 0):
                def rd(it, links=links, mydos=mydos, n=n):
                    x, img, dc = small_atari(it, links, mydos, n)
                    return try_method(it, x, img, "get_file_segment", dc)

                def rm(it, links=links, mydos=mydos, n=n):
                    x, img, dc = small_atari(it, links, mydos, n)
                    return try_method(it, x, dc, "get_sectors_in_vtoc", img)
                job("%s chain %s, %d bytes per sector: reading" % (fs, what, n), rd)
                job("%s chain %s, %d bytes per sector: deleting" % (fs, what, n), rm)
    for what, links in cycles((20, 45, 300, 33), (300, 301, 559, 288), (32, 288, 544, 256)):
        for nm, f in (("reading", lambda it, x, img, dc: try_method(it, x, img, "get_file_segment", dc)),
                      ("deleting", lambda it, x, img, dc: try_method(it, x, dc, "get_sectors_in_vtoc", img)),
                      ("metadata", lambda it, x, img, dc: try_method(it, x, dc, "extra_metadata", img))):
            def ts(it, links=links, f=f):
                return f(it, *small_dos(it, links))
            job("DOS 3.3 track/sector list %s: %s" % (what, nm), ts)
        for nm in ("get_directory", "get_directory_segments"):
            def cat(it, links=links, nm=nm):
                x, img, _ = small_dos(it, links, ("zeros",), False, 256)
                return try_method(it, x, img, nm)
            job("DOS 3.3 catalog %s: %s" % (what, nm), cat)

        def catw(it, links=links):
            x, img, _ = small_dos(it, links, ("zeros",), False, 256)
            o = it.obj(x, img)
            r = []
            for k, y, d in calls(it, x, classval("Dos33Directory"), o.attrs["header"]):
                if k == "n":
                    r += method(it, y, img, "get_directory", d)
            return r
        job("DOS 3.3 catalog %s: get_directory for writing" % what, catw)
    for what, links in cycles((5, 30, 12, 7), (300, 557, 600, 700), (44, 300, 556, 43)):
        def sp(it, links=links):
            x, img = small_sparta(it, links)
            return try_method(it, x, img, "get_sector_map", C(links[0][0]))
        job("SpartaDOS sector map %s" % what, sp)

        def spd(it, links=links):
            x, img = small_sparta(it, links)
            return try_method(it, x, img, "get_directory")
        job("SpartaDOS root directory %s" % what, spd)
    for con, run in spin_jobs():
        jobs.append((con, lambda r, con=con, run=run: guarded(r, R_SPIN, con, spin, r, con, run)))
    parallel(rep, jobs)
