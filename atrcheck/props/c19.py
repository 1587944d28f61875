"""C19: the requested run address is the one that is executed."""
from ..cli import *
from .c20 import seglist, data_of, le, points, Ex_, src

EXPLANATION = ("The writers of executables and boot disks are interpreted on segments of unknown contents: the bytes at the place where the target "
               "machine takes its start address from are derived as terms over the requested address and compared with low byte, high byte.  The range "
               "test is decided at the borders of every segment.  The command line is interpreted for every notation of the option, and the value that "
               "reaches the writer is compared with the address the text denotes.")
ASSUMPTIONS = ["run vector of an Atari executable: a segment 0x02e0-0x02e1 in front of the data; an Apple binary is started at its load address; the Apple loader (fstbt) ends with a JMP whose operand follows it",
               "input that contains its own segment at 0x02e0 brings its own run vector; an option text that is no number requests nothing",
               "the Apple binary's jump lies in front of the data: load addresses below 3 cannot have one"]
MINIMUM = 60

RUN = sym("RUN", "nat")
OBJ_RUN = 0x3104
DOM = {RUN: (0, 65535)}
R_VEC = "run vector holds the requested address"
R_REF = "an address outside the data is refused"
R_DEF = "default is the first segment"
R_CLI = "the option's address reaches the writer"
R_OBJ = "an object file's address only when none is requested"

CASES = [
    [(0x2000, 16)],
    [(0x2000, 3), (0x3000, 300)],
    [(0x4000, 300), (0x2000, 256), (0x600, 1)],
    [(0x10, 0x40), (0xc000, 0x3000), (0x9000, 255)],
    [(0x2000, 16), (0x2010, 16)],
    [(3, 20), (0xff00, 256)],
]


def addresses(case):
    a = set()
    for o, n in case:
        a |= {o - 1, o, o + 1, o + n - 1, o + n, (o + n // 2)}
    a |= {0, 0xffff}
    return sorted(x for x in a if 0 <= x <= 0xffff)


def inside(a, case):
    return any(o <= a < o + n for o, n in case)


def lib_error(v):
    c = v.cls
    return type(c) is Cl and classval("AtrError").info in c.info.mro()


def expect(rep, rule, con, w, got, want, what):
    for i, (g, t) in enumerate(zip(got, want)):
        expect_term(rep, rule, "%s: %s byte %d" % (con, what, i), w, g, t, DOM, what)


# ------------------------------------------------------------ executables

def writer(rep, kind, case, run):
    w = "atrcopy/executables.py get_" + kind
    it = mkit(Ex_())
    st, l = seglist(it, case)
    con = "%s of %s, run address %s" % (kind, ", ".join("%#x+%d" % s for s in case), "none" if run is None else "%#x" % run)
    for k, x, v in calls(it, st, gval("executables", "get_" + kind), l, NONE if run is None else C(run)):
        if k == "x":
            if run is None or inside(run, case):
                rep.bad(R_VEC, con, w, "the address lies in the data but %s is raised" % xname(v))
            elif lib_error(v):
                rep.ok(R_REF, con)
            else:
                rep.bad(R_REF, con, w, "ends in %s instead of the library's error" % xname(v))
            continue
        if k != "n":
            continue
        if run is not None and not inside(run, case) and not (kind == "bsave" and run == min(o for o, n in case)):
            rep.bad(R_REF, con, w, "the address lies outside the data and is accepted")
            continue
        if kind == "xex":
            d = data_of(it, x, v.items[0]) if type(v) is Tup else None
            if type(d) is not Ar:
                rep.und(R_VEC, con, "no data")
                continue
            vector(rep, it, x, d, 0, con, w, case, run)
        else:
            if type(v) is not Ar:
                rep.und(R_VEC, con, "no data")
                continue
            binary(rep, it, x, v, con, w, case, run)


def vector(rep, it, x, d, off, con, w, case, run):
    """find the run vector by walking the segment headers"""
    rule = R_DEF if run is None else R_VEC
    want = C(case[0][0] if run is None else run)
    pos, n = off + 2, 0
    hits = []
    while type(d.ln) is C and pos + 4 <= d.ln.v and n < 10:
        b = [byte_at(it, x, d, pos + i) for i in range(4)]
        if any(type(t) is not C for t in b):
            rep.und(rule, con, "segment header at %d is not constant" % pos)
            return
        a, e = b[0].v + 256 * b[1].v, b[2].v + 256 * b[3].v
        if a == 0x2e0 and e == 0x2e1:
            hits.append(pos + 4)
        if e < a:
            break
        pos += 4 + e - a + 1
        n += 1
    if not hits:
        rep.bad(rule, con, w, "no run vector (segment 0x2e0-0x2e1) is written")
        return
    # the last one wins on the machine
    expect(rep, rule, con, w, [byte_at(it, x, d, hits[-1] + i) for i in range(2)], le(want, 2), "run vector")


def binary(rep, it, x, d, con, w, case, run):
    lo = min(o for o, n in case)
    b = [byte_at(it, x, d, i) for i in range(7)]
    if type(b[0]) is not C or type(b[1]) is not C:
        rep.und(R_VEC, con, "load address")
        return
    load = b[0].v + 256 * b[1].v
    if run is None or run == lo:
        expect_term(rep, R_DEF if run is None else R_VEC, con + ": load address", w, C(load), C(lo), {}, "the load address")
        return
    if load == run:
        rep.ok(R_VEC, con, "loaded at the run address")
        return
    expect_term(rep, R_VEC, con + ": load address", w, C(load), C(lo - 3), {}, "the load address")
    expect(rep, R_VEC, con, w, b[4:7], [C(0x4c)] + le(C(run), 2), "jump")


def symbolic_xex(rep, n):
    """any address on every path that accepts it"""
    w = "atrcopy/executables.py get_xex"
    it = mkit(Ex_())
    case = CASES[n]
    st, l = seglist(it, case)
    con = "xex of %s, any run address" % ", ".join("%#x+%d" % s for s in case)
    for k, x, v in calls(it, st, gval("executables", "get_xex"), l, RUN):
        if k == "n" and type(v) is Tup:
            d = data_of(it, x, v.items[0])
            expect(rep, R_VEC, con, w, [byte_at(it, x, d, i) for i in (6, 7)], le(RUN, 2), "run vector")


# -------------------------------------------------------------- boot disks

def kboot(rep, case, run):
    w = "atrcopy/kboot.py KBootImage.create_boot_image"
    con = "Atari boot disk of %s, run address %s" % (", ".join("%#x+%d" % s for s in case), "none" if run is None else "%#x" % run)
    it = mkit(Ex_())
    st, l = seglist(it, case)
    for k, x, m in it.getattr(st, classval("KBootImage"), "create_boot_image", CALL):
        for k, y, img in it.call_value(x, m, [l, NONE if run is None else C(run)], {}, CALL) if k == "n" else ():
            if k != "n":
                if run is not None and not inside(run, case):
                    if lib_error(img):
                        rep.ok(R_REF, con)
                    else:
                        rep.bad(R_REF, con, w, "ends in %s instead of the library's error" % xname(img))
                else:
                    rep.bad(R_VEC, con, w, "creating the boot disk ends in %s" % xname(img))
                continue
            if run is not None and not inside(run, case):
                rep.bad(R_REF, con, w, "the address lies outside the data and is accepted")
                continue
            d = it.obj(y, img).attrs.get("bytes")
            if type(d) is not Ar:
                rep.und(R_VEC, con, "no image data")
                continue
            total = 2 + 6 + sum(4 + m for o, m in case)
            part = Ar(d.sid, add(d.off, C(16 + 384)), C(total), d.step, d.dt)
            vector(rep, it, y, part, 0, con, w, case, run)


class Sd(Ex_):
    unroll = 3000
    peel = 3000
    exact_list = 4000
    max_writes = 20000


def apple(rep, case, run):
    w = "atrcopy/standard_delivery.py StandardDeliveryImage.create_boot_image"
    con = "Apple boot disk of %s, run address %s" % (", ".join("%#x+%d" % s for s in case), "none" if run is None else str(run) if isinstance(run, Val) else "%#x" % run)
    it = mkit(Sd())
    st, l = seglist(it, case)
    code = topy(gval("standard_delivery", "fstbt"))
    n = len(code)
    if code[-1] != 0x4c:
        rep.bad(R_VEC, "Apple boot code", "atrcopy/fstbt.py", "the loader does not end with a JMP opcode in front of the address")
    else:
        rep.ok(R_VEC, "Apple boot code", "ends with JMP")
    want = run if isinstance(run, Val) else C(case[0][0] if run is None else run)
    for k, x, m in it.getattr(st, classval("StandardDeliveryImage"), "create_boot_image", CALL):
        for k, y, img in it.call_value(x, m, [l, NONE if run is None else run if isinstance(run, Val) else C(run)], {}, CALL) if k == "n" else ():
            if k != "n":
                rep.bad(R_VEC, con, w, "creating the boot disk ends in %s" % xname(img))
                continue
            d = it.obj(y, img).attrs.get("bytes")
            if type(d) is not Ar:
                rep.und(R_VEC, con, "no image data")
                continue
            rule = R_DEF if run is None else R_VEC
            expect(rep, rule, con, w, [byte_at(it, y, d, i) for i in (0, 1, n - 1)], [C(code[0]), C(code[1]), C(0x4c)], "boot sector")
            expect(rep, rule, con, w, [byte_at(it, y, d, n + i) for i in range(2)], le(want, 2), "jump operand")


# ----------------------------------------------------------- command line

NOTATIONS = [("2000", 0x2000), ("0x2001", 0x2001), ("$20ff", 0x20ff), ("#8192", 8192), ("%10000000000001", 0x2001), ("0", 0), ("600", 0x600), ("ABCD", 0xabcd), ("#600", 600), ("%101", 5), ("0x10", 16), ("$10", 16), ("10", 16), ("0x0", 0), ("$0", 0), ("#0", 0), ("%0", 0), ("00ff", 255), ("0x00f0", 0xf0)]


class Cli(CliClient):
    unroll = 60

    def __init__(self, command, text, data, obj):
        self.text, self.dataopt, self.objopt = text, data, obj
        CliClient.__init__(self, command)
        self.seen = []

    def parse_args(self, it, st, key, args, node, name):
        def nested(st, names):
            if not names:
                return st, NONE
            st, a = it.alloc(st, node, Lst([C(n) for n in names]), "ln")
            return it.alloc(st, node, Lst([a]), "lo")
        st, d = nested(st, self.dataopt)
        st, o = nested(st, self.objopt)
        self.preset = {"asm": NONE, "data": d, "obj": o, "run_addr": C(self.text), "output": C("out.xex"), "dry_run": FALSE, "verbose": FALSE, "force": C(True)}
        return CliClient.parse_args(self, it, st, key, args, node, name)

    def pre_call(self, it, st, f, args, kwargs, node):
        if type(f) is Fn and f.info.qual == "assemble_segments":
            return None
        return CliClient.pre_call(self, it, st, f, args, kwargs, node)

    def find(self, it, st, args, kwargs, node):
        return [o for o in CliClient.find(self, it, st, args, kwargs, node) if o[0] == "n"]

    def start(self):
        return ((), ())

    def attr(self, it, st, base, name, node):
        if type(base) is R:
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "parser" and name == "segments":
                segs = []
                st = storage(st, "OW", C(2), ("const", (OBJ_RUN & 255, OBJ_RUN >> 8)))
                st = storage(st, "OS", C(2), ("zeros",))
                st = storage(storage(st, "PW", C(0x209)), "PS", C(0x209))
                for c, w, s, org, n in (("ObjSegment", "PW", "PS", 0x3000, 0x209), ("RunAddressSegment", "OW", "OS", 0x2e0, 2)):
                    r = [(x, v) for k, x, v in calls(it, st, classval("SegmentData"), Ar(w, C(0), C(n)), Ar(s, C(0), C(n))) if k == "n"]
                    st, raw = r[0]
                    r = [(x, v) for k, x, v in calls(it, st, classval(c), raw, C(0), C(0), C(org), C(org + n)) if k == "n"]
                    st, sg = r[0]
                    segs.append(sg)
                st, l = it.alloc(st, node, Lst(segs), "psegs")
                return [("n", st, l)]
        return CliClient.attr(self, it, st, base, name, node)

    def event(self, it, st, kind, data, node):
        if kind in ("create_executable_file_image", "create_boot_image"):
            y = st.fork()
            y.mon = (st.mon[0] + ((kind, data, node),), st.mon[1])
            self.seen.append((kind, data, y))
            return y
        return st


def cli(rep, command, text, want, obj=False):
    c = Cli(command, text, [] if obj == "only" else ["f@2000"], ["o.xex"] if obj else [])
    con = "%s -r %r%s" % (command, text, " with an object file" if obj else "")
    rule = R_OBJ if obj else R_CLI
    w = "atrcopy/__init__.py assemble_segments"
    it, outs = run_command(c)
    if not c.seen:
        rep.und(rule, con, "the writer is not reached")
    vals = set()
    for kind, data, st in c.seen:
        pos = [dict([d]).get("run_addr") for d in data if isinstance(d, tuple) and len(d) == 2 and d[0] == "run_addr"]
        v = pos[0] if pos else data[-1]
        vals.add(v)
    for v in vals:
        if want is None:
            if v == NONE:
                rep.ok(rule, con, "no address")
            elif type(v) is C:
                rep.bad(rule, con, w, "%s reaches the writer although no address was given" % v)
            else:
                rep.und(rule, con, str(v)[:80])
        elif v == NONE or type(v) is C and not isinstance(v.v, int):
            rep.bad(rule, con, w, "the writer is given %s" % v)
        else:
            if type(v) is T and v.op == "int" and len(v.args) == 1:
                v = v.args[0]
            expect_term(rep, rule, con, w, v, want if isinstance(want, Val) else C(want), DOM, "the address the writer is given")


def check(rep):
    jobs = []
    for i, case in enumerate(CASES):
        for kind in ("xex", "bsave"):
            runs = [None] + addresses(case)
            if kind == "bsave":
                runs = [r for r in runs if min(o for o, n in case) >= 3]
            jobs.append(("%s %d" % (kind, i), lambda r, kind=kind, case=case, runs=runs: [guarded(r, R_VEC, "%s %s" % (kind, a), writer, r, kind, case, a) for a in runs]))
        jobs.append(("xexsym %d" % i, lambda r, i=i: symbolic_xex(r, i)))
    jobs.append(("zero", lambda r: [writer(r, "xex", [(0, 16), (0x2000, 5)], a) for a in (None, 0, 1, 15, 16)]))
    jobs.append(("own", lambda r: writer(r, "xex", [(0x2000, 5), (0x3000, 9)], 0x3008)))
    for i, case in enumerate(CASES[:4]):
        jobs.append(("kboot %d" % i, lambda r, case=case: [guarded(r, R_VEC, "kboot %s" % a, kboot, r, case, a) for a in [None] + addresses(case)]))
    for i, case in enumerate([[(0x2000, 16)], [(0x4000, 300), (0x2000, 256)], [(0x6010, 1000), (0x800, 5)], [(0x2000, 8192)]]):
        for a in (None, case[0][0], case[-1][0] + 1, 0, 0x1234, 0xffff, RUN):
            jobs.append(("apple %d %s" % (i, a), lambda r, case=case, a=a: apple(r, case, a)))
    for command in ("assemble", "boot"):
        for text, v in NOTATIONS:
            jobs.append(("cli %s %s" % (command, text), lambda r, c=command, t=text, v=v: cli(r, c, t, v)))
        jobs.append(("cli %s none" % command, lambda r, c=command: cli(r, c, "", None)))
        jobs.append(("cli %s obj" % command, lambda r, c=command: cli(r, c, "", OBJ_RUN, obj=True)))
        jobs.append(("cli %s obj only" % command, lambda r, c=command: cli(r, c, "", OBJ_RUN, obj="only")))
        jobs.append(("cli %s both" % command, lambda r, c=command: cli(r, c, "3001", 0x3001, obj=True)))
    parallel(rep, jobs)
