"""C16: every cartridge layout covers its ROM exactly."""
from ..common import *

EXPLANATION = ("known_cart_types is evaluated by constant propagation; for every row the abstract interpreter evaluates "
               "A8CartHeader.set_type and then parse_segments of the cartridge image on symbolic ROM contents, once with a "
               "16 byte header and once without.  The resulting main part and banks (offset, size, origin) are interval "
               "constants: they must tile [0, size) without gap or overlap and fit below 0x10000, and the segments offered "
               "must be the slices of the image at header + offset with the origin of the table.")
ASSUMPTIONS = ["rows without a layout (only number, name, size) promise no load address; for them only tiling is required"]
MINIMUM = 200


def intervals_ok(parts, size):
    parts = sorted(parts)
    pos = 0
    for a, n in parts:
        if n <= 0:
            return "part at %d KB has size %d" % (a, n)
        if a < pos:
            return "parts overlap at %d KB" % a
        if a > pos:
            return "gap between %d KB and %d KB" % (pos, a)
        pos = a + n
    if pos != size:
        return "parts end at %d KB, the ROM at %d KB" % (pos, size)
    return None


def check(rep):
    carts = topy(gval("cartridge", "known_cart_types"))
    H = gval("cartridge", "A8CartHeader")
    IMG8, IMG52 = gval("cartridge", "Atari8bitCartImage"), gval("cartridge", "Atari5200CartImage")
    SD = classval("SegmentData")
    W = "atrcopy/cartridge.py"
    nums = {}
    for row in carts:
        if row[0] in nums:
            rep.bad("unique-number", "type %d" % row[0], W, "%r and %r share the number" % (nums[row[0]], row[1]))
        else:
            rep.ok("unique-number", "type %d" % row[0])
        nums[row[0]] = row[1]
    names = {}
    for row in carts[1:]:
        if row[1] in names:
            rep.bad("unique-name", "type %d" % row[0], W, "%r already names type %d" % (row[1], names[row[1]]))
        else:
            rep.ok("unique-name", "type %d" % row[0])
        names[row[1]] = row[0]
        if len(row) in (3, 6, 9):
            rep.ok("row-shape", "type %d" % row[0])
        else:
            rep.bad("row-shape", "type %d" % row[0], W, "%r has %d fields: neither size only, nor fixed part, nor fixed part and banks; a field is dropped or shifted" % (row[1], len(row)))
        q = re.search(r"(\d+) (KB|MB)", row[1])
        if q:
            kb = int(q.group(1)) * (1024 if q.group(2) == "MB" else 1)
            if kb != row[2]:
                rep.bad("named-size", "type %d" % row[0], W, "%r has size %d KB" % (row[1], row[2]))
            else:
                rep.ok("named-size", "type %d" % row[0])
        guarded(rep, "layout", "type %d" % row[0], one, rep, row, H, IMG52 if "5200" in row[1] else IMG8, SD)


def one(rep, row, H, IMG, SD):
    t = row[0]
    con = "type %d (%s)" % (t, row[1])
    W = "atrcopy/cartridge.py"

    class U(Client):
        unroll = 100000
        peel = 2000
        exact_list = 5000
    it = mkit(U())
    outs = [o for o in calls(it, St(), H)]
    res = []
    for k, st, h in outs:
        if k != "n":
            res.append((k, st, h))
            continue
        for k2, s2, v2 in method(it, st, h, "set_type", C(t)):
            res.append((k2, s2, v2 if k2 != "n" else h))
    normal = [(s, h) for k, s, h in res if k == "n"]
    if not normal:
        rep.bad("layout", con, W, "set_type(%d) always raises %s" % (t, xname(res[0][2])))
        return
    if len(normal) != 1 or len(res) != 1:
        rep.und("layout", con, "set_type is not deterministic on constants")
        return
    st, h = normal[0]
    at = it.obj(st, h).attrs

    def num(n):
        v = at.get(n)
        v = topy(v, st.heap)
        if not isinstance(v, (int, list)):
            raise ValueError(n)
        return v
    size, ms, mo, morg = num("cart_size"), num("main_size"), num("main_offset"), num("main_origin")
    banks, bs, borg = num("banks"), num("bank_size"), num("bank_origin")
    if size != row[2]:
        rep.bad("layout", con, W, "cart_size %d KB differs from the table's %d KB" % (size, row[2]))
    parts = ([(mo, ms)] if ms > 0 else []) + [(b, bs) for b in banks]
    why = intervals_ok(parts, row[2])
    if why:
        rep.bad("layout", con, W, why)
    else:
        rep.ok("layout", con, "main %d KB at %d, %d banks of %d KB" % (ms, mo, len(banks), bs))
    if len(row) >= 6:
        ends = ([morg + ms * 1024] if ms > 0 else []) + ([borg + bs * 1024] if banks else [])
        lo = 0x4000 if "5200" in row[1] else 0x8000
        starts = ([morg] if ms > 0 else []) + ([borg] if banks else [])
        if any(e > 0xC000 for e in ends) or any(a < lo for a in starts):
            rep.bad("cartridge-window", con, W, "loaded at %s, outside the machine's cartridge area %#x-0xbfff" % ([hex(a) for a in starts], lo))
        else:
            rep.ok("cartridge-window", con)
        if any(e > 0x10000 for e in ends) or morg < 0 or borg < 0:
            rep.bad("address-space", con, W, "a part loaded at its address ends at %#x" % max(ends))
        else:
            rep.ok("address-space", con)
    if len(row) >= 6 and ms > 0 and (ms, mo, morg) != tuple(row[3:6]):
        rep.bad("table-fields", con, W, "fixed part %r differs from the table's %r" % ((ms, mo, morg), tuple(row[3:6])))
    if len(row) >= 9 and banks and (bs, borg) != (row[6], row[8]):
        rep.bad("table-fields", con, W, "bank size or address %r differs from the table's %r" % ((bs, borg), (row[6], row[8])))
    # segments
    for hoff, asked in ((0, ""), (16, ""), (0, " asked for"), (16, " asked for"), (0, " forced")):
        N = C(row[2] * 1024 + hoff)
        if asked == " forced":
            # a plain ROM opened as this type: the header found says nothing
            s0, h = [(x, v) for k, x, v in calls(it, st, H) if k == "n"][0]
        else:
            s0 = it.setattr(st, h, "header_offset", C(hoff), CALL)[0][1]
        s0 = storage(storage(s0, "D", N), "S", N)
        k, s0, raw = calls(it, s0, SD, Ar("D", C(0), N), Ar("S", C(0), N))[0]
        s0, lst = it.alloc(s0, CALL, Lst(()), "segs")
        s0, img = it.alloc(s0, CALL, Inst(IMG.info, {"header": h, "rawdata": raw, "segments": lst, "cart_type": C(t), "size": N, "bytes": Ar("D", C(0), N), "style": Ar("S", C(0), N)}), "img")
        outs = [("n", s0, None)]
        if asked:
            outs = [(k, x, v) for k, x, v in method(it, s0, img, "relaxed_check")]
        for k, s1, v in [o for k, x, v in outs for o in (method(it, x, img, "parse_segments") if k == "n" else [(k, x, v)])]:
            if k != "n":
                rep.bad("segments", "%s header %d%s" % (con, hoff, asked), W, "%s" % xname(v) + " is raised")
                continue
            sl = it.obj(s1, it.obj(s1, img).attrs["segments"])
            got = []
            if not sl.exact:
                rep.und("segments", con, "segment list not exact")
                continue
            okk = True
            for sg in sl.items:
                o = it.obj(s1, sg)
                rd = it.obj(s1, o.attrs["rawdata"])
                d = rd.attrs["data"]
                org = o.attrs.get("origin", o.attrs.get("start_addr"))
                if type(d) is not Ar or type(d.off) is not C or type(d.ln) is not C or type(org) is not C:
                    okk = False
                    break
                got.append((d.off.v, d.ln.v, org.v, d.sid))
            if not okk:
                rep.und("segments", con, "segment bounds not constant")
                continue
            want = []
            if ms > 0:
                want.append((hoff + mo * 1024, ms * 1024, morg, "D"))
            for b in banks:
                want.append((hoff + b * 1024, bs * 1024, borg, "D"))
            gl = [g for g in got if g[0] >= hoff and g[1] > 0 and not (hoff and g == (0, hoff, g[2], "D"))]
            if sorted(gl) != sorted(want):
                rep.bad("segments", "%s header %d%s" % (con, hoff, asked), W, "segments %s differ from the layout %s" % (sorted(set(gl) - set(want))[:3], sorted(set(want) - set(gl))[:3]))
            elif sum(g[1] for g in gl) != row[2] * 1024:
                rep.bad("segments", "%s header %d%s" % (con, hoff, asked), W, "segments cover %d bytes of %d" % (sum(g[1] for g in gl), row[2] * 1024))
            else:
                rep.ok("segments", "%s header %d%s" % (con, hoff, asked), "%d segments" % len(gl))
    rep.absorb(it)
