"""C10: directory entries survive a rewrite of the directory."""
from ..common import *
from ..disk import *
from . import c11

EXPLANATION = ("Two rules.  Codec: the abstract interpreter composes the entry decoder with the entry encoder on an entry whose "
               "count and start bytes are unknown and whose flag or name is taken from a table of all flag values and of names of "
               "every length and character class; each byte of the result must be the same term as the byte decoded, and the "
               "decoded attributes must be the bits of the published format.  Rewrite: write_file and delete_file are interpreted "
               "on abstract disks (constant directory, unknown contents); the bytes of every other entry in use, the catalog links "
               "and the rest of the directory sectors must be the terms they were before, and the entry of the new file must carry "
               "the published encoding.")
ASSUMPTIONS = ["bit 3 of an Atari DOS flag byte is not assigned and not part of the entry",
               "the flag byte of a deleted DOS 3.3 entry is not part of a file"]
MINIMUM = 100
WA, WD = "atrcopy/ataridos.py", "atrcopy/dos33.py"

BITS = [("opened_output", 1), ("dos_2", 2), ("mydos", 4), ("is_dir", 0x10), ("locked", 0x20), ("in_use", 0x40), ("deleted", 0x80)]
TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 0x10: "R"}
NAMES_A = [(b"A", b""), (b"AB", b"C"), (b"ABCDEFGH", b"XYZ"), (b"ABCDEFGH", b""), (b"ABCDEFG", b"XY"), (b"A1", b"BAS"), (b"A B", b"C D"),
           (b"9", b"9"), (b"a_b@", b"c"), (b"\xc1B", b"\xd4X"), (b"X", b"DAT"), (b"A.B", b"C"), (b" AB", b"C"), (b"A", b" C"), (b"  A  B", b" C")]
NAMES_D = [b"A", b"AB CD", b"HELLO.TXT", b"X" * 29, b"Y" * 30, b"LOWER case", b"A,B:C!\"#", b"Z" * 15, b"9", b"A" * 28 + b" B", b"  LEAD", b" X" * 15]


def codec(cls, hdr, cells, n):
    """[(attrs getter, encoded byte terms)] for every path through decode and encode"""
    it = mkit(Exact())
    if hdr:
        x, h = c11.header_of(it, St(), classval("AtrHeader"), hdr)
        x, img = c11.image_of(it, x, classval("AtariDosDiskImage"), h, C(hdr))
    else:
        x, h = c11.dos_header(it, St(), 143360, 122)
        x, img = c11.image_of(it, x, classval("Dos33DiskImage"), h, C(143360))
    x = storage(x, "E", C(n))
    e = Ar("E", C(0), C(n))
    for i, b in cells.items():
        x = c11.put(it, x, e, i, b)
    before = [byte_at(it, x, e, i) for i in range(n)]
    out = []
    for k, y, d in calls(it, x, classval(cls), img, C(3), e):
        if k != "n":
            out.append((k, y, None, d, None))
            continue
        for k2, z, v in method(it, y, d, "encode_dirent"):
            t = contents(it, z, v) if k2 == "n" else None
            out.append((k2, y, d, v, t))
    return it, before, out


def codec_rule(rep, con, where, cls, hdr, cells, n, want, skip=()):
    it, before, outs = codec(cls, hdr, cells, n)
    rep.absorb(it)
    for k, y, d, v, t in outs:
        if k != "n":
            if k == "x":
                rep.bad("entry-codec", con, where, "%s %s" % ("encoding raises" if d is not None else "decoding raises", xname(v)))
            else:
                rep.und("entry-codec", con, "ends in %s" % k)
            return
        if t is None or len(t) < n:
            rep.und("entry-codec", con, "encoded bytes not determined") if t is None else \
                rep.bad("entry-codec", con, where, "the encoded entry has %d bytes, not %d" % (len(t), n))
            return
        for i in range(n):
            if i in skip:
                continue
            r = same(t[i], before[i])
            if r is False:
                rep.bad("entry-codec", con, where, "byte %d of the entry is %s, comes back as %s" % (i, before[i], t[i]))
                return
            if r is None:
                rep.und("entry-codec", con, "byte %d: %s against %s" % (i, str(t[i])[:60], str(before[i])[:60]))
                return
        rep.ok("entry-codec", con)
        for a, w in want.items():
            vals = [q for kk, _, q in it.getattr(y, d, a, CALL) if kk == "n"]
            q = vals[0] if len(vals) == 1 else None
            if type(q) is not C:
                rep.und("entry-meaning", "%s: %s" % (con, a), "not determined")
            elif (bool(q.v) if isinstance(w, bool) else q.v) != w:
                rep.bad("entry-meaning", "%s: %s" % (con, a), where, "%s is %r, the published format says %r" % (a, q.v, w))
            else:
                rep.ok("entry-meaning", "%s: %s" % (con, a))


def same(a, b):
    """True / False / None (not decided) for two byte terms"""
    if a == b:
        return True
    if type(a) is C and type(b) is C:
        return False
    r = terms_equal(a, b)
    return r


def codecs(rep):
    for flag in range(256):
        if flag & 8:
            continue
        for cls in ("AtariDosDirent", "MydosDirent"):
            if cls == "MydosDirent" and flag not in (0x42, 0x46, 0x66, 0x56, 0x80):
                continue
            con = "%s, flag %#x" % (cls, flag)
            cells = {0: flag}
            cells.update({5 + i: b for i, b in enumerate(b"GAME    BIN")})
            guarded(rep, "entry-codec", con, codec_rule, rep, con, WA, cls, 92160, cells, 16,
                    {a: bool(flag & m) for a, m in BITS})
    for name, ext in NAMES_A:
        con = "Atari name %r.%r" % (name, ext)
        cells = {0: 0x42}
        cells.update({5 + i: b for i, b in enumerate(name.ljust(8) + ext.ljust(3))})
        full = (name + (b"." + ext if ext else b"")).decode("latin1")
        guarded(rep, "entry-codec", con, codec_rule, rep, con, WA, "AtariDosDirent", 92160, cells, 16, {"filename": full})


def codecs33(rep):
    nm = {3 + i: b | 0x80 for i, b in enumerate(b"GAME".ljust(30))}
    for flag in range(256):
        con = "Dos33Dirent, flag %#x" % flag
        want = {"locked": bool(flag & 0x80), "deleted": False, "in_use": True}
        if flag & 0x7f in TYPES:
            want["file_type"] = TYPES[flag & 0x7f]
        guarded(rep, "entry-codec", con, codec_rule, rep, con, WD, "Dos33Dirent", None, {0: 18, 2: flag, **nm}, 35, want)
    for name in NAMES_D:
        con = "DOS 3.3 name %r" % name
        cells = {0: 18, 2: 4}
        cells.update({3 + i: b | 0x80 for i, b in enumerate(name.ljust(30))})
        guarded(rep, "entry-codec", con, codec_rule, rep, con, WD, "Dos33Dirent", None, cells, 35,
                {"filename": name.decode("ascii")})
    for a in range(0, 256, 30):
        name = bytes(min(255, a + i) for i in range(30))
        con = "DOS 3.3 name of the characters %#x-%#x" % (a, min(255, a + 29))
        guarded(rep, "entry-codec", con, codec_rule, rep, con, WD, "Dos33Dirent", None,
                {0: 18, 2: 4, **{3 + i: b for i, b in enumerate(name)}}, 35, {})
    for t in (1, 17, 34):
        con = "deleted DOS 3.3 entry of track %d" % t
        cells = {0: 0xff, 2: 4, **nm}
        cells[0x20] = t
        guarded(rep, "entry-codec", con, codec_rule, rep, con, WD, "Dos33Dirent", None, cells, 35,
                {"deleted": True, "in_use": False, "track": t}, (2,))


# ------------------------------------------------------------- rewriting

FREE = list(range(400, 480))


def atari_dir(n, holes=(), subdir=None, ss=128):
    """n entries of one sector each; holes are deleted ones"""
    flags = [0x42, 0x62, 0x43, 0x42, 0x63, 0x46, 0x66, 0x42]
    e = []
    for i in range(n):
        f = flags[i % len(flags)]
        nm, ex = NAMES_A[i % len(NAMES_A)]
        nm = (b"%d" % i) + nm[:6]
        if i in holes:
            f = 0x80
        elif i == subdir:
            f = 0x10 | 0x40 | 4
        e.append((f, nm, ex))
    return e


def rewrite_atari(rep, label, ss, n, holes, op, target):
    con = "%s: %s" % (label, op if target is None else "%s entry %d" % (op, target))
    es = atari_dir(n, holes)
    ents = [entry_atari(f, 1 if i % 3 else 300 if f & 4 else 1, 10 + i, a, b) for i, (f, a, b) in enumerate(es)]
    im = Atari("c10a", FREE, ents, ss=ss)
    for i, (f, a, b) in enumerate(es):
        im.chain([10 + i], i, 5 + i, bool(f & 4))
    names = [(a + (b"." + b if b else b"")).decode("latin1") for f, a, b in es]
    rewrite(rep, con, WA, im, op, target, names, es)


def rewrite_dos33(rep, label, n, holes, op, target, ncat=15):
    con = "%s: %s" % (label, op if target is None else "%s entry %d" % (op, target))
    flags = [4, 0x84, 0, 2, 0x81, 0x10, 0x88]
    es = []
    ents = []
    for i in range(n):
        nm = b"%d%s" % (i, NAMES_D[i % len(NAMES_D)][:27])
        f = flags[i % 7]
        es.append((f, nm, b""))
        if i in holes:
            e = bytearray(entry_dos33(0xff, i % 16, f, nm, 2))
            e[0x20] = 18 + i // 16
            ents.append(bytes(e))
        else:
            ents.append(entry_dos33(18 + i // 16, i % 16, f, nm, 2))
    im = Dos33("c10d", range(432, 480), ents, ncat=ncat)
    for i in range(n):
        im.tslist(288 + i, [480 + i % 80])
    names = [nm.decode("ascii") for f, nm, x in es]
    rewrite(rep, con, WD, im, op, target, names, es)


def live(im, first):
    """is an entry with this first byte in use, in the published format"""
    return bool(first & 0x40) if isinstance(im, Atari) else first not in (0, 0xff)


def rewrite(rep, con, where, im, op, target, names, es):
    run = Run(im)
    before = run.entries()
    ent = 16 if isinstance(im, Atari) else 35
    x = run.write("NEWFILE" if isinstance(im, Dos33) else "NEW.X", "B", 10, "W") if op == "add" else run.delete(names[target])
    rep.absorb(run.it)
    if x is not None:
        rep.bad("directory-rewrite", con, where, "the operation raises %s" % xname(x))
        return
    after = run.entries()
    news = []
    for i, (b, a) in enumerate(zip(before, after)):
        inuse = live(im, im.entries[i][0]) if i < len(im.entries) else False
        if not inuse:
            if a != b and op == "add":
                if type(a[0]) is not C or live(im, a[0].v):
                    news.append(i)
            continue
        if i == target:
            continue
        for j in range(ent):
            r = same(a[j], b[j])
            if r is False:
                rep.bad("directory-rewrite", "%s, entry %d" % (con, i), where, "byte %d of entry %d (%s) changes from %s to %s" % (j, i, names[i], b[j], a[j]))
                break
            if r is None:
                rep.und("directory-rewrite", "%s, entry %d" % (con, i), "byte %d: %s" % (j, a[j]))
                break
        else:
            rep.ok("directory-rewrite", "%s, entry %d" % (con, i))
    # a never-used entry ends the directory: none may appear before a file
    last = max([i for i, e in enumerate(im.entries) if live(im, e[0]) and i != target], default=-1)
    for i in range(last):
        con2 = "%s, entry %d of %d" % (con, i, last)
        if im.entries[i][0] == 0:
            continue
        if type(after[i][0]) is not C:
            rep.und("directory-end", con2)
        elif after[i][0].v == 0:
            rep.bad("directory-end", con2, where, "entry %d becomes a never-used one, which ends the directory before entry %d (%s)" % (i, last, names[last]))
        else:
            rep.ok("directory-end", con2)
    # the rest of the directory sectors
    if isinstance(im, Dos33):
        for s in im.cat:
            a = im.bytes(run.it, run.st, im.pos(s), 3)
            w = [im.unknown(im.pos(s) + j) for j in range(3)]
            if a[1:] == w[1:]:
                rep.ok("catalog-links", "%s, sector %d" % (con, s))
            elif all(type(q) is C for q in a[1:]):
                rep.bad("catalog-links", "%s, sector %d" % (con, s), where, "the link of catalog sector %d changes from %s to %s" % (s, w[1:], a[1:]))
            else:
                rep.und("catalog-links", "%s, sector %d" % (con, s))
    if op == "add":
        if len(news) != 1:
            rep.bad("new-entry", con, where, "%d entries are in use after adding one file that were not before" % len(news))
            return
        e = after[news[0]]
        if any(type(q) is not C for q in e):
            rep.und("new-entry", con, "entry not determined")
            return
        raw = bytes(q.v for q in e)
        if ent == 16:
            want = entry_atari(0x42, 1, FREE[0], b"NEW", b"X")
            # which free sector is taken is not this property's business
            ok = raw[:3] == want[:3] and raw[5:] == want[5:]
        else:
            want = entry_dos33(0, 0, 4, b"NEWFILE", 2)
            ok = raw[2:] == want[2:]
        if ok:
            rep.ok("new-entry", con)
        else:
            rep.bad("new-entry", con, where, "the new entry is %s; the published encoding is %s" % (raw.hex(), want.hex()))


def new_entries(rep):
    """names of every length given to write_file"""
    for ss in (128, 256):
        for nm, ex in NAMES_A:
            if b"." in nm or b" " in nm + ex:
                continue
            full = (nm + (b"." + ex if ex else b"")).decode("latin1")
            con = "new Atari file %r, %d byte sectors" % (full, ss)
            guarded(rep, "new-entry", con, new_atari, rep, con, ss, full, nm, ex)
    for nm in NAMES_D[:6]:
        con = "new DOS 3.3 file %r" % nm
        guarded(rep, "new-entry", con, new_dos33, rep, con, nm, "B", 4)
    for t, q in TYPES.items():
        con = "new DOS 3.3 file of type %s" % q
        guarded(rep, "new-entry", con, new_dos33, rep, con, b"F", q, t)


def new_atari(rep, con, ss, full, nm, ex):
    im = Atari("c10n", FREE, ss=ss)
    run = Run(im)
    x = run.write(full, None, 300, "W")
    if x is not None:
        rep.bad("new-entry", con, WA, "raises %s" % xname(x))
        return
    e = run.entry(0)
    if any(type(q) is not C for q in e):
        rep.und("new-entry", con)
        return
    raw = bytes(q.v for q in e)
    n = -(-300 // im.payload)
    want = entry_atari(0x42, n, 0, nm[:8], ex[:3])
    if raw[:3] + raw[5:] == want[:3] + want[5:]:
        rep.ok("new-entry", con)
    else:
        rep.bad("new-entry", con, WA, "the entry is %s; the published encoding is %s" % (raw.hex(), want.hex()))


def new_dos33(rep, con, nm, q, t):
    im = Dos33("c10m", range(300, 340))
    run = Run(im)
    x = run.write(nm.decode(), q, 600, "W")
    if x is not None:
        rep.bad("new-entry", con, WD, "raises %s" % xname(x))
        return
    e = run.entry(0)
    if any(type(b) is not C for b in e):
        rep.und("new-entry", con)
        return
    raw = bytes(b.v for b in e)
    want = entry_dos33(0, 0, t, nm[:30], 4)
    if raw[2:] == want[2:]:
        rep.ok("new-entry", con)
    else:
        rep.bad("new-entry", con, WD, "the entry is %s; the published encoding is %s" % (raw.hex(), want.hex()))


def jobs(rep):
    out = [(codecs, ()), (codecs33, ()), (new_entries, ())]
    for ss in (128, 256):
        lab = "Atari DOS, %d byte sectors" % ss
        for n, holes in ((1, ()), (8, ()), (9, (3,)), (20, (0, 7, 19)), (63, ())):
            out.append((rewrite_atari, ("%s, %d entries" % (lab, n), ss, n, holes, "add", None)))
        for n, holes, t in ((2, (), 0), (9, (2,), 8), (20, (5,), 7), (64, (), 63)):
            out.append((rewrite_atari, ("%s, %d entries" % (lab, n), ss, n, holes, "delete", t)))
    for n, holes in ((1, ()), (7, ()), (8, (2,)), (16, (0, 15)), (30, ())):
        out.append((rewrite_dos33, ("DOS 3.3, %d entries" % n, n, holes, "add", None)))
    for n, holes, t in ((2, (), 1), (9, (2,), 8), (16, (5,), 7)):
        out.append((rewrite_dos33, ("DOS 3.3, %d entries" % n, n, holes, "delete", t)))
    return out


def check(rep):
    js = []
    for f, a in jobs(rep):
        js.append((f, a))
    parallel(rep, [("%s %s" % (f.__name__, a), lambda r, f=f, a=a: runjob(r, f, a)) for f, a in js])


def runjob(rep, f, a):
    rule = "directory-rewrite" if f in (rewrite_atari, rewrite_dos33) else "entry-codec"
    guarded(rep, rule, "%s %s" % (f.__name__, a), f, rep, *a)
