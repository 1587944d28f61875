"""Abstract disk images: the structures of a file system (boot sector fields,
free map, directory, links) are constants, every other byte is unknown.  The
package's own code is interpreted on them, so what is concluded holds for all
contents of the unknown bytes.

The layouts written here are the published ones (Atari DOS 2 / MyDOS, Apple
DOS 3.3) and independent of the package's own tables."""
import struct

from .common import *
from . import models


class Exact(Client):
    unroll = 3000
    peel = 3000
    exact_list = 6000
    max_writes = 20000


class Image:
    """builder of one image"""

    def __init__(self, name, size):
        self.name, self.size, self.b = name, size, {}

    def put(self, off, data):
        for i, x in enumerate(data):
            self.b[off + i] = x

    def load(self, it, st=None):
        """[(kind, state, image or exception)] of the constructor"""
        models.IMAGES[self.name] = self.b
        n = C(self.size)
        st = storage(st or St(), "D", n, ("img", self.name))
        st = storage(st, "S", n, ("zeros",))
        outs = []
        for k, x, raw in calls(it, st, classval("SegmentData"), self.D, Ar("S", C(0), n)):
            if k == "n":
                outs += calls(it, x, classval(self.cls), raw, C("f" + self.ext))
        return outs

    @property
    def D(self):
        return Ar("D", C(0), C(self.size))

    def byte(self, it, st, off):
        return byte_at(it, st, self.D, off)

    def bytes(self, it, st, off, n):
        return [byte_at(it, st, self.D, off + i) for i in range(n)]

    def unknown(self, off):
        """the term for the original byte at an offset"""
        if off in self.b:
            return C(self.b[off])
        return mk("load8", mk("content", ("img", self.name), ()), C(off), kind="byte")


def entry_atari(flag, count, start, name, ext):
    return struct.pack("<BHH", flag, count, start) + name.ljust(8) + ext.ljust(3)


class Atari(Image):
    """Atari DOS 2 single (128 byte sectors) or double density (256)"""
    cls, ext = "AtariDosDiskImage", ".atr"

    def __init__(self, name, free, entries=(), ss=128, code=2):
        self.ss = ss
        n = 720
        payload = n * ss if ss == 128 else 3 * 128 + (n - 3) * ss
        Image.__init__(self, name, 16 + payload)
        self.payload = ss - 3
        par = payload // 16
        self.put(0, struct.pack("<HHHBLBL", 0x296, par & 0xffff, ss, par >> 16, 0, 0, 0)[:16].ljust(16, b"\0"))
        self.free = sorted(free)
        v = bytearray(ss)
        v[0] = code
        v[1:3] = struct.pack("<H", 707)
        v[3:5] = struct.pack("<H", len(self.free))
        for s in self.free:
            v[10 + s // 8] |= 0x80 >> s % 8
        self.put(self.pos(360), v)
        self.entries = list(entries)
        self.dirpos = [self.pos(361) + 16 * i for i in range(64)]
        d = bytearray(ss * 8)
        for i, e in enumerate(self.entries):
            d[16 * i:16 * i + 16] = e
        self.put(self.pos(361), d)

    def pos(self, s):
        return 16 + (s - 1) * 128 if s <= 3 else 16 + 3 * 128 + (s - 4) * self.ss

    def size_of(self, s):
        return 128 if s <= 3 else self.ss

    def link(self, s, nxt, num, used, mydos=False):
        p = self.pos(s) + self.ss - 3
        self.put(p, [(nxt >> 8) if mydos else (num << 2) | nxt >> 8, nxt & 255, used])

    def chain(self, secs, num, last, mydos=False):
        for i, s in enumerate(secs):
            end = i == len(secs) - 1
            self.link(s, 0 if end else secs[i + 1], num, last if end else self.payload, mydos)

    def free_at(self, it, st):
        """the free map on the image: {sector: bit term}"""
        p = self.pos(360)
        out = {}
        for s in range(720):
            b = self.byte(it, st, p + 10 + s // 8)
            out[s] = b.v >> (7 - s % 8) & 1 if type(b) is C else None
        return out

    def free_count(self, it, st):
        lo, hi = self.bytes(it, st, self.pos(360) + 3, 2)
        return lo.v + 256 * hi.v if type(lo) is C and type(hi) is C else None


def entry_dos33(track, sector, flag, name, count):
    return bytes([track, sector, flag]) + bytes(c | 0x80 for c in name.ljust(30)) + struct.pack("<H", count)


class Dos33(Image):
    cls, ext = "Dos33DiskImage", ".dsk"
    payload = 256

    def __init__(self, name, free, entries=(), ncat=15):
        Image.__init__(self, name, 143360)
        self.free = sorted(free)
        v = bytearray(256)
        v[1], v[2], v[3], v[6], v[0x27], v[0x30], v[0x31] = 17, 15, 3, 254, 122, 18, 1
        v[0x34], v[0x35], v[0x37] = 35, 16, 1
        for s in self.free:
            t, k = divmod(s, 16)
            v[0x38 + 4 * t + (0 if k >= 8 else 1)] |= 1 << k % 8
        self.put(self.pos(272), v)
        self.put(0, bytes([1, 0xa5, 0x27, 0xc9, 9, 0xd0, 0x18, 0xa5, 0x2b, 0x4a, 0x4a, 0x4a]))
        self.entries = list(entries)
        self.cat = [17 * 16 + s for s in range(15, 15 - ncat, -1)]
        self.dirpos = []
        for i, s in enumerate(self.cat):
            c = bytearray(256)
            if i + 1 < len(self.cat):
                c[1], c[2] = divmod(self.cat[i + 1], 16)
            for j in range(7):
                self.dirpos.append(self.pos(s) + 11 + 35 * j)
                n = 7 * i + j
                if n < len(self.entries):
                    c[11 + 35 * j:11 + 35 * j + 35] = self.entries[n]
            self.put(self.pos(s), c)

    def pos(self, s):
        return s * 256

    def size_of(self, s):
        return 256

    def tslist(self, s, secs, nxt=0, offset=0):
        c = bytearray(256)
        c[1], c[2] = divmod(nxt, 16)
        struct.pack_into("<H", c, 5, offset)
        for i, x in enumerate(secs):
            c[12 + 2 * i], c[13 + 2 * i] = divmod(x, 16)
        self.put(self.pos(s), c)

    def free_at(self, it, st):
        p = self.pos(272)
        out = {}
        for s in range(560):
            t, k = divmod(s, 16)
            b = self.byte(it, st, p + 0x38 + 4 * t + (0 if k >= 8 else 1))
            out[s] = b.v >> k % 8 & 1 if type(b) is C else None
        return out


def contents(it, st, v):
    """terms of the bytes of a returned bytes value or array, or None"""
    if type(v) is C and isinstance(v.v, bytes):
        return [C(x) for x in v.v]
    if type(v) is T and v.op == "tobytes":
        fr = v.args[0]
        ln = fr.args[2]
        if type(ln) is not C:
            return None
        return [models.load_frozen(st, fr, C(i)) for i in range(ln.v)]
    if type(v) is Ar and type(v.ln) is C:
        return [byte_at(it, st, v, i) for i in range(v.ln.v)]
    if type(v) is CArr:
        return [C(x) for x in v.v]
    return None


def filedata(st, n, sid="W"):
    """n unknown bytes: (state, array, terms)"""
    st = storage(st, sid, C(n))
    t = [mk("load8", mk("content", ("tok", sid), ()), C(i), kind="byte") for i in range(n)]
    return st, Ar(sid, C(0), C(n)), t


def files_of(it, st, img):
    """names in the image's file list"""
    o = it.obj(st, it.obj(st, img).attrs["files"])
    out = []
    for d in o.items if type(o) is Lst and o.exact else ():
        f = [v for k, x, v in it.getattr(st, d, "filename", CALL) if k == "n"]
        out.append((f[0].v if len(f) == 1 and type(f[0]) is C else None, d))
    return out


# --------------------------------------------------- independent decoding

class Broken(Exception):
    """the structures on the image are not decodable; where, what"""


class Open(Exception):
    """not decided by the analysis"""


def const(b, what):
    if type(b) is not C:
        raise Open("%s is not determined: %s" % (what, str(b)[:60]))
    return b.v


def chain_atari(im, it, st, i):
    """(sectors, [(sector, used)]) of directory entry i, as DOS 2 reads it"""
    e = [const(b, "directory byte") for b in im.bytes(it, st, im.dirpos[i], 16)]
    s = e[3] + 256 * e[4]
    mydos = bool(e[0] & 4)
    out, seen = [], set()
    while s:
        if s in seen or not 1 <= s <= 719 + (1 if mydos else 0) or len(out) > 720:
            raise Broken("the chain of entry %d goes %s" % (i, "round in a circle" if s in seen else "to sector %d" % s))
        seen.add(s)
        p = im.pos(s) + im.size_of(s) - 3
        a, b, u = [const(x, "link byte of sector %d" % s) for x in im.bytes(it, st, p, 3)]
        if not mydos and a >> 2 != i:
            raise Broken("sector %d of entry %d carries file number %d" % (s, i, a >> 2))
        out.append((s, u))
        s = (a << 8 if mydos else (a & 3) << 8) + b
    return out


def chain_dos33(im, it, st, i):
    """(lists, data sectors with 0 for holes) of catalog entry i"""
    e = [const(b, "catalog byte") for b in im.bytes(it, st, im.dirpos[i], 3)]
    s = e[0] * 16 + e[1]
    lists, data = [], []
    while s:
        if s in lists or not 0 < s < 560:
            raise Broken("the track/sector list of entry %d goes %s" % (i, "round in a circle" if s in lists else "to sector %d" % s))
        lists.append(s)
        p = im.pos(s)
        c = [const(b, "byte of list %d" % s) for b in im.bytes(it, st, p, 256)]
        for j in range(122):
            t, k = c[12 + 2 * j], c[13 + 2 * j]
            data.append(t * 16 + k)
        s = c[1] * 16 + c[2]
    return lists, data


def stored(im, it, st, i):
    """sectors owned and content terms of entry i as the disk has them"""
    if isinstance(im, Atari):
        ch = chain_atari(im, it, st, i)
        terms = []
        for s, u in ch:
            if u > im.size_of(s) - 3:
                raise Broken("sector %d claims %d bytes" % (s, u))
            terms += im.bytes(it, st, im.pos(s), u)
        return [s for s, u in ch], terms
    lists, data = chain_dos33(im, it, st, i)
    n = [const(b, "sector count") for b in im.bytes(it, st, im.dirpos[i] + 33, 2)]
    n = n[0] + 256 * n[1] - len(lists)
    data = data[:n]
    terms = []
    for s in data:
        terms += im.bytes(it, st, im.pos(s), 256) if s else [C(0)] * 256
    return lists + [s for s in data if s], terms


class Run:
    """a history of operations on one image"""

    def __init__(self, im, budget=30000000, client=None):
        self.im = im
        self.it = mkit(client or Exact(), budget)
        outs = im.load(self.it)
        if len(outs) != 1 or outs[0][0] != "n":
            raise Open("loading has %d outcomes (%s)" % (len(outs), ", ".join(sorted({k + ":" + (xname(v) if k == "x" else "") for k, x, v in outs}))[:100]))
        self.st, self.img = outs[0][1], outs[0][2]

    def one(self, outs, what):
        """None, or the exception the operation ends in"""
        if len(outs) != 1:
            raise Open("%s has %d outcomes" % (what, len(outs)))
        k, x, v = outs[0]
        if k == "x":
            self.failed = x
            return v
        if k != "n":
            raise Open("%s ends in %s" % (what, k))
        self.st, self.val = x, v
        return None

    def write(self, name, ft, n, sid):
        st, arr, terms = filedata(self.st, n, sid)
        self.terms = terms
        return self.one(method(self.it, st, self.img, "write_file", C(name), C(ft) if ft else NONE, arr), "write_file")

    def delete(self, name):
        return self.one(method(self.it, self.st, self.img, "delete_file", C(name)), "delete_file")

    def names(self):
        r = [n for n, d in files_of(self.it, self.st, self.img)]
        if None in r:
            raise Open("file names not determined")
        return r

    def dirent(self, i):
        return files_of(self.it, self.st, self.img)[i][1]

    def read(self, d):
        return self.same(method(self.it, self.st, self.img, "get_file", d), "get_file")

    def same(self, outs, what):
        """the contents all outcomes agree in, or the exception of one"""
        res = []
        for k, x, v in outs:
            if k == "x":
                return v
            if k != "n":
                raise Open("%s ends in %s" % (what, k))
            t = contents(self.it, x, v)
            if t is None:
                raise Open("contents not determined: %s" % str(v)[:60])
            res.append(t)
        if not res:
            raise Open("%s has no outcome" % what)
        if any(r != res[0] for r in res):
            raise Open("%s has several results" % what)
        self.st, self.val = outs[0][1], outs[0][2]
        return res[0]

    def free(self, st=None):
        f = self.im.free_at(self.it, st or self.st)
        if None in f.values():
            raise Open("free map not determined")
        return {s for s, b in f.items() if b}

    def entry(self, i):
        n = 16 if isinstance(self.im, Atari) else 35
        return self.im.bytes(self.it, self.st, self.im.dirpos[i], n)

    def entries(self):
        return [self.entry(i) for i in range(len(self.im.dirpos))]

    def stored(self, i):
        return stored(self.im, self.it, self.st, i)

    def written(self):
        """offsets of the image that may differ from the original"""
        s = self.it.obj(self.st, R("D"))
        out = set()
        for off, n, val in s.writes:
            if type(off) is not C or type(n) is not C:
                raise Open("a store at an undetermined place")
            out |= set(range(off.v, off.v + n.v))
        if s.base != ("img", self.im.name):
            raise Open("the image was replaced")
        return out


def kinds():
    """fresh image builders: (label, function(free, entries) -> image)"""
    return [
        ("Atari DOS 2 single density", lambda f, e=(): Atari("a", f, e)),
        ("Atari DOS 2 double density", lambda f, e=(): Atari("b", f, e, ss=256)),
        ("DOS 3.3", lambda f, e=(): Dos33("g", f, e)),
    ]
