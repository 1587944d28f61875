"""Transfer functions of the Python builtins, numpy arrays and library calls
the package uses."""
import ast
import builtins

from .terms import *
from .terms import _poly, _mkpoly, _REBUILD
from .state import *
from .state import isint, query, fact_key, query_key

EXT_EXC = {
    "zlib.error": "builtins.Exception",
    "lzma.LZMAError": "builtins.Exception",
    "zipfile.BadZipFile": "builtins.Exception",
    "zipfile.BadZipfile": "builtins.Exception",
    "zipfile.LargeZipFile": "builtins.Exception",
    "gzip.BadGzipFile": "builtins.OSError",
    "json.JSONDecodeError": "builtins.ValueError",
    "json.decoder.JSONDecodeError": "builtins.ValueError",
    "struct.error": "builtins.Exception",
    "binascii.Error": "builtins.ValueError",
    "argparse.ArgumentError": "builtins.Exception",
    "shutil.Error": "builtins.OSError",
    "numpy.AxisError": "builtins.ValueError",
}


def ok(st, v):
    return [("n", st, v)]


def exc(st, name, node, tag=None):
    return ("x", st, Xc(Ex("builtins." + name), site=node, tag=tag))


def spec_catchable(it, name):
    """some active handler names this builtin exception (or a close
    superclass), not just Exception"""
    for hs in it.try_stack:
        for h in hs:
            if h is None or (type(h) is Ex and h.name in ("builtins.Exception", "builtins.BaseException")):
                continue
            if it.exc_sub(Ex("builtins." + name), h) is True:
                return True
    return False


# ------------------------------------------------------------------- terms

def tv(it, st, v):
    t = type(v)
    if t is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact and len(o.items) < 40:
            return mk("list", *[tv(it, st, x) for x in o.items])
        if type(o) is Sto:
            return mk("content", o.base, o.writes)
        return mk("ref", C(v.id))
    if t is Ar:
        return freeze(it, st, v)
    if t is Tup:
        return Tup([tv(it, st, x) for x in v.items])
    return v


def content(it, st, sid):
    o = it.obj(st, R(sid))
    if o is None:
        return mk("content", ("tok", str(sid)), ())
    return mk("content", o.base, o.writes)


def freeze(it, st, ar):
    return mk("arr", content(it, st, ar.sid), ar.off, ar.ln, ar.step, ar.dt if isinstance(ar.dt, (str, Val)) else C(ar.dt), ar.xf, kind="arr")


def is_str(v):
    return (type(v) is C and isinstance(v.v, str)) or (type(v) is T and v.kind == "str")


def is_bytes(v):
    return (type(v) is C and isinstance(v.v, (bytes, bytearray))) or (type(v) is T and v.kind == "bytes")


def strcat(vals):
    out = []
    for v in vals:
        if type(v) is T and v.op == "cat":
            out.extend(v.args)
        else:
            out.append(v)
    res = []
    for v in out:
        if res and type(v) is C and type(res[-1]) is C and type(v.v) is type(res[-1].v):
            res[-1] = C(res[-1].v + v.v)
        elif type(v) is C and v.v in ("", b""):
            continue
        else:
            res.append(v)
    if not res:
        return C(type(vals[0].v)() if vals and type(vals[0]) is C and isinstance(vals[0].v, (str, bytes)) else "")
    if len(res) == 1:
        return res[0]
    kind = "bytes" if any(is_bytes(v) for v in res) else "str"
    return mk("cat", *res, kind=kind)


# -------------------------------------------------------------- bytes of int

def byte_of(v, i):
    """byte i of integer v"""
    if type(v) is C and isinstance(v.v, int):
        return C((int(v.v) >> (8 * i)) & 255)
    if type(v) is T:
        if v.kind in ("byte", "bool") or v.op == "load8":
            return v if i == 0 else C(0)
        p = _poly(v)
        if p is not None and v.op == "poly":
            # sum of bytes at byte positions
            got = None
            good = True
            for m, c in p.items():
                if m == ():
                    t, k = None, None
                    cc = c
                    if cc < 0:
                        good = False
                        break
                    continue
                if len(m) == 1 and c > 0 and c & (c - 1) == 0 and (c.bit_length() - 1) % 8 == 0 and (m[0].kind == "byte" or m[0].op in ("load8", "byte")):
                    k = (c.bit_length() - 1) // 8
                    if k == i:
                        if got is not None:
                            good = False
                        got = m[0]
                else:
                    good = False
            if () in p:
                good = False
            if good:
                return got if got is not None else C(0)
    return mk("byte", v, C(i), kind="byte")


_REBUILD["byte"] = lambda v, i: byte_of(v, i.v) if type(i) is C else None


def combine(bytes_, big=False):
    if big:
        bytes_ = bytes_[::-1]
    # byte_i(v) for all i of a word
    b0 = bytes_[0]
    acc = C(0)
    for i, b in enumerate(bytes_):
        t = mul(C(256 ** i), b)
        acc = add(acc, t) if t is not None and acc is not None else None
        if acc is None:
            return mk("word", *bytes_, kind="nat")
    return acc


# ------------------------------------------------------------------- arrays

def elsize(dt):
    if type(dt) is Dt:
        return dt.itemsize
    if dt == "el":
        return 1
    return dt_size(dt) or 1


def new_array(it, st, node, base, ln, dt="u1", tag="a", writes=()):
    if it.client.max_writes >= 1000 and type(ln) is C and 0 < ln.v <= 2048 and dt in ("u1", "el") and base[0] in ("copy", "map", "unpack", "pack", "gather", "cat"):
        # exact mode: keep values, not the history of how they came about
        els = tuple(load8(st, base, writes, C(i), dt == "el") for i in range(ln.v))
        base, writes = ("list", els), ()
    st, r = it.alloc(st, node, Sto(base, writes, ln), tag)
    return st, Ar(r.id, C(0), ln, 1, dt)


def flat_frozen(st, fr):
    """a frozen array with its elements listed"""
    if fr.args[0].args[0][0] in ("list", "const") and not fr.args[0].args[1]:
        return fr
    n = _frlen(fr)
    if type(n) is not C or not 0 < n.v <= 2048 or elsize(fr.args[4]) != 1:
        return fr
    els = tuple(load_frozen(st, fr, C(i), fr.args[4] == "el") for i in range(n.v))
    return mk("arr", mk("content", ("list", els), ()), C(0), n, 1, fr.args[4], (), kind="arr")


def _decide_lt(st, a, b):
    """a < b ?"""
    if type(a) is C and type(b) is C:
        return a.v < b.v
    return query(st.facts, mk("cmp", "<", a, b))


def load8(st, base, writes, off, el=False):
    """value at byte (element) offset off of a content"""
    o = off.v if type(off) is C and type(off.v) is int else None
    for w in reversed(writes):
        woff, n, val = w
        if o is not None and type(woff) is C and type(n) is C and type(woff.v) is int and type(n.v) is int:
            if woff.v <= o < woff.v + n.v:
                return load_val(st, val, C(o - woff.v), el)
            continue
        if woff is None:
            return _opaque(base, writes, off, el)
        d = sub(off, woff)
        if d is None:
            return _opaque(base, writes, off, el)
        lo = _decide_lt(st, d, C(0))
        if lo is True:
            continue
        hi = _decide_lt(st, d, n)
        if hi is False:
            continue
        if lo is False and hi is True:
            return load_val(st, val, d, el)
        return _opaque(base, writes, off, el)
    return load_base(st, base, off, el)


def _opaque(base, writes, off, el):
    return mk("el" if el else "load8", mk("content", base, writes), off, kind=None if el else "byte")


def load_val(st, val, d, el=False):
    k = val[0]
    if k == "b":
        return val[1]
    if k == "w":            # word bytes
        return val[1][d.v] if type(d) is C else mk("wbyte", val[1], d, kind="byte")
    if k == "arr":
        return load_frozen(st, val[1], d, el)
    if k == "str":
        if type(val[1]) is C and isinstance(val[1].v, bytes) and type(d) is C:
            return C(val[1].v[d.v]) if d.v < len(val[1].v) else C(0)
        return mk("strbyte", val[1], d, C(val[2]), kind="byte")
    return mk("el" if el else "load8", mk("content", ("val", val), ()), d, kind=None if el else "byte")


def load_frozen(st, fr, i, el=False):
    """element i of a frozen array term"""
    cont, off, ln, step, dt, xf = fr.args
    base, writes = cont.args
    if xf:
        _, W, c0, w = xf
        if type(i) is C and type(w) is C and type(W) is C and type(c0) is C:
            r, c = divmod(i.v, w.v)
            j = C(r * W.v + c0.v + c)
        else:
            return mk("xfel", fr, i, kind="byte")
    else:
        j = i
    sz = elsize(dt)
    s = step if isinstance(step, int) else None
    o = mul(j, C((s or 1) * sz))
    a = add(off, o) if o is not None else None
    if a is None:
        return mk("fel", fr, i)
    return load_at(st, base, writes, a, dt)


def load_at(st, base, writes, a, dt):
    if dt == "el":
        return load8(st, base, writes, a, True)
    if type(dt) is Dt:
        return mk("rec", mk("content", base, writes), a)
    code = dt.lstrip("<>|=")
    if code[:1] == "S" or code[:1] == "a":
        n = elsize(dt)
        for w in reversed(writes):
            if w[0] is None:
                break
            d = sub(a, w[0])
            if d == C(0) and w[1] == C(n) and w[2][0] == "str":
                if type(w[2][1]) is C and isinstance(w[2][1].v, bytes):
                    return C(w[2][1].v[:n].rstrip(b"\0"))
                return mk("S", w[2][1], C(n), kind="bytes")
            lo = _decide_lt(st, add(d, C(n - 1)), C(0)) if d is not None else None
            hi = _decide_lt(st, d, w[1]) if d is not None else None
            if lo is True or hi is False:
                continue
            break
        bs = []
        for i in range(n):
            b = load8(st, base, writes, add(a, C(i))) if isint(a) else None
            if type(b) is not C or not isinstance(b.v, int):
                break
            bs.append(b.v)
        else:
            return C(bytes(x & 255 for x in bs).rstrip(b"\0"))
        return mk("Sfield", mk("content", base, writes), a, C(n), kind="bytes")
    n = elsize(dt)
    if n == 1:
        v = load8(st, base, writes, a)
        if code[0] == "i":
            return C(v.v - 256 if v.v > 127 else v.v) if type(v) is C and isinstance(v.v, int) else mk("s8", v, kind="int")
        return v
    bs = []
    for i in range(n):
        bs.append(load8(st, base, writes, add(a, C(i))))
    # all bytes of one stored word
    return combine(bs, dt.startswith(">"))


IMAGES = {}          # name -> {offset: constant byte}; other bytes are unknown


def load_base(st, base, off, el=False):
    k = base[0]
    if k == "img":
        if type(off) is C:
            v = IMAGES[base[1]].get(off.v)
            if v is not None:
                return C(v)
    if k == "zeros":
        return C(0)
    if k == "fill":
        return base[1]
    if k == "const":
        if type(off) is C and isinstance(off.v, int) and 0 <= off.v < len(base[1]):
            return C(base[1][off.v])
    if k == "list":
        if type(off) is C and isinstance(off.v, int) and 0 <= off.v < len(base[1]):
            return base[1][off.v]
    if k == "copy":
        fr = base[1]
        # copies keep byte layout
        cont, foff, ln, step, dt, xf = fr.args
        if not xf and step == 1:
            return load8(st, cont.args[0], cont.args[1], add(foff, off), el)
        if elsize(dt) == 1:
            return load_frozen(st, fr, off, el)
    if k == "cat":
        pos = C(0)
        for fr in base[1]:
            ln = mul(fr.args[2], C(elsize(fr.args[4])))
            end = add(pos, ln) if ln is not None else None
            if end is None:
                break
            if _decide_lt(st, off, pos) is False and _decide_lt(st, off, end) is True:
                cont, foff, _, step, dt, xf = fr.args
                if not xf and step == 1:
                    return load8(st, cont.args[0], cont.args[1], add(foff, sub(off, pos)), el)
                break
            if _decide_lt(st, off, end) is not False:
                break
            pos = end
    if k == "map":
        _, op, a, b = base
        x = load_frozen(st, a, off, el) if type(a) is T and a.op == "arr" else a
        y = load_frozen(st, b, off, el) if type(b) is T and b.op == "arr" else b
        r = int_binop(op, x, y)
        if r is not None:
            if not el:
                r = byte_of(r, 0)
            return r
    if k == "resized" and type(base[1]) is T and base[1].op == "arr":
        fr = base[1]
        n = _frlen(fr)
        if type(off) is C and type(n) is C and n.v > 0 and elsize(fr.args[4]) == 1:
            return load_frozen(st, fr, C(off.v % n.v), el)       # repeated as often as needed
        if n is not None and _decide_lt(st, off, n) is True and elsize(fr.args[4]) == 1:
            return load_frozen(st, fr, off, el)
    if k == "arange":
        r = mul(off, base[2])
        if r is not None:
            return add(base[1], r)
    if k == "gather":
        src, idx = base[1], base[2]
        if type(idx) is T and idx.op == "arr":
            j = load_frozen(st, idx, off, True)
            return load_frozen(st, src, j, el)
        if type(idx) is CArr:
            if type(off) is C and 0 <= off.v < len(idx.v):
                return load_frozen(st, src, C(idx.v[off.v]), el)
    if k == "unpack":
        src = base[1]
        if type(off) is C:
            q, r = divmod(off.v, 8)
            b = load_frozen(st, src, C(q))
            if type(b) is C and isinstance(b.v, int):
                return C(b.v >> (7 - r) & 1)
            return mk("bit", b, C(7 - r), kind="bool")
    if k == "pack":
        src = base[1]
        if type(off) is C:
            bs = [load_frozen(st, src, C(off.v * 8 + i)) for i in range(8)]
            if all(type(b) is C and isinstance(b.v, (int, bool)) for b in bs):
                return C(sum(1 << 7 - i for i, b in enumerate(bs) if b.v))
            return mk("packed", *bs, kind="byte")
    return mk("el" if el else "load8", mk("content", base, ()), off, kind=None if el else "byte")


def load_el(it, st, ar, i):
    sz = elsize(ar.dt)
    if ar.xf:
        return mk("fel", freeze(it, st, ar), tv(it, st, i))
    if not (isint(i) or type(i) is T):
        return mk("fel", freeze(it, st, ar), tv(it, st, i))
    o = mul(i, C(ar.step * sz))
    a = add(ar.off, o) if o is not None else None
    if a is None:
        return mk("fel", freeze(it, st, ar), tv(it, st, i))
    if type(ar.dt) is Dt:
        return Rec(ar.sid, a, ar.dt)
    s = it.obj(st, R(ar.sid))
    if s is None:
        return mk("fel", freeze(it, st, ar), i)
    return load_at(st, s.base, s.writes, a, ar.dt)


def norm_index(st, ln, i):
    if type(i) is C and isinstance(i.v, int) and i.v < 0:
        r = add(ln, i)
        return r if r is not None else i
    if type(i) is T and ln is not None:
        if query(st.facts, mk("cmp", "<", i, C(0))) is True:
            r = add(ln, i)
            return r if r is not None else i
    return i


def norm_slice(st, ln, sl):
    """-> (start, length, step) or None"""
    step = 1
    if sl.c != NONE:
        if type(sl.c) is not C or not isinstance(sl.c.v, int):
            return None
        step = sl.c.v
    if type(ln) is C and step and all(x == NONE or type(x) is C and isinstance(x.v, int) for x in (sl.a, sl.b)):
        r = range(*slice(sl.a.v, sl.b.v, step).indices(ln.v))
        return C(r.start), C(len(r)), step
    a = C(0) if sl.a == NONE else norm_index(st, ln, sl.a)
    b = ln if sl.b == NONE else norm_index(st, ln, sl.b)
    if type(a) not in (C, T) or type(b) not in (C, T):
        return None
    if type(a) is C and not isinstance(a.v, int) or type(b) is C and not isinstance(b.v, int):
        return None
    if step < 0:
        if step == -1 and sl.a == NONE and sl.b == NONE:
            return sub(ln, C(1)), ln, -1
        return None
    if sl.b != NONE and type(b) is not type(None) and ln is not None:
        g = query(st.facts, mk("cmp", "<", ln, b))
        if g is True:
            b = ln
    n = sub(b, a)
    if n is None:
        return None
    if type(n) is C and n.v < 0:
        n = C(0)
    if type(ln) is C and type(a) is C and a.v > ln.v:
        a = ln
        n = C(0)
    if step != 1:
        if type(n) is C:
            n = C((n.v + step - 1) // step)
        else:
            n = div(add(n, C(step - 1)), C(step))
    return a, n, step


def sub_array(it, st, ar, sl):
    if ar.xf:
        return None
    r = norm_slice(st, ar.ln, sl)
    if r is None:
        return None
    a, n, step = r
    o = mul(a, C(ar.step * elsize(ar.dt)))
    off = add(ar.off, o) if o is not None else None
    if off is None:
        return None
    return Ar(ar.sid, off, n, ar.step * step, ar.dt)


def root_array(it, st, ar):
    s = it.obj(st, R(ar.sid))
    return Ar(ar.sid, C(0), s.ln if s is not None and s.ln is not None else mk("stolen", C(str(ar.sid)), kind="nat"), 1, "u1" if ar.dt != "el" else "el")


def is_whole(it, st, ar):
    s = it.obj(st, R(ar.sid))
    return s is not None and ar.off == C(0) and ar.step == 1 and not ar.xf and s.ln == ar.ln and elsize(ar.dt) == 1


def value_desc(it, st, v):
    """description of a value stored into an array"""
    if type(v) is Ar:
        return ("arr", freeze(it, st, v))
    if type(v) is CArr:
        return ("arr", mk("arr", mk("content", ("const", v.v), ()), C(0), C(len(v.v)), 1, "el", (), kind="arr"))
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact:
            return ("arr", mk("arr", mk("content", ("list", tuple(tv(it, st, x) for x in o.items)), ()), C(0), C(len(o.items)), 1, "el", (), kind="arr"))
        return ("unk", mk("ref", C(v.id)))
    if type(v) is Tup:
        return ("arr", mk("arr", mk("content", ("list", tuple(tv(it, st, x) for x in v.items)), ()), C(0), C(len(v.items)), 1, "el", (), kind="arr"))
    if type(v) is T and v.kind == "arr" and v.op == "arr":
        return ("arr", v)
    if type(v) is C and isinstance(v.v, (int, bool)):
        return ("b", C(int(v.v) & 255))
    if type(v) is C and isinstance(v.v, bytes):
        return ("arr", mk("arr", mk("content", ("const", tuple(v.v)), ()), C(0), C(len(v.v)), 1, "u1", (), kind="arr"))
    if type(v) is T:
        if v.kind in ("int", "nat", "byte", "bool") or v.op in ("poly", "load8", "band", "bor", "cmp"):
            return ("b", byte_of(v, 0))
        return ("unk", v)
    return ("unk", C(repr(v)))


def _raw_store(it, st, sid, off, n, val, node):
    st = it.client.on_store(it, st, sid, off, n, val, node)
    s = it.obj(st, R(sid))
    if s is None:
        return st
    if it.client.coarse:
        return st.put(sid, Sto(("mod",), (), s.ln, s.owner))
    w = s.writes
    if it.client.max_writes >= 1000 and type(off) is C and type(n) is C:
        if val[0] == "arr":
            val = ("arr", flat_frozen(st, val[1]))
        a, b = off.v, off.v + n.v
        w = tuple(x for x in w if not (type(x[0]) is C and type(x[1]) is C and a <= x[0].v and x[0].v + x[1].v <= b))
    # an identical range written again replaces the last write
    w = tuple(x for x in w if not (x[0] == off and x[1] == n)) if off is not None else w
    if len(w) > it.client.max_writes:
        return st.put(sid, Sto(("many", mk("content", s.base, w[:20])), w[20:] + ((off, n, val),), s.ln, s.owner))
    return st.put(sid, Sto(s.base, w + ((off, n, val),), s.ln, s.owner))


def array_store(it, st, ar, v, node):
    if is_whole(it, st, ar) and type(v) is Ar:
        src = it.obj(st, R(v.sid))
        if src is not None and is_whole(it, st, v) and src.ln == ar.ln:
            st = it.client.on_store(it, st, ar.sid, C(0), ar.ln, ("arr", freeze(it, st, v)), node)
            s = it.obj(st, R(ar.sid))
            return st.put(ar.sid, Sto(src.base, src.writes, s.ln, s.owner))
    val = value_desc(it, st, v)
    if ar.xf or ar.step != 1:
        if it.client.max_writes >= 1000 and elsize(ar.dt) == 1 and type(ar.ln) is C and isint(ar.off):
            y = exact_strided(it, st, ar, val, node)
            if y is not None:
                return y
        if ar.xf and not it.client.coarse:
            s = it.obj(st, R(ar.sid))
            st = it.client.on_store(it, st, ar.sid, None, ar.ln, ("xf", ar.xf, ar.off, val), node)
            return st.put(ar.sid, Sto(s.base, s.writes + ((None, ar.ln, ("xf", ar.xf, ar.off, val)),), s.ln, s.owner))
        return _raw_store(it, st, ar.sid, None, ar.ln, ("strided", ar.off, ar.step, val), node)
    sz = elsize(ar.dt)
    n = mul(ar.ln, C(sz)) if ar.ln is not None else None
    if val[0] == "arr" and ar.dt != "el" and type(ar.dt) is not Dt and val[1].args[0].args[0][0] in ("list", "const") and val[1].args[4] == "el" and val[1].args[0].args[1] == ():
        kind, xs = val[1].args[0].args[0]
        xs = [C(x) if isinstance(x, int) else x for x in xs]
        if all(isint(x) or type(x) is T and x.kind in ("int", "nat", "byte", "bool") for x in xs):
            if sz == 1:
                xs = tuple(C(int(x.v) & 255) if type(x) is C else byte_of(x, 0) for x in xs)
                val = ("arr", mk("arr", mk("content", ("list", xs), ()), C(0), C(len(xs)), 1, "el", (), kind="arr"))
            elif ar.ln == C(len(xs)) and len(xs) <= 64:
                for i, x in enumerate(xs):
                    st = store_el(it, st, ar, C(i), x, node)
                return st
    if sz > 1 and ar.dt != "el":
        if val[0] == "b" and not (type(v) is C and v.v == 0):
            if ar.ln == C(1):
                return store_el(it, st, ar, C(0), v, node)
            val = ("wfill", tv(it, st, v), ar.dt)
    return _raw_store(it, st, ar.sid, ar.off, n if n is not None else ar.ln, val, node)


def exact_strided(it, st, ar, val, node):
    """a store through a strided or column view, element by element"""
    if ar.xf:
        _, W, c0, w = ar.xf
        if not (type(W) is C and type(c0) is C and type(w) is C) or ar.step != 1:
            return None
        pos = [r * W.v + c0.v + c for r in range(ar.ln.v // W.v) for c in range(w.v)]
    else:
        pos = [i * ar.step for i in range(ar.ln.v)]
    if len(pos) > 4096:
        return None
    if val[0] == "arr":
        n = _frlen(val[1])
        if n != C(len(pos)):
            return None
        vals = [load_frozen(st, val[1], C(i)) for i in range(len(pos))]
    elif val[0] == "b":
        vals = [val[1]] * len(pos)
    else:
        return None
    for p, x in zip(pos, vals):
        st = _raw_store(it, st, ar.sid, add(ar.off, C(p)), C(1), ("b", x), node)
    return st


def store_field(it, st, sid, a, dt, v, node):
    code = dt.lstrip("<>|=")
    n = elsize(dt)
    if code[:1] in ("S", "a"):
        return _raw_store(it, st, sid, a, C(n), ("str", tv(it, st, v), n), node)
    if dt == "el":
        return _raw_store(it, st, sid, a, C(1), ("b", tv(it, st, v)), node)
    if n == 1:
        x = tv(it, st, v)
        if type(x) is C and isinstance(x.v, (int, bool)):
            x = C(int(x.v) & 255)
        elif type(x) is T:
            x = byte_of(x, 0)
        return _raw_store(it, st, sid, a, C(1), ("b", x), node)
    x = tv(it, st, v)
    if type(x) is C and isinstance(x.v, bool):
        x = C(int(x.v))
    bs = tuple(byte_of(x, i) for i in range(n))
    if dt.startswith(">"):
        bs = bs[::-1]
    return _raw_store(it, st, sid, a, C(n), ("w", bs), node)


def store_el(it, st, ar, i, v, node):
    if ar.xf:
        return _raw_store(it, st, ar.sid, None, None, ("unk", tv(it, st, v)), node)
    o = mul(i, C(ar.step * elsize(ar.dt))) if (isint(i) or type(i) is T) else None
    a = add(ar.off, o) if o is not None else None
    if type(ar.dt) is Dt or a is None:
        return _raw_store(it, st, ar.sid, None, None, ("unk", tv(it, st, v)), node)
    return store_field(it, st, ar.sid, a, ar.dt, v, node)


def array_attr(it, st, o, name, node):
    if type(o) is CArr:
        if name == "size":
            return ok(st, C(len(o.v)))
        if name == "shape":
            return ok(st, Tup([C(len(o.v))]))
        if name == "base":
            return ok(st, NONE)
        return ok(st, Xm(o, name))
    if name == "base":
        if is_whole(it, st, o):
            s = it.obj(st, R(o.sid))
            return ok(st, NONE)
        return ok(st, root_array(it, st, o))
    if name == "shape":
        if o.xf:
            return ok(st, Tup([mk("rows", o.ln), o.xf[3]]))
        return ok(st, Tup([o.ln]))
    if name == "size":
        return ok(st, o.ln)
    if name == "nbytes":
        return ok(st, mul(o.ln, C(elsize(o.dt))))
    if name == "dtype":
        return ok(st, o.dt if type(o.dt) is Dt else C(o.dt))
    if name == "T":
        return ok(st, mk("transpose", freeze(it, st, o)))
    return ok(st, Xm(o, name))


def copy_array(it, st, ar, node):
    s = it.obj(st, R(ar.sid))
    if is_whole(it, st, ar):
        return new_array(it, st, node, s.base, ar.ln, ar.dt, "cp", s.writes)
    fr = freeze(it, st, ar)
    ln = ar.ln
    return new_array(it, st, node, ("copy", fr), ln, ar.dt if not ar.xf else ar.dt, "cp") if elsize(ar.dt) == 1 else _copy_wide(it, st, ar, fr, node)


def _copy_wide(it, st, ar, fr, node):
    st, r = it.alloc(st, node, Sto(("copy", fr), (), mul(ar.ln, C(elsize(ar.dt)))), "cp")
    return st, Ar(r.id, C(0), ar.ln, 1, ar.dt)


def to_frozen(it, st, v):
    """array-like value -> frozen array term"""
    if type(v) is Ar:
        return freeze(it, st, v)
    d = value_desc(it, st, v)
    if d[0] == "arr":
        return d[1]
    return None


def arr_from(it, st, v, node, dt="u1"):
    """array-like value -> (st, Ar) (a new array) or None"""
    if type(v) is Ar:
        return st, v
    fr = to_frozen(it, st, v)
    if fr is not None:
        cont, off, ln, step, fdt, xf = fr.args
        if dt in ("u1",) and cont.args[0][0] == "list":
            base = ("list", tuple(byte_of(x, 0) if isint(x) or type(x) is T else x for x in cont.args[0][1]))
            return new_array(it, st, node, base, ln, "u1", "a")
        if cont.args[0][0] == "const" or cont.args[0][0] == "list":
            return new_array(it, st, node, cont.args[0], ln, "u1" if dt == "u1" else "el", "a")
    if type(v) is R and type(it.obj(st, v)) is Lst:
        o = it.obj(st, v)
        return new_array(it, st, node, ("of", mk("ref", C(v.id)), tv(it, st, o.summ) if o.summ is not None else NONE), o.ln, "u1" if dt == "u1" else "el", "a")
    if type(v) is T:
        return new_array(it, st, node, ("tok", ("of", v)), mk("len", v, kind="nat"), "u1" if dt == "u1" else "el", "a")
    return None


def dtype_of(it, st, v, default="u1"):
    if v is None:
        return default
    if type(v) is Dt:
        return v
    if type(v) is C and isinstance(v.v, str):
        return v.v
    if type(v) is Ex:
        n = v.name.split(".")[-1]
        return {"uint8": "u1", "int8": "i1", "uint16": "u2", "uint32": "u4", "int32": "i4", "int64": "i8", "uint64": "u8", "bool": "b1", "bool_": "b1", "int": "i8", "float": "f8"}.get(n, default)
    return default


def simple_dt(dt):
    """how arrays made by numpy constructors are represented: bytes, 2/4-byte
    words by layout, everything index-like by element"""
    if type(dt) is Dt or dt in ("u1", "b1", "i1"):
        return "u1" if dt in ("b1",) else dt
    if isinstance(dt, str) and dt.lstrip("<>") in ("u2",):
        return dt
    if isinstance(dt, str) and dt[:1] in "<>":
        return dt
    return "el"


# ------------------------------------------------------------------- lists

def _as_list(it, st, v):
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Inst and "$list" in o.attrs:
            v = o.attrs["$list"]
            o = it.obj(st, v)
        if type(o) is Lst:
            return v, o
    return None, None


def join_elem(it, st, a, b, key):
    if a is None or a == b:
        return st, b
    if type(a) is R and type(b) is R:
        oa, ob = it.obj(st, a), it.obj(st, b)
        if type(oa) is Inst and type(ob) is Inst and oa.cls is ob.cls:
            oid = ("sm", key)
            attrs = {}
            for k in set(oa.attrs) | set(ob.attrs):
                va, vb = oa.attrs.get(k), ob.attrs.get(k)
                if va == vb:
                    attrs[k] = va
                elif type(va) is T and va.op == "phi":
                    attrs[k] = va
                elif type(va) is Ar and type(vb) is Ar and va.dt == vb.dt:
                    sid = ("smst", key, k)
                    ln = va.ln if va.ln == vb.ln else mk("phi", ("smln", key), k, kind="nat")
                    st = st.put(sid, Sto(("joined", key, k), (), ln))
                    attrs[k] = Ar(sid, C(0), ln, 1, va.dt)
                elif type(va) is R and type(vb) is R:
                    st, attrs[k] = join_elem(it, st, va, vb, (key, k)) if len(repr(key)) < 400 else (st, mk("phi", ("sm", key), k))
                else:
                    kind = "nat" if va is not None and vb is not None and nonneg(va) and nonneg(vb) else ("int" if va is not None and vb is not None and isint(va) and isint(vb) else None)
                    attrs[k] = mk("phi", ("sm", key), k, kind=kind)
            return st.put(oid, Inst(oa.cls, attrs, oa.lazy or ob.lazy)), R(oid)
        if type(oa) is Lst and type(ob) is Lst:
            return st, a
    if type(a) is T and a.op == "phi":
        return st, a
    if type(a) is Tup and type(b) is Tup and len(a.items) == len(b.items):
        xs = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            st, z = join_elem(it, st, x, y, (key, i))
            xs.append(z)
        return st, Tup(xs)
    kind = "nat" if nonneg(a) and nonneg(b) else ("int" if isint(a) and isint(b) else ("str" if is_str(a) and is_str(b) else ("bytes" if is_bytes(a) and is_bytes(b) else None)))
    return st, mk("phi", ("sm", key), "e", kind=kind)


def list_append(it, st, ref, v, node):
    ref, o = _as_list(it, st, ref)
    if o is None:
        return st
    lim = 200000 if not it._loaded else it.client.exact_list
    if o.exact and len(o.items) < lim:
        return st.put(ref.id, Lst(o.items + (v,)))
    summ = o.summ
    for x in o.items:
        st, summ = join_elem(it, st, summ, x, ref.id)
    st, summ = join_elem(it, st, summ, v, ref.id)
    ln = add(o.ln, C(1))
    return st.put(ref.id, Lst((), summ, ln if ln is not None else sym(("ln", ref.id), "nat")))


def list_extend(it, st, ref, v, node):
    ref, o = _as_list(it, st, ref)
    if o is None:
        return ok(st, NONE)
    seq = const_seq(it, st, v)
    if seq is not None and o.exact and (not it._loaded or len(seq) + len(o.items) <= it.client.exact_list) and not any(callable(x) for x in seq):
        return ok(st.put(ref.id, Lst(o.items + tuple(seq))), NONE)
    # generic
    vr, vo = _as_list(it, st, v)
    ln2 = None
    elem = None
    if vo is not None:
        ln2 = vo.ln
        elem = vo.summ
        for x in vo.items:
            st, elem = join_elem(it, st, elem, x, ("x", ref.id))
    elif type(v) is R and type(it.obj(st, v)) is Inst:
        def body(x, e):
            return [("n", list_append(it, x, ref, e, node), NONE)]
        return [("n" if k == "done" else k, x, w) for k, x, w in it.iterate(st, v, body, node)]
    elif type(v) is Gen:
        def body(x, e):
            return [("n", list_append(it, x, ref, e, node), NONE)]
        return [("n" if k == "done" else k, x, w) for k, x, w in it.iterate(st, v, body, node)]
    else:
        outs = []
        l = length(it, st, v)
        ln2 = l if l is not None else mk("len", tv(it, st, v), kind="nat")
        if type(v) is Ar:
            elem = mk("elemof", freeze(it, st, v), kind="byte" if v.dt == "u1" else None)
        elif type(v) is Iter and v.kind == "range":
            elem = mk("inrange", *v.args, kind="nat" if all(nonneg(a) for a in v.args[:2]) else "int")
        else:
            elem = mk("elemof", tv(it, st, v))
    summ = o.summ
    for x in o.items:
        st, summ = join_elem(it, st, summ, x, ref.id)
    if elem is not None:
        st, summ = join_elem(it, st, summ, elem, ref.id)
    ln = add(o.ln, ln2) if ln2 is not None else None
    if ln is None:
        ln = it.fresh(st, node, "len", "nat")
    if summ is None and ln == C(0):
        return ok(st.put(ref.id, Lst()), NONE)
    return ok(st.put(ref.id, Lst((), summ if summ is not None else it.fresh(st, node, "elem"), ln)), NONE)


def set_add(it, st, ref, v, node):
    o = it.obj(st, ref)
    if type(o) is not Set_:
        return st
    v = tv(it, st, v)
    if v in o.adds:
        return st
    if len(o.adds) > max(24, it.client.exact_list if it.client.exact_list > 64 else 0) and it._loaded:
        return st.put(ref.id, Set_(("big", o.base, o.adds), (v,)))
    return st.put(ref.id, Set_(o.base, o.adds + (v,)))


def settok(o):
    return mk("set", o.base if o.base is not None else C(None), o.adds)


def dict_set(it, st, ref, k, v, node):
    o = it.obj(st, ref)
    if type(o) is not Dct:
        return ok(st, NONE)
    k = tv(it, st, k)
    if type(k) is C and o.open_ is None and all(type(a) is C or type(a) is not T for a, b in o.items):
        items = []
        done = False
        for a, b in o.items:
            if a == k:
                items.append((k, v))
                done = True
            else:
                items.append((a, b))
        if not done:
            items.append((k, v))
        return ok(st.put(ref.id, Dct(items, o.open_, o.default)), NONE)
    items = [(a, b) for a, b in o.items if a != k] + [(k, v)]
    if len(items) > 16 and it._loaded:
        cl = dctclass(it, [it.obj(st, b).cls for a, b in items if type(b) is R and type(it.obj(st, b)) is Inst and it.obj(st, b).cls is not None], (o.open_,))
        return ok(st.put(ref.id, Dct((), mk("dctphi", (ref.id,), ("big",), cl), o.default)), NONE)
    return ok(st.put(ref.id, Dct(items, o.open_, o.default)), NONE)


def delitem(it, st, o, i, node):
    if type(o) is R:
        ob = it.obj(st, o)
        if type(ob) is Inst and ob.cls is not None:
            f, c = ob.cls.find("__delitem__")
            if f is not None:
                return it.call_value(st, Bm(o, f), [i], {}, node)
        if type(ob) is Dct:
            k = tv(it, st, i)
            items = tuple((a, b) for a, b in ob.items if a != k)
            outs = []
            known = any(a == k for a, b in ob.items)
            if not known and spec_catchable(it, "KeyError"):
                outs.append(exc(st, "KeyError", node))
            return outs + ok(st.put(o.id, Dct(items, ob.open_, ob.default)), NONE)
        if type(ob) is Lst:
            if ob.exact and type(i) is C and isinstance(i.v, int) and -len(ob.items) <= i.v < len(ob.items):
                l = list(ob.items)
                del l[i.v]
                return ok(st.put(o.id, Lst(l)), NONE)
            if ob.exact and type(i) is Sl and all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)):
                l = list(ob.items)
                del l[slice(i.a.v, i.b.v, i.c.v)]
                return ok(st.put(o.id, Lst(l)), NONE)
            n = it.fresh(st, node, "len", "nat")
            s = ob.summ
            for x in ob.items:
                st, s = join_elem(it, st, s, x, o.id)
            return ok(st.put(o.id, Lst((), s, n)), NONE)
    return ok(st, NONE)


def find_class(it, name):
    for g in it.globals.values():
        v = g.get(name)
        if type(v) is Cl and v.info.name == name:
            return v.info
    return None


def dctclass(it, classes, opens):
    """constant naming the most general class among dictionary values"""
    cls = list(classes)
    for o in opens:
        if type(o) is T and o.op == "dctphi" and type(o.args[2]) is C and isinstance(o.args[2].v, tuple):
            c = find_class(it, o.args[2].v[1])
            if c is not None:
                cls.append(c)
    best = None
    for c in sorted(set(cls), key=lambda c: c.name):
        if best is None or best.is_sub(c):
            best = c
    return C(("inst", best.name)) if best is not None else C(None)


def dict_values(it, st, ref, o, node, what):
    """list value for items()/keys()/values()"""
    pairs = []
    for a, b in o.items:
        pairs.append({"items": Tup([a, b]), "keys": a, "values": b}[what])
    if o.open_ is None:
        return it.alloc(st, node, Lst(pairs), "dl")
    # open dictionary: a symbolic element
    oid = ("dv", ref.id, what)
    val = None
    if type(o.open_) is T and o.open_.op == "dctphi" and type(o.open_.args[2]) is C and isinstance(o.open_.args[2].v, tuple) and o.open_.args[2].v[0] == "inst":
        ci = find_class(it, o.open_.args[2].v[1])
        if ci is not None:
            vid = ("dvi", ref.id)
            if vid not in st.heap:
                st = st.put(vid, Inst(ci, {}, True))
            val = R(vid)
    if val is None:
        val = mk("dval", o.open_)
    key = mk("dkey", o.open_, kind="int" if val is not None and type(val) is R else None)
    e = {"items": Tup([key, val]), "keys": key, "values": val}[what]
    for p in pairs:
        st, e = join_elem(it, st, e, p, ("dj", ref.id, what))
    ln = mk("len", mk("dct", o.open_), kind="nat")
    return it.alloc(st, node, Lst((), e, ln), "dl")


# --------------------------------------------------------------- iteration

def const_seq(it, st, v):
    t = type(v)
    if t is Tup:
        return list(v.items)
    if t is C and isinstance(v.v, (tuple, list)):
        return [C(x) for x in v.v]
    if t is C and isinstance(v.v, str) and len(v.v) < 200:
        return [C(x) for x in v.v]
    if t is C and isinstance(v.v, bytes) and len(v.v) < 200:
        return [C(x) for x in v.v]
    if t is C and isinstance(v.v, dict):
        return [C(x) for x in v.v]
    if t is CArr:
        return [C(x) for x in v.v]
    if t is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact:
            return list(o.items)
        if type(o) is Dct and o.open_ is None:
            return [a for a, b in o.items]
        if type(o) is Set_ and o.base is None:
            return list(o.adds)
        if type(o) is Inst and "$list" in o.attrs:
            f, c = o.cls.find("__iter__") if o.cls else (None, None)
            if f is None:
                return const_seq(it, st, o.attrs["$list"])
        elif type(o) is Inst and o.cls is not None:
            return seq_by_getitem(it, st, v, o)
        if type(o) is Opq and o.what == "iter" and type(o.attrs["pos"]) is C:
            q = const_seq(it, st, o.attrs["src"]) if type(o.attrs["src"]) is not Gen else None
            return q[o.attrs["pos"].v:] if q is not None else None
        return None
    if t is Iter:
        if v.kind == "range":
            if all(type(a) is C and isinstance(a.v, int) for a in v.args):
                r = range(*[a.v for a in v.args])
                if len(r) <= 100000:
                    return [C(x) for x in r]
            # symbolic but of constant length
            d = sub(v.args[1], v.args[0])
            if type(d) is C and v.args[2] == C(1) and 0 <= d.v <= 8:
                return [add(v.args[0], C(i)) for i in range(d.v)]
            return None
        if v.kind == "enumerate":
            s = const_seq(it, st, v.args[0])
            if s is None:
                return None
            return [Tup([add(v.args[1], C(i)), x]) if not callable(x) else x for i, x in enumerate(s)]
        if v.kind == "zip":
            its = [a for a in v.args if isiter(it, st, a) is not None]
            if len(set(its)) != len(its):
                return None
            ss = [const_seq(it, st, a) for a in v.args]
            if any(s is None for s in ss):
                return None
            return [Tup(list(x)) for x in zip(*ss)]
        if v.kind == "reversed":
            s = const_seq(it, st, v.args[0])
            return None if s is None else s[::-1]
        if v.kind in ("sorted", "map", "filter"):
            return None
    if t is Ar and not v.xf and type(v.ln) is C and v.ln.v <= (4096 if it.client.max_writes >= 1000 else 16) and type(v.dt) is not Dt:
        return [load_el(it, st, v, C(i)) for i in range(v.ln.v)]
    return None


def seq_by_getitem(it, st, v, o):
    """the items of an object of the program iterated through __getitem__,
    when its length is a small constant and every access has one outcome"""
    import ast
    if o.cls.find("__iter__")[0] is not None:
        return None
    g, n = o.cls.find("__getitem__")[0], o.cls.find("__len__")[0]
    if type(g) is not Fn or type(n) is not Fn:
        return None
    node = ast.parse("x[i]").body[0].value
    outs = it.call_value(st, Bm(v, n), [], {}, node)
    if len(outs) != 1 or outs[0][0] != "n" or type(outs[0][2]) is not C or not 0 <= outs[0][2].v <= (4096 if it.client.max_writes >= 1000 else 256):
        return None
    items = []
    for i in range(outs[0][2].v + 1):
        outs = it.call_value(st, Bm(v, g), [C(i)], {}, node)
        if len(outs) != 1:
            return None
        k, s, e = outs[0]
        if k == "x" and it.exc_sub(e.cls, Ex("builtins.IndexError")) is True:
            return items
        if k != "n" or i == 4096:
            return None
        items.append(e)
    return None


def of_elem(it, st, e, i, src):
    """element i of something whose elements are summarised by e"""
    if type(e) is T:
        if e.op == "inrange":
            return st, add(e.args[0], i) if len(e.args) > 2 and e.args[2] == C(1) else mk("elem", e, i, kind=e.kind)
        return st, mk("elem", e, i, kind=e.kind)
    if type(e) is Tup:
        xs = []
        for x in e.items:
            st, y = of_elem(it, st, x, i, src)
            xs.append(y)
        return st, Tup(xs)
    if type(e) is R:
        o = it.obj(st, e)
        if type(o) is Inst:
            oid = ("el", e.id, i)
            if o.lazy or True:
                attrs = {}
                for k, v in o.attrs.items():
                    if type(v) is T:
                        attrs[k] = mk("of", v, i, kind=v.kind)
                    elif type(v) is Ar:
                        s = it.obj(st, R(v.sid))
                        if s is not None and s.base[0] in ("joined", "of") and not s.writes:
                            sid = ("elst", v.sid, i)
                            ln = mk("of", s.ln, i, kind="nat") if type(s.ln) is T and s.ln.op == "phi" else s.ln
                            if sid not in st.heap:
                                st = st.put(sid, Sto(("of", mk("content", s.base, ()), i), (), ln))
                            attrs[k] = Ar(sid, v.off, ln if v.ln == s.ln else v.ln, v.step, v.dt, v.xf)
                        else:
                            attrs[k] = v
                    else:
                        attrs[k] = v
                st = st.put(oid, Inst(o.cls, attrs, o.lazy))
            return st, R(oid)
    return st, e


def _bound(it, st, i, ln):
    """outcomes of the loop test i < ln: [(True/False, st)]"""
    t = mk("cmp", "<", i, ln, kind="bool")
    if type(i) is C and type(ln) is C:
        return [(i.v < ln.v, st)]
    q = query(st.facts, t)
    if q is not None:
        return [(q, st)]
    key, pol = fact_key(t)
    return [(True, st.assume(key, pol)), (False, st.assume(key, not pol))]


def iter_next(it, st, v, i, node):
    t = type(v)
    out = []
    if t is Iter and v.kind == "range":
        a, b, c = v.args
        x = mul(i, c)
        x = add(a, x) if x is not None else None
        if x is None or type(c) is not C:
            x = mk("inrange", a, b, c, i, kind="nat" if nonneg(a) and nonneg(c) else "int")
            return [("done", st, None), ("n", st, x)]
        if isinstance(c.v, int) and c.v < 0:
            bl = _bound(it, st, b, x)
        else:
            bl = _bound(it, st, x, b)
        return [("n", s, x) if q else ("done", s, None) for q, s in bl]
    if t is Iter and v.kind == "enumerate":
        for k, s, e in iter_next(it, st, v.args[0], i, node):
            out.append((k, s, Tup([add(v.args[1], i), e])) if k == "n" else (k, s, e))
        return out
    if t is Iter and v.kind == "zip":
        cur = [("n", st, [])]
        for a in v.args:
            nxt = []
            for k, s, es in cur:
                if k != "n":
                    nxt.append((k, s, es))
                    continue
                seq = const_seq(it, s, a)
                if seq is not None:
                    if type(i) is C:
                        nxt.append(("n", s, es + [seq[i.v]]) if i.v < len(seq) else ("done", s, None))
                    else:
                        nxt.append(("done", s, None))
                        nxt.append(("n", s, es + [mk("elem", tv(it, s, a), i)]))
                    continue
                for k2, s2, e in iter_next(it, s, a, i, node):
                    nxt.append((k2, s2, es + [e]) if k2 == "n" else (k2, s2, e))
            cur = nxt
        return [(k, s, Tup(e) if k == "n" else e) for k, s, e in cur]
    if t is Iter and v.kind == "reversed":
        return iter_next(it, st, v.args[0], i, node)
    if t is R:
        o = it.obj(st, v)
        if type(o) is Inst and "$list" in o.attrs:
            v = o.attrs["$list"]
            o = it.obj(st, v)
        if type(o) is Lst:
            if o.exact:
                if type(i) is C:
                    return [("n", st, o.items[i.v])] if i.v < len(o.items) else [("done", st, None)]
                if not o.items:
                    return [("done", st, None)]
                e = None
                for x in o.items:
                    st, e = join_elem(it, st, e, x, ("ij", v.id))
                ln = C(len(o.items))
            else:
                e, ln = o.summ, o.ln
                for x in o.items:
                    st, e = join_elem(it, st, e, x, ("ij", v.id))
            for q, s in _bound(it, st, i, ln):
                if q:
                    s, x = of_elem(it, s, e, i, v)
                    out.append(("n", s, x))
                else:
                    out.append(("done", s, None))
            return out
        if type(o) is Dct:
            st, l = dict_values(it, st, v, o, node, "keys")
            return iter_next(it, st, l, i, node)
        if type(o) is Set_:
            x = mk("setelem", settok(o), i)
            return [("done", st, None), ("n", st, x)]
        if type(o) is Inst and o.cls is not None:
            f, c = o.cls.find("__iter__")
            if f is None:
                g, c = o.cls.find("__getitem__")
                if g is not None:
                    for k, s, e in it.call_value(st, Bm(v, g), [i], {}, node):
                        if k == "x" and it.exc_sub(e.cls, Ex("builtins.IndexError")) is True:
                            out.append(("done", s, None))
                        else:
                            out.append((k, s, e))
                    return out
        x = mk("elem", mk("ref", C(v.id)), i)
        return [("done", st, None), ("n", st, x)]
    if t is Ar:
        for q, s in _bound(it, st, i, v.ln):
            out.append(("n", s, load_el(it, s, v, i)) if q else ("done", s, None))
        return out
    if t is T:
        if v.op == "attr" or v.kind in (None, "arr", "str", "bytes"):
            x = mk("elem", v, i, kind="byte" if v.kind == "bytes" else ("str" if v.kind == "str" else None))
            return [("done", st, None), ("n", st, x)]
    x = mk("elem", tv(it, st, v), i)
    return [("done", st, None), ("n", st, x)]


def unpack(it, st, v, target, node):
    import ast
    n = len(target.elts)
    star = [j for j, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
    seq = const_seq(it, st, v)
    if seq is not None and not any(callable(x) for x in seq):
        if star:
            j = star[0]
            tail = n - j - 1
            if len(seq) < n - 1:
                return [exc(st, "ValueError", node, "unpack")]
            mid = seq[j:len(seq) - tail]
            st, r = it.alloc(st, node, Lst(mid), "star")
            return [("n", st, seq[:j] + [r] + seq[len(seq) - tail:])]
        if len(seq) != n:
            return [exc(st, "ValueError", node, "unpack")]
        return [("n", st, seq)]
    if type(v) is Ar and type(v.dt) is not Dt:
        return [("n", st, [load_el(it, st, v, C(i)) for i in range(n)])]
    if type(v) is Rec and n == len(v.dt.fields):
        s = it.obj(st, R(v.sid))
        return [("n", st, [load_at(st, s.base, s.writes, add(v.off, C(f[3])), f[1]) for f in v.dt.fields])]
    t = tv(it, st, v)
    outs = [("n", st, [mk("item", t, C(i)) for i in range(n)])]
    if spec_catchable(it, "ValueError"):
        outs.append(exc(st, "ValueError", node, "unpack"))
    return outs


# --------------------------------------------------------------- subscripts

def length(it, st, v):
    t = type(v)
    if t is C and hasattr(v.v, "__len__"):
        return C(len(v.v))
    if t is Tup:
        return C(len(v.items))
    if t is CArr:
        return C(len(v.v))
    if t is Ar:
        return v.ln
    if t is Iter and v.kind == "range":
        a, b, c = v.args
        if c == C(1):
            d = sub(b, a)
            if d is not None:
                if type(d) is C and d.v < 0:
                    return C(0)
                return d
        return mk("len", mk("range", a, b, c), kind="nat")
    if t is R:
        o = it.obj(st, v)
        if type(o) is Inst and "$list" in o.attrs:
            o = it.obj(st, o.attrs["$list"])
        if type(o) is Lst:
            return o.ln
        if type(o) is Dct:
            if o.open_ is None:
                return C(len(o.items))
            return mk("len", mk("dct", o.open_, o.items), kind="nat")
        if type(o) is Set_:
            if o.base is None and all(type(x) is C for x in o.adds):
                return C(len(o.adds))
            if it.client.track_empty and (o.adds or o.base is not None and o.base[0] == "phi1"):
                return add(C(1), mk("less1", mk("len", settok(o), kind="nat"), kind="nat"))
            return mk("len", settok(o), kind="nat")
    if t is T:
        if v.op == "arr":
            return v.args[2]
        if v.op == "tobytes" and type(v.args[0]) is T and v.args[0].op == "arr":
            n = mul(v.args[0].args[2], C(elsize(v.args[0].args[4])))
            if n is not None:
                return n
        if v.op == "cat":
            n = C(0)
            for a in v.args:
                m = length(it, st, a)
                n = add(n, m) if n is not None and m is not None else None
            if n is not None:
                return n
        return mk("len", v, kind="nat")
    return None


def bytes_parts(t):
    """a bytes term as a list of frozen arrays, or None"""
    out = []
    for a in t.args if type(t) is T and t.op == "cat" else (t,):
        if type(a) is C and isinstance(a.v, bytes):
            out.append(mk("arr", mk("content", ("const", tuple(a.v)), ()), C(0), C(len(a.v)), 1, "u1", (), kind="arr"))
        elif type(a) is T and a.op == "tobytes" and type(a.args[0]) is T and a.args[0].op == "arr":
            out.append(a.args[0])
        else:
            return None
    return out


def getitem(it, st, o, i, node):
    t = type(o)
    if t is R:
        ob = it.obj(st, o)
        if type(ob) is Inst and "$list" in ob.attrs:
            o = ob.attrs["$list"]
            ob = it.obj(st, o)
        if type(ob) is Lst:
            return list_get(it, st, o, ob, i, node)
        if type(ob) is Dct:
            return dict_get(it, st, o, ob, i, node)
        if type(ob) is Opq:
            r = mk("item", mk("ref", C(o.id)), tv(it, st, i))
            outs = ok(st, r)
            for e in ("KeyError", "IndexError"):
                if spec_catchable(it, e):
                    outs.append(exc(st, e, node))
            return outs
        return ok(st, mk("item", mk("ref", C(o.id)), tv(it, st, i)))
    if t is Tup:
        if type(i) is C and isinstance(i.v, int):
            if -len(o.items) <= i.v < len(o.items):
                return ok(st, o.items[i.v])
            return [exc(st, "IndexError", node)]
        if type(i) is Sl and all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)):
            return ok(st, Tup(o.items[slice(i.a.v, i.b.v, i.c.v)]))
        return ok(st, mk("item", tv(it, st, o), tv(it, st, i)))
    if t is C:
        if type(i) is C:
            try:
                return ok(st, C(o.v[i.v]))
            except IndexError:
                return [exc(st, "IndexError", node)]
            except KeyError:
                return [exc(st, "KeyError", node)]
            except TypeError:
                return [exc(st, "TypeError", node)]
        if type(i) is Sl and isinstance(o.v, (str, bytes, tuple)):
            if all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)):
                return ok(st, C(o.v[i.a.v:i.b.v:i.c.v]))
        return ok(st, mk("item", o, tv(it, st, i), kind={str: "str", bytes: "bytes"}.get(type(o.v))))
    if t is CArr:
        if type(i) is C and isinstance(i.v, int):
            if -len(o.v) <= i.v < len(o.v):
                return ok(st, C(o.v[i.v]))
            return [exc(st, "IndexError", node)]
        if type(i) is Sl and all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)):
            return ok(st, CArr(o.v[i.a.v:i.b.v:i.c.v]))
        if type(i) in (CArr, Ar, R):
            q = const_seq(it, st, i)
            if q is not None and all(type(x) is C and isinstance(x.v, int) for x in q):
                if q and all(isinstance(x.v, bool) for x in q):
                    return ok(st, CArr([a for a, b in zip(o.v, q) if b.v])) if len(q) == len(o.v) else [exc(st, "IndexError", node)]
                if all(-len(o.v) <= x.v < len(o.v) for x in q):
                    return ok(st, CArr([o.v[x.v] for x in q]))
                return [exc(st, "IndexError", node)]
            if type(i) is not R or type(it.obj(st, i)) is Lst:
                ln = length(it, st, i)
                st, r = new_array(it, st, node, ("tok", ("pick", o, tv(it, st, i))), ln if ln is not None else it.fresh(st, node, "len", "nat"), "el")
                return ok(st, r)
        return ok(st, mk("elem", o, tv(it, st, i)))
    if t is Ar:
        return array_get(it, st, o, i, node)
    if t is Rec:
        f = rec_field(o, i)
        if f is None:
            return ok(st, mk("item", mk("rec", content(it, st, o.sid), o.off), tv(it, st, i)))
        s = it.obj(st, R(o.sid))
        return ok(st, load_at(st, s.base, s.writes, add(o.off, C(f[3])), f[1]))
    if t is Iter and o.kind == "range":
        if type(i) is Sl and all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)) and all(type(x) is C for x in o.args):
            r = range(*[x.v for x in o.args])[i.a.v:i.b.v:i.c.v]
            return ok(st, Iter("range", (C(r.start), C(r.stop), C(r.step))))
        if type(i) is C and all(type(x) is C for x in o.args):
            try:
                return ok(st, C(range(*[x.v for x in o.args])[i.v]))
            except IndexError:
                return [exc(st, "IndexError", node)]
        if type(i) is not Sl:
            x = mul(i, o.args[2])
            return ok(st, add(o.args[0], x) if x is not None else mk("item", tv(it, st, o), tv(it, st, i)))
    if t is T:
        if type(i) is Sl:
            r = mk("slice", o, tv(it, st, i.a), tv(it, st, i.b), tv(it, st, i.c), kind=o.kind)
            return ok(st, r)
        if o.op == "tobytes" and type(i) is C and isinstance(i.v, int) and type(o.args[0]) is T and o.args[0].op == "arr":
            # a byte of an array turned into bytes
            con, off, ln, step, dt, xf = o.args[0].args
            if type(ln) is C and step == 1 and elsize(dt) == 1 and not xf:
                if not -ln.v <= i.v < ln.v:
                    return [exc(st, "IndexError", node)]
                a = add(off, C(i.v % ln.v))
                if a is not None:
                    return ok(st, load8(st, con.args[0], con.args[1], a))
        kind = None
        if o.kind == "bytes":
            kind = "byte"
        elif o.kind == "str":
            kind = "str"
        outs = ok(st, mk("item", o, tv(it, st, i), kind=kind))
        for e in ("KeyError", "IndexError"):
            if spec_catchable(it, e):
                outs.append(exc(st, e, node))
        return outs
    return ok(st, it.fresh(st, node, "item"))


def rec_field(o, i):
    if type(i) is C:
        if isinstance(i.v, int) and -len(o.dt.fields) <= i.v < len(o.dt.fields):
            return o.dt.fields[i.v]
        for f in o.dt.fields:
            if f[0] == i.v:
                return f
    return None


def list_get(it, st, o, ob, i, node):
    if ob.exact:
        if type(i) is C and isinstance(i.v, int):
            if -len(ob.items) <= i.v < len(ob.items):
                return ok(st, ob.items[i.v])
            return [exc(st, "IndexError", node)]
        if type(i) is Sl:
            if all(x == NONE or (type(x) is C and (x.v is None or isinstance(x.v, int))) for x in (i.a, i.b, i.c)):
                st, r = it.alloc(st, node, Lst(ob.items[i.a.v:i.b.v:i.c.v]), "ls")
                return ok(st, r)
    if type(i) is Sl:
        s = ob.summ
        for x in ob.items:
            st, s = join_elem(it, st, s, x, ("sl", o.id))
        r = norm_slice(st, ob.ln, i)
        ln = r[1] if r is not None else it.fresh(st, node, "len", "nat")
        if type(ln) is T and not nonneg(ln):
            ln = mk("slen", ln, kind="nat")
        if s is None:
            st, r = it.alloc(st, node, Lst(), "ls")
            return ok(st, r)
        st, r = it.alloc(st, node, Lst((), s, ln), "ls")
        return ok(st, r)
    s = ob.summ
    for x in ob.items:
        st, s = join_elem(it, st, s, x, ("gi", o.id))
    if s is None:
        return [exc(st, "IndexError", node)]
    i2 = norm_index(st, ob.ln, i)
    st2, e = of_elem(it, st, s, tv(it, st, i2), o)
    outs = ok(st2, e)
    if spec_catchable(it, "IndexError"):
        q = query(st.facts, mk("cmp", "<", i2, ob.ln)) if isint(i2) else None
        if q is not True:
            outs.append(exc(st, "IndexError", node))
    return outs


def dict_get(it, st, ref, ob, i, node):
    k = tv(it, st, i)
    for a, b in reversed(ob.items):
        if a == k:
            return ok(st, b)
        if type(a) is T or type(k) is T:
            # may or may not be the same key
            if type(a) is C and type(k) is C:
                continue
    if type(k) is C and ob.open_ is None and all(type(a) is C for a, b in ob.items):
        if type(ob.default) is tuple:
            outs = []
            for kd, x, v in it.call_value(st, ob.default[1], [], {}, node):
                if kd != "n":
                    outs.append((kd, x, v))
                    continue
                for kd2, y, _ in dict_set(it, x, ref, k, v, node):
                    outs.append((kd2, y, v))
            return outs
        if ob.default is not None:
            return ok(st, ob.default)
        return [exc(st, "KeyError", node)]
    # unknown key
    outs = []
    if ob.open_ is not None and type(ob.open_) is T and ob.open_.op == "dctphi":
        st, l = dict_values(it, st, ref, ob, node, "values")
        e = it.obj(st, l)
        s = e.summ if e.summ is not None else (e.items[0] if e.items else None)
        st, v = of_elem(it, st, s, k, ref)
        outs = ok(st, v)
    elif ob.items and all(type(b) is C and type(b.v) is type(ob.items[0][1].v) for a, b in ob.items):
        kind = {str: "str", int: "int", bytes: "bytes"}.get(type(ob.items[0][1].v))
        outs = ok(st, mk("item", mk("table", C(ref.id)), k, kind=kind))
    elif ob.items and all(type(b) is R and type(it.obj(st, b)) is Dct for a, b in ob.items):
        outs = []
        for n, (a, b) in enumerate(ob.items[:8]):
            outs.append(("n", st, b))
            break
    else:
        outs = ok(st, mk("item", mk("ref", C(ref.id)), k))
    if spec_catchable(it, "KeyError"):
        outs.append(exc(st, "KeyError", node))
    return outs


def array_get(it, st, o, i, node):
    if type(i) is C and isinstance(i.v, (int, bool)) or (type(i) is T and i.kind != "arr" and i.op not in ("arr",)):
        if type(i) is C and type(o.ln) is C and not o.xf:
            if not (-o.ln.v <= i.v < o.ln.v):
                return [exc(st, "IndexError", node)]
        if o.xf:
            return ok(st, mk("row", freeze(it, st, o), tv(it, st, i)))
        j = norm_index(st, o.ln, i)
        outs = ok(st, load_el(it, st, o, j))
        if spec_catchable(it, "IndexError"):
            if query(st.facts, mk("cmp", "<", j, o.ln)) is not True:
                outs.append(exc(st, "IndexError", node))
        return outs
    if type(i) is Sl:
        if type(i.c) is C and i.c.v is None and i.a == NONE and i.b == NONE:
            return ok(st, o)
        r = sub_array(it, st, o, i)
        if r is not None:
            return ok(st, r)
        st, r = new_array(it, st, node, ("slice", freeze(it, st, o), tv(it, st, i.a), tv(it, st, i.b), tv(it, st, i.c)), it.fresh(st, node, "len", "nat"), o.dt)
        return ok(st, r)
    if type(i) is Tup and len(i.items) == 2:
        r, c = i.items
        if o.xf and type(r) is Sl and r.a == NONE and r.b == NONE and r.c == NONE and type(c) is Sl:
            q = norm_slice(st, o.xf[3], c)
            if q is not None:
                a, n, s = q
                return ok(st, Ar(o.sid, o.off, o.ln, o.step, o.dt, ("cols", o.xf[1], add(o.xf[2], a), n)))
        return ok(st, mk("item", freeze(it, st, o), tv(it, st, i)))
    if type(i) is Tup and len(i.items) == 1 and type(i.items[0]) in (CArr, Ar, R):
        return array_get(it, st, o, i.items[0], node)
    # fancy indexing: a copy
    if it.client.max_writes >= 1000 and not o.xf and elsize(o.dt) == 1:
        pos = const_index(it, st, o, i)
        if pos == "range":
            return [exc(st, "IndexError", node)]
        if pos is not None:
            st, r = new_array(it, st, node, ("list", tuple(load_el(it, st, o, C(j)) for j in pos)), C(len(pos)), o.dt)
            return ok(st, r)
    idx = i
    ln = length(it, st, i)
    if type(i) is CArr:
        idx = i
    else:
        fr = to_frozen(it, st, i)
        if fr is not None:
            idx = fr
        else:
            idx = tv(it, st, i)
    if type(i) is Ar and i.dt == "u1" and it.obj(st, R(i.sid)) is not None and it.obj(st, R(i.sid)).base[0] == "map" and it.obj(st, R(i.sid)).base[1] in ("==", "!=", "<", ">", "<=", ">="):
        st, r = new_array(it, st, node, ("mask", freeze(it, st, o), idx), it.fresh(st, node, "len", "nat"), o.dt)
        return ok(st, r)
    st, r = new_array(it, st, node, ("gather", freeze(it, st, o), idx), ln if ln is not None else it.fresh(st, node, "len", "nat"), o.dt)
    outs = ok(st, r)
    if spec_catchable(it, "IndexError"):
        outs.append(exc(st, "IndexError", node))
    return outs


def const_index(it, st, o, i):
    """positions an index list or mask of constants selects, "range" when one
    is outside, None when not determined"""
    if type(o.ln) is not C:
        return None
    q = const_seq(it, st, i) if type(i) in (CArr, Ar, R) else None
    if q is None or not all(type(x) is C and isinstance(x.v, int) for x in q):
        return None
    n = o.ln.v
    if q and all(isinstance(x.v, bool) for x in q):
        return [j for j, x in enumerate(q) if x.v] if len(q) == n else "range"
    pos = []
    for x in q:
        if not -n <= x.v < n:
            return "range"
        pos.append(x.v % n)
    return pos


def setitem(it, st, o, i, v, node):
    t = type(o)
    if t is R:
        ob = it.obj(st, o)
        if type(ob) is Inst and "$list" in ob.attrs:
            o = ob.attrs["$list"]
            ob = it.obj(st, o)
        if type(ob) is Dct:
            f = getattr(it.client, "on_dictset", None)
            if f:
                st = f(it, st, o, i, v, node)
            return dict_set(it, st, o, i, v, node)
        if type(ob) is Lst:
            if ob.exact and type(i) is C and isinstance(i.v, int):
                if -len(ob.items) <= i.v < len(ob.items):
                    l = list(ob.items)
                    l[i.v] = v
                    return ok(st.put(o.id, Lst(l)), NONE)
                return [exc(st, "IndexError", node)]
            if ob.exact and type(i) is Sl and all(x == NONE or type(x) is C for x in (i.a, i.b, i.c)):
                s = const_seq(it, st, v)
                if s is not None:
                    l = list(ob.items)
                    l[slice(i.a.v, i.b.v, i.c.v)] = s
                    return ok(st.put(o.id, Lst(l)), NONE)
            s = ob.summ
            for x in ob.items:
                st, s = join_elem(it, st, s, x, o.id)
            if type(i) is not Sl:
                st, s = join_elem(it, st, s, v, o.id)
                ln = ob.ln
            else:
                ln = it.fresh(st, node, "len", "nat")
            return ok(st.put(o.id, Lst((), s, ln)), NONE)
        return ok(st, NONE)
    if t is Ar:
        if type(i) is Sl:
            if i.a == NONE and i.b == NONE and i.c == NONE:
                return ok(array_store(it, st, o, v, node), NONE)
            r = sub_array(it, st, o, i)
            if r is not None:
                return ok(array_store(it, st, r, v, node), NONE)
            return ok(_raw_store(it, st, o.sid, None, None, ("unk", tv(it, st, v)), node), NONE)
        if type(i) is Tup and len(i.items) != 1:
            for k, x, a in array_get(it, st, o, i, node):
                if k == "n" and type(a) is Ar:
                    return ok(array_store(it, x, a, v, node), NONE)
            return ok(_raw_store(it, st, o.sid, None, None, ("unk", tv(it, st, v)), node), NONE)
        if (type(i) is C and isinstance(i.v, int)) or (type(i) is T and i.kind != "arr"):
            if type(i) is C and type(o.ln) is C and not o.xf and not (-o.ln.v <= i.v < o.ln.v):
                return [exc(st, "IndexError", node)]
            j = norm_index(st, o.ln, i)
            return ok(store_el(it, st, o, j, v, node), NONE)
        if type(i) is Tup and len(i.items) == 1:
            i = i.items[0]
        pos = const_index(it, st, o, i) if it.client.max_writes >= 1000 and not o.xf and elsize(o.dt) == 1 else None
        if pos == "range":
            return [exc(st, "IndexError", node)]
        if pos is not None:
            vals = const_seq(it, st, v) if type(v) in (Tup, R, Ar, CArr) else None
            if vals is None and (type(v) in (C, T)):
                vals = [v] * len(pos)
            if vals is not None and len(vals) == 1:
                vals = vals * len(pos)
            if vals is not None and len(vals) == len(pos) and not any(callable(x) for x in vals):
                for j, x in zip(pos, vals):
                    st = store_el(it, st, o, C(j), x, node)
                return ok(st, NONE)
        return ok(_raw_store(it, st, o.sid, None, None, ("scatter", o.off, tv(it, st, i), value_desc(it, st, v)), node), NONE)
    if t is Rec:
        f = rec_field(o, i)
        if f is None:
            return ok(_raw_store(it, st, o.sid, None, None, ("unk", tv(it, st, v)), node), NONE)
        return ok(store_field(it, st, o.sid, add(o.off, C(f[3])), f[1], v, node), NONE)
    if t is T:
        f = getattr(it.client, "on_opaque_store", None)
        if f:
            st = f(it, st, o, i, v, node)
    return ok(st, NONE)


# ---------------------------------------------------------------- operators

def div(a, b):
    if type(a) is C and type(b) is C:
        return C(a.v // b.v) if b.v else None
    if b == C(1):
        return a
    p = _poly(a)
    if p is not None and type(b) is C and isinstance(b.v, int) and b.v > 0 and p and all(c % b.v == 0 for c in p.values()):
        return _mkpoly({m: c // b.v for m, c in p.items()})
    if p is not None and a == b:
        return None
    return mk("div", a, b, kind="nat" if nonneg(a) and nonneg(b) else "int")


def mod(a, b):
    if type(a) is C and type(b) is C:
        return C(a.v % b.v) if b.v else None
    p = _poly(a)
    if p is not None and type(b) is C and isinstance(b.v, int) and b.v > 0 and p and all(c % b.v == 0 for c in p.values()):
        return C(0)
    return mk("mod", a, b, kind="nat" if nonneg(b) else "int")


_REBUILD["div"] = div
_REBUILD["mod"] = mod
PYOP = {"Add": "+", "Sub": "-", "Mult": "*", "FloorDiv": "//", "Mod": "%", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>", "Div": "/", "Pow": "**"}


def numlike(v):
    if type(v) is C:
        return isinstance(v.v, (int, float, bool))
    return type(v) is T and v.kind not in ("str", "bytes", "arr")


def int_binop(op, a, b):
    """integer operation on values; None when not applicable"""
    if type(a) is C and type(b) is C:
        try:
            x, y = a.v, b.v
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y,
                 "Mod": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "LShift": lambda: x << y if y < 128 else None, "RShift": lambda: x >> y, "Div": lambda: x / y,
                 "Pow": lambda: x ** y if isinstance(y, int) and y < 64 else None,
                 "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
        except Exception:
            return None
        return None if r is None else C(r)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return mk("cmp", op, a, b, kind="bool")
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        r = mul(a, b)
        return r if r is not None else mk("mulop", a, b)
    if op == "FloorDiv":
        return div(a, b)
    if op == "Mod":
        return mod(a, b)
    if op == "Div":
        return mk("truediv", a, b)
    if op == "LShift" and type(b) is C and isinstance(b.v, int) and 0 <= b.v < 64:
        return mul(a, C(1 << b.v))
    if op == "LShift":
        return mk("shl", a, b, kind="int")
    if op == "RShift":
        return mk("shr", a, b, kind="nat" if nonneg(a) else "int")
    if op in ("BitAnd", "BitOr", "BitXor"):
        if type(a) is C:
            a, b = b, a
        name = {"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op]
        if type(b) is C and isinstance(b.v, int):
            if b.v == 0:
                return C(0) if op == "BitAnd" else a
            if op == "BitAnd" and b.v == 255 and (a.kind == "byte" or a.op == "load8"):
                return a
        if a is b:
            return a if op != "BitXor" else C(0)
        kind = "nat"
        if op == "BitAnd" and ((type(b) is C and isinstance(b.v, int) and 0 <= b.v < 256) or (type(a) is T and a.kind == "byte") or (type(b) is T and b.kind == "byte")):
            kind = "byte"
        elif all((type(x) is T and x.kind in ("byte", "bool")) or (type(x) is C and isinstance(x.v, int) and 0 <= x.v < 256) for x in (a, b)):
            kind = "byte"
        if type(b) is C and isinstance(b.v, int) and b.v < 0 and kind != "byte":
            kind = "int"
        return mk(name, a, b, kind=kind)
    if op == "Pow":
        return mk("pow", a, b, kind="int")
    return None


for _n, _o in (("band", "BitAnd"), ("bor", "BitOr"), ("bxor", "BitXor"), ("shr", "RShift")):
    _REBUILD[_n] = (lambda o: lambda a, b: int_binop(o, a, b))(_o)


def binop(it, st, op, a, b, node):
    ta, tb = type(a), type(b)
    if ta is R:
        o = it.obj(st, a)
        if type(o) is Inst and o.cls is not None:
            nm = {"Add": "__add__", "Sub": "__sub__", "BitAnd": "__and__", "BitOr": "__or__", "Mod": "__mod__", "Mult": "__mul__"}.get(op)
            f, c = o.cls.find(nm) if nm else (None, None)
            if f is not None:
                return it.call_value(st, Bm(a, f), [b], {}, node)
        la, oa = _as_list(it, st, a)
        if oa is not None:
            if op == "Add":
                st, r = it.alloc(st, node, Lst(oa.items, oa.summ, oa.ln), "ladd")
                return [(k, x, r if k == "n" else w) for k, x, w in list_extend(it, st, r, b, node)]
            if op == "Mult":
                if oa.exact and tb is C and isinstance(b.v, int) and len(oa.items) * b.v <= 4096:
                    st, r = it.alloc(st, node, Lst(oa.items * b.v), "lmul")
                    return ok(st, r)
                if len(oa.items) == 1 and oa.exact:
                    st, r = it.alloc(st, node, Lst((), oa.items[0], tv(it, st, b)), "lmul")
                    return ok(st, r)
        if type(it.obj(st, a)) is Set_ and op in ("Sub", "BitOr", "BitAnd"):
            st, r = it.alloc(st, node, Set_(("op", op, tv(it, st, a), tv(it, st, b)), ()), "set")
            return ok(st, r)
        return ok(st, mk("op", C(op), tv(it, st, a), tv(it, st, b)))
    if ta is Tup and tb is Tup and op == "Add":
        return ok(st, Tup(a.items + b.items))
    if ta is Tup and op == "Mult" and tb is C and isinstance(b.v, int):
        return ok(st, Tup(a.items * b.v))
    if ta is CArr or tb is CArr:
        r = carr_binop(op, a, b)
        if r is not None:
            return ok(st, r)
    if ta is Ar or tb is Ar or ta is CArr or tb is CArr:
        fa = to_frozen(it, st, a) if ta in (Ar, CArr) else tv(it, st, a)
        fb = to_frozen(it, st, b) if tb in (Ar, CArr) else (to_frozen(it, st, b) if tb in (Tup, R) else tv(it, st, b))
        if fb is None:
            fb = tv(it, st, b)
        src = a if ta in (Ar, CArr) else b
        ln = length(it, st, src)
        dt = src.dt if type(src) is Ar and src.dt in ("u1", "el") else "el"
        st, r = new_array(it, st, node, ("map", op, fa, fb), ln, dt, "m")
        if type(src) is Ar and src.xf:
            pass
        return ok(st, r)
    if op == "Mod" and (is_str(a) or is_bytes(a)):
        return ok(st, fmt_mod(it, st, a, b))
    if op == "Add" and (is_str(a) or is_str(b) or is_bytes(a) or is_bytes(b)):
        # str + unknown: unknown must be str
        return ok(st, strcat([a if ta in (C, T) else tv(it, st, a), b if tb in (C, T) else tv(it, st, b)]))
    if op == "Mult" and (is_str(a) or is_bytes(a) or is_str(b) or is_bytes(b)):
        if ta is C and tb is C:
            return ok(st, C(a.v * b.v))
        return ok(st, mk("repeat", tv(it, st, a), tv(it, st, b), kind="bytes" if is_bytes(a) or is_bytes(b) else "str"))
    if ta in (C, T) and tb in (C, T):
        # logical | and & of conditions
        if op in ("BitOr", "BitAnd") and (ta is T and a.kind == "bool" or tb is T and b.kind == "bool") and all(x.kind == "bool" if type(x) is T else isinstance(x.v, bool) for x in (a, b)):
            out = []
            for q, x in it.branch(st, a, node):
                if q == (op == "BitOr"):
                    out.append(("n", x, C(q)))
                else:
                    out.append(("n", x, b))
            return out
        if ta is T and a.kind == "arr" or tb is T and b.kind == "arr":
            return ok(st, mk("op", C(op), a, b, kind="arr"))
        r = int_binop(op, a, b)
        if r is not None:
            outs = ok(st, r)
            if op in ("FloorDiv", "Mod", "Div") and tb is T and spec_catchable(it, "ZeroDivisionError"):
                outs.append(exc(st, "ZeroDivisionError", node))
            return outs
        if ta is C and tb is C:
            if op in ("FloorDiv", "Mod", "Div") and b.v == 0:
                return [exc(st, "ZeroDivisionError", node)]
            return [exc(st, "TypeError", node, "operands")]
    return ok(st, mk("op", C(op), tv(it, st, a), tv(it, st, b)))


def carr_binop(op, a, b):
    if type(a) is CArr and type(b) is CArr and len(a.v) == len(b.v):
        rs = [int_binop(op, C(x), C(y)) for x, y in zip(a.v, b.v)]
    elif type(a) is CArr and type(b) is C:
        rs = [int_binop(op, C(x), b) for x in a.v]
    elif type(b) is CArr and type(a) is C:
        rs = [int_binop(op, a, C(x)) for x in b.v]
    else:
        return None
    if any(r is None for r in rs):
        return None
    return CArr([r.v for r in rs])


def fmt_mod(it, st, a, b):
    bs = is_bytes(a)
    kind = "bytes" if bs else "str"
    items = list(b.items) if type(b) is Tup else [b]
    if type(a) is C and all(type(x) is C for x in items):
        try:
            return C(a.v % tuple(x.v for x in items))
        except Exception:
            pass
    if type(a) is C:
        f = a.v.decode("latin1") if bs else a.v
        # split simple %s / %d formats into concatenations
        parts = _split_fmt(f)
        if parts is not None and sum(1 for p in parts if p[0] == "%") == len(items):
            out = []
            i = 0
            for p in parts:
                if p[0] == "t":
                    out.append(C(p[1].encode("latin1") if bs else p[1]))
                else:
                    v = tv(it, st, items[i])
                    i += 1
                    if p[1] == "%s" and (is_str(v) or (bs and is_bytes(v))):
                        out.append(v)
                    else:
                        out.append(mk("fmt", v, C(p[1]), kind=kind))
            return strcat(out) if out else C(b"" if bs else "")
    return mk("fmtmod", tv(it, st, a), *[tv(it, st, x) for x in items], kind=kind)


def _split_fmt(f):
    import re
    out = []
    pos = 0
    for m in re.finditer(r"%(?:%|[-+0 #]*\d*(?:\.\d+)?[a-zA-Z])", f):
        if m.start() > pos:
            out.append(("t", f[pos:m.start()]))
        if m.group() == "%%":
            out.append(("t", "%"))
        else:
            out.append(("%", m.group()))
        pos = m.end()
    if pos < len(f):
        out.append(("t", f[pos:]))
    if "%(" in f:
        return None
    return out


CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "notin"}
IDENT = (R, Fn, Bm, Cl, Mo, Ex, Ar, CArr, Tup, Xm, Rec, Gen, Iter, Sl, Dt)


def nonnone(v):
    if type(v) is C:
        return v.v is not None
    if type(v) in IDENT:
        return True
    if type(v) is T:
        return v.kind in ("int", "nat", "byte", "bool", "str", "bytes", "arr") or v.op in ("poly", "list", "exc", "type", "dirent")
    return False


def compare(it, st, opn, a, b, node):
    op = CMP[opn]
    if op in ("is", "is not"):
        r = None
        if a == b and type(a) is not T:
            r = True
        elif type(a) is T and a is b:
            r = True
        elif type(a) is C and a.v is None and nonnone(b) or type(b) is C and b.v is None and nonnone(a):
            r = False
        elif type(a) is C and type(b) is C:
            r = a.v is b.v or (a == b)
        elif type(a) in (R, Fn, Cl, Ex, Mo) and type(b) in (R, Fn, Cl, Ex, Mo) and type(a) is not R:
            r = a == b
        elif type(a) is R and type(b) is R and not (isinstance(a.id, tuple) and a.id and a.id[0] in ("j", "sm", "el")) and not (isinstance(b.id, tuple) and b.id and b.id[0] in ("j", "sm", "el")):
            r = a == b
        elif type(a) is Ar and type(b) is Ar:
            r = None
        if r is None:
            return ok(st, mk("cmp", op, tv(it, st, a), tv(it, st, b), kind="bool"))
        return ok(st, C(r if op == "is" else not r))
    if op in ("in", "notin"):
        return contains(it, st, op, a, b, node)
    if op in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            if type(x) is R and type(it.obj(st, x)) is Inst:
                o = it.obj(st, x)
                f, c = o.cls.find("__eq__") if o.cls is not None else (None, None)
                if f is not None:
                    out = []
                    for k, s, v in it.call_value(st, Bm(x, f), [y], {}, node):
                        if k == "n" and op == "!=":
                            t = it.truth(s, v)
                            v = C(not t.v) if type(t) is C else mk("not", t, kind="bool")
                        out.append((k, s, v))
                    return out
    if type(a) is Ar or type(b) is Ar or type(a) is CArr or type(b) is CArr:
        if (type(a) in (Ar, CArr) and type(b) in (Ar, CArr, C, T, R, Tup)) or (type(b) in (Ar, CArr) and type(a) in (C, T, R, Tup)):
            fa = to_frozen(it, st, a) or tv(it, st, a)
            fb = to_frozen(it, st, b) or tv(it, st, b)
            src = a if type(a) in (Ar, CArr) else b
            cc = const_compare(it, st, op, a, b)
            if cc is not None:
                return ok(st, cc)
            if type(a) in (C, T) and not (type(a) is T and a.kind == "arr"):
                fa = a
            if type(b) in (C, T) and not (type(b) is T and b.kind == "arr"):
                fb = b
            st, r = new_array(it, st, node, ("map", op, fa, fb), length(it, st, src), "u1", "cmp")
            return ok(st, r)
    if op in ("==", "!="):
        r = equal(it, st, a, b)
        if r is not None:
            return ok(st, C(r if op == "==" else not r))
        return ok(st, mk("cmp", op, tv(it, st, a), tv(it, st, b), kind="bool"))
    if type(a) is C and type(b) is C:
        try:
            return ok(st, C({"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v}[op])) if True else None
        except TypeError:
            return [exc(st, "TypeError", node)]
    x, y = tv(it, st, a), tv(it, st, b)
    t = mk("cmp", op, x, y, kind="bool")
    d = sub(x, y) if type(x) in (C, T) and type(y) in (C, T) else None
    if type(d) is C and isinstance(d.v, int) and (isint(x) or isint(y)):
        return ok(st, C({"<": d.v < 0, "<=": d.v <= 0, ">": d.v > 0, ">=": d.v >= 0}[op]))
    return ok(st, t)


def const_array(it, st, v, limit=64):
    """elements of a short array whose bytes are all constants, or None"""
    if type(v) is CArr:
        return list(v.v) if len(v.v) <= 4096 else None
    if type(v) is not Ar or v.xf or v.dt != "u1" or type(v.ln) is not C or not 0 < v.ln.v <= limit:
        return None
    out = []
    s = it.obj(st, R(v.sid)) if type(v.off) is C and isinstance(v.step, int) else None
    if type(s) is Sto:
        for i in range(v.ln.v):
            x = load8(st, s.base, s.writes, C(v.off.v + i * v.step))
            if type(x) is not C or not isinstance(x.v, int):
                return None
            out.append(x.v)
        return out
    for i in range(v.ln.v):
        rs = array_get(it, st, v, C(i), None)
        if len(rs) != 1 or rs[0][0] != "n" or type(rs[0][2]) is not C:
            return None
        out.append(rs[0][2].v)
    return out


def const_compare(it, st, op, a, b):
    """element-wise comparison of constant arrays"""
    import operator
    f = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}.get(op)
    if f is None:
        return None
    sides = []
    for v in (a, b):
        if type(v) in (Ar, CArr):
            sides.append(const_array(it, st, v, 4096 if it.client.max_writes >= 1000 else 64))
        elif type(v) is C and isinstance(v.v, int):
            sides.append(v.v)
        else:
            q = const_seq(it, st, v)
            sides.append([x.v for x in q] if q is not None and all(type(x) is C for x in q) else None)
    x, y = sides
    if x is None or y is None:
        return None
    if isinstance(x, int):
        x = [x] * len(y)
    if isinstance(y, int):
        y = [y] * len(x)
    if len(x) != len(y):
        return None
    try:
        return CArr([f(p, q) for p, q in zip(x, y)])
    except TypeError:
        return None


def equal(it, st, a, b):
    """True / False / None"""
    ta, tb = type(a), type(b)
    if ta is C and tb is C:
        try:
            return a.v == b.v
        except Exception:
            return None
    if a == b:
        return True
    if ta in (Fn, Cl, Ex, Mo) and tb in (Fn, Cl, Ex, Mo):
        return a == b
    if ta is Cl and tb is T or tb is Cl and ta is T:
        return None
    if ta is Tup and tb is Tup:
        if len(a.items) != len(b.items):
            return False
        rs = [equal(it, st, x, y) for x, y in zip(a.items, b.items)]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if ta is R and tb is R:
        oa, ob = it.obj(st, a), it.obj(st, b)
        if type(oa) is Lst and type(ob) is Lst and oa.exact and ob.exact:
            return equal(it, st, Tup(oa.items), Tup(ob.items))
    if ta in (C, T) and tb in (C, T):
        if isint(a) and isint(b):
            d = sub(a, b)
            if type(d) is C:
                return d.v == 0
            r = query_key(st.facts, ("eq", d)) if False else None
        for x, y in ((a, b), (b, a)):
            if type(x) is C and type(y) is T:
                if isinstance(x.v, (str,)) and (isint(y) or y.kind == "bytes"):
                    return False
                if isinstance(x.v, bytes) and (isint(y) or y.kind == "str"):
                    return False
                if x.v is None and nonnone(y):
                    return False
                if y.kind == "byte" and isinstance(x.v, int) and not isinstance(x.v, bool) and not 0 <= x.v <= 255:
                    return False
        return None
    if ta is C and a.v is None or tb is C and b.v is None:
        if ta in IDENT or tb in IDENT:
            return False
    if ta is R and tb is C or tb is R and ta is C:
        o = it.obj(st, a if ta is R else b)
        c = b if ta is R else a
        if type(o) is Lst and not isinstance(c.v, list):
            return False
    return None


def contains(it, st, op, a, b, node):
    neg_ = op == "notin"

    def res(r):
        return ok(st, C(r != neg_))
    if type(b) is R:
        o = it.obj(st, b)
        if type(o) is Inst and "$list" in o.attrs:
            b = o.attrs["$list"]
            o = it.obj(st, b)
        x = tv(it, st, a)
        if type(o) is Set_:
            if x in o.adds:
                return res(True)
            if o.base is None:
                if not o.adds:
                    return res(False)
                rs = [equal(it, st, x, y) for y in o.adds]
                if all(r is False for r in rs):
                    return res(False)
                qs = [query(st.facts, mk("cmp", "==", x, y)) if r is None else r for r, y in zip(rs, o.adds)]
                if any(q is True for q in qs):
                    return res(True)
                if all(q is False for q in qs):
                    return res(False)
            return ok(st, mk("cmp", op, x, settok(o), kind="bool"))
        if type(o) is Dct:
            if any(k == x for k, v in o.items):
                return res(True)
            if o.open_ is None:
                if all(equal(it, st, k, x) is False for k, v in o.items):
                    return res(False)
            return ok(st, mk("cmp", op, x, mk("keys", C(b.id), tuple(k for k, v in o.items)), kind="bool"))
        if type(o) is Lst:
            if o.exact:
                rs = [equal(it, st, x, y) for y in o.items]
                if any(r is True for r in rs):
                    return res(True)
                if all(r is False for r in rs):
                    return res(False)
                if len(o.items) <= 8 and all(type(y) is C for y in o.items) and isint(x):
                    # split on the members
                    out = []
                    cur = st
                    for y in o.items:
                        t = mk("cmp", "==", x, y, kind="bool")
                        q = query(cur.facts, t)
                        key, pol = fact_key(t)
                        if q is True:
                            out.append(("n", cur, C(not neg_)))
                            return out
                        if q is None:
                            out.append(("n", cur.assume(key, pol), C(not neg_)))
                            cur = cur.assume(key, not pol)
                    out.append(("n", cur, C(neg_)))
                    return out
                return ok(st, mk("cmp", op, x, Tup([tv(it, st, y) for y in o.items]), kind="bool"))
            return ok(st, mk("cmp", op, x, mk("ref", C(b.id)), kind="bool"))
        if type(o) is Inst and o.cls is not None:
            f, c = o.cls.find("__contains__")
            if f is not None:
                return it.call_value(st, Bm(b, f), [a], {}, node)
        return ok(st, mk("cmp", op, x, mk("ref", C(b.id)), kind="bool"))
    if type(b) is Tup or type(b) is CArr or (type(b) is C and isinstance(b.v, (tuple, list, dict, set, frozenset))):
        items = list(b.items) if type(b) is Tup else [C(x) for x in b.v]
        rs = [equal(it, st, a, y) for y in items]
        if any(r is True for r in rs):
            return res(True)
        if all(r is False for r in rs):
            return res(False)
        return ok(st, mk("cmp", op, tv(it, st, a), Tup([tv(it, st, y) for y in items]), kind="bool"))
    if type(b) is C and type(a) is C:
        try:
            return res(a.v in b.v)
        except TypeError:
            return [exc(st, "TypeError", node)]
    return ok(st, mk("cmp", op, tv(it, st, a), tv(it, st, b), kind="bool"))


# ------------------------------------------------------------ external names

def ext_attr(it, st, name, attr):
    full = name + "." + attr
    if full in ("sys.maxsize",):
        return C(9223372036854775807)
    if full == "os.linesep":
        return C("\n")
    if full == "os.sep" or full == "os.path.sep":
        return C("/")
    if full in ("os.altsep", "os.path.altsep"):
        return NONE
    if full in ("os.pardir",):
        return C("..")
    if full in ("os.curdir",):
        return C(".")
    if full in ("string.printable", "string.ascii_letters", "string.digits", "string.ascii_uppercase", "string.punctuation"):
        import string
        return C(getattr(string, attr))
    return Ex(full)


STR_PURE = set(dir(str)) | set(dir(bytes))
NOOP = ("logging.", "warnings.")
HOST = ("os.", "shutil.", "tempfile.")


def fresh_result(it, st, node, tag, kind=None):
    return it.fresh(st, node, tag, kind)


def opaque_call(it, st, f, args, kwargs, node):
    it.opaque[str(f)[:80]] = True
    outs = ok(st, it.fresh(st, node, "call"))
    return outs


def call_ext(it, st, name, args, kwargs, node):
    short = name[9:] if name.startswith("builtins.") else name
    if short.startswith("np."):
        short = "numpy." + short[3:]
    f = EXT.get(short)
    if f is not None:
        r = f(it, st, args, kwargs, node)
        if r is not None:
            return r
    if short.startswith("numpy."):
        it.opaque[short] = True
        if short.split(".")[1] in ("uint8", "uint16", "uint32", "int32", "int64", "int16"):
            return ok(st, args[0] if args else C(0))
        st2, r = new_array(it, st, node, ("np", short, tuple(tv(it, st, a) for a in args)), it.fresh(st, node, "len", "nat"), "el")
        return ok(st2, r)
    for p in NOOP:
        if short.startswith(p):
            if short == "logging.getLogger":
                return ok(st, Ex("logging.Logger()"))
            return ok(st, NONE)
    b = getattr(builtins, short, None) if "." not in short else None
    if isinstance(b, type) and issubclass(b, BaseException):
        return ok(st, mk("exc", Ex("builtins." + short), tuple(tv(it, st, a) for a in args)))
    if short.startswith("os.path."):
        if short[8:] in ("join", "basename", "dirname", "splitext", "normpath", "split") and args and all(type(a) is C and isinstance(a.v, str) for a in args) and not kwargs:
            import posixpath
            r = getattr(posixpath, short[8:])(*[a.v for a in args])
            return [("n", st, Tup([C(x) for x in r]) if isinstance(r, tuple) else C(r))]
        pure = mk("ospath", C(short[8:]), *[tv(it, st, a) for a in args], kind={"exists": "bool", "isfile": "bool", "isdir": "bool", "lexists": "bool", "isabs": "bool", "getsize": "nat"}.get(short[8:], "str"))
        return ok(st, pure)
    if name in EXT_EXC:
        return ok(st, mk("exc", Ex(name)))
    # calling something unknown
    outs = ok(st, it.fresh(st, node, "ext:" + short))
    for e in EXT_RAISES.get(short, ()):
        if it.catchable(e if e in EXT_EXC else "builtins." + e):
            outs.append(("x", st, Xc(Ex(e if e in EXT_EXC else "builtins." + e), site=node)))
    it.opaque["external " + short] = True
    return outs


EXT_RAISES = {
    "open": ("OSError", "FileNotFoundError"),
    "json.loads": ("ValueError",),
}
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext("len", "numpy.alen")
def x_len(it, st, args, kw, node):
    v = args[0]
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Inst and "$list" not in o.attrs and o.cls is not None:
            f, c = o.cls.find("__len__")
            if f is not None:
                return it.call_value(st, Bm(v, f), [], {}, node)
    l = length(it, st, v)
    if l is None:
        if type(v) is C:
            return [exc(st, "TypeError", node, "len")]
        return ok(st, mk("len", tv(it, st, v), kind="nat"))
    return ok(st, l)


@ext("int")
def x_int(it, st, args, kw, node):
    if not args:
        return ok(st, C(0))
    v = args[0]
    if type(v) is C:
        try:
            return ok(st, C(int(v.v, *[a.v for a in args[1:]])) if len(args) > 1 else C(int(v.v)))
        except (ValueError, TypeError) as e:
            return [exc(st, type(e).__name__, node)]
        except AttributeError:
            pass
    if type(v) is T:
        if isint(v):
            return ok(st, v)
        if v.kind in ("str",) or len(args) > 1:
            outs = ok(st, mk("parseint", v, *[tv(it, st, a) for a in args[1:]], kind="int"))
            if it.catchable("builtins.ValueError"):
                outs.append(exc(st, "ValueError", node))
            return outs
        if v.op == "truediv" or v.op == "phi" or v.op in ("attr", "elem", "item", "of", "el", "fel", "sym", "dkey", "dval"):
            return ok(st, mk("int", v, kind="nat" if nonneg(v) else "int"))
        return ok(st, mk("int", v, kind="int"))
    return ok(st, mk("int", tv(it, st, v), kind="int"))


@ext("bool")
def x_bool(it, st, args, kw, node):
    if not args:
        return ok(st, FALSE)
    t = it.truth(st, args[0])
    return ok(st, t)


def has_message(site):
    """raised with a text that has characters of its own, so is not empty"""
    e = getattr(site, "exc", None)
    if not isinstance(site, ast.Raise) or not isinstance(e, ast.Call) or len(e.args) != 1:
        return False
    a = e.args[0]
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod):
        a = a.left
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "format":
        a = a.func.value
    if isinstance(a, ast.JoinedStr):
        return any(isinstance(x, ast.Constant) and str(x.value).strip() for x in a.values)
    return isinstance(a, ast.Constant) and isinstance(a.value, str) and " " in a.value.strip()


@ext("str", "repr", "hex", "bin", "chr", "format", "ascii")
def x_str(it, st, args, kw, node):
    if not args:
        return ok(st, C(""))
    v = args[0]
    fn = node.func.id if hasattr(node, "func") and hasattr(node.func, "id") else "str"
    if type(v) is C and fn in ("str", "repr", "hex", "chr", "bin") and len(args) == 1:
        try:
            return ok(st, C(getattr(builtins, fn)(v.v)))
        except Exception:
            return [exc(st, "TypeError", node)]
    if fn == "str" and type(v) is T and v.kind == "str" and len(args) == 1:
        return ok(st, v)
    if fn == "str" and type(v) is T and v.op == "exc" and len(v.args) == 3:
        return ok(st, mk("m", "message", tv(it, st, v), kind="str"))
    return ok(st, mk("m", fn, tv(it, st, v), *[tv(it, st, a) for a in args[1:]], kind="str"))


@ext("bytes", "bytearray")
def x_bytes(it, st, args, kw, node):
    if not args:
        return ok(st, C(b""))
    v = args[0]
    if type(v) is C:
        try:
            return ok(st, C(bytes(v.v, *[a.v for a in args[1:]])))
        except Exception:
            return None
    if type(v) is T and v.kind == "bytes":
        return ok(st, v)
    if type(v) is Ar:
        return ok(st, mk("tobytes", freeze(it, st, v), kind="bytes"))
    return ok(st, mk("m", "bytes", tv(it, st, v), *[tv(it, st, a) for a in args[1:]], kind="bytes"))


@ext("ord")
def x_ord(it, st, args, kw, node):
    v = args[0]
    if type(v) is C:
        return ok(st, C(ord(v.v)))
    return ok(st, mk("ord", tv(it, st, v), kind="nat"))


@ext("abs", "sum", "round", "hash", "id")
def x_num(it, st, args, kw, node):
    fn = node.func.id if hasattr(node.func, "id") else "f"
    v = args[0]
    if fn == "sum":
        s = const_seq(it, st, v)
        if s is not None and all(type(x) in (C, T) for x in s):
            acc = C(0)
            for x in s:
                acc = add(acc, x)
                if acc is None:
                    break
            if acc is not None:
                return ok(st, acc)
    if type(v) is C and fn in ("abs", "round"):
        return ok(st, C(getattr(builtins, fn)(v.v)))
    return ok(st, mk("m", fn, tv(it, st, v), *[tv(it, st, a) for a in args[1:]], kind="nat" if fn == "abs" else None))


@ext("min", "max")
def x_minmax(it, st, args, kw, node):
    fn = node.func.id if hasattr(node.func, "id") else "min"
    if len(args) == 1:
        s = const_seq(it, st, args[0])
        if s is None or not s:
            return ok(st, mk("m", fn, tv(it, st, args[0])))
        args = s
    if kw:
        if set(kw) <= {"key", "default"} and not any(callable(x) for x in args):
            l = sort_items(it, st, list(args), {k: v for k, v in kw.items() if k == "key"}, node)
            if l is not None and fn == "min":
                return ok(st, l[0])
            l = sort_items(it, st, list(args)[::-1], {k: v for k, v in kw.items() if k == "key"}, node) if l is not None else None
            if l is not None:
                return ok(st, l[-1])
        return ok(st, mk("m", fn, *[tv(it, st, a) for a in args]))
    if all(type(a) is C for a in args):
        try:
            return ok(st, C(getattr(builtins, fn)([a.v for a in args])))
        except TypeError:
            return [exc(st, "TypeError", node)]
    xs = [tv(it, st, a) for a in args]
    if len(xs) == 2:
        q = query(st.facts, mk("cmp", "<", xs[0], xs[1])) if all(type(x) in (C, T) for x in xs) else None
        if q is True:
            return ok(st, xs[0] if fn == "min" else xs[1])
        if q is False:
            return ok(st, xs[1] if fn == "min" else xs[0])
        # split
        out = []
        t = mk("cmp", "<", xs[0], xs[1], kind="bool")
        if all(isint(x) for x in xs) and getattr(it.client, "split_min", True):
            for b, y in it.branch(st, t, node):
                out.append(("n", y, (xs[0] if b else xs[1]) if fn == "min" else (xs[1] if b else xs[0])))
            return out
    k = "nat" if all(nonneg(x) for x in xs) or (fn == "max" and any(nonneg(x) for x in xs)) else "int"
    return ok(st, mk(fn, *xs, kind=k))


@ext("divmod")
def x_divmod(it, st, args, kw, node):
    a, b = tv(it, st, args[0]), tv(it, st, args[1])
    q, r = div(a, b), mod(a, b)
    if q is None or r is None:
        return [exc(st, "ZeroDivisionError", node)]
    return ok(st, Tup([q, r]))


@ext("range")
def x_range(it, st, args, kw, node):
    a = [tv(it, st, x) for x in args]
    if len(a) == 1:
        a = [C(0), a[0], C(1)]
    elif len(a) == 2:
        a = a + [C(1)]
    return ok(st, Iter("range", a))


@ext("enumerate")
def x_enum(it, st, args, kw, node):
    s = args[1] if len(args) > 1 else kw.get("start", C(0))
    return ok(st, Iter("enumerate", [args[0], s]))


@ext("zip")
def x_zip(it, st, args, kw, node):
    return ok(st, Iter("zip", args))


@ext("reversed", "iter")
def x_rev(it, st, args, kw, node):
    fn = node.func.id if hasattr(node.func, "id") else "iter"
    if fn == "iter":
        v = args[0]
        if len(args) != 1 or isiter(it, st, v) is not None:
            return ok(st, v) if len(args) == 1 else ok(st, it.fresh(st, node, "iter"))
        if type(v) is R:
            o = it.obj(st, v)
            if type(o) is Lst and o.exact:
                v = Tup(o.items)
        st, r = it.alloc(st, node, Opq("iter", {"src": v, "pos": C(0)}), "iter")
        return ok(st, r)
    return ok(st, Iter("reversed", args[:1]))


@ext("sorted")
def x_sorted(it, st, args, kw, node):
    s = const_seq(it, st, args[0])
    if s is not None and not any(callable(x) for x in s):
        l = sort_items(it, st, s, kw, node)
        if l is not None:
            st, r = it.alloc(st, node, Lst(l), "sorted")
            return ok(st, r)
        st, r = it.alloc(st, node, Lst((), it.fresh(st, node, "sorted"), C(len(s))), "sorted")
        return ok(st, r)
    return x_list(it, st, args[:1], {}, node)


def sort_key(it, st, v):
    """Python value of a sort key, ValueError when unknown; a list or tuple may
    have an unknown rest behind constants (compared only on a tie)"""
    if type(v) is C:
        return v.v
    if type(v) is Tup:
        return tuple(sort_key(it, st, x) for x in v.items)
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact:
            return [sort_key(it, st, x) for x in o.items]
    raise ValueError("key")


def sort_head(it, st, v):
    """first component of a sequence key"""
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Lst and o.exact and o.items:
            return sort_key(it, st, o.items[0])
    if type(v) is Tup and v.items:
        return sort_key(it, st, v.items[0])
    raise ValueError("key")


def sort_items(it, st, items, kw, node):
    """items in sorted order, None when the order is unknown"""
    if any(k not in ("key", "reverse") for k in kw):
        return None
    rev = kw.get("reverse", C(False))
    if type(rev) is not C:
        return None
    if len(items) < 2:
        return list(items)
    keys = list(items)
    f = kw.get("key", NONE)
    if f != NONE:
        keys = []
        for x in items:
            outs = it.call_value(st, f, [x], {}, node)
            if len(outs) != 1 or outs[0][0] != "n":
                return None
            if type(outs[0][2]) is R and outs[0][2].id not in st.heap:
                v = outs[0][2]
                o = it.obj(outs[0][1], v)
                if type(o) is not Lst or not o.exact:
                    return None
                keys.append(Tup(o.items))
            else:
                keys.append(outs[0][2])
    order = range(len(items))
    try:
        ks = [sort_key(it, st, k) for k in keys]
        return [items[i] for i in sorted(order, key=lambda i: ks[i], reverse=bool(rev.v))]
    except (ValueError, TypeError):
        pass
    try:
        ks = [sort_head(it, st, k) for k in keys]
        if len(set(ks)) == len(ks):
            return [items[i] for i in sorted(order, key=lambda i: ks[i], reverse=bool(rev.v))]
    except (ValueError, TypeError):
        pass
    return None


@ext("list", "tuple", "set", "frozenset")
def x_list(it, st, args, kw, node):
    fn = node.func.id if hasattr(node, "func") and hasattr(node.func, "id") else "list"
    if fn not in ("list", "tuple", "set", "frozenset"):
        fn = "list"
    if fn in ("set", "frozenset"):
        if not args:
            st, r = it.alloc(st, node, Set_(None, ()), "set")
            return ok(st, r)
        s = const_seq(it, st, args[0])
        if s is not None and len(s) < 400:
            st, r = it.alloc(st, node, Set_(None, tuple(dict.fromkeys(tv(it, st, x) for x in s))), "set")
            return ok(st, r)
        st, r = it.alloc(st, node, Set_(("of", tv(it, st, args[0])), ()), "set")
        return ok(st, r)
    if not args:
        if fn == "tuple":
            return ok(st, Tup(()))
        st, r = it.alloc(st, node, Lst(), "l")
        return ok(st, r)
    v = args[0]
    s = const_seq(it, st, v)
    if s is not None and (len(s) <= 4096) and not any(callable(x) for x in s):
        if fn == "tuple":
            return ok(st, Tup(s))
        st, r = it.alloc(st, node, Lst(s), "l")
        return ok(st, r)
    st, r = it.alloc(st, node, Lst(), "l")
    return [(k, x, r if k == "n" else w) for k, x, w in list_extend(it, st, r, v, node)]


@ext("dict", "collections.OrderedDict", "OrderedDict")
def x_dict(it, st, args, kw, node):
    items, open_ = [], None
    if args:
        o = it.obj(st, args[0]) if type(args[0]) is R else None
        if type(o) is Dct:
            items, open_ = list(o.items), o.open_
        else:
            s = const_seq(it, st, args[0])
            s = [const_seq(it, st, x) if type(x) in (Tup, R) else None for x in s] if s is not None else None
            if s is not None and all(x is not None and len(x) == 2 for x in s) and (len(s) < 2 or all(type(x[0]) is C for x in s)):
                items = list({x[0]: x[1] for x in s}.items())
            else:
                open_ = tv(it, st, args[0])
    for k, v in kw.items():
        if k != "$open":
            items.append((C(k), v))
    st, r = it.alloc(st, node, Dct(items, open_), "d")
    return ok(st, r)


@ext("dict.fromkeys", "collections.OrderedDict.fromkeys")
def x_fromkeys(it, st, args, kw, node):
    s = const_seq(it, st, args[0]) if args else None
    if s is None or any(type(x) is not C for x in s):
        return None
    st, r = it.alloc(st, node, Dct(list({x: (args[1] if len(args) > 1 else NONE) for x in s}.items()), None), "d")
    return ok(st, r)


@ext("collections.defaultdict", "defaultdict")
def x_ddict(it, st, args, kw, node):
    fac = args[0] if args else None
    st, r = it.alloc(st, node, Dct((), None, ("factory", fac) if fac is not None and fac != NONE else None), "d")
    return ok(st, r)


@ext("print")
def x_print(it, st, args, kw, node):
    return ok(st, NONE)


@ext("callable")
def x_callable(it, st, args, kw, node):
    if type(args[0]) in (Fn, Bm, Cl, Ex):
        return ok(st, TRUE)
    return ok(st, mk("callable", tv(it, st, args[0]), kind="bool"))


@ext("all", "any")
def x_all(it, st, args, kw, node):
    fn = node.func.id if hasattr(node.func, "id") else "all"
    s = const_seq(it, st, args[0])
    if s is not None:
        out = []

        def go(i, x):
            if i == len(s):
                out.append(("n", x, C(fn == "all")))
                return
            for b, y in it.branch(x, s[i], node):
                if b == (fn == "all"):
                    go(i + 1, y)
                else:
                    out.append(("n", y, C(fn != "all")))
        if len(s) <= 8:
            go(0, st)
            return out
    return ok(st, mk("m", fn, tv(it, st, args[0]), kind="bool"))


@ext("map")
def x_map(it, st, args, kw, node):
    st, r = it.alloc(st, node, Lst(), "map")

    def body(x, e):
        out = []
        for k, y, v in it.call_value(x, args[0], [e], {}, node):
            out.append(("n", list_append(it, y, r, v, node), NONE) if k == "n" else (k, y, v))
        return out
    return [("n" if k == "done" else k, x, r if k == "done" else w) for k, x, w in it.iterate(st, args[1], body, node)]


@ext("filter")
def x_filter(it, st, args, kw, node):
    st, r = it.alloc(st, node, Lst(), "filter")

    def body(x, e):
        out = []
        outs = ok(x, e) if args[0] == NONE else it.call_value(x, args[0], [e], {}, node)
        for k, y, v in outs:
            if k != "n":
                out.append((k, y, v))
                continue
            for b, z in it.branch(y, v, node):
                out.append(("n", list_append(it, z, r, e, node) if b else z, NONE))
        return out
    return [("n" if k == "done" else k, x, r if k == "done" else w) for k, x, w in it.iterate(st, args[1], body, node)]


@ext("functools.reduce", "reduce")
def x_reduce(it, st, args, kw, node):
    s = const_seq(it, st, args[1]) if len(args) >= 2 else None
    if s is None or len(s) > 64 or any(callable(x) for x in s) or not s and len(args) < 3:
        return ok(st, it.fresh(st, node, "reduce"))
    acc = list(args[2:3]) + list(s)
    outs = [("n", st, acc[0])]
    for x in acc[1:]:
        nxt = []
        for k, y, v in outs:
            if k != "n":
                nxt.append((k, y, v))
                continue
            if type(args[0]) is Ex and args[0].name.split(".")[-1] in ("min", "max") and type(v) is C and type(x) is C:
                try:
                    nxt.append(("n", y, C(getattr(builtins, args[0].name.split(".")[-1])(v.v, x.v))))
                except TypeError:
                    nxt.append(exc(y, "TypeError", node))
                continue
            nxt += it.call_value(y, args[0], [v, x], {}, node)
        if len(nxt) > 8:
            return ok(st, it.fresh(st, node, "reduce"))
        outs = nxt
    return outs


def isiter(it, st, v):
    """the iterator object behind a value"""
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Opq and o.what == "iter":
            return o
    return None


@ext("next")
def x_next(it, st, args, kw, node):
    v = args[0]
    res = []
    o = isiter(it, st, v)
    named = bool(node.args) and isinstance(node.args[0], (ast.Name, ast.Attribute))
    if o is not None or named and type(v) in (Gen, Iter):
        if o is None or type(o.attrs["src"]) is Gen:
            outs = [("n", st, it.fresh(st, node, "next")), ("done", st, None)]
        else:
            i = o.attrs["pos"]
            q = const_seq(it, st, o.attrs["src"])
            if q is not None and type(i) is C:
                if i.v < len(q):
                    x, e = q[i.v](st) if callable(q[i.v]) else (st, q[i.v])
                    outs = [("n", x, e)]
                else:
                    outs = [("done", st, None)]
            elif q is not None:
                outs = [("n", st, it.fresh(st, node, "next")), ("done", st, None)]
            else:
                outs = iter_next(it, st, o.attrs["src"], i, node)
            j = add(i, C(1))
            outs = [(k, x.put(v.id, Opq("iter", {"src": o.attrs["src"], "pos": j if j is not None else it.fresh(st, node, "pos")})) if k == "n" else x, e) for k, x, e in outs]
        for k, x, e in outs:
            if k == "done":
                res.append(("n", x, args[1]) if len(args) > 1 else exc(x, "StopIteration", node))
            else:
                res.append((k, x, e))
        return res

    def body(x, e):
        return [("b", x.setvar("$next", e), NONE)]
    for k, x, w in it.iterate(st, v, body, node):
        if k == "b":
            e = x.env.get("$next", NONE)
            res.append(("n", x.delvar("$next"), e))
        elif k == "done":
            if len(args) > 1:
                res.append(("n", x, args[1]))
            else:
                res.append(exc(x, "StopIteration", node))
        else:
            res.append((k, x, w))
    return res


@ext("isinstance", "issubclass")
def x_isinstance(it, st, args, kw, node):
    v, c = args[0], args[1]
    cs = list(c.items) if type(c) is Tup else [c]
    if type(v) is R or type(v) is Cl:
        info = None
        if type(v) is Cl:
            info = v.info
        else:
            o = it.obj(st, v)
            if type(o) is Inst and o.cls is not None:
                info = o.cls
            elif type(o) in (Lst, Dct, Set_):
                n = {Lst: "list", Dct: "dict", Set_: "set"}[type(o)]
                return ok(st, C(any(x == Ex("builtins." + n) for x in cs)))
        if info is not None:
            m = info.mro()
            return ok(st, C(any((type(x) is Cl and x.info in m) or (type(x) is Ex and x in m) for x in cs)))
    k = pytype(v)
    if k is not None:
        if all(type(x) in (Ex, Cl) for x in cs):
            return ok(st, C(any(type(x) is Ex and (x.name == k or (k == "builtins.bool" and x.name == "builtins.int")) for x in cs)))
    return ok(st, mk("isinstance", tv(it, st, v), Tup(cs), kind="bool"))


def pytype(v):
    if type(v) is C:
        return "builtins." + type(v.v).__name__
    if type(v) in (Ar, CArr):
        return "numpy.ndarray"
    if type(v) is Tup:
        return "builtins.tuple"
    if type(v) is T:
        if v.kind == "str":
            return "builtins.str"
        if v.kind == "bytes":
            return "builtins.bytes"
        if v.kind == "arr":
            return "numpy.ndarray"
        if v.kind == "bool":
            return "builtins.bool"
        if v.kind in ("int", "nat"):
            return "builtins.int"
    return None


@ext("type")
def x_type(it, st, args, kw, node):
    v = args[0]
    if len(args) == 3:
        o = it.obj(st, args[2]) if type(args[2]) is R else None
        if type(v) is C and type(args[1]) is Tup and type(o) is Dct:
            from .program import ClassInfo
            mod = it.prog.modules.get(it.modname(st))
            return ok(st, Cl(ClassInfo(v.v, mod, node, list(args[1].items), {a.v: b for a, b in o.items if type(a) is C})))
        return ok(st, it.fresh(st, node, "type"))
    if type(v) is R:
        o = it.obj(st, v)
        if type(o) is Inst and o.cls is not None:
            return ok(st, Cl(o.cls))
        n = {Lst: "list", Dct: "dict", Set_: "set"}.get(type(o))
        if n:
            return ok(st, Ex("builtins." + n))
    k = pytype(v)
    if k:
        return ok(st, Ex(k))
    return ok(st, mk("type", tv(it, st, v)))


@ext("hasattr")
def x_hasattr(it, st, args, kw, node):
    v, n = args[0], args[1]
    if type(n) is C:
        if type(v) is R:
            o = it.obj(st, v)
            if type(o) is Inst:
                if n.v in o.attrs:
                    return ok(st, TRUE)
                if o.cls is not None:
                    f, c = it.class_attr(st, o.cls, n.v)
                    if f is not None:
                        return ok(st, TRUE)
                if not o.lazy and not o.cls.has_ext_base():
                    return ok(st, FALSE)
        if type(v) is C or (type(v) is T and v.kind in ("str", "bytes", "int", "nat", "byte")):
            ty = type(v.v) if type(v) is C else {"str": str, "bytes": bytes}.get(v.kind, int)
            return ok(st, C(hasattr(ty, n.v)))
        if type(v) is Cl:
            f, c = it.class_attr(st, v.info, n.v)
            return ok(st, C(f is not None))
        if type(v) is Ex and v.name == "sys":
            import sys
            if n.v == "_MEIPASS" or n.v == "frozen":
                return ok(st, FALSE)
    return ok(st, mk("hasattr", tv(it, st, v), tv(it, st, n), kind="bool"))


@ext("getattr")
def x_getattr(it, st, args, kw, node):
    v, n = args[0], args[1]
    if type(n) is C and isinstance(n.v, str):
        if len(args) > 2:
            outs = []
            for k, x, w in it.getattr(st, v, n.v, node, default=args[2]):
                if k == "x" and w.cls == Ex("builtins.AttributeError"):
                    outs.append(("n", x, args[2]))
                else:
                    outs.append((k, x, w))
            return outs
        return it.getattr(st, v, n.v, node)
    return ok(st, mk("getattr", tv(it, st, v), tv(it, st, n)))


@ext("setattr")
def x_setattr(it, st, args, kw, node):
    if type(args[1]) is C:
        return it.setattr(st, args[0], args[1].v, args[2], node)
    return ok(st, NONE)


@ext("super")
def x_super(it, st, args, kw, node):
    return ok(st, it.fresh(st, node, "super"))


@ext("property")
def x_property(it, st, args, kw, node):
    f = args[0] if args else kw.get("fget")
    g = args[1] if len(args) > 1 else kw.get("fset")
    return ok(st, Prop(f, g))


@ext("classmethod")
def x_cm(it, st, args, kw, node):
    return ok(st, Wrapd("classmethod", args[0]))


@ext("staticmethod")
def x_sm(it, st, args, kw, node):
    return ok(st, Wrapd("staticmethod", args[0]))


@ext("slice")
def x_slice(it, st, args, kw, node):
    a = [tv(it, st, x) for x in args]
    if len(a) == 1:
        return ok(st, Sl(NONE, a[0], NONE))
    if len(a) == 2:
        return ok(st, Sl(a[0], a[1], NONE))
    return ok(st, Sl(*a))


@ext("object")
def x_object(it, st, args, kw, node):
    st, r = it.alloc(st, node, Opq("object"), "obj")
    return ok(st, r)


@ext("open", "io.open", "builtins.open", "codecs.open")
def x_open(it, st, args, kw, node):
    mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
    st, r = it.alloc(st, node, Opq("file", {"name": tv(it, st, args[0]), "mode": tv(it, st, mode)}), "file")
    outs = ok(st, r)
    if spec_catchable(it, "FileNotFoundError") or spec_catchable(it, "OSError"):
        outs.append(exc(st, "FileNotFoundError", node))
    return outs


@ext("contextlib.suppress")
def x_suppress(it, st, args, kw, node):
    return ok(st, mk("suppress", Tup(args)))


@ext("copy.copy", "copy.deepcopy")
def x_copy(it, st, args, kw, node):
    v = args[0]
    if type(v) is Ar:
        st, r = copy_array(it, st, v, node)
        return ok(st, r)
    if type(v) is R:
        o = it.obj(st, v)
        st, r = it.alloc(st, node, o, "copy")
        return ok(st, r)
    return ok(st, v)


@ext("sys.exit", "exit", "quit", "os._exit")
def x_exit(it, st, args, kw, node):
    return [exc(st, "SystemExit", node)]


@ext("uuid.uuid4")
def x_uuid(it, st, args, kw, node):
    return ok(st, it.fresh(st, node, "uuid", "str"))


# ------------------------------------------------------------------- numpy

def np_len(it, st, v):
    """array length from a shape argument"""
    if type(v) is R and type(it.obj(st, v)) is Lst and it.obj(st, v).exact and len(it.obj(st, v).items) == 1:
        return it.obj(st, v).items[0]
    if type(v) is Tup and len(v.items) == 1:
        return v.items[0]
    if type(v) in (C, T):
        return v
    return None


@ext("numpy.zeros", "numpy.empty", "numpy.ones")
def n_zeros(it, st, args, kw, node):
    fn = node.func.attr if hasattr(node.func, "attr") else "zeros"
    ln = np_len(it, st, args[0] if args else kw.get("shape", C(0)))
    dt = simple_dt(dtype_of(it, st, kw.get("dtype", args[1] if len(args) > 1 else None), "f8"))
    if ln is None:
        return None
    base = {"zeros": ("zeros",), "ones": ("fill", C(1))}.get(fn, ("tok", ("empty", it.ctxid(st, node))))
    sz = elsize(dt)
    bl = mul(ln, C(sz))
    st, r = it.alloc(st, node, Sto(base, (), bl if bl is not None else ln), "z")
    return ok(st, Ar(r.id, C(0), ln, 1, dt))


@ext("numpy.full")
def n_full(it, st, args, kw, node):
    ln = np_len(it, st, args[0])
    if ln is None:
        return None
    dt = simple_dt(dtype_of(it, st, kw.get("dtype", args[2] if len(args) > 2 else None), "el"))
    st, r = new_array(it, st, node, ("fill", tv(it, st, args[1])), ln, dt if dt in ("u1", "el") else "el")
    return ok(st, r)


@ext("numpy.zeros_like", "numpy.empty_like")
def n_like(it, st, args, kw, node):
    if type(args[0]) is Ar:
        st, r = new_array(it, st, node, ("zeros",), args[0].ln, args[0].dt)
        return ok(st, r)


@ext("numpy.arange")
def n_arange(it, st, args, kw, node):
    a = [tv(it, st, x) for x in args]
    if len(a) > 3:
        a = a[:3]
    if len(a) == 1:
        a = [C(0), a[0]]
    if len(a) == 2:
        a.append(C(1))
    if all(type(x) is C and isinstance(x.v, int) for x in a):
        r = range(*[x.v for x in a])
        if len(r) <= 200000:
            return ok(st, CArr(r))
    if a[2] == C(1):
        ln = sub(a[1], a[0])
        if ln is not None:
            dt = dtype_of(it, st, kw.get("dtype"), "i8")
            st, r = new_array(it, st, node, ("arange", a[0], a[2]), ln, "u1" if dt == "u1" else "el")
            return ok(st, r)
    st, r = new_array(it, st, node, ("tok", ("arange", Tup(a))), it.fresh(st, node, "len", "nat"), "el")
    return ok(st, r)


@ext("numpy.tile", "numpy.repeat")
def n_tile(it, st, args, kw, node):
    fn = node.func.attr if hasattr(node.func, "attr") else "tile"
    if type(args[0]) is CArr and type(args[1]) is C:
        v = args[0].v
        if fn == "tile":
            return ok(st, CArr(v * args[1].v))
        return ok(st, CArr([x for x in v for _ in range(args[1].v)]))
    return None


@ext("numpy.frombuffer", "numpy.fromstring")
def n_frombuffer(it, st, args, kw, node):
    v = args[0]
    dt = simple_dt(dtype_of(it, st, kw.get("dtype", args[1] if len(args) > 1 else None), "f8"))
    if type(v) is C and isinstance(v.v, bytes):
        st, r = new_array(it, st, node, ("const", tuple(v.v)), C(len(v.v)), "u1")
        return ok(st, r)
    if type(v) is Ar:
        return ok(st, v)
    t = tv(it, st, v)
    if type(t) is T and t.op == "tobytes":
        fr = t.args[0]
        ln = mul(fr.args[2], C(elsize(fr.args[4])))
        st, r = new_array(it, st, node, ("copy", fr), ln, "u1")
        return ok(st, r)
    l = length(it, st, t)
    parts = bytes_parts(t)
    if parts is not None and l is not None:
        st, r = new_array(it, st, node, ("cat", tuple(parts)), l, "u1")
        return ok(st, r)
    st, r = new_array(it, st, node, ("tok", ("bytes", t)), l if l is not None else mk("len", t, kind="nat"), "u1")
    return ok(st, r)


@ext("numpy.fromfile")
def n_fromfile(it, st, args, kw, node):
    ln = it.fresh(st, node, "len", "nat")
    st, r = new_array(it, st, node, ("tok", ("file", it.ctxid(st, node))), ln, "u1")
    return ok(st, r)


@ext("numpy.copy", "numpy.array")
def n_copy(it, st, args, kw, node):
    v = args[0]
    if type(v) is Ar:
        st, r = copy_array(it, st, v, node)
        return ok(st, r)
    if type(v) is CArr:
        return ok(st, v)
    if type(v) is R and type(it.obj(st, v)) is Inst:
        o = it.obj(st, v)
        f, c = o.cls.find("__array__") if o.cls else (None, None)
        return ok(st, mk("nparray", mk("ref", C(v.id)), kind="arr"))
    return n_asarray(it, st, args, kw, node)


@ext("numpy.asarray", "numpy.ascontiguousarray")
def n_asarray(it, st, args, kw, node):
    v = args[0]
    if type(v) in (Ar, CArr):
        return ok(st, v)
    dt = dtype_of(it, st, kw.get("dtype", args[1] if len(args) > 1 else None), "i8")
    r = arr_from(it, st, v, node, "u1" if dt == "u1" else "el")
    if r is None:
        return None
    return ok(*r)


@ext("numpy.nonzero", "numpy.flatnonzero")
def n_nonzero(it, st, args, kw, node):
    v = args[0]
    cv = const_array(it, st, v, 4096)
    if cv is not None:
        r = CArr([i for i, x in enumerate(cv) if x])
        if hasattr(node.func, "attr") and node.func.attr == "flatnonzero":
            return ok(st, r)
        return ok(st, Tup([r]))
    if type(v) is Ar:
        fr = freeze(it, st, v)
        st, r = new_array(it, st, node, ("nonzero", fr), mk("count", fr, kind="nat"), "el", "nz")
        if hasattr(node.func, "attr") and node.func.attr == "flatnonzero":
            return ok(st, r)
        return ok(st, Tup([r]))
    return None


@ext("numpy.where", "numpy.argwhere")
def n_where(it, st, args, kw, node):
    if len(args) == 1:
        return n_nonzero(it, st, args, kw, node)
    return None


@ext("numpy.count_nonzero")
def n_count(it, st, args, kw, node):
    cv = const_array(it, st, args[0], 4096)
    if cv is not None:
        return ok(st, C(sum(1 for x in cv if x)))
    fr = to_frozen(it, st, args[0])
    if fr is not None:
        return ok(st, mk("count", fr, kind="nat"))
    return ok(st, mk("count", tv(it, st, args[0]), kind="nat"))


@ext("numpy.sum")
def n_sum(it, st, args, kw, node):
    cv = const_array(it, st, args[0], 4096)
    if cv is not None and len(args) == 1 and not kw:
        return ok(st, C(sum(cv)))
    fr = to_frozen(it, st, args[0])
    return ok(st, mk("asum", fr if fr is not None else tv(it, st, args[0]), kind="nat"))


def _carr(it, st, v):
    if type(v) is CArr or type(v) is Ar:
        return const_array(it, st, v, 4096)
    q = const_seq(it, st, v) if type(v) in (Tup, R) else None
    return [x.v for x in q] if q is not None and all(type(x) is C and isinstance(x.v, int) for x in q) else None


@ext("bisect.bisect_right", "bisect.bisect_left", "bisect.bisect")
def x_bisect(it, st, args, kw, node):
    import bisect
    s = const_seq(it, st, args[0]) if len(args) == 2 and not kw else None
    if s is None:
        return ok(st, it.fresh(st, node, "bisect", "nat"))
    try:
        l = [sort_key(it, st, x) for x in s]
        v = sort_key(it, st, args[1])
        nm = node.func.attr if hasattr(node.func, "attr") else node.func.id
        return ok(st, C(getattr(bisect, nm)(l, v)))
    except (ValueError, TypeError, AttributeError):
        return ok(st, it.fresh(st, node, "bisect", "nat"))


@ext("numpy.diff")
def n_diff(it, st, args, kw, node):
    cv = _carr(it, st, args[0])
    if cv is None or len(args) != 1 or kw:
        return None
    w = [b - a for a, b in zip(cv, cv[1:])]
    if type(args[0]) is Ar and args[0].dt == "u1":
        w = [x & 255 for x in w]
    return ok(st, CArr(w))


@ext("numpy.split")
def n_split(it, st, args, kw, node):
    cv, at = _carr(it, st, args[0]), _carr(it, st, args[1]) if len(args) == 2 else None
    if cv is None or at is None or kw:
        return None
    parts, last = [], 0
    for p in at + [len(cv)]:
        parts.append(CArr(cv[last:p]))
        last = p
    st, l = it.alloc(st, node, Lst(parts), "split")
    return ok(st, l)


@ext("numpy.intersect1d")
def n_intersect(it, st, args, kw, node):
    a, b = _carr(it, st, args[0]), _carr(it, st, args[1]) if len(args) == 2 else None
    if a is None or b is None or kw:
        return None
    return ok(st, CArr(sorted(set(a) & set(b))))


@ext("numpy.unpackbits")
def n_unpack(it, st, args, kw, node):
    fr = to_frozen(it, st, args[0])
    if fr is None:
        return None
    order = kw.get("bitorder", C("big"))
    ln = mul(_frlen(fr), C(8))
    if ln is None:
        return None
    st, r = new_array(it, st, node, ("unpack", fr) if order == C("big") else ("unpackl", fr), ln, "u1", "ub")
    return ok(st, r)


def _frlen(fr):
    ln, xf = fr.args[2], fr.args[5]
    if xf:
        _, W, c0, w = xf
        if type(ln) is C and type(W) is C and type(w) is C:
            return C(ln.v // W.v * w.v)
    return ln


@ext("numpy.packbits")
def n_pack(it, st, args, kw, node):
    fr = to_frozen(it, st, args[0])
    if fr is None:
        return None
    order = kw.get("bitorder", C("big"))
    ln = _frlen(fr)
    ln = C((ln.v + 7) // 8) if type(ln) is C else div(add(ln, C(7)), C(8))
    st, r = new_array(it, st, node, ("pack", fr) if order == C("big") else ("packl", fr), ln, "u1", "pb")
    return ok(st, r)


@ext("numpy.append", "numpy.hstack", "numpy.concatenate")
def n_cat(it, st, args, kw, node):
    fn = node.func.attr if hasattr(node.func, "attr") else "concatenate"
    if fn == "append":
        parts = list(args[:2])
    else:
        parts = const_seq(it, st, args[0])
    if parts is None:
        st, r = new_array(it, st, node, ("catof", tv(it, st, args[0])), it.fresh(st, node, "len", "nat"), "u1")
        return ok(st, r)
    frs = []
    for p in parts:
        if type(p) is C and isinstance(p.v, int):
            p = Tup([p])
        fr = to_frozen(it, st, p)
        if fr is None:
            if type(p) is R and type(it.obj(st, p)) is Lst:
                o = it.obj(st, p)
                fr = mk("arr", mk("content", ("of", mk("ref", C(p.id))), ()), C(0), o.ln, 1, "el", (), kind="arr")
            else:
                t = tv(it, st, p)
                fr = mk("arr", mk("content", ("tok", ("of", t)), ()), C(0), mk("len", t, kind="nat"), 1, "u1", (), kind="arr")
        frs.append(fr)
    ln = C(0)
    dt = None
    for fr in frs:
        n = add(ln, fr.args[2])
        ln = n if n is not None else it.fresh(st, node, "len", "nat")
        d = fr.args[4]
        dt = d if dt is None or dt == d else ("el" if "el" in (dt, d) else "u1")
    if all(f.args[0].args[0][0] == "const" and not f.args[0].args[1] and f.args[1] == C(0) and type(f.args[2]) is C for f in frs) and sum(f.args[2].v for f in frs) < 4096 and dt == "u1":
        vals = ()
        for f in frs:
            vals += f.args[0].args[0][1][:f.args[2].v]
        st, r = new_array(it, st, node, ("const", vals), ln, dt)
        return ok(st, r)
    bl = mul(ln, C(elsize(dt)))
    st, r = it.alloc(st, node, Sto(("cat", tuple(frs)), (), bl), "cat")
    return ok(st, Ar(r.id, C(0), ln, 1, dt))


@ext("numpy.resize")
def n_resize(it, st, args, kw, node):
    ln = np_len(it, st, args[1])
    st, r = new_array(it, st, node, ("resized", to_frozen(it, st, args[0]) or tv(it, st, args[0])), ln if ln is not None else it.fresh(st, node, "len", "nat"), "u1")
    return ok(st, r)


@ext("numpy.byte_bounds", "numpy.lib.array_utils.byte_bounds")
def n_bounds(it, st, args, kw, node):
    v = args[0]
    if type(v) is Ar:
        base = mk("addr", C(str(v.sid)), kind="nat")
        a = add(base, v.off)
        n = mul(v.ln, C(elsize(v.dt)))
        b = add(a, n) if n is not None else None
        if a is not None and b is not None:
            return ok(st, Tup([a, b]))
    return ok(st, Tup([mk("lo", tv(it, st, v), kind="nat"), mk("hi", tv(it, st, v), kind="nat")]))


@ext("numpy.all", "numpy.any")
def n_all(it, st, args, kw, node):
    if type(args[0]) in (CArr, Ar) and hasattr(node.func, "attr") and node.func.attr in ("all", "any") and len(args) == 1 and not kw:
        return array_method(it, st, args[0], node.func.attr, [], {}, node)
    return ok(st, mk("m", node.func.attr if hasattr(node.func, "attr") else "all", tv(it, st, args[0]), kind="bool"))


@ext("numpy.array_equal")
def n_aeq(it, st, args, kw, node):
    cc = const_compare(it, st, "==", args[0], args[1])
    if cc is not None:
        return ok(st, C(all(cc.v)))
    return ok(st, mk("m", "array_equal", tv(it, st, args[0]), tv(it, st, args[1]), kind="bool"))


@ext("numpy.less", "numpy.equal")
def n_less(it, st, args, kw, node):
    op = "Lt" if node.func.attr == "less" else "Eq"
    return compare(it, st, op, args[0], args[1], node)


@ext("numpy.minimum", "numpy.maximum")
def n_minmax(it, st, args, kw, node):
    a, b = args[:2]
    xs = [list(v.v) if type(v) is CArr else None for v in (a, b)]
    if len(args) == 2 and not kw and any(x is not None for x in xs) and all(x is not None or (type(v) is C and type(v.v) is int) for x, v in zip(xs, (a, b))):
        n = max(len(x) for x in xs if x is not None)
        xs = [x if x is not None else [v.v] * n for x, v in zip(xs, (a, b))]
        if len(xs[0]) == len(xs[1]):
            f = min if node.func.attr == "minimum" else max
            return ok(st, CArr(tuple(f(p, q) for p, q in zip(*xs))))
    return ok(st, mk("f", "numpy." + getattr(node.func, "attr", "minimum"), tv(it, st, a), tv(it, st, b), kind="any"))


@ext("numpy.dtype")
def n_dtype(it, st, args, kw, node):
    v = args[0]
    s = const_seq(it, st, v)
    if s is not None and all(type(x) is Tup and len(x.items) >= 2 and type(x.items[0]) is C and type(x.items[1]) is C for x in s) and s:
        return ok(st, Dt([(x.items[0].v, x.items[1].v) for x in s]))
    return ok(st, v)


# ----------------------------------------------------------------- methods

def call_method(it, st, base, name, args, kwargs, node):
    t = type(base)
    if t is Ar or t is CArr:
        return array_method(it, st, base, name, args, kwargs, node)
    if name in ("tolist", "item") and not args and not kwargs and (t is C and type(base.v) is int or t is T and base.kind in ("byte", "nat", "int")):
        return ok(st, base)         # a numpy scalar
    if t is R:
        o = it.obj(st, base)
        if type(o) is Inst and "$list" in o.attrs:
            base = o.attrs["$list"]
            o = it.obj(st, base)
        if type(o) is Lst:
            return list_method(it, st, base, o, name, args, kwargs, node)
        if type(o) is Dct:
            return dict_method(it, st, base, o, name, args, kwargs, node)
        if type(o) is Set_:
            return set_method(it, st, base, o, name, args, kwargs, node)
        if type(o) is Opq and o.what == "file":
            if name == "read":
                return ok(st, it.fresh(st, node, "read", "bytes"))
            if name in ("write", "close", "flush"):
                return ok(st, NONE)
            if name == "readlines":
                return ok(st, it.fresh(st, node, "lines"))
        return ok(st, it.fresh(st, node, "m:" + name))
    if t is C and isinstance(base.v, (str, bytes, int, float, tuple)) or t is T and (base.kind in ("str", "bytes") or name in STR_PURE and base.kind is None and not name.startswith("__") and name not in ("index", "count")):
        return str_method(it, st, base, name, args, kwargs, node)
    if t is Ex:
        return call_ext(it, st, base.name + "." + name, args, kwargs, node)
    if t is T:
        if base.kind == "arr" or base.op == "arr":
            if name in ("tobytes", "tostring"):
                return ok(st, mk("tobytes", base, kind="bytes"))
            if name in ("all", "any", "sum", "max", "min"):
                return ok(st, mk("m", name, base, kind="bool" if name in ("all", "any") else None))
            return ok(st, mk("m", name, base, *[tv(it, st, a) for a in args], kind="arr"))
        if base.kind in ("byte", "nat", "int") and name == "tobytes":
            return ok(st, mk("tobytes", base, kind="bytes"))
        if base.op == "super":
            return ok(st, NONE)
        if base.op == "idict":
            r = idict_method(it, st, base, name, args, kwargs, node)
            if r is not None:
                return r
        it.opaque["method " + name] = True
        return ok(st, it.fresh(st, node, "m:" + name))
    if t is Tup:
        if name == "index" or name == "count":
            return ok(st, it.fresh(st, node, name, "nat"))
    if t is Sl and name == "indices":
        r = norm_slice(st, args[0], base)
        if r is not None:
            a, n, s = r
            return ok(st, Tup([a, add(a, n), C(s)]))
    return ok(st, it.fresh(st, node, "m:" + name))


def idict_method(it, st, base, name, args, kwargs, node):
    """methods of an instance's __dict__"""
    ref = R(base.args[0].v)
    o = it.obj(st, ref)
    if type(o) is not Inst:
        return None
    at = o.attrs
    if name == "update":
        new = dict(at)
        if args:
            q = it.obj(st, args[0]) if type(args[0]) is R else None
            if type(q) is not Dct or q.open_ is not None or any(type(k) is not C or not isinstance(k.v, str) for k, v in q.items):
                return None
            for k, v in q.items:
                new[k.v] = v
        new.update(kwargs)
        return ok(st.put(ref.id, Inst(o.cls, new)), NONE)
    if name == "get" and args and type(args[0]) is C:
        return ok(st, at.get(args[0].v, args[1] if len(args) > 1 else NONE))
    if name == "pop" and args and type(args[0]) is C:
        if args[0].v in at:
            return ok(st.put(ref.id, Inst(o.cls, {k: v for k, v in at.items() if k != args[0].v})), at[args[0].v])
        return ok(st, args[1]) if len(args) > 1 else [exc(st, "KeyError", node)]
    if name == "copy" and not args:
        st, r = it.alloc(st, node, Dct(tuple((C(k), v) for k, v in at.items())), "d")
        return ok(st, r)
    if name in ("items", "keys", "values") and not args:
        items = [Tup([C(k), v]) if name == "items" else C(k) if name == "keys" else v for k, v in at.items()]
        st, l = it.alloc(st, node, Lst(items), "l")
        return ok(st, l)
    return None


STR_RESULT = {"startswith": "bool", "endswith": "bool", "isdigit": "bool", "isalpha": "bool", "isalnum": "bool", "isspace": "bool",
              "find": "int", "rfind": "int", "index": "int", "count": "nat", "encode": "bytes", "decode": "str", "isupper": "bool", "islower": "bool", "isprintable": "bool", "hex": "str"}
STR_LIST = ("split", "rsplit", "splitlines", "partition", "rpartition")


def str_method(it, st, base, name, args, kwargs, node):
    if type(base) is C:
        if name == "join" and args:
            s = const_seq(it, st, args[0])
            if s is not None and not any(callable(x) for x in s):
                parts = []
                for i, x in enumerate(s):
                    if i:
                        parts.append(base)
                    parts.append(tv(it, st, x))
                return ok(st, strcat(parts) if parts else C(type(base.v)()))
            return ok(st, mk("m", "join", base, tv(it, st, args[0]), kind="bytes" if isinstance(base.v, bytes) else "str"))
        if name in ("startswith", "endswith") and args and type(args[0]) is Tup and all(type(a) is C for a in args[0].items):
            args = [C(tuple(a.v for a in args[0].items))] + list(args[1:])
        if all(type(a) is C for a in args) and all(type(v) is C for v in kwargs.values()) and hasattr(base.v, name):
            try:
                r = getattr(base.v, name)(*[a.v for a in args], **{k: v.v for k, v in kwargs.items()})
            except Exception as e:
                return [exc(st, type(e).__name__ if hasattr(builtins, type(e).__name__) else "Exception", node)]
            if isinstance(r, (list,)):
                st, l = it.alloc(st, node, Lst([C(x) for x in r]), "spl")
                return ok(st, l)
            if isinstance(r, tuple):
                return ok(st, Tup([C(x) for x in r]))
            return ok(st, C(r))
        if name == "format":
            return ok(st, mk("strformat", base, *([tv(it, st, a) for a in args] + [Tup([C(k), tv(it, st, v)]) for k, v in sorted(kwargs.items()) if k != "$open"]), kind="str"))
    b = base
    kind = STR_RESULT.get(name)
    if kind is None:
        kind = base.kind if type(base) is T else {str: "str", bytes: "bytes"}.get(type(base.v))
        if kind not in ("str", "bytes"):
            kind = "str" if name not in ("get", "items", "keys", "values") else None
    a = [tv(it, st, x) for x in args] + [Tup([C(k), tv(it, st, v)]) for k, v in sorted(kwargs.items()) if k != "$open"]
    if name in STR_LIST:
        k = base.kind if type(base) is T else ("bytes" if isinstance(base.v, bytes) else "str")
        if k not in ("str", "bytes"):
            k = "str"
        if name in ("partition", "rpartition"):
            p = mk("m", name, b, *a)
            return ok(st, Tup([mk("item", p, C(i), kind=k) for i in range(3)]))
        p = mk("m", name, b, *a)
        if len(args) == 2 and type(args[1]) is C and args[1].v == 1:
            # split(sep, 1) where sep is known to occur gives exactly two
            q = query(st.facts, mk("cmp", "in", a[0], b, kind="bool"))
            if q is True:
                return ok(st, Tup([mk("item", p, C(i), kind=k) for i in range(2)]))
        st, l = it.alloc(st, node, Lst((), mk("elemof", p, kind=k), mk("len", p, kind="nat")), "spl")
        return ok(st, l)
    return ok(st, mk("m", name, b, *a, kind=kind))


def list_method(it, st, ref, o, name, args, kwargs, node):
    if name == "append":
        return ok(list_append(it, st, ref, args[0], node), NONE)
    if name == "extend":
        return list_extend(it, st, ref, args[0], node)
    if name == "insert":
        if o.exact and type(args[0]) is C:
            l = list(o.items)
            l.insert(args[0].v, args[1])
            return ok(st.put(ref.id, Lst(l)), NONE)
        return ok(list_append(it, st, ref, args[1], node), NONE)
    if name in ("sort", "reverse"):
        if o.exact:
            if name == "reverse":
                return ok(st.put(ref.id, Lst(o.items[::-1])), NONE)
            l = sort_items(it, st, list(o.items), kwargs, node)
            if l is not None:
                return ok(st.put(ref.id, Lst(l)), NONE)
            return ok(st.put(ref.id, Lst((), it.fresh(st, node, "sorted"), C(len(o.items)))), NONE)
        return ok(st, NONE)
    if name == "pop":
        if o.exact and o.items and (not args or type(args[0]) is C):
            l = list(o.items)
            try:
                v = l.pop(args[0].v if args else -1)
            except IndexError:
                return [exc(st, "IndexError", node)]
            return ok(st.put(ref.id, Lst(l)), v)
        if o.exact and not o.items:
            return [exc(st, "IndexError", node)]
        s = o.summ
        for x in o.items:
            st, s = join_elem(it, st, s, x, ref.id)
        ln = sub(o.ln, C(1))
        st, e = of_elem(it, st, s, ln, ref)
        return ok(st.put(ref.id, Lst((), s, ln)), e)
    if name == "clear":
        return ok(st.put(ref.id, Lst()), NONE)
    if name == "copy":
        st, r = it.alloc(st, node, o, "lc")
        return ok(st, r)
    if name == "remove":
        if o.exact:
            for i, x in enumerate(o.items):
                if x == args[0]:
                    return ok(st.put(ref.id, Lst(o.items[:i] + o.items[i + 1:])), NONE)
        return ok(st, NONE)
    if name == "index":
        outs = ok(st, mk("index", mk("ref", C(ref.id)), tv(it, st, args[0]), kind="nat"))
        if spec_catchable(it, "ValueError"):
            outs.append(exc(st, "ValueError", node))
        return outs
    if name == "count":
        return ok(st, it.fresh(st, node, "count", "nat"))
    return ok(st, it.fresh(st, node, "l:" + name))


def dict_method(it, st, ref, o, name, args, kwargs, node):
    if name in ("items", "keys", "values"):
        st, l = dict_values(it, st, ref, o, node, name)
        return ok(st, l)
    if name == "get":
        k = tv(it, st, args[0])
        d = args[1] if len(args) > 1 else NONE
        for a, b in o.items:
            if a == k:
                return ok(st, b)
        if type(k) is C and o.open_ is None and all(type(a) is C for a, b in o.items):
            return ok(st, d)
        if o.items and o.open_ is None and all(type(b) is C for a, b in o.items):
            kd = {str: "str", int: "int"}.get(type(o.items[0][1].v))
            return ok(st, mk("dget", mk("table", C(ref.id)), k, tv(it, st, d), kind=kd))
        return ok(st, mk("dget", mk("ref", C(ref.id)), k, tv(it, st, d)))
    if name == "setdefault":
        k = tv(it, st, args[0])
        for a, b in o.items:
            if a == k:
                return ok(st, b)
        v = args[1] if len(args) > 1 else NONE
        return [(a, b, v if a == "n" else c) for a, b, c in dict_set(it, st, ref, k, v, node)]
    if name == "update":
        if args:
            q = it.obj(st, args[0]) if type(args[0]) is R else None
            if type(q) is Dct:
                cur = ok(st, NONE)
                for a, b in q.items:
                    nxt = []
                    for k, x, w in cur:
                        nxt.extend(dict_set(it, x, ref, a, b, node))
                    cur = nxt
                return cur
            return ok(st.put(ref.id, Dct(o.items, tv(it, st, args[0]), o.default)), NONE)
        cur = ok(st, NONE)
        for a, b in kwargs.items():
            cur = [z for k, x, w in cur for z in dict_set(it, x, ref, C(a), b, node)]
        return cur
    if name == "pop":
        k = tv(it, st, args[0])
        for a, b in o.items:
            if a == k:
                return ok(st.put(ref.id, Dct([(p, q) for p, q in o.items if p != k], o.open_, o.default)), b)
        outs = ok(st, args[1] if len(args) > 1 else it.fresh(st, node, "pop"))
        if len(args) < 2 and spec_catchable(it, "KeyError"):
            outs.append(exc(st, "KeyError", node))
        return outs
    if name == "popitem" and o.open_ is None:
        if not o.items:
            return [exc(st, "KeyError", node)]
        k, v = o.items[-1]
        return ok(st.put(ref.id, Dct(o.items[:-1], o.open_, o.default)), Tup([k, v]))
    if name == "copy":
        st, r = it.alloc(st, node, o, "dc")
        return ok(st, r)
    if name == "clear":
        return ok(st.put(ref.id, Dct()), NONE)
    return ok(st, it.fresh(st, node, "d:" + name))


def set_method(it, st, ref, o, name, args, kwargs, node):
    if name == "add":
        return ok(set_add(it, st, ref, args[0], node), NONE)
    if name == "update":
        s = const_seq(it, st, args[0])
        if s is not None:
            for x in s:
                st = set_add(it, st, ref, x, node)
            return ok(st, NONE)
        return ok(st.put(ref.id, Set_(("upd", o.base, o.adds, tv(it, st, args[0])), ())), NONE)
    if name in ("discard", "remove"):
        k = tv(it, st, args[0])
        return ok(st.put(ref.id, Set_(("rm", o.base, o.adds, k), ())), NONE)
    if name == "clear":
        return ok(st.put(ref.id, Set_(None, ())), NONE)
    if name in ("copy", "union", "difference", "intersection"):
        st, r = it.alloc(st, node, o if name == "copy" else Set_((name, o.base, o.adds, tuple(tv(it, st, a) for a in args)), ()), "sc")
        return ok(st, r)
    return ok(st, it.fresh(st, node, "s:" + name))


REDUCE = {"all": lambda v: bool(all(v)), "any": lambda v: bool(any(v)), "sum": sum, "max": max, "min": min,
          "argmax": lambda v: list(v).index(max(v)), "argmin": lambda v: list(v).index(min(v))}


def const_reduce(name, v, args, kwargs):
    if name not in REDUCE or args or kwargs or not all(isinstance(x, int) for x in v):
        return None
    if not len(v) and name not in ("all", "any", "sum"):
        return None
    return C(REDUCE[name](v))


def array_method(it, st, ar, name, args, kwargs, node):
    if type(ar) is CArr:
        if name == "tolist":
            st, r = it.alloc(st, node, Lst([C(x) for x in ar.v]), "tl")
            return ok(st, r)
        if name == "copy" or name == "astype":
            return ok(st, ar)
        r = const_reduce(name, ar.v, args, kwargs)
        if r is not None:
            return ok(st, r)
        if name == "nonzero" and not args:
            return n_nonzero(it, st, [ar], {}, node)
        return ok(st, mk("m", name, ar))
    if name == "copy" or name == "flatten" or (name == "ravel" and ar.xf):
        if ar.xf:
            fr = freeze(it, st, ar)
            st, r = new_array(it, st, node, ("copy", fr), _frlen(fr), "u1", "cp")
            return ok(st, r)
        st, r = copy_array(it, st, ar, node)
        return ok(st, r)
    if name == "ravel":
        return ok(st, ar)
    if name == "astype":
        st, r = copy_array(it, st, ar, node)
        return ok(st, r)
    if name in ("tobytes", "tostring"):
        cv = const_array(it, st, ar, 1024)
        if cv is not None and all(isinstance(x, int) for x in cv):
            return ok(st, C(bytes(x & 255 for x in cv)))
        return ok(st, mk("tobytes", freeze(it, st, ar), kind="bytes"))
    if name == "view":
        dtv = kwargs.get("dtype", args[0] if args else None)
        dt = dtype_of(it, st, dtv, ar.dt)
        nb = mul(ar.ln, C(elsize(ar.dt)))
        sz = elsize(dt)
        if type(nb) is C and nb.v % sz:
            return [exc(st, "ValueError", node, "view size")]
        ln = div(nb, C(sz)) if nb is not None else None
        outs = ok(st, Ar(ar.sid, ar.off, ln, 1, dt))
        if type(nb) is not C and it.catchable("builtins.ValueError"):
            outs.append(exc(st, "ValueError", node, "view size"))
        return outs
    if name == "reshape":
        sh = args[0] if len(args) == 1 else Tup(args)
        s = const_seq(it, st, sh)
        if s is not None and len(s) == 2 and type(s[1]) is C and isinstance(s[1].v, int) and not ar.xf and ar.dt in ("u1", "el"):
            if s[1].v > 0:
                return ok(st, Ar(ar.sid, ar.off, ar.ln, ar.step, ar.dt, ("cols", s[1], C(0), s[1])))
        if s is not None and len(s) == 2 and type(s[1]) is T:
            return ok(st, Ar(ar.sid, ar.off, ar.ln, ar.step, ar.dt, ("cols", s[1], C(0), s[1])))
        if s is not None and len(s) == 1:
            return ok(st, ar)
        return ok(st, mk("m", "reshape", freeze(it, st, ar), kind="arr"))
    if name == "tolist":
        fr = freeze(it, st, ar)
        st, r = it.alloc(st, node, Lst(), "tl")
        return [(k, x, r if k == "n" else w) for k, x, w in list_extend(it, st, r, ar, node)]
    if name == "fill":
        return ok(array_store(it, st, ar, args[0], node), NONE)
    if name == "sort":
        return ok(_raw_store(it, st, ar.sid, None, None, ("unk", C("sort")), node), NONE)
    if name in ("setfield", "put", "itemset", "resize", "partition", "byteswap"):
        if name == "byteswap" and not args and not kwargs:
            return ok(st, mk("m", name, freeze(it, st, ar), kind="arr"))
        return ok(_raw_store(it, st, ar.sid, None, None, ("unk", C(name)), node), NONE)
    if name == "tofile":
        return ok(st, NONE)
    if name in REDUCE:
        cv = const_array(it, st, ar, 4096)
        r = const_reduce(name, cv, args, kwargs) if cv is not None else None
        if r is not None:
            return ok(st, r)
    if name in ("all", "any"):
        return ok(st, mk("m", name, freeze(it, st, ar), kind="bool"))
    if name in ("sum",):
        return ok(st, mk("asum", freeze(it, st, ar), kind="nat"))
    if name in ("max", "min", "argmax", "argmin", "item", "mean"):
        return ok(st, mk("m", name, freeze(it, st, ar), kind="nat" if name != "mean" else None))
    if name == "nonzero":
        return n_nonzero(it, st, [ar], {}, node)
    return ok(st, mk("m", name, freeze(it, st, ar), *[tv(it, st, a) for a in args]))
