"""Abstract values: constants, hash-consed symbolic terms with polynomial
normal form, heap references, array views.  Nothing here (or anywhere in this
package) imports or executes the code under analysis."""


class Val:
    __slots__ = ()


class C(Val):
    """A constant."""
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, repr(v) if isinstance(v, (float,)) else v))

    def __eq__(self, o):
        return self is o or (type(o) is C and type(o.v) is type(self.v) and o.v == self.v)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)

_intern = {}


class T(Val):
    """A symbolic term, interned: equality is identity."""
    __slots__ = ("op", "args", "_h", "kind", "uid")
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def mk(op, *args, kind=None):
    k = (op, args)
    t = _intern.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.kind = kind
        t._h = hash(k)
        T._n += 1
        t.uid = T._n
        _intern[k] = t
    elif kind is not None and t.kind is None:
        t.kind = kind
    return t


def sym(name, kind=None):
    return mk("sym", name, kind=kind)


class R(Val):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return type(o) is R and o.id == self.id

    def __hash__(self):
        return hash(("R", self.id))

    def __repr__(self):
        return "<%s>" % (self.id,)


class _Tup(Val):
    __slots__ = ("_k",)

    def __eq__(self, o):
        return type(o) is type(self) and o._k == self._k

    def __hash__(self):
        return hash((type(self).__name__, self._k))


class Tup(_Tup):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)
        self._k = self.items

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Sl(_Tup):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c
        self._k = (a, b, c)

    def __repr__(self):
        return "%r:%r" % (self.a, self.b) + ("" if self.c == NONE else ":%r" % self.c)


class Fn(_Tup):
    __slots__ = ("info", "closure")

    def __init__(self, info, closure=()):
        self.info = info
        self.closure = closure
        self._k = (id(info), closure)

    def __repr__(self):
        return "fn:" + self.info.qual


class Bm(_Tup):
    __slots__ = ("self_", "fn")

    def __init__(self, s, fn):
        self.self_ = s
        self.fn = fn
        self._k = (s, fn)

    def __repr__(self):
        return "bound:%r" % (self.fn,)


class Cl(_Tup):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info
        self._k = id(info)

    def __repr__(self):
        return "class:" + self.info.name


class Mo(_Tup):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._k = name

    def __repr__(self):
        return "mod:" + self.name


class Ex(_Tup):
    """External (builtin or library) name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._k = name

    def __repr__(self):
        return "ext:" + self.name


class Xm(_Tup):
    """Method of a value we model natively (str, list, array, term ...)."""
    __slots__ = ("base", "name")

    def __init__(self, base, name):
        self.base = base
        self.name = name
        self._k = (base, name)

    def __repr__(self):
        return "%r.%s" % (self.base, self.name)


class Prop(_Tup):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset
        self._k = (fget, fset)


class Wrapd(_Tup):
    """classmethod / staticmethod"""
    __slots__ = ("how", "fn")

    def __init__(self, how, fn):
        self.how, self.fn = how, fn
        self._k = (how, fn)


class Super(_Tup):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, s):
        self.cls, self.self_ = cls, s
        self._k = (id(cls), s)


class Dt(_Tup):
    """Structured dtype: fields = ((name, code, size, offset), ...)"""
    __slots__ = ("fields", "itemsize")

    def __init__(self, fields):
        out = []
        off = 0
        for n, code in fields:
            s = dt_size(code)
            out.append((n, code, s, off))
            off += s if s else 0
        self.fields = tuple(out)
        self.itemsize = off
        self._k = self.fields

    def __repr__(self):
        return "dtype%r" % (self.fields,)


def dt_size(code):
    c = code.lstrip("<>|=")
    try:
        return {"u": 1, "i": 1, "f": 1, "S": 1, "b": 1, "a": 1}[c[0]] * int(c[1:] or 1)
    except (KeyError, ValueError, IndexError):
        return {"uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4,
                "uint64": 8, "int64": 8, "bool": 1, "float64": 8}.get(c)


class Ar(_Tup):
    """A view of an array storage.  off: BYTE offset of the first element in
    the storage; ln: number of elements of dt; step: element stride (elements);
    xf: () for plain 1-d, or ("cols", W, c0, w) for a 2-d view with rows of W
    elements of which columns c0..c0+w are visible."""
    __slots__ = ("sid", "off", "ln", "step", "dt", "xf")

    def __init__(self, sid, off, ln, step=1, dt="u1", xf=()):
        self.sid, self.off, self.ln, self.step, self.dt, self.xf = sid, off, ln, step, dt, xf
        self._k = (sid, off, ln, step, dt, xf)

    def __repr__(self):
        return "arr(%s[%r+%r%s%s]%s)" % (self.sid, self.off, self.ln, "" if self.step == 1 else "/%r" % self.step,
                                        "" if self.dt == "u1" else ":%r" % (self.dt,), "" if not self.xf else repr(self.xf))


class Rec(_Tup):
    __slots__ = ("sid", "off", "dt")

    def __init__(self, sid, off, dt):
        self.sid, self.off, self.dt = sid, off, dt
        self._k = (sid, off, dt)


class CArr(_Tup):
    """Constant integer array (immutable)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)
        self._k = self.v

    def __repr__(self):
        return "const_array[%d]" % len(self.v)


class Gen(Val):
    __slots__ = ("fn", "env", "key")

    def __init__(self, fn, env, key):
        self.fn, self.env, self.key = fn, env, key

    def __eq__(self, o):
        return type(o) is Gen and o.key == self.key

    def __hash__(self):
        return hash(("Gen", self.key))


class Iter(Val):
    """Lazy iterable: kind in enumerate, zip, range, reversed, items..."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)

    def __eq__(self, o):
        return type(o) is Iter and (o.kind, o.args) == (self.kind, self.args)

    def __hash__(self):
        return hash(("Iter", self.kind, self.args))

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


class Xc(Val):
    """An exception in flight.  cls: Cl or Ex('builtins.X'); anyexc: some
    exception not statically identified (an injected fault)."""
    __slots__ = ("cls", "args", "site", "anyexc", "tag")

    def __init__(self, cls, args=(), site=None, anyexc=False, tag=None):
        self.cls, self.args, self.site, self.anyexc, self.tag = cls, tuple(args), site, anyexc, tag

    def __eq__(self, o):
        return type(o) is Xc and (o.cls, o.anyexc, o.tag) == (self.cls, self.anyexc, self.tag)

    def __hash__(self):
        return hash(("Xc", self.cls, self.anyexc, self.tag))

    def __repr__(self):
        return "exc(%r%s)" % (self.cls, " any" if self.anyexc else "")


# ---------------------------------------------------------------- arithmetic

def _poly(v):
    """value -> dict monomial(tuple of T) -> int, or None"""
    if type(v) is C:
        if isinstance(v.v, bool):
            return {(): int(v.v)} if v.v else {}
        if isinstance(v.v, int):
            return {(): v.v} if v.v else {}
        return None
    if type(v) is T:
        if v.op == "poly":
            return dict(v.args[0])
        return {(v,): 1}
    return None


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return C(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), [t.uid for t in kv[0]]))), kind="int")


def add(a, b):
    pa, pb = _poly(a), _poly(b)
    if pa is None or pb is None:
        return None
    for m, c in pb.items():
        pa[m] = pa.get(m, 0) + c
    return _mkpoly(pa)


def neg(a):
    pa = _poly(a)
    return None if pa is None else _mkpoly({m: -c for m, c in pa.items()})


def sub(a, b):
    nb = neg(b)
    return None if nb is None else add(a, nb)


def mul(a, b):
    pa, pb = _poly(a), _poly(b)
    if pa is None or pb is None or len(pa) * len(pb) > 64:
        return None
    out = {}
    for m, c in pa.items():
        for n, e in pb.items():
            k = tuple(sorted(m + n, key=lambda t: t.uid))
            out[k] = out.get(k, 0) + c * e
    return _mkpoly(out)


def poly_items(v):
    p = _poly(v)
    return None if p is None else p


def subst(v, table):
    """Rebuild a term with leaves replaced (table: T -> value)."""
    memo = {}

    def go(x):
        if type(x) is T:
            if x in table:
                return table[x]
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "poly":
                acc = C(0)
                for m, c in x.args[0]:
                    t = C(c)
                    for f in m:
                        t2 = mul(t, go(f))
                        t = t2 if t2 is not None else mk("mulop", t, go(f))
                    a2 = add(acc, t)
                    acc = a2 if a2 is not None else mk("addop", acc, t)
                r = acc
            elif x.op == "sym":
                r = x
            else:
                r = rebuild(x.op, [go(a) for a in x.args], x.kind)
            memo[x] = r
            return r
        if type(x) is Tup:
            return Tup([go(i) for i in x.items])
        if type(x) is tuple:
            return tuple(go(i) for i in x)
        return x
    return go(v)


_REBUILD = {}


def rebuild(op, args, kind):
    f = _REBUILD.get(op)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return mk(op, *args, kind=kind)


def leaves(v, out=None):
    if out is None:
        out = set()
    if type(v) is T:
        if v.op == "poly":
            for m, c in v.args[0]:
                for f in m:
                    leaves(f, out)
        elif v.op == "sym":
            out.add(v)
        else:
            out.add(v)
            for a in v.args:
                leaves(a, out)
    elif type(v) is Tup:
        for i in v.items:
            leaves(i, out)
    elif type(v) is tuple:
        for i in v:
            leaves(i, out)
    elif type(v) is Ar:
        leaves(v.off, out)
        leaves(v.ln, out)
        leaves(v.xf, out)
    return out


def show(v, depth=6):
    if type(v) is not T:
        return repr(v)
    if depth == 0:
        return "…"
    if v.op == "sym":
        n = v.args[0]
        return n if isinstance(n, str) else "·".join(str(x) for x in n[:2]) if isinstance(n, tuple) else str(n)
    if v.op == "poly":
        return "(" + " + ".join(("%d" % c if m == () else ("" if c == 1 else "%d*" % c) + "*".join(show(t, depth - 1) for t in m)) for m, c in v.args[0]) + ")"
    return "%s(%s)" % (v.op, ", ".join(show(a, depth - 1) if type(a) is T else repr(a) for a in v.args))


# -------------------------------------------------------------------- signs

def nonneg(v, facts=None):
    """True if the value is provably >= 0."""
    if type(v) is C:
        return isinstance(v.v, int) and v.v >= 0
    if type(v) is T:
        if v.op == "poly":
            return all(c >= 0 and all(nonneg(t) for t in m) for m, c in v.args[0])
        if v.kind in ("nat", "byte", "bool"):
            return True
        if v.op in ("load8", "len", "band", "shr", "bor", "shl", "int", "mod", "div", "min", "bit"):
            if v.op in ("len",):
                return True
            if v.op == "load8":
                return True
            if v.op == "band":
                return nonneg(v.args[0]) or nonneg(v.args[1])
            if v.op == "mod":
                return nonneg(v.args[1])
            return all(nonneg(a) for a in v.args if isinstance(a, Val))
        if v.op == "cmp":
            return True
    return False


# ---------------------------------------------------- bit-level provenance

def width(t, widths):
    w = widths.get(t) if widths else None
    if w is not None:
        return w
    if t.kind == "byte" or t.op == "load8":
        return 8
    if t.kind == "bool" or t.op in ("cmp", "not", "in"):
        return 1
    return None


def bits(v, widths=None, n=32):
    """list of n bit provenances (LSB first): 0, 1, (leaf, i), or None when
    not determined."""
    if type(v) is C:
        if isinstance(v.v, (int, bool)) and int(v.v) >= 0:
            return [(int(v.v) >> i) & 1 for i in range(n)]
        return [None] * n
    if type(v) is not T:
        return [None] * n
    if widths and v in widths:
        w = widths[v]
        return [(v, i) if i < w else 0 for i in range(n)]
    if v.op == "poly":
        acc = [0] * n
        for m, c in v.args[0]:
            if c <= 0:
                return [None] * n
            if m == ():
                b = [(c >> i) & 1 for i in range(n)]
            elif len(m) == 1 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                b = ([0] * k + bits(m[0], widths, n))[:n]
            else:
                return [None] * n
            for i in range(n):
                if b[i] == 0:
                    continue
                if acc[i] == 0:
                    acc[i] = b[i]
                else:
                    return [None] * n      # possible carry
        return acc
    if v.op == "band":
        a, b = bits(v.args[0], widths, n), bits(v.args[1], widths, n)
        out = []
        for x, y in zip(a, b):
            if x == 0 or y == 0:
                out.append(0)
            elif x == 1:
                out.append(y)
            elif y == 1 or x == y:
                out.append(x)
            else:
                out.append(None)
        return out
    if v.op == "bor":
        a, b = bits(v.args[0], widths, n), bits(v.args[1], widths, n)
        out = []
        for x, y in zip(a, b):
            if x == 1 or y == 1:
                out.append(1)
            elif x == 0:
                out.append(y)
            elif y == 0 or x == y:
                out.append(x)
            else:
                out.append(None)
        return out
    if v.op == "bxor":
        a, b = bits(v.args[0], widths, n), bits(v.args[1], widths, n)
        return [y if x == 0 else x if y == 0 else (x ^ y if x in (0, 1) and y in (0, 1) and not isinstance(x, tuple) and not isinstance(y, tuple) else None) for x, y in zip(a, b)]
    if v.op == "shl" and type(v.args[1]) is C:
        return ([0] * v.args[1].v + bits(v.args[0], widths, n))[:n]
    if v.op == "shr" and type(v.args[1]) is C:
        b = bits(v.args[0], widths, n + v.args[1].v)
        return b[v.args[1].v:][:n]
    if v.op == "div" and type(v.args[1]) is C and isinstance(v.args[1].v, int) and v.args[1].v > 0 and v.args[1].v & (v.args[1].v - 1) == 0:
        k = v.args[1].v.bit_length() - 1
        return bits(v.args[0], widths, n + k)[k:][:n]
    if v.op == "mod" and type(v.args[1]) is C and isinstance(v.args[1].v, int) and v.args[1].v > 0 and v.args[1].v & (v.args[1].v - 1) == 0:
        k = v.args[1].v.bit_length() - 1
        return bits(v.args[0], widths, n)[:k] + [0] * (n - k)
    if v.op == "byte" and type(v.args[1]) is C:
        k = 8 * v.args[1].v
        return bits(v.args[0], widths, k + 8)[k:k + 8] + [0] * (n - 8) if n >= 8 else bits(v.args[0], widths, k + 8)[k:k + n]
    if v.op in ("int", "u8"):
        b = bits(v.args[0], widths, n)
        return b[:8] + [0] * (n - 8) if v.op == "u8" else b
    if v.op == "ite":
        c = v.args[0]
        a, b = bits(v.args[1], widths, n), bits(v.args[2], widths, n)
        cb = bits(c, widths, 1)[0]
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif x == 1 and y == 0:
                out.append(cb)
            else:
                out.append(None)
        return out
    if v.op == "cmp":
        # (x & mask) > 0 / != 0 / == mask with a one-bit mask
        op, a, b = v.args
        if op in (">", "!=", "==", ">=") and type(b) is C:
            ab = bits(a, widths, n)
            live = [(i, x) for i, x in enumerate(ab) if x != 0]
            if len(live) == 1 and live[0][1] is not None:
                i, x = live[0]
                if (op in (">", "!=") and b.v == 0) or (op in ("==", ">=") and b.v == (1 << i)):
                    return [x] + [0] * (n - 1)
        return [(v, 0)] + [0] * (n - 1)
    if v.op == "bool":
        ab = bits(v.args[0], widths, n)
        live = [x for x in ab if x != 0]
        if len(live) == 1 and live[0] is not None:
            return [live[0]] + [0] * (n - 1)
        return [(v, 0)] + [0] * (n - 1)
    w = width(v, widths)
    if w is not None:
        return [(v, i) if i < w else 0 for i in range(n)]
    return [None] * n
