"""Abstract machine state: heap objects (immutable), copy-on-write state,
branch facts."""
from .terms import (C, T, R, Tup, Ar, Val, mk, sub, neg, add, nonneg, _poly)


class Obj:
    __slots__ = ()


class _O(Obj):
    __slots__ = ("_k", "_h")

    def __eq__(self, o):
        return self is o or (type(o) is type(self) and o._k == self._k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h


class Inst(_O):
    """Instance of a class.  attrs: dict (never mutated).  lazy: attributes
    not present are symbolic rather than missing."""
    __slots__ = ("cls", "attrs", "lazy")

    def __init__(self, cls, attrs, lazy=False):
        self.cls, self.attrs, self.lazy = cls, attrs, lazy
        self._k = (id(cls), frozenset(attrs.items()), lazy)
        self._h = hash(self._k)

    def set(self, name, v):
        a = dict(self.attrs)
        a[name] = v
        return Inst(self.cls, a, self.lazy)

    def delete(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Inst(self.cls, a, self.lazy)


class Lst(_O):
    """items: known prefix; summ: abstract further elements (or None);
    ln: length value."""
    __slots__ = ("items", "summ", "ln")

    def __init__(self, items=(), summ=None, ln=None):
        self.items = tuple(items)
        self.summ = summ
        self.ln = C(len(self.items)) if ln is None else ln
        self._k = (self.items, summ, self.ln)
        self._h = hash(self._k)

    @property
    def exact(self):
        return self.summ is None


class Dct(_O):
    """items: tuple of (key, value); open_: symbolic token for unknown
    further content, or None."""
    __slots__ = ("items", "open_", "default")

    def __init__(self, items=(), open_=None, default=None):
        self.items = tuple(items)
        self.open_ = open_
        self.default = default
        self._k = (self.items, open_, default)
        self._h = hash(self._k)


class Set_(_O):
    """base: token for unknown content (None: started empty), adds: values
    added since."""
    __slots__ = ("base", "adds")

    def __init__(self, base=None, adds=()):
        self.base, self.adds = base, tuple(adds)
        self._k = (base, self.adds)
        self._h = hash(self._k)


class Sto(_O):
    """Array storage.  content = (base, writes)."""
    __slots__ = ("base", "writes", "ln", "owner")

    def __init__(self, base, writes=(), ln=None, owner=None):
        self.base, self.writes, self.ln, self.owner = base, tuple(writes), ln, owner
        self._k = (base, self.writes, ln)
        self._h = hash(self._k)

    @property
    def content(self):
        return (self.base, self.writes)


class Opq(_O):
    """Opaque external object with attribute overlay."""
    __slots__ = ("what", "attrs")

    def __init__(self, what, attrs=()):
        self.what, self.attrs = what, dict(attrs)
        self._k = (what, frozenset(self.attrs.items()))
        self._h = hash(self._k)


class St:
    __slots__ = ("env", "stack", "heap", "facts", "mon", "ctx", "_own")

    def __init__(self):
        self.env = {}
        self.stack = ()
        self.heap = {}
        self.facts = {}
        self.mon = None
        self.ctx = ()
        self._own = 7

    def fork(self):
        n = St.__new__(St)
        n.env, n.stack, n.heap, n.facts, n.mon, n.ctx = self.env, self.stack, self.heap, self.facts, self.mon, self.ctx
        n._own = 0
        self._own = 0
        return n

    # functional updates: return a new state
    def setvar(self, name, v):
        n = self.fork()
        n.env = dict(self.env)
        n.env[name] = v
        return n

    def setvars(self, d):
        n = self.fork()
        n.env = dict(self.env)
        n.env.update(d)
        return n

    def delvar(self, name):
        n = self.fork()
        n.env = dict(self.env)
        n.env.pop(name, None)
        return n

    def put(self, oid, obj):
        n = self.fork()
        n.heap = dict(self.heap)
        n.heap[oid] = obj
        return n

    def puts(self, d):
        n = self.fork()
        n.heap = dict(self.heap)
        n.heap.update(d)
        return n

    def withmon(self, mon):
        if mon == self.mon:
            return self
        n = self.fork()
        n.mon = mon
        return n

    def withctx(self, ctx):
        n = self.fork()
        n.ctx = ctx
        return n

    def push(self, env):
        n = self.fork()
        n.stack = self.stack + (self.env,)
        n.env = env
        return n

    def pop(self):
        n = self.fork()
        n.env = self.stack[-1]
        n.stack = self.stack[:-1]
        return n

    def swap(self, d):
        """Exchange the running frame with the one at depth d."""
        n = self.fork()
        n.env = self.stack[d]
        n.stack = self.stack[:d] + (self.env,) + self.stack[d + 1:]
        return n

    def assume(self, key, val):
        if self.facts.get(key) == val:
            return self
        n = self.fork()
        n.facts = dict(self.facts)
        n.facts[key] = val
        return n


# ------------------------------------------------------------------- facts

def isint(v):
    if type(v) is C:
        return isinstance(v.v, int)
    return type(v) is T and (v.op == "poly" or v.kind in ("int", "nat", "byte", "bool") or v.op in ("load8", "len", "band", "bor", "shl", "shr", "div", "mod", "min", "max", "int", "ite", "u16", "cmp"))


def _eqkey(d):
    """normalise sign of a polynomial difference"""
    p = _poly(d)
    if p is None:
        return d
    ks = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda kv: (len(kv[0]), [t.uid for t in kv[0]]))
    if ks and ks[0][1] < 0:
        return neg(d)
    return d


def fact_key(t):
    """(key, polarity) for a boolean term"""
    pol = True
    while type(t) is T and t.op == "not":
        pol = not pol
        t = t.args[0]
    if type(t) is T and t.op == "cmp":
        op, a, b = t.args
        if op in ("!=", ">=", "<=", "is not", "notin"):
            op = {"!=": "==", ">=": "<", "<=": ">", "is not": "is", "notin": "in"}[op]
            pol = not pol
        if op == ">":
            op, a, b = "<", b, a
        if op == "<":
            d = sub(a, b)
            if d is not None:
                return ("lt", d), pol
            return ("cmp", "<", a, b), pol
        if op == "==":
            d = sub(a, b) if isint(a) and isint(b) else None
            if d is not None:
                return ("eq", _eqkey(d)), pol
            if repr(a) > repr(b):
                a, b = b, a
            return ("cmp", "==", a, b), pol
        if op == "is":
            if type(a) is C and type(b) is not C:
                a, b = b, a
            return ("cmp", "is", a, b), pol
        return ("cmp", op, a, b), pol
    if type(t) is T and t.op == "bool":
        t = t.args[0]
    return ("t", t), pol


def _const_diff(a, b):
    d = sub(a, b)
    if type(d) is C and isinstance(d.v, int):
        return d.v
    return None


def query(facts, t):
    """True / False / None"""
    key, pol = fact_key(t)
    r = facts.get(key)
    if r is None:
        r = _infer(facts, key)
    if r is None:
        return None
    return r if pol else not r


def _infer(facts, key):
    k = key[0]
    if k == "lt":
        d = key[1]
        if type(d) is C:
            return d.v < 0
        if nonneg(d):
            return False
        nd = sub(neg(d), C(1))
        if nd is not None and nonneg(nd):
            return True
        for fk, fv in facts.items():
            if fk[0] == "lt":
                c = _const_diff(d, fk[1])
                if c is not None:
                    if fv and c <= 0:
                        return True
                    if not fv and c >= 0:
                        return False
                s = add(d, fk[1])       # d = s - d'
                if type(s) is C:
                    # fv: d' <= -1 -> d >= s+1 ; not fv: d' >= 0 -> d <= s
                    if fv and s.v + 1 >= 0:
                        return False
                    if not fv and s.v < 0:
                        return True
                # d = d' + something nonneg
                if not fv:
                    df = sub(d, fk[1])
                    if df is not None and nonneg(df):
                        return False
                else:
                    df = sub(fk[1], d)
                    if df is not None and nonneg(df):
                        return True
            elif fk[0] == "eq" and fv:
                c = _const_diff(d, fk[1])
                if c is not None:
                    return c < 0
                s = add(d, fk[1])
                if type(s) is C:
                    return s.v < 0
        return None
    if k == "eq":
        d = key[1]
        if type(d) is C:
            return d.v == 0
        for x in (d, neg(d)):
            y = sub(x, C(1))
            if y is not None and nonneg(y):
                return False
        for fk, fv in facts.items():
            if fk[0] == "lt" and fv:
                c = _const_diff(d, fk[1])
                if c is not None and c <= 0:
                    return False
                nd = neg(d)
                c = _const_diff(nd, fk[1])
                if c is not None and c <= 0:
                    return False
            elif fk[0] == "lt" and not fv:
                for x in (d, neg(d)):
                    c = _const_diff(x, fk[1])
                    if c is not None and c > 0:
                        return False
            elif fk[0] == "eq" and fv:
                c = _const_diff(d, fk[1])
                if c is not None:
                    return c == 0
                s = add(d, fk[1])
                if type(s) is C:
                    return s.v == 0
        return None
    if k == "cmp" and key[1] == "==":
        a, b = key[2], key[3]
        # x == c1 known, asked x == c2
        for x, y in ((a, b), (b, a)):
            if type(y) is C:
                for fk, fv in facts.items():
                    if fv and fk[0] == "cmp" and fk[1] == "==":
                        for p, q in ((fk[2], fk[3]), (fk[3], fk[2])):
                            if p == x and type(q) is C and q != y:
                                return False
    if k == "cmp" and key[1] == "is" and type(key[3]) is C and key[3].v is None:
        v = facts.get(("t", key[2]))
        if v is True:
            return False
    if k == "t":
        v = facts.get(("cmp", "is", key[1], C(None)))
        if v is True:
            return False
        x = key[1]
        if type(x) is T:
            if isint(x):
                v = query_key(facts, ("eq", _eqkey(x)))
                if v is not None:
                    return not v
            v = facts.get(("cmp", "==") + tuple(sorted((x, C("")), key=repr)))
            if v is True:
                return False
    return None


def query_key(facts, key):
    r = facts.get(key)
    return r if r is not None else _infer(facts, key)
