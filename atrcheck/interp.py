"""Abstract interpreter over the package's syntax trees.

It never runs the analysed code: every construct is given a transfer function
over abstract values (terms.py) and abstract states (state.py).  Loops over
anything but small constant iterables are solved by a fixpoint with widening,
calls are resolved through the abstract values (class hierarchy, bound methods,
properties) and analysed in context."""
import ast
import builtins
import os
import time

from .terms import *
from .terms import _poly
from .state import *
from .state import isint, fact_key, query
from .program import Program, FuncInfo, ClassInfo, AnalysisBroken, walk_scope
from . import models

MAXSTATES = 40
DEBUG = False
# the analysis gives up (undecided) rather than run on for ever
DEADLINE = time.monotonic() + float(os.environ.get("ATRCHECK_SECONDS", "600"))
BUILTINS = set(dir(builtins))


class Budget(Exception):
    pass


class Client:
    """Hooks of one analysis.  All are optional."""
    unroll = 8
    exc_handled_only = True
    peel = 0
    soft = True         # unroll while loops whose exits are decided
    exact_list = 64
    max_writes = 40
    track_empty = False  # keep apart empty and non-empty lists, 0 and positive counters

    def partition(self, st):
        """further facts by which states are kept apart (with track_empty):
        (name, constant) pairs"""
        return ()

    def on_endless(self, it, node, st, n):
        """a while loop ran through all peeled iterations, every branch
        decided"""
        pass
    coarse = False

    def pre_call(self, it, st, f, args, kwargs, node):
        return None

    def on_ext(self, it, st, name, args, kwargs, node):
        return None

    def on_method(self, it, st, base, name, args, kwargs, node):
        return None

    def attr(self, it, st, base, name, node):
        return None

    def on_store(self, it, st, sid, off, n, value, node):
        return st

    def on_setattr(self, it, st, ref, name, value, node):
        return st

    def on_stmt(self, it, st, stmt):
        return ()

    def on_backedge(self, it, head, st, node):
        return st

    def on_call(self, it, st, fn, node):
        return st

    def on_import(self, it, st, name, node):
        return None


class Interp:
    def __init__(self, program, client=None, base=None, budget=400000):
        self.prog = program
        self.client = client or Client()
        self.budget = budget
        self.steps = 0
        self.depth = 0
        self.try_stack = []
        self.yield_stack = []
        self.active = []
        self.funcs_seen = set()
        self.stmts_seen = set()
        self.calls_seen = 0
        self.loops_seen = set()
        self.opaque = {}
        self._nids = {}
        self._ctxs = {}
        self._uid = 0
        if base is not None:
            self.globals = base.globals
            self.gheap = base.gheap
            self.snaps = base.snaps
            self.fninfo = base.fninfo
            self.overrides = base.overrides
            self._loaded = True
            self.modinfo_of = base.modinfo_of
        else:
            self.globals = {}
            self.gheap = {}
            self.snaps = {}
            self.fninfo = {}
            self.overrides = {}
            self.modinfo_of = {}
            self._loaded = False
            self.load_all()

    # ------------------------------------------------------------ identity
    def nid(self, node):
        if node is None:
            return 0
        return (getattr(node, "_mod", "?"), getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)

    def ctxid(self, st, node, tag=None):
        k = (st.ctx, self.nid(node), tag)
        i = self._ctxs.get(k)
        if i is None:
            i = len(self._ctxs) + 1
            self._ctxs[k] = i
        return i

    def fresh(self, st, node, tag="v", kind=None):
        return sym(("@%s" % tag, self.ctxid(st, node, tag)), kind)

    def alloc(self, st, node, obj, tag="o"):
        base = (tag, self.ctxid(st, node, tag))
        oid = base
        n = 0
        while oid in st.heap or oid in self.gheap:
            n += 1
            oid = base + (n,)
        return st.put(oid, obj), R(oid)

    def obj(self, st, ref):
        o = st.heap.get(ref.id)
        if o is None:
            o = self.gheap.get(ref.id)
        return o

    def where(self, node):
        return "%s:%d" % (getattr(node, "_file", "?"), getattr(node, "lineno", 0))

    # ------------------------------------------------------------- modules
    def load_all(self):
        for m in self.prog.modules.values():
            self.tag_nodes(m)
        c = self.client
        self.client = _LoadClient()
        self._loading = set()
        names = sorted(self.prog.modules)
        for n in names:
            self.load_module(n)
        self.client = c
        self._loaded = True

    def tag_nodes(self, m):
        for n in ast.walk(m.tree):
            n._mod = m.name
            n._file = m.file

    def load_module(self, name):
        if name in self.globals:
            return
        m = self.prog.modules[name]
        g = {"__name__": C(name), "__file__": C(m.path)}
        self.globals[name] = g
        st = St()
        st.env = {"$mod": C(name)}
        st.ctx = ("module", name)
        saved = (self.active, self.try_stack, self.depth)
        self.active, self.try_stack, self.depth = [], [], 0
        outs = self.exec_block(m.tree.body, st)
        self.active, self.try_stack, self.depth = saved
        ok = [s for k, s, v in outs if k == "n"]
        if not ok:
            raise AnalysisBroken("module %s cannot be evaluated: %r" % (name, [(k, v) for k, s, v in outs][:3]))
        st = ok[0]
        for k, v in st.env.items():
            if not k.startswith("$"):
                g[k] = v
        self.gheap.update(st.heap)

    def ismod(self, st):
        return "$fn" not in st.env

    def modname(self, st):
        return st.env["$mod"].v

    # --------------------------------------------------------------- names
    def lookup(self, st, name, node):
        v = st.env.get(name)
        if v is not None:
            return v
        fn = st.env.get("$fn")
        if fn is not None and fn.closure:
            v = self.closure_lookup(st, fn, name)
            if v is not None:
                return v
        return self.lookup_global(st, self.modname(st), name)

    def closure_lookup(self, st, fn, name):
        while fn is not None and fn.closure:
            fid, snap = fn.closure
            env = None
            for e in reversed(st.stack):
                if e.get("$fid") == fid:
                    env = e
                    break
            if env is None:
                env = self.snaps[snap]
            v = env.get(name)
            if v is not None:
                return v
            fn = env.get("$fn")
        return None

    def lookup_global(self, st, mod, name):
        ov = st.heap.get(("g", mod))
        if ov is not None and name in ov.attrs:
            return ov.attrs[name]
        g = self.globals.get(mod)
        if g is not None and name in g:
            return g[name]
        if name in BUILTINS:
            return Ex("builtins." + name)
        if name == "__builtins__":
            return Ex("builtins")
        return None

    # --------------------------------------------------------------- blocks
    def tick(self):
        self.steps += 1
        if self.steps > self.budget or not self.steps & 255 and time.monotonic() > DEADLINE:
            raise Budget()

    def exec_block(self, body, st):
        states = [st]
        done = []
        for i, stmt in enumerate(body):
            nxt = []
            for s in states:
                for o in self.exec_stmt(stmt, s):
                    if o[0] == "n":
                        nxt.append(o[1])
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.merge(nxt, stmt)
            states = nxt
            if not states:
                break
        done.extend(("n", s, NONE) for s in states)
        if len(done) > 8:
            done = self.dedupe(done)
        return done

    def exec_stmt(self, s, st):
        self.tick()
        if self._loaded:
            self.stmts_seen.add(s)
        extra = self.client.on_stmt(self, st, s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            outs = [("n", st, NONE)]
        else:
            outs = m(s, st)
        if extra:
            outs = list(outs) + list(extra)
        return outs

    # --------------------------------------------------------------- merge
    def statekey(self, st):
        return (st.mon, st.ctx, hash(frozenset(st.env.items())), len(st.stack))

    def same(self, a, b):
        if a.mon != b.mon or a.ctx != b.ctx or len(a.stack) != len(b.stack):
            return False
        if a.env is not b.env and a.env != b.env:
            return False
        if a.heap is not b.heap and a.heap != b.heap:
            return False
        for x, y in zip(a.stack, b.stack):
            if x is not y and x != y:
                return False
        return True

    def isect(self, a, b):
        if a.facts is b.facts:
            return a
        f = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        if len(f) == len(a.facts):
            return a
        n = a.fork()
        n.facts = f
        return n

    def merge(self, states, node, limit=MAXSTATES):
        out = self.merge_eq(states)
        if len(out) <= limit:
            return out
        # forced merge of states with the same monitor and flags
        groups = {}
        for s in out:
            groups.setdefault((s.mon, s.ctx, len(s.stack), self.flags(s)), []).append(s)
        out2 = []
        for k, g in groups.items():
            x = g[0]
            for y in g[1:]:
                x = self.join(x, y, ("m", self.nid(node)), None)
            out2.append(x)
        if len(out2) > limit * 4:
            groups = {}
            for s in out2:
                groups.setdefault((s.mon, s.ctx, len(s.stack)), []).append(s)
            out2 = []
            for k, g in groups.items():
                x = g[0]
                for y in g[1:]:
                    x = self.join(x, y, ("m", self.nid(node)), None)
                out2.append(x)
        return out2

    def merge_eq(self, states):
        buckets = {}
        order = []
        for s in states:
            k = self.statekey(s)
            if self.client.track_empty:
                k = (k, frozenset(self.client.partition(s)))
            b = buckets.setdefault(k, [])
            for i, t in enumerate(b):
                if self.same(order[t], s):
                    order[t] = self.isect(order[t], s)
                    break
            else:
                b.append(len(order))
                order.append(s)
        return order

    def dedupe(self, outs):
        groups = {}
        for k, s, v in outs:
            try:
                key = (k, v)
                hash(key)
            except TypeError:
                key = (k, id(v))
            groups.setdefault(key, []).append(s)
        res = []
        for (k, v), g in groups.items():
            g = self.merge(g, None) if len(g) > 1 else g
            for s in g:
                res.append((k, s, v))
        return res

    def flags(self, st):
        if not st.env:
            return ()
        fl = [(k, v) for k, v in st.env.items() if type(v) is C and (v.v is None or isinstance(v.v, bool)) and (k[0] != "$" or k.startswith("$acc"))]
        if self.client.track_empty:
            for k, v in st.env.items():
                if k[0] == "$" and not k.startswith("$acc"):
                    continue
                if type(v) is R:
                    o = self.obj(st, v)
                    if type(o) is Set_:
                        fl.append((k, C("p" if o.adds or o.base is not None and o.base[0] == "phi1" else "z" if o.base is None else "?")))
                        continue
                    if type(o) is not Lst or o.ln is None:
                        continue
                    v = o.ln
                elif not isint(v) or type(v) is C and isinstance(v.v, bool):
                    continue
                fl.append((k, C("z" if v == C(0) else "p" if positive(v) else "?")))
            fl.extend(self.client.partition(st))
        for n, e in enumerate((st.env,) + st.stack):
            me = e.get("self")
            if type(me) is R:
                o = self.obj(st, me)
                if type(o) is Inst:
                    for a, v in o.attrs.items():
                        if type(v) is R:
                            w = self.obj(st, v)
                            if type(w) is Inst and w.cls is not None:
                                fl.append((str(n) + "." + a, C(w.cls.name)))
                        elif a == "header":
                            fl.append((str(n) + "." + a, C("?")))
        return tuple(sorted(fl, key=str))

    def explain(self, a, b, node):
        print("UNSTABLE", self.where(node))
        for k in set(a.env) | set(b.env):
            if a.env.get(k) != b.env.get(k):
                print("   env", k, str(a.env.get(k))[:150], "=>", str(b.env.get(k))[:150])
        for i, (x, y) in enumerate(zip(a.stack, b.stack)):
            for k in set(x) | set(y):
                if x.get(k) != y.get(k):
                    print("   stk", i, k, str(x.get(k))[:150], "=>", str(y.get(k))[:150])
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x != y:
                if type(x) is Inst and type(y) is Inst:
                    d = {n: (str(x.attrs.get(n))[:100], str(y.attrs.get(n))[:100]) for n in set(x.attrs) | set(y.attrs) if x.attrs.get(n) != y.attrs.get(n)}
                else:
                    d = (getattr(x, "_k", None), getattr(y, "_k", None))
                print("   heap", k, str(d)[:600])
        if len(a.facts) != len(b.facts):
            print("   facts", len(a.facts), len(b.facts))

    def gc(self, st, keep):
        """drop heap objects allocated since loop entry that nothing refers
        to any more (objects older than the loop may be held by temporaries)"""
        heap = st.heap
        seen = set()
        work = []

        def vis(v):
            t = type(v)
            if t is C or t is str or t is int or v is None:
                return
            if t is R:
                if v.id not in seen:
                    seen.add(v.id)
                    work.append(v.id)
            elif t is Ar:
                if v.sid not in seen:
                    seen.add(v.sid)
                    work.append(v.sid)
                if v.xf:
                    vis(v.xf)
            elif t is Rec:
                if v.sid not in seen:
                    seen.add(v.sid)
                    work.append(v.sid)
            elif t is Tup or t is Sl:
                for x in (v.items if t is Tup else v._k):
                    vis(x)
            elif t is tuple or t is list:
                for x in v:
                    vis(x)
            elif t is dict:
                for x in v.values():
                    vis(x)
            elif t is Bm:
                vis(v.self_)
            elif t is Xm:
                vis(v.base)
            elif t is Gen:
                vis(v.env)
            elif t is Iter:
                vis(v.args)
            elif t is Fn:
                vis(v.closure)
            elif t is Wrapd:
                vis(v.fn)
            elif t is Super:
                vis(v._k)
            elif t is Xc:
                vis(v.args)
        vis(st.env)
        for e in st.stack:
            vis(e)
        vis(st.mon if type(st.mon) is tuple else None)
        for oid in heap:
            if oid in keep or type(oid) is str or oid[0] in ("c", "g", "t"):
                if oid not in seen:
                    seen.add(oid)
                    work.append(oid)
        while work:
            oid = work.pop()
            o = heap.get(oid)
            if type(oid) is tuple and oid and oid[0] == "el" and oid[1] not in seen:
                seen.add(oid[1])
                work.append(oid[1])
            if o is None:
                continue
            t = type(o)
            if t is Inst or t is Opq:
                vis(o.attrs)
            elif t is Lst:
                vis(o.items)
                if o.summ is not None:
                    vis(o.summ)
            elif t is Dct:
                for a, b in o.items:
                    vis(a)
                    vis(b)
            elif t is Set_:
                vis(o.adds)
        if len(seen) >= len(heap) and all(k in seen for k in heap):
            return st
        n = st.fork()
        n.heap = {k: v for k, v in heap.items() if k in seen}
        return n

    # ---------------------------------------------------------------- join
    def join(self, a, b, tag, K, it=None):
        """Join two states.  K: counter symbol of a loop (enables affine
        generalisation) or None."""
        n = a.fork()
        n.heap = dict(a.heap)
        j = _Joiner(self, a, b, n, tag, K, it)
        env = {}
        for k in a.env:
            if k in b.env:
                env[k] = j.val(a.env[k], b.env[k], ("e", k))
        for k in list(a.env) + list(b.env):
            if k not in env and (k.startswith("$")):
                env[k] = a.env.get(k, b.env.get(k))
        stack = []
        for d, (x, y) in enumerate(zip(a.stack, b.stack)):
            if x is y or x == y:
                stack.append(x)
            else:
                stack.append({k: j.val(x[k], y[k], ("s", d, k)) for k in x if k in y})
        for oid in b.heap:
            if oid not in a.heap:
                n.heap[oid] = b.heap[oid]
            elif a.heap[oid] is not b.heap[oid] and a.heap[oid] != b.heap[oid]:
                n.heap[oid] = j.objs(oid, a.heap[oid], b.heap[oid], ("h", oid))
        n.env = env
        n.stack = tuple(stack)
        fa, fb = a.facts, b.facts
        if fa is not fb:
            n.facts = {k: v for k, v in fa.items() if fb.get(k) == v or query_fact(fb, k, v)}
        return n

    # ---------------------------------------------------------- statements
    def s_Expr(self, s, st):
        return [(k, x, NONE if k == "n" else v) for k, x, v in self.ev(s.value, st)]

    def s_Pass(self, s, st):
        return [("n", st, NONE)]

    def s_Global(self, s, st):
        return [("n", st, NONE)]

    s_Nonlocal = s_Global

    def s_Break(self, s, st):
        return [("b", st, NONE)]

    def s_Continue(self, s, st):
        return [("c", st, NONE)]

    def s_Return(self, s, st):
        if s.value is None:
            return [("r", st, NONE)]
        return [("r" if k == "n" else k, x, v) for k, x, v in self.ev(s.value, st)]

    def s_Assert(self, s, st):
        out = []
        for k, x, v in self.ev(s.test, st):
            if k != "n":
                out.append((k, x, v))
                continue
            for b, y in self.branch(x, v, s):
                out.append(("n", y, NONE) if b else ("x", y, Xc(Ex("builtins.AssertionError"), site=s)))
        return out

    def s_If(self, s, st):
        out = []
        for k, x, v in self.ev(s.test, st):
            if k != "n":
                out.append((k, x, v))
                continue
            for b, y in self.branch(x, v, s):
                body = s.body if b else s.orelse
                if body:
                    out.extend(self.exec_block(body, y))
                else:
                    out.append(("n", y, NONE))
        return out

    def s_Assign(self, s, st):
        out = []
        for k, x, v in self.ev(s.value, st):
            if k != "n":
                out.append((k, x, v))
                continue
            cur = [("n", x, NONE)]
            for t in s.targets:
                nxt = []
                for kk, y, w in cur:
                    if kk == "n":
                        nxt.extend(self.assign(t, y, v, s))
                    else:
                        nxt.append((kk, y, w))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("n", st, NONE)]
        out = []
        for k, x, v in self.ev(s.value, st):
            out.extend(self.assign(s.target, x, v, s) if k == "n" else [(k, x, v)])
        return out

    def s_AugAssign(self, s, st):
        out = []
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            load._mod, load._file = t._mod, t._file
            for k, x, a in self.ev(load, st):
                if k != "n":
                    out.append((k, x, a))
                    continue
                for k2, y, b in self.ev(s.value, x):
                    if k2 != "n":
                        out.append((k2, y, b))
                        continue
                    for k3, z, r in self.inplace(y, op, a, b, s):
                        out.extend(self.assign(t, z, r, s) if k3 == "n" else [(k3, z, r)])
        elif isinstance(t, ast.Attribute):
            for k, x, o in self.ev(t.value, st):
                if k != "n":
                    out.append((k, x, o))
                    continue
                for k1, x1, a in self.getattr(x, o, t.attr, t):
                    if k1 != "n":
                        out.append((k1, x1, a))
                        continue
                    for k2, y, b in self.ev(s.value, x1):
                        if k2 != "n":
                            out.append((k2, y, b))
                            continue
                        for k3, z, r in self.inplace(y, op, a, b, s):
                            out.extend(self.setattr(z, o, t.attr, r, s) if k3 == "n" else [(k3, z, r)])
        elif isinstance(t, ast.Subscript):
            for k, x, (o, i) in self.evs([t.value, t.slice], st):
                if k != "n":
                    out.append((k, x, o))
                    continue
                for k1, x1, a in self.getitem(x, o, i, t):
                    if k1 != "n":
                        out.append((k1, x1, a))
                        continue
                    for k2, y, b in self.ev(s.value, x1):
                        if k2 != "n":
                            out.append((k2, y, b))
                            continue
                        for k3, z, r in self.binop(y, op, a, b, s):
                            out.extend(self.setitem(z, o, i, r, s) if k3 == "n" else [(k3, z, r)])
        return out

    def inplace(self, st, op, a, b, node):
        if type(a) is R:
            o = self.obj(st, a)
            if type(o) is Lst and op == "Add":
                return [(k, x, a if k == "n" else v) for k, x, v in models.list_extend(self, st, a, b, node)]
            if type(o) is Inst:
                nm = {"BitAnd": "__iand__", "BitOr": "__ior__", "Add": "__iadd__", "Sub": "__isub__"}.get(op)
                f, c = o.cls.find(nm) if nm else (None, None)
                if f is not None:
                    return self.call_value(st, Bm(a, f), [b], {}, node)
        if type(a) is Ar:
            outs = []
            for k, x, v in self.binop(st, op, a, b, node):
                if k == "n":
                    x = models.array_store(self, x, a, v, node)
                    outs.append(("n", x, a))
                else:
                    outs.append((k, x, v))
            return outs
        return self.binop(st, op, a, b, node)

    def s_Delete(self, s, st):
        outs = [("n", st, NONE)]
        for t in s.targets:
            nxt = []
            for k, x, v in outs:
                if k != "n":
                    nxt.append((k, x, v))
                elif isinstance(t, ast.Name):
                    nxt.append(("n", x.delvar(t.id), NONE))
                elif isinstance(t, ast.Subscript):
                    for k2, y, vs in self.evs([t.value, t.slice], x):
                        if k2 != "n":
                            nxt.append((k2, y, vs))
                        else:
                            nxt.extend(models.delitem(self, y, vs[0], vs[1], s))
                elif isinstance(t, ast.Attribute):
                    for k2, y, o in self.ev(t.value, x):
                        if k2 == "n" and type(o) is R and type(self.obj(y, o)) is Inst:
                            y = y.put(o.id, self.obj(y, o).delete(t.attr))
                        nxt.append((k2, y, NONE if k2 == "n" else o))
                else:
                    nxt.append(("n", x, NONE))
            outs = nxt
        return outs

    def s_FunctionDef(self, s, st):
        fn = self.make_fn(s, st)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(st, d, v)
        return [("n", self.bind(st, s.name, v), NONE)]

    def bind(self, st, name, v):
        if "$cls" in st.env or "$fn" not in st.env:
            if "$cls" not in st.env and not self._loaded:
                self.globals[self.modname(st)][name] = v
            return st.setvar(name, v)
        fn = st.env["$fn"]
        if name in fn.info.globals_:
            mod = self.modname(st)
            ov = st.heap.get(("g", mod)) or Opq("globals")
            a = dict(ov.attrs)
            a[name] = v
            return st.put(("g", mod), Opq("globals", a))
        if name in fn.info.nonlocals and fn.closure:
            fid = fn.closure[0]
            for i in range(len(st.stack) - 1, -1, -1):
                if st.stack[i].get("$fid") == fid:
                    e = dict(st.stack[i])
                    e[name] = v
                    n = st.fork()
                    n.stack = st.stack[:i] + (e,) + st.stack[i + 1:]
                    return n
        return st.setvar(name, v)

    def make_fn(self, node, st):
        cls = st.env.get("$cls")
        q = (cls.v + "." if cls is not None and isinstance(cls, C) else "") + getattr(node, "name", "<lambda>")
        info = getattr(node, "_info", None)
        if info is None:
            mod = self.prog.modules[self.modname(st)]
            info = FuncInfo(node, mod, None, q)
            node._info = info
        closure = ()
        # a class body does not form a closure scope: skip to its function
        env = st.env
        while "$cls" in env and "$outer" in env:
            env = self.snaps[env["$outer"].v]
        if "$fn" in env:
            self._uid += 1
            snap = ("snap", self.nid(node), st.ctx, self._uid)
            self.snaps[snap] = env
            closure = (env.get("$fid"), snap)
        return Fn(info, closure)

    def decorate(self, st, d, v):
        if isinstance(d, ast.Name):
            if d.id == "property":
                return Prop(v)
            if d.id in ("classmethod", "staticmethod"):
                return Wrapd(d.id, v)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name):
            p = st.env.get(d.value.id)
            if type(p) is Prop:
                return Prop(p.fget, v) if d.attr == "setter" else p
        outs = self.ev(d, st)
        if outs and outs[0][0] == "n":
            o = outs[0][2]
            if type(o) is Fn:
                r = self.call_value(outs[0][1], o, [v], {}, d)
                if r and r[0][0] == "n":
                    return r[0][2]
            if type(o) is Ex and o.name in ("functools.lru_cache", "functools.wraps", "functools.cache"):
                return v
        return v

    def s_ClassDef(self, s, st):
        bases = []
        x = st
        for b in s.bases:
            o = self.ev(b, x)
            o = [q for q in o if q[0] == "n"]
            if not o:
                bases.append(Ex("?"))
                continue
            x = o[0][1]
            bases.append(o[0][2] if type(o[0][2]) in (Cl, Ex) else Ex("?"))
        self._uid += 1
        outer = ("snapc", self.nid(s), self._uid)
        self.snaps[outer] = x.env
        env = {"$mod": x.env["$mod"], "$cls": C(s.name), "$outer": C(outer)}
        if "$fn" in x.env:
            env["$fn"] = x.env["$fn"]
            env["$fid"] = x.env.get("$fid", C(0))
        y = x.push(env)
        outs = self.exec_block(s.body, y)
        ok = [q for q in outs if q[0] == "n"]
        if not ok:
            return [("n", self.bind(x, s.name, Ex("?class")), NONE)]
        y = ok[0][1]
        cenv = {k: v for k, v in y.env.items() if not k.startswith("$")}
        y = y.pop()
        info = ClassInfo(s.name, self.prog.modules[self.modname(y)], s, bases, cenv)
        for v in cenv.values():
            self.own(v, info)
        return [("n", self.bind(y, s.name, Cl(info)), NONE)]

    def own(self, v, info):
        if type(v) is Fn and v.info.cls is None:
            v.info.cls = info
            v.info.qual = info.qual + "." + v.info.name
        elif type(v) is Prop:
            for f in (v.fget, v.fset):
                if f is not None:
                    self.own(f, info)
        elif type(v) is Wrapd:
            self.own(v.fn, info)

    def s_Import(self, s, st):
        outs = []
        for a in s.names:
            r = self.client.on_import(self, st, a.name, s)
            if r:
                outs.extend(r)
            top = a.name.split(".")[0]
            if a.asname:
                st = self.bind(st, a.asname, self.module_value(a.name))
            else:
                st = self.bind(st, top, self.module_value(top))
        if self.catchable("builtins.ImportError") and self._loaded and not getattr(self.client, "installed", False):
            outs.append(("x", st, Xc(Ex("builtins.ImportError"), site=s)))
        return outs + [("n", st, NONE)]

    def module_value(self, name):
        if name in self.prog.modules:
            if not self._loaded:
                self.load_module(name)
            return Mo(name)
        return Ex(name)

    def s_ImportFrom(self, s, st):
        base = self.prog.resolve_import(self.modname(st), s.level, s.module)
        if base in self.prog.modules:
            if not self._loaded:
                self.load_module(base)
        for a in s.names:
            if a.name == "*":
                g = self.globals.get(base, {})
                names = [n for n in g if not n.startswith("_")]
                if "__all__" in g:
                    o = g["__all__"]
                    if type(o) is R and type(self.gheap.get(o.id)) is Lst:
                        names = [i.v for i in self.gheap[o.id].items if type(i) is C]
                for n in names:
                    st = self.bind(st, n, g[n])
                continue
            full = base + "." + a.name
            tgt = a.asname or a.name
            if base in self.prog.modules and a.name in self.globals.get(base, {}):
                v = self.globals[base][a.name]
            elif full in self.prog.modules:
                if not self._loaded:
                    self.load_module(full)
                v = Mo(full)
            elif base in self.prog.modules:
                v = self.fresh(st, s, "import:" + a.name)
            else:
                v = Ex(full)
            st = self.bind(st, tgt, v)
        return [("n", st, NONE)]

    # ----------------------------------------------------------- exceptions
    def catchable(self, name):
        """is some active handler able to catch this builtin exception?"""
        for hs in self.try_stack:
            for h in hs:
                if h is None or self.exc_sub(Ex(name), h) is not False:
                    return True
        return False

    def exc_mro(self, c):
        if type(c) is Cl:
            out = []
            for k in c.info.mro():
                out.append(Cl(k) if isinstance(k, ClassInfo) else k)
                if type(k) is Ex:
                    out.extend(self.exc_mro(k)[1:])
            return out
        if type(c) is Ex:
            n = c.name
            if n.startswith("builtins."):
                b = getattr(builtins, n[9:], None)
                if isinstance(b, type):
                    return [Ex("builtins." + k.__name__) for k in b.__mro__]
            extra = models.EXT_EXC.get(n)
            if extra:
                return [c] + self.exc_mro(Ex(extra))
            return [c]
        return [c]

    def exc_sub(self, c, h):
        """is exception class c caught by handler value h? True/False/None"""
        if h is None:
            return True
        if type(h) is Tup:
            rs = [self.exc_sub(c, i) for i in h.items]
            if True in rs:
                return True
            return None if None in rs else False
        if type(h) is Ex and h.name in ("builtins.IOError", "builtins.EnvironmentError"):
            h = Ex("builtins.OSError")
        if type(h) not in (Cl, Ex):
            return None
        if c is None:
            return None
        m = self.exc_mro(c)
        if type(h) is Ex and h.name in ("builtins.Exception", "builtins.BaseException"):
            if any(type(k) is Ex and k.name in ("builtins.SystemExit", "builtins.KeyboardInterrupt", "builtins.GeneratorExit") for k in m):
                return h.name == "builtins.BaseException"
            return True
        return h in m

    def matches(self, xc, h):
        if xc.anyexc:
            if h is None:
                return True
            if type(h) is Ex and h.name in ("builtins.Exception", "builtins.BaseException"):
                return True
            if type(h) is Tup and any(self.matches(xc, i) is True for i in h.items):
                return True
            if xc.cls is not None:
                # some subclass of cls
                r = self.exc_sub(xc.cls, h)
                return True if r is True else None
            return None
        return self.exc_sub(xc.cls, h)

    def s_Raise(self, s, st):
        if s.exc is None:
            e = st.env.get("$exc")
            if e is None:
                return [("x", st, Xc(Ex("builtins.RuntimeError"), site=s))]
            return [("x", st, e)]
        out = []
        for k, x, v in self.ev(s.exc, st):
            if k != "n":
                out.append((k, x, v))
                continue
            out.append(("x", x, self.to_exc(x, v, s)))
        return out

    def to_exc(self, st, v, node):
        if type(v) is Xc:
            return v
        if type(v) in (Cl, Ex):
            return Xc(v, site=node)
        if type(v) is R:
            o = self.obj(st, v)
            if type(o) is Inst:
                return Xc(Cl(o.cls), site=node)
            if type(o) is Opq and type(o.what) is Ex:
                return Xc(o.what, site=node)
        if type(v) is T and v.op == "exc":
            return Xc(v.args[0], site=node)
        return Xc(None, site=node, anyexc=True)

    def s_Try(self, s, st):
        # handler classes
        hv = []
        for h in s.handlers:
            if h.type is None:
                hv.append(None)
            else:
                o = [q for q in self.ev(h.type, st) if q[0] == "n"]
                hv.append(o[0][2] if o else sym("?handler"))
        self.try_stack.append(hv)
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.try_stack.pop()
        res = []
        pend = []
        for k, x, v in outs:
            if k == "n":
                if s.orelse:
                    pend.extend(self.exec_block(s.orelse, x))
                else:
                    pend.append((k, x, v))
            elif k == "x":
                caught = False
                for h, hval in zip(s.handlers, hv):
                    m = self.matches(v, hval)
                    if m is False:
                        continue
                    y = x
                    old = y.env.get("$exc")
                    y = y.setvar("$exc", v)
                    y = self.client_on_catch(y, v, h, s)
                    if h.name:
                        y = y.setvar(h.name, self.exc_value(y, v, h))
                    for kk, z, w in self.exec_block(h.body, y):
                        z = z.setvar("$exc", old) if old is not None else z.delvar("$exc")
                        pend.append((kk, z, w))
                    if m is True:
                        caught = True
                        break
                if not caught:
                    pend.append((k, x, v))
            else:
                pend.append((k, x, v))
        if not s.finalbody:
            return pend
        for k, x, v in pend:
            old = x.env.get("$exc")
            if k == "x":
                x = x.setvar("$exc", v)
            for kk, y, w in self.exec_block(s.finalbody, x):
                if k == "x":
                    y = y.setvar("$exc", old) if old is not None else y.delvar("$exc")
                if kk == "n":
                    res.append((k, y, v))
                else:
                    res.append((kk, y, w))
        return res

    s_TryStar = s_Try

    def client_on_catch(self, st, xc, handler, node):
        f = getattr(self.client, "on_catch", None)
        return f(self, st, xc, handler, node) if f else st

    def exc_value(self, st, xc, h):
        return mk("exc", xc.cls if xc.cls is not None else Ex("?"), C(str(self.nid(h))), *([C("message")] if models.has_message(xc.site) else []))

    def s_With(self, s, st):
        def go(i, st):
            if i == len(s.items):
                return self.exec_block(s.body, st)
            it = s.items[i]
            out = []
            for k, x, v in self.ev(it.context_expr, st):
                if k != "n":
                    out.append((k, x, v))
                    continue
                if type(v) is Gen:
                    out.extend(self.gen_ctx(x, v, it, s, lambda y: go(i + 1, y)))
                    continue
                for k1, x1, ev_ in self.enter_ctx(x, v, s):
                    if k1 != "n":
                        out.append((k1, x1, ev_))
                        continue
                    pre = [("n", x1, NONE)]
                    if it.optional_vars is not None:
                        pre = self.assign(it.optional_vars, x1, ev_, s)
                    for kk, y, w in pre:
                        if kk != "n":
                            out.append((kk, y, w))
                            continue
                        for k2, z, r in go(i + 1, y):
                            out.extend(self.exit_ctx(z, v, k2, r, s))
            return out
        return go(0, st)

    def gen_ctx(self, st, g, item, node, rest):
        """with statement on a contextlib.contextmanager generator: the body
        runs at the yield, an error of the body is raised there"""
        def body(x, val):
            pre = [("n", x, NONE)]
            if item.optional_vars is not None:
                pre = self.assign(item.optional_vars, x, val, node)
            out = []
            for k, y, w in pre:
                out.extend(rest(y) if k == "n" else [(k, y, w)])
            return [("cx", y, w) if k == "x" else ("cc", y, w) if k == "c" else (k, y, w) for k, y, w in out]
        return [("n" if k == "done" else "c" if k == "cc" else k, y, NONE if k == "done" else w) for k, y, w in self.iterate_gen(st, g, body, node)]

    def enter_ctx(self, st, v, node):
        if type(v) is R and type(self.obj(st, v)) is Inst:
            f, c = self.obj(st, v).cls.find("__enter__")
            if f is not None:
                return self.call_value(st, Bm(v, f), [], {}, node)
        return [("n", st, v)]

    def exit_ctx(self, st, v, k, r, node):
        if type(v) is R and type(self.obj(st, v)) is Inst:
            f, c = self.obj(st, v).cls.find("__exit__")
            if f is not None:
                if k == "x":
                    a = [self.exc_value(st, r, node), self.exc_value(st, r, node), self.fresh(st, node, "tb")]
                else:
                    a = [NONE, NONE, NONE]
                out = []
                old = st.env.get("$exc")
                if k == "x":
                    st = st.setvar("$exc", r)
                for k2, y, w in self.call_value(st, Bm(v, f), a, {}, node):
                    if k == "x":
                        y = y.setvar("$exc", old) if old is not None else y.delvar("$exc")
                    if k2 != "n":
                        out.append((k2, y, w))
                    elif k == "x":
                        for b, z in self.branch(y, w, node):
                            out.append(("n", z, NONE) if b else (k, z, r))
                    else:
                        out.append((k, y, r))
                return out
        if type(v) is T and v.op == "suppress" and k == "x":
            m = self.matches(r, v.args[0])
            if m is True:
                return [("n", st, NONE)]
            if m is None:
                return [("n", st, NONE), (k, st, r)]
        return [(k, st, r)]

    # ---------------------------------------------------------------- loops
    def s_While(self, s, st):
        itv = "$it%d_%d" % (s.lineno, s.col_offset)

        def step(x):
            out = []
            for k, y, v in self.ev(s.test, x):
                if k != "n":
                    out.append((k, y, v))
                    continue
                for b, z in self.branch(y, v, s):
                    if not b:
                        out.append(("done", z, NONE))
                        continue
                    out.extend(self.exec_block(s.body, z))
            return out
        pre = []
        n = 0
        base = st.ctx
        states = [st]
        hard = self.client.peel
        while n < (max(hard, self.client.unroll) if self.client.soft else hard):
            # evaluate iterations whose condition is decided by constants
            rest, nxt, left = [], [], False
            for x in states:
                r = self.ev(s.test, x)
                br = list(self.branch(r[0][1], r[0][2], s)) if len(r) == 1 and r[0][0] == "n" else ()
                if len(br) != 1:
                    rest.append(x)
                    continue
                b, z = br[0]
                if not b:
                    pre.append(("done", z, NONE))
                    continue
                for k, y, v in self.exec_block(s.body, z.withctx(self.ctxid(z, s, ("w", n)))):
                    y = y.withctx(base)
                    if k in ("n", "c"):
                        nxt.append(y)
                    else:
                        left = True
                        pre.append((k, y, v))
            if len(nxt) > 1:
                nxt = self.merge(nxt, s)
            n += 1
            if rest or len(nxt) > 4 or left and nxt and n > hard:
                states = rest + nxt
                break
            states = nxt
            if not states:
                break
        else:
            if n and n >= hard and hard and not pre and len(states) == 1:
                self.client.on_endless(self, s, states[0], n)
        outs = pre
        for x in states:
            outs.extend(self.run_loop(s, x, step, itv))
        return self.loop_else(s, outs)

    def loop_else(self, s, outs):
        res = []
        for k, x, v in outs:
            if k == "done":
                if s.orelse:
                    res.extend(self.exec_block(s.orelse, x))
                else:
                    res.append(("n", x, NONE))
            elif k == "b":
                res.append(("n", x, NONE))
            else:
                res.append((k, x, v))
        return res

    def s_For(self, s, st):
        out = []
        for k, x, v in self.ev(s.iter, st):
            if k != "n":
                out.append((k, x, v))
                continue

            def body(y, elem, s=s):
                r = []
                for kk, z, w in self.assign(s.target, y, elem, s):
                    if kk != "n":
                        r.append((kk, z, w))
                        continue
                    r.extend(self.exec_block(s.body, z))
                return r
            out.extend(self.loop_else(s, self.iterate(x, v, body, s)))
        return out

    def iterate(self, st, v, body, node):
        """Run body(st, elem) for the elements of v.  Outcomes: done, b, and
        anything else passed through."""
        o = models.isiter(self, st, v)
        if o is not None:
            # an iterator object: the position is kept in the heap
            inner, ref = body, v

            def body(x, e):
                p = models.isiter(self, x, ref)
                j = add(p.attrs["pos"], C(1)) if p is not None else None
                if p is not None:
                    x = x.put(ref.id, Opq("iter", {"src": p.attrs["src"], "pos": j if j is not None else self.fresh(x, node, "pos")}))
                return inner(x, e)
            if type(o.attrs["src"]) is Gen or o.attrs["pos"] == C(0):
                v = o.attrs["src"]
        seq = models.const_seq(self, st, v)
        lim = self.client.unroll if self._loaded else 100000
        if seq is not None and len(seq) <= lim:
            states = [st]
            out = []
            for i, e in enumerate(seq):
                nxt = []
                for x in states:
                    if callable(e):
                        x, ee = e(x)
                    else:
                        ee = e
                    base = x.ctx
                    x = x.withctx(self.ctxid(x, node, ("u", i)))
                    for k, y, w in body(x, ee):
                        y = y.withctx(base)
                        if k in ("n", "c"):
                            nxt.append(y)
                        else:
                            out.append((k, y, w))
                if len(nxt) > 1:
                    nxt = self.merge(nxt, node)
                states = nxt
            out.extend(("done", x, NONE) for x in states)
            return out
        if type(v) is Gen:
            return self.iterate_gen(st, v, body, node)
        # abstract iteration
        itv = "$it%d_%d" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        if itv in st.env:
            itv += "n"

        def step(x):
            out = []
            i = x.env[itv]
            for kind, y, e in models.iter_next(self, x, v, i, node):
                if kind == "done":
                    out.append(("done", y, NONE))
                elif kind == "n":
                    out.extend(body(y, e))
                else:
                    out.append((kind, y, e))
            return out
        return self.run_loop(node, st, step, itv)

    def iterate_gen(self, st, g, body, node):
        fn, env = g.fn, g.env
        uid = object()
        depth = len(self.yield_stack)
        fd = len(st.stack)

        def handler(x, val):
            # x: state in the generator frame; consumer frame is below
            x = x.swap(fd)
            saved = self.yield_stack
            self.yield_stack = saved[:depth]
            try:
                outs = body(x, val)
            finally:
                self.yield_stack = saved
            r = []
            for k, y, w in outs:
                y = y.swap(fd)
                if k in ("n", "c"):
                    r.append(("n", y, NONE))
                elif k == "cx":
                    r.append(("x", y, w))
                else:
                    r.append(("u", y, _Unw(uid, k, w)))
            return r
        self.yield_stack = self.yield_stack + [handler]
        ctx = st.ctx
        x = st.push(dict(env)).withctx(self.ctxid(st, node, "gen"))
        self.active.append(fn.info)
        try:
            outs = self.exec_block(fn.info.node.body, x)
        finally:
            self.active.pop()
            self.yield_stack = self.yield_stack[:depth]
        res = []
        for k, y, w in outs:
            y = y.pop().withctx(ctx)
            if k in ("n", "r"):
                res.append(("done", y, NONE))
            elif k == "u" and w.uid is uid:
                res.append((w.k, y, w.v))
            else:
                res.append((k, y, w))
        return res

    def run_loop(self, node, st, step, itv):
        if self._loaded:
            self.loops_seen.add(node)
        ctx0 = st.ctx
        lctx = self.ctxid(st, node, "loop")
        K = sym(("K", lctx), "nat")
        entry = st.setvar(itv, C(0)).withctx(lctx)
        stale = {k: v for k, v in entry.facts.items() if not mentions(k, lctx)}
        if len(stale) != len(entry.facts):
            entry.facts = stale
        heads = {}
        work = []

        def part(s):
            return (s.mon, self.flags(s))

        def arrive(s, src):
            s = self.gc(s, entry.heap)
            if src is not None:
                # K and the phis name this iteration's values: facts about
                # the previous iteration do not carry over
                live = {k: v for k, v in s.facts.items() if not mentions(k, lctx)}
                if len(live) != len(s.facts):
                    s = s.fork()
                    s.facts = live
            p = part(s)
            h = heads.get(p)
            if h is None:
                heads[p] = s
                work.append(p)
                return
            if self.same(h, s):
                n = self.isect(h, s)
                if n is not h:
                    heads[p] = n
                    if p not in work:
                        work.append(p)
                return
            n = self.gc(self.join(h, s, ("L", lctx, len(heads)), K, itv), entry.heap)
            if not self.same(n, h) or len(n.facts) != len(h.facts):
                if DEBUG and rounds.get(p, 0) > 8:
                    self.explain(h, n, node)
                heads[p] = n
                rounds[p] = rounds.get(p, 0) + 1
                if p not in work:
                    work.append(p)
        rounds = {}
        exits = {}
        arrive(entry, None)
        n = 0
        while work:
            p = work.pop(0)
            n += 1
            if n > 60 or rounds.get(p, 0) > 12 or (not self._loaded and n > 20000):
                self.opaque["loop not stabilised: " + self.where(node)] = True
                if n > 60:
                    break
                continue
            h = heads[p]
            outs = step(h)
            ex = []
            for k, x, v in outs:
                if k in ("n", "c"):
                    x = x.setvar(itv, add(x.env.get(itv, C(0)), C(1)))
                    x = self.client.on_backedge(self, h, x, node)
                    if x is None:
                        continue
                    arrive(x.withctx(lctx), p)
                else:
                    ex.append((k, x, v))
            exits[p] = ex
        res = []
        for p, ex in exits.items():
            for k, x, v in ex:
                x = x.delvar(itv).withctx(ctx0)
                res.append((k, x, v))
        if len(res) > 1:
            res = self.dedupe(res)
        return res

    # ----------------------------------------------------------- assignment
    def assign(self, t, st, v, node):
        if isinstance(t, ast.Name):
            return [("n", self.bind(st, t.id, v), NONE)]
        if isinstance(t, ast.Attribute):
            out = []
            for k, x, o in self.ev(t.value, st):
                out.extend(self.setattr(x, o, t.attr, v, node) if k == "n" else [(k, x, o)])
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for k, x, vs in self.evs([t.value, t.slice], st):
                out.extend(self.setitem(x, vs[0], vs[1], v, node) if k == "n" else [(k, x, vs)])
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for k, x, vals in models.unpack(self, st, v, t, node):
                if k != "n":
                    out.append((k, x, vals))
                    continue
                cur = [("n", x, NONE)]
                for e, w in zip(t.elts, vals):
                    nxt = []
                    for kk, y, z in cur:
                        nxt.extend(self.assign(e, y, w, node) if kk == "n" else [(kk, y, z)])
                    cur = nxt
                out.extend(cur)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v, node)
        return [("n", st, NONE)]

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return [("n", st, self.fresh(st, n))]
        return m(n, st)

    def evs(self, nodes, st):
        """evaluate several expressions in order: (k, st, [vals])"""
        cur = [("n", st, [])]
        for n in nodes:
            nxt = []
            for k, x, vs in cur:
                if k != "n":
                    nxt.append((k, x, vs))
                    continue
                for k2, y, v in self.ev(n, x):
                    nxt.append((k2, y, vs + [v]) if k2 == "n" else (k2, y, v))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [("n", st, C(n.value))]

    def e_Name(self, n, st):
        v = self.lookup(st, n.id, n)
        if v is None:
            if self._loaded and not self.ismod(st):
                fn = st.env["$fn"]
                known = n.id in fn.info.assigned or any(isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store) and q.id == n.id for q in walk_scope(fn.info.node))
                if known:
                    # bound on other paths; possibly unbound here
                    f = getattr(self.client, "on_unbound", None)
                    if f:
                        f(self, st, n)
                    return [("n", st, self.fresh(st, n, "unbound:" + n.id))]
            return [("x", st, Xc(Ex("builtins.NameError"), site=n, tag=n.id))]
        return [("n", st, v)]

    def e_Attribute(self, n, st):
        out = []
        for k, x, o in self.ev(n.value, st):
            out.extend(self.getattr(x, o, n.attr, n) if k == "n" else [(k, x, o)])
        return out

    def e_Subscript(self, n, st):
        out = []
        for k, x, vs in self.evs([n.value, n.slice], st):
            out.extend(self.getitem(x, vs[0], vs[1], n) if k == "n" else [(k, x, vs)])
        return out

    def e_Slice(self, n, st):
        parts = [n.lower, n.upper, n.step]
        nodes = [p for p in parts if p is not None]
        out = []
        for k, x, vs in self.evs(nodes, st):
            if k != "n":
                out.append((k, x, vs))
                continue
            vs = list(vs)
            r = [vs.pop(0) if p is not None else NONE for p in parts]
            out.append(("n", x, Sl(*r)))
        return out

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        return self._seq(n, st, lambda x, vs: (x, Tup(vs)))

    def e_List(self, n, st):
        return self._seq(n, st, lambda x, vs: self.alloc(x, n, Lst(vs), "l"))

    def e_Set(self, n, st):
        return self._seq(n, st, lambda x, vs: self.alloc(x, n, Set_(None, vs), "set"))

    def _seq(self, n, st, f):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            cur = [("n", st, [])]
            for e in n.elts:
                nxt = []
                for k, x, vs in cur:
                    if k != "n":
                        nxt.append((k, x, vs))
                        continue
                    for k2, y, v in self.ev(e.value if isinstance(e, ast.Starred) else e, x):
                        if k2 != "n":
                            nxt.append((k2, y, v))
                        elif isinstance(e, ast.Starred):
                            s = models.const_seq(self, y, v)
                            if s is None:
                                nxt.append(("n", y, vs + [mk("star", models.tv(self, y, v))]))
                            else:
                                nxt.append(("n", y, vs + [q for q in s if not callable(q)]))
                        else:
                            nxt.append(("n", y, vs + [v]))
                cur = nxt
        else:
            cur = self.evs(n.elts, st)
        out = []
        for k, x, vs in cur:
            if k == "n":
                x, v = f(x, vs)
                out.append(("n", x, v))
            else:
                out.append((k, x, vs))
        return out

    def e_Dict(self, n, st):
        if len(n.keys) > 40:
            # a big literal table
            try:
                lit = ast.literal_eval(n)
            except (ValueError, TypeError):
                lit = None
            if lit is not None:
                x, v = self.from_python(st, lit, n)
                return [("n", x, v)]
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for k, x, vs in self.evs(nodes, st):
            if k != "n":
                out.append((k, x, vs))
                continue
            vs = list(vs)
            items = []
            open_ = None
            for kk in n.keys:
                if kk is None:
                    d = vs.pop(0)
                    o = self.obj(x, d) if type(d) is R else None
                    if type(o) is Dct:
                        items.extend(o.items)
                        open_ = open_ or o.open_
                    else:
                        open_ = self.fresh(x, n, "dict")
                else:
                    a = vs.pop(0)
                    b = vs.pop(0)
                    items = [i for i in items if i[0] != a] + [(a, b)]
            x, r = self.alloc(x, n, Dct(items, open_), "d")
            out.append(("n", x, r))
        return out

    def from_python(self, st, v, node):
        if isinstance(v, dict):
            items = []
            for a, b in v.items():
                st, kv = self.from_python(st, a, node)
                st, vv = self.from_python_nested(st, b, node)
                items.append((kv, vv))
            self._uid += 1
            oid = ("lit", self.nid(node), self._uid)
            if self._loaded:
                return st.put(oid, Dct(items)), R(oid)
            self.gheap[oid] = Dct(items)
            return st, R(oid)
        if isinstance(v, (list,)):
            items = []
            for b in v:
                st, vv = self.from_python(st, b, node)
                items.append(vv)
            self._uid += 1
            oid = ("lit", self.nid(node), self._uid)
            if self._loaded:
                return st.put(oid, Lst(items)), R(oid)
            self.gheap[oid] = Lst(items)
            return st, R(oid)
        if isinstance(v, tuple):
            items = []
            for b in v:
                st, vv = self.from_python(st, b, node)
                items.append(vv)
            return st, Tup(items)
        return st, C(v)

    from_python_nested = from_python

    def e_ListComp(self, n, st):
        return self.comp(n, st, n.elt, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, n.elt, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, n.elt, "list")

    def e_DictComp(self, n, st):
        return self.comp(n, st, (n.key, n.value), "dict")

    def reduce_comp(self, n, st):
        """any, all or sum of a comprehension: a loop with an accumulator"""
        fn, c = n.func.id, n.args[0]
        acc = "$acc%d_%d" % (n.lineno, n.col_offset)
        st = st.setvar(acc, C(0) if fn == "sum" else C(fn == "all"))
        lazy = isinstance(c, ast.GeneratorExp)

        def emit(x):
            out = []
            for k, y, v in self.ev(c.elt, x):
                if k != "n":
                    out.append((k, y, v))
                elif fn == "sum":
                    w = add(y.env[acc], v) if isint(v) else None
                    if type(v) in (C, T) and (type(v) is C and isinstance(v.v, bool) or getattr(v, "kind", None) == "bool"):
                        for b, z in self.branch(y, v, c.elt):
                            out.append(("n", z.setvar(acc, add(z.env[acc], C(1))) if b else z, NONE))
                        continue
                    out.append(("n", y.setvar(acc, w if w is not None else self.fresh(y, n, "sum")), NONE))
                else:
                    for b, z in self.branch(y, v, c.elt):
                        if b == (fn == "any"):
                            out.append(("b" if lazy else "n", z.setvar(acc, C(fn == "any")), NONE))
                        else:
                            out.append(("n", z, NONE))
            return out
        out = []
        for k, x, v in self.comp(c, st, c.elt, "list", emit):
            if k in ("n", "b"):
                out.append(("n", x.delvar(acc), x.env.get(acc, NONE)))
            else:
                out.append((k, x, v))
        return self.dedupe(out) if len(out) > 1 else out

    def comp(self, n, st, elt, kind, emit_=None):
        names = set()
        for g in n.generators:
            for q in ast.walk(g.target):
                if isinstance(q, ast.Name):
                    names.add(q.id)
        saved = {k: st.env.get(k) for k in names}
        obj = {"list": Lst(), "set": Set_(), "dict": Dct()}[kind]
        st, ref = self.alloc(st, n, obj, "comp")

        def emit(x):
            if kind == "dict":
                out = []
                for k, y, vs in self.evs(list(elt), x):
                    out.extend(models.dict_set(self, y, ref, vs[0], vs[1], n) if k == "n" else [(k, y, vs)])
                return out
            out = []
            for k, y, v in self.ev(elt, x):
                if k != "n":
                    out.append((k, y, v))
                elif kind == "list":
                    out.append(("n", models.list_append(self, y, ref, v, n), NONE))
                else:
                    out.append(("n", models.set_add(self, y, ref, v, n), NONE))
            return out

        def level(i, x):
            if i == len(n.generators):
                return (emit_ or emit)(x)
            g = n.generators[i]
            out = []
            for k, y, v in self.ev(g.iter, x):
                if k != "n":
                    out.append((k, y, v))
                    continue

                def body(z, e, g=g, i=i):
                    cur = self.assign(g.target, z, e, n)
                    for cond in g.ifs:
                        nxt = []
                        for kk, w, r in cur:
                            if kk != "n":
                                nxt.append((kk, w, r))
                                continue
                            for k3, w2, c in self.ev(cond, w):
                                if k3 != "n":
                                    nxt.append((k3, w2, c))
                                    continue
                                for b, w3 in self.branch(w2, c, cond):
                                    nxt.append(("n", w3, NONE) if b else ("c", w3, NONE))
                        cur = nxt
                    res = []
                    for kk, w, r in cur:
                        res.extend(level(i + 1, w) if kk == "n" else [(kk, w, r)])
                    return res
                for k4, w, r in self.iterate(y, v, body, g.iter):
                    out.append(("n" if k4 == "done" else k4, w, r))
            return out
        out = []
        for k, x, v in level(0, st):
            e = dict(x.env)
            for q, o in saved.items():
                if o is None:
                    e.pop(q, None)
                else:
                    e[q] = o
            x = x.fork()
            x.env = e
            out.append(("n", x, ref) if k == "n" else (k, x, v))
        return self.dedupe(out) if len(out) > 1 else out

    def e_Lambda(self, n, st):
        return [("n", st, self.make_fn(n, st))]

    def e_IfExp(self, n, st):
        out = []
        for k, x, v in self.ev(n.test, st):
            if k != "n":
                out.append((k, x, v))
                continue
            for b, y in self.branch(x, v, n):
                out.extend(self.ev(n.body if b else n.orelse, y))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(i, x):
            out = []
            for k, y, v in self.ev(n.values[i], x):
                if k != "n" or i == len(n.values) - 1:
                    out.append((k, y, v))
                    continue
                for b, z in self.branch(y, v, n):
                    if b == isand:
                        out.extend(go(i + 1, z))
                    else:
                        # the value of a decided operand
                        w = v
                        if type(v) is T and (v.op in ("cmp", "not") or v.kind == "bool"):
                            w = C(b)
                        out.append(("n", z, w))
            return out
        return go(0, st)

    def e_UnaryOp(self, n, st):
        out = []
        for k, x, v in self.ev(n.operand, st):
            if k != "n":
                out.append((k, x, v))
                continue
            if isinstance(n.op, ast.Not):
                t = self.truth(x, v)
                if type(t) is C:
                    out.append(("n", x, C(not t.v)))
                else:
                    q = query(x.facts, t)
                    out.append(("n", x, C(not q) if q is not None else mk("not", t, kind="bool")))
            elif isinstance(n.op, ast.USub):
                if type(v) is C and isinstance(v.v, (int, float)):
                    out.append(("n", x, C(-v.v)))
                else:
                    r = neg(v) if isinstance(v, Val) else None
                    out.append(("n", x, r if r is not None else mk("neg", models.tv(self, x, v))))
            elif isinstance(n.op, ast.UAdd):
                out.append(("n", x, v))
            else:
                if type(v) is C and isinstance(v.v, int):
                    out.append(("n", x, C(~v.v)))
                else:
                    out.append(("n", x, mk("inv", models.tv(self, x, v))))
        return out

    def e_BinOp(self, n, st):
        out = []
        for k, x, vs in self.evs([n.left, n.right], st):
            out.extend(self.binop(x, type(n.op).__name__, vs[0], vs[1], n) if k == "n" else [(k, x, vs)])
        return out

    def binop(self, st, op, a, b, node):
        return models.binop(self, st, op, a, b, node)

    def e_Compare(self, n, st):
        def go(i, x, left):
            out = []
            for k, y, r in self.ev(n.comparators[i], x):
                if k != "n":
                    out.append((k, y, r))
                    continue
                for k2, z, v in models.compare(self, y, type(n.ops[i]).__name__, left, r, n):
                    if k2 != "n" or i == len(n.ops) - 1:
                        out.append((k2, z, v))
                        continue
                    for b, w in self.branch(z, v, n):
                        if b:
                            out.extend(go(i + 1, w, r))
                        else:
                            out.append(("n", w, FALSE))
            return out
        out = []
        for k, x, v in self.ev(n.left, st):
            out.extend(go(0, x, v) if k == "n" else [(k, x, v)])
        return out

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup(st, "super", n) == Ex("builtins.super"):
            return self.e_super(n, st)
        if self.client.track_empty and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "sum") and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)) and len(n.args[0].generators) == 1 \
                and self.lookup(st, n.func.id, n) == Ex("builtins." + n.func.id):
            return self.reduce_comp(n, st)
        out = []
        for k, x, f in self.ev(n.func, st):
            if k != "n":
                out.append((k, x, f))
                continue
            for k2, y, (args, kwargs) in self.eval_args(n, x):
                if k2 != "n":
                    out.append((k2, y, args))
                    continue
                out.extend(self.call_value(y, f, args, kwargs, n))
        if len(out) > 6:
            out = self.dedupe(out)
        return out

    def e_super(self, n, st):
        fn = st.env.get("$fn")
        if n.args:
            o = self.evs(n.args, st)
            k, x, vs = o[0]
            if k == "n" and len(vs) == 2 and type(vs[0]) is Cl:
                return [("n", x, Super(vs[0].info, vs[1]))]
            return [("n", x, self.fresh(x, n, "super"))]
        if fn is not None and fn.info.cls is not None and fn.info.params:
            return [("n", st, Super(fn.info.cls, st.env.get(fn.info.params[0], NONE)))]
        return [("n", st, self.fresh(st, n, "super"))]

    def eval_args(self, n, st):
        cur = [("n", st, ([], {}))]
        for a in n.args:
            nxt = []
            for k, x, (args, kw) in cur:
                if k != "n":
                    nxt.append((k, x, (args, kw)))
                    continue
                star = isinstance(a, ast.Starred)
                for k2, y, v in self.ev(a.value if star else a, x):
                    if k2 != "n":
                        nxt.append((k2, y, (v, None)))
                    elif star:
                        s = models.const_seq(self, y, v)
                        if s is not None:
                            nxt.append(("n", y, (args + [q for q in s if not callable(q)], kw)))
                        else:
                            nxt.append(("n", y, (args + [mk("star", models.tv(self, y, v))], kw)))
                    else:
                        nxt.append(("n", y, (args + [v], kw)))
            cur = nxt
        for kwd in n.keywords:
            nxt = []
            for k, x, (args, kw) in cur:
                if k != "n":
                    nxt.append((k, x, (args, kw)))
                    continue
                for k2, y, v in self.ev(kwd.value, x):
                    if k2 != "n":
                        nxt.append((k2, y, (v, None)))
                    elif kwd.arg is None:
                        d = dict(kw)
                        o = self.obj(y, v) if type(v) is R else None
                        if type(o) is Dct:
                            for a, b in o.items:
                                if type(a) is C:
                                    d[a.v] = b
                            if o.open_ is not None:
                                d["$open"] = o.open_
                        else:
                            d["$open"] = models.tv(self, y, v)
                        nxt.append(("n", y, (args, d)))
                    else:
                        d = dict(kw)
                        d[kwd.arg] = v
                        nxt.append(("n", y, (args, d)))
            cur = nxt
        return cur

    def e_JoinedStr(self, n, st):
        cur = [("n", st, [])]
        for p in n.values:
            nxt = []
            for k, x, vs in cur:
                if k != "n":
                    nxt.append((k, x, vs))
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append(("n", x, vs + [C(p.value)]))
                    continue
                for k2, y, v in self.ev(p.value, x):
                    if k2 != "n":
                        nxt.append((k2, y, v))
                        continue
                    spec = ""
                    if p.format_spec is not None:
                        spec = "".join(q.value for q in p.format_spec.values if isinstance(q, ast.Constant)) or "?"
                    if type(v) is C and p.conversion in (-1, 115) and "?" not in spec and isinstance(v.v, (int, str, float)):
                        try:
                            nxt.append(("n", y, vs + [C(format(v.v, spec))]))
                            continue
                        except (ValueError, TypeError):
                            pass
                    if spec == "" and type(v) is T and v.kind == "str":
                        nxt.append(("n", y, vs + [v]))
                    else:
                        nxt.append(("n", y, vs + [mk("fmt", models.tv(self, y, v), C(spec), kind="str")]))
            cur = nxt
        out = []
        for k, x, vs in cur:
            out.append(("n", x, models.strcat(vs)) if k == "n" else (k, x, vs))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for k, x, v in self.ev(n.value, st):
            out.append(("n", self.bind(x, n.target.id, v), v) if k == "n" else (k, x, v))
        return out

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        vals = self.ev(n.value, st) if n.value is not None else [("n", st, NONE)]
        for k, x, v in vals:
            if k != "n":
                out.append((k, x, v))
            elif self.yield_stack:
                out.extend(self.yield_stack[-1](x, v))
            else:
                out.append(("n", x, NONE))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for k, x, v in self.ev(n.value, st):
            if k != "n" or not self.yield_stack:
                out.append((k, x, NONE if k == "n" else v))
                continue
            h = self.yield_stack[-1]
            for k2, y, w in self.iterate(x, v, lambda z, e: h(z, e), n):
                out.append(("n" if k2 == "done" else k2, y, NONE if k2 == "done" else w))
        return out

    # --------------------------------------------------------------- branch
    def truth(self, st, v):
        """C(bool) or a boolean term"""
        if type(v) is C:
            try:
                return C(bool(v.v))
            except Exception:
                return C(True)
        if type(v) is T:
            if v.op in ("cmp", "not") or v.kind == "bool":
                return v
            if v.op in ("fmt", "dirent") or v.op == "m" and v.args[0] == "message":
                return C(True)
            return mk("bool", v, kind="bool")
        if type(v) is Tup:
            return C(len(v.items) > 0)
        if type(v) is R:
            o = self.obj(st, v)
            if type(o) is Lst:
                if o.summ is None or o.items:
                    return C(bool(o.items)) if o.summ is None else TRUE
                return mk("cmp", ">", o.ln, C(0)) if type(o.ln) is T else (C(o.ln.v > 0) if type(o.ln) is C else mk("bool", sym(("ne", v.id))))
            if type(o) is Dct:
                if o.items:
                    return TRUE
                return FALSE if o.open_ is None else mk("bool", mk("dct", o.open_))
            if type(o) is Set_:
                if o.adds or o.base is not None and o.base[0] == "phi1":
                    return TRUE
                return FALSE if o.base is None else mk("bool", mk("set", o.base))
            if type(o) is Inst:
                if "$list" in o.attrs:
                    return self.truth(st, o.attrs["$list"])
                f, c = o.cls.find("__bool__") if o.cls else (None, None)
                if f is None and o.cls is not None:
                    f, c = o.cls.find("__len__")
                if f is not None:
                    return mk("bool", mk("objlen", C(v.id)))
                return TRUE
            return mk("bool", mk("ref", C(str(v.id))))
        if type(v) is Ar:
            return mk("bool", models.freeze(self, st, v))
        if type(v) is CArr:
            return C(bool(v.v))
        return TRUE

    def branch(self, st, v, node):
        # objects with __len__/__bool__ in the program
        if type(v) is R:
            o = self.obj(st, v)
            if type(o) is Inst and o.cls is not None and "$list" not in o.attrs:
                f, c = o.cls.find("__bool__")
                if f is None:
                    f, c = o.cls.find("__len__")
                if f is not None:
                    out = []
                    for k, x, w in self.call_value(st, Bm(v, f), [], {}, node):
                        if k == "n" and type(w) is not R:
                            out.extend(self.branch(x, w, node))
                        elif k == "n":
                            out += [(True, x), (False, x)]
                    return out
        t = self.truth(st, v)
        if type(t) is C:
            return [(bool(t.v), st)]
        q = query(st.facts, t)
        if q is not None:
            return [(q, st)]
        d = getattr(self.client, "decide", None)
        if d is not None:
            r = d(self, st, t)
            if r is not None:
                return [(r, st)]
        key, pol = fact_key(t)
        return [(True, st.assume(key, pol)), (False, st.assume(key, not pol))]

    # ----------------------------------------------------------- attributes
    def class_attr(self, st, info, name):
        ov = None
        for c in info.mro():
            if isinstance(c, ClassInfo):
                o = st.heap.get(("c", id(c)))
                if o is not None and name in o.attrs:
                    return o.attrs[name], c
                if name in c.env:
                    return c.env[name], c
        return None, None

    def bind_attr(self, st, v, ref, cls, node):
        """descriptor protocol"""
        if type(v) is Fn:
            return [("n", st, Bm(ref, v))] if ref is not None else [("n", st, v)]
        if type(v) is Prop:
            if ref is None:
                return [("n", st, v)]
            return self.call_value(st, v.fget, [ref], {}, node)
        if type(v) is Wrapd:
            if v.how == "classmethod":
                return [("n", st, Bm(cls, v.fn))]
            return [("n", st, v.fn)]
        return [("n", st, v)]

    def getattr(self, st, o, name, node, default=None):
        t = type(o)
        if t is R:
            ob = self.obj(st, o)
            if type(ob) is Inst:
                if name in ob.attrs:
                    return [("n", st, ob.attrs[name])]
                if name == "__class__":
                    return [("n", st, Cl(ob.cls))]
                if name == "__dict__":
                    return [("n", st, mk("idict", C(o.id)))]
                if ob.cls is not None:
                    v, c = self.class_attr(st, ob.cls, name)
                    if v is not None:
                        return self.bind_attr(st, v, o, Cl(ob.cls), node)
                r = self.client.attr(self, st, o, name, node)
                if r is not None:
                    return [("n", st, r)]
                if "$list" in ob.attrs:
                    return [("n", st, Xm(ob.attrs["$list"], name))]
                if ob.lazy:
                    v = mk("attr", mk("ref", C(o.id)), C(name))
                    return [("n", st.put(o.id, ob.set(name, v)), v)]
                if ob.cls is not None and any(type(c) is Ex and c.name != "builtins.object" for c in ob.cls.mro()):
                    return [("n", st, Xm(o, name))]
                if default is not None:
                    return [("n", st, default)]
                return [("x", st, Xc(Ex("builtins.AttributeError"), site=node, tag=name))]
            if type(ob) is Opq:
                if name in ob.attrs:
                    return [("n", st, ob.attrs[name])]
            r = self.client.attr(self, st, o, name, node)
            if r is not None:
                return r if type(r) is list else [("n", st, r)]
            return [("n", st, Xm(o, name))]
        if t is Cl:
            if name == "__name__":
                return [("n", st, C(o.info.name))]
            v, c = self.class_attr(st, o.info, name)
            if v is not None:
                return self.bind_attr(st, v, None, o, node)
            return [("n", st, mk("attr", mk("class", C(o.info.name)), C(name)))]
        if t is Super:
            m = o.self_
            mro = None
            if type(m) is R and type(self.obj(st, m)) is Inst and self.obj(st, m).cls is not None:
                mro = self.obj(st, m).cls.mro()
                cls = Cl(self.obj(st, m).cls)
            elif type(m) is Cl:
                mro = m.info.mro()
                cls = m
            if mro is not None and o.cls in mro:
                for c in mro[mro.index(o.cls) + 1:]:
                    if isinstance(c, ClassInfo) and name in c.env:
                        return self.bind_attr(st, c.env[name], m, cls, node)
            return [("n", st, Xm(mk("super", C(repr(o.cls)), m), name))]
        if t is Mo:
            v = self.lookup_module_attr(st, o.name, name)
            if v is None:
                return [("x", st, Xc(Ex("builtins.AttributeError"), site=node, tag=name))]
            return [("n", st, v)]
        if t is Ex:
            r = self.client.attr(self, st, o, name, node)
            if r is not None:
                return r if type(r) is list else [("n", st, r)]
            return [("n", st, models.ext_attr(self, st, o.name, name))]
        if t is Ar or t is CArr:
            return models.array_attr(self, st, o, name, node)
        if t is Dt:
            if name == "itemsize":
                return [("n", st, C(o.itemsize))]
            return [("n", st, mk("attr", mk("dt", C(repr(o))), C(name)))]
        if t is Fn:
            if name == "__name__":
                return [("n", st, C(o.info.name))]
            return [("n", st, Xm(o, name))]
        if t is T:
            ov = st.heap.get(("t", o))
            if ov is not None and name in ov.attrs:
                return [("n", st, ov.attrs[name])]
            r = self.client.attr(self, st, o, name, node)
            if r is not None:
                return r if type(r) is list else [("n", st, r)]
            if o.op == "exc" and name in ("args", "msg"):
                return [("n", st, mk("attr", o, C(name)))]
            return [("n", st, mk("attr", o, C(name)))]
        if t is C and type(o.v) in (int, bool) and not hasattr(o.v, name) and hasattr(str, name):
            return [("x", st, Xc(Ex("builtins.AttributeError"), site=node, tag=name))]
        if t is Bm and name == "__func__":
            return [("n", st, o.fn)]
        if t is Bm and name == "__self__":
            return [("n", st, o.self_)]
        return [("n", st, Xm(o, name))]

    def lookup_module_attr(self, st, mod, name):
        ov = st.heap.get(("g", mod))
        if ov is not None and name in ov.attrs:
            return ov.attrs[name]
        g = self.globals.get(mod, {})
        if name in g:
            return g[name]
        if mod + "." + name in self.prog.modules:
            return Mo(mod + "." + name)
        return None

    def setattr(self, st, o, name, v, node):
        t = type(o)
        if t is R:
            ob = self.obj(st, o)
            if type(ob) is Inst:
                if ob.cls is not None and name not in ob.attrs:
                    d, c = self.class_attr(st, ob.cls, name)
                    if type(d) is Prop:
                        if d.fset is None:
                            return [("x", st, Xc(Ex("builtins.AttributeError"), site=node, tag=name))]
                        return [(k, x, NONE if k == "n" else w) for k, x, w in self.call_value(st, d.fset, [o, v], {}, node)]
                st = self.client.on_setattr(self, st, o, name, v, node)
                st = st.put(o.id, self.obj(st, o).set(name, v))
                if type(o.id) is tuple and o.id and o.id[0] == "el":
                    st = self.weak_base(st, o.id[1], name, v)
                return [("n", st, NONE)]
            if type(ob) is Opq:
                a = dict(ob.attrs)
                a[name] = v
                return [("n", st.put(o.id, Opq(ob.what, a)), NONE)]
        elif t is Cl:
            ov = st.heap.get(("c", id(o.info))) or Opq("class")
            a = dict(ov.attrs)
            a[name] = v
            return [("n", st.put(("c", id(o.info)), Opq("class", a)), NONE)]
        elif t is Mo:
            ov = st.heap.get(("g", o.name)) or Opq("globals")
            a = dict(ov.attrs)
            a[name] = v
            return [("n", st.put(("g", o.name), Opq("globals", a)), NONE)]
        elif t is T:
            st = self.client.on_setattr(self, st, o, name, v, node)
            ov = st.heap.get(("t", o)) or Opq("t")
            a = dict(ov.attrs)
            a[name] = v
            return [("n", st.put(("t", o), Opq("t", a)), NONE)]
        return [("n", st, NONE)]

    def weak_base(self, st, base, name, v):
        """an element of a summary changed: the summary may have changed"""
        b = self.obj(st, R(base))
        if type(b) is not Inst or b.attrs.get(name) == v:
            return st
        old = b.attrs.get(name)
        kind = None
        if old is not None and isint(old) and isint(v):
            kind = "nat" if nonneg(old) and nonneg(v) else "int"
        ph = mk("phi", ("wk", base), (name,), kind=kind)
        if old is not ph:
            st = st.put(base, b.set(name, ph))
        return st

    # ------------------------------------------------------------ subscript
    def getitem(self, st, o, i, node):
        if type(o) is R:
            ob = self.obj(st, o)
            if type(ob) is Inst and "$list" not in ob.attrs and ob.cls is not None:
                f, c = ob.cls.find("__getitem__")
                if f is not None:
                    return self.call_value(st, Bm(o, f), [i], {}, node)
        return models.getitem(self, st, o, i, node)

    def setitem(self, st, o, i, v, node):
        if type(o) is R:
            ob = self.obj(st, o)
            if type(ob) is Inst and "$list" not in ob.attrs and ob.cls is not None:
                f, c = ob.cls.find("__setitem__")
                if f is not None:
                    return [(k, x, NONE if k == "n" else w) for k, x, w in self.call_value(st, Bm(o, f), [i, v], {}, node)]
        return models.setitem(self, st, o, i, v, node)

    # ---------------------------------------------------------------- calls
    def call_value(self, st, f, args, kwargs, node):
        self.calls_seen += 1
        r = self.client.pre_call(self, st, f, args, kwargs, node)
        if r is not None:
            return r
        t = type(f)
        if t is Fn:
            return self.call_fn(st, f, args, kwargs, node)
        if t is Bm:
            if type(f.fn) is Fn:
                return self.call_fn(st, f.fn, [f.self_] + list(args), kwargs, node)
            return self.call_value(st, f.fn, [f.self_] + list(args), kwargs, node)
        if t is Wrapd:
            return self.call_value(st, f.fn, args, kwargs, node)
        if t is Cl:
            return self.instantiate(st, f, args, kwargs, node)
        if t is Ex:
            r = self.client.on_ext(self, st, f.name, args, kwargs, node)
            if r is not None:
                return r
            return models.call_ext(self, st, f.name, args, kwargs, node)
        if t is Xm:
            r = self.client.on_method(self, st, f.base, f.name, args, kwargs, node)
            if r is not None:
                return r
            return models.call_method(self, st, f.base, f.name, args, kwargs, node)
        if t is T:
            if f.op == "attr" and type(f.args[1]) is C:
                r = self.client.on_method(self, st, f.args[0], f.args[1].v, args, kwargs, node)
                if r is not None:
                    return r
                return models.call_method(self, st, f.args[0], f.args[1].v, args, kwargs, node)
            r = self.client.on_ext(self, st, None, [f] + list(args), kwargs, node)
            if r is not None:
                return r
            return models.opaque_call(self, st, f, args, kwargs, node)
        if t is R:
            ob = self.obj(st, f)
            if type(ob) is Inst and ob.cls is not None:
                m, c = ob.cls.find("__call__")
                if m is not None:
                    return self.call_value(st, Bm(f, m), args, kwargs, node)
        if t is C:
            return [("x", st, Xc(Ex("builtins.TypeError"), site=node, tag="not callable"))]
        return models.opaque_call(self, st, f, args, kwargs, node)

    def instantiate(self, st, cl, args, kwargs, node):
        info = cl.info
        isexc = any(type(c) is Ex and c.name.startswith("builtins.") and c.name[9:] in dir(builtins) and isinstance(getattr(builtins, c.name[9:]), type) and issubclass(getattr(builtins, c.name[9:]), BaseException) for c in info.mro())
        attrs = {}
        st0 = st
        if any(type(c) is Ex and c.name == "builtins.list" for c in info.mro()):
            st, lr = self.alloc(st, node, Lst(), "il")
            attrs["$list"] = lr
        st, ref = self.alloc(st, node, Inst(info, attrs), "i:" + info.name)
        f, c = info.find("__init__")
        if f is None:
            if "$list" in attrs and args:
                return [(k, x, ref if k == "n" else w) for k, x, w in models.list_extend(self, st, attrs["$list"], args[0], node)]
            if not isexc and (args or kwargs) and not info.has_ext_base():
                return [("x", st, Xc(Ex("builtins.TypeError"), site=node, tag="arguments"))]
            return [("n", st, ref)]
        out = []
        for k, x, v in self.call_value(st, Bm(ref, f), args, kwargs, node):
            out.append(("n", x, ref) if k == "n" else (k, x, v))
        return out

    def bind_args(self, st, fn, args, kwargs, node):
        """-> (env, error)"""
        info = fn.info
        env = {}
        args = list(args)
        stars = [a for a in args if type(a) is T and a.op == "star"]
        params = info.params
        n = len(params)
        if stars:
            pre = []
            rest = None
            for a in args:
                if type(a) is T and a.op == "star":
                    rest = a
                    break
                pre.append(a)
            for i, p in enumerate(params):
                if i < len(pre):
                    env[p] = pre[i]
                elif p in kwargs:
                    env[p] = kwargs[p]
                else:
                    env[p] = mk("item", rest.args[0], C(i - len(pre)))
            if info.vararg:
                env[info.vararg] = rest.args[0]
        else:
            for p, a in zip(params, args):
                env[p] = a
            if len(args) > n:
                if info.vararg:
                    env[info.vararg] = Tup(args[n:])
                else:
                    return None, "too many positional arguments"
            elif info.vararg:
                env[info.vararg] = Tup(())
        extra = {}
        open_ = None
        for k, v in kwargs.items():
            if k == "$open":
                open_ = v
            elif k in params or k in info.kwonly:
                if k in env and not stars:
                    return None, "multiple values for %s" % k
                env[k] = v
            elif info.kwarg:
                extra[k] = v
            else:
                return None, "unexpected keyword %s" % k
        if info.kwarg:
            env["$kw"] = (extra, open_)
        nd = len(info.defaults)
        missing = []
        for i, p in enumerate(params):
            if p not in env:
                j = i - (n - nd)
                if j >= 0:
                    missing.append((p, info.defaults[j]))
                elif open_ is not None:
                    env[p] = mk("kwopen", open_, C(p))
                else:
                    return None, "missing argument %s" % p
            elif open_ is not None and False:
                pass
        for p, d in zip(info.kwonly, info.kw_defaults):
            if p not in env:
                if d is None:
                    return None, "missing keyword %s" % p
                missing.append((p, d))
        env["$missing"] = missing
        env["$openkw"] = open_
        return env, None

    def call_fn(self, st, fn, args, kwargs, node):
        info = fn.info
        env, err = self.bind_args(st, fn, args, kwargs, node)
        if env is None:
            return [("x", st, Xc(Ex("builtins.TypeError"), site=node, tag=err))]
        missing = env.pop("$missing")
        openkw = env.pop("$openkw")
        kw = env.pop("$kw", None)
        env["$mod"] = C(info.module.name)
        env["$fn"] = fn
        self.funcs_seen.add(info)
        if self.depth > 45 or sum(1 for a in self.active if a is info) >= 3:
            self.opaque["recursion cut: " + info.qual] = True
            return models.opaque_call(self, st, mk("fn", C(info.qual)), args, kwargs, node)
        x = st
        if kw is not None:
            extra, open_ = kw
            x, r = self.alloc(x, node, Dct([(C(k), v) for k, v in sorted(extra.items())], open_), "kw")
            env[info.kwarg] = r
        ctx = x.ctx
        newctx = self.ctxid(x, node, ("call", info.qual))
        env["$fid"] = C(newctx)
        x = x.push(env).withctx(newctx)
        for p, d in missing:
            o = self.eval_default(x, fn, d)
            if openkw is not None:
                e2 = dict(x.env)
                e2[p] = mk("kwopen", openkw, C(p))
                x.env = e2
                continue
            e2 = dict(x.env)
            e2[p] = o
            x = x.fork()
            x.env = e2
        x = self.client.on_call(self, x, fn, node)
        if info.is_gen:
            g = Gen(fn, {k: v for k, v in x.env.items()}, ("gen", newctx, hash(frozenset(x.env.items()))))
            return [("n", x.pop().withctx(ctx), g)]
        self.depth += 1
        self.active.append(info)
        ys = self.yield_stack
        self.yield_stack = []
        try:
            if isinstance(info.node, ast.Lambda):
                outs = [("r" if k == "n" else k, y, v) for k, y, v in self.ev(info.node.body, x)]
            else:
                outs = self.exec_block(info.node.body, x)
        finally:
            self.depth -= 1
            self.active.pop()
            self.yield_stack = ys
        res = []
        for k, y, v in outs:
            y = y.pop().withctx(ctx)
            if k == "n":
                res.append(("n", y, NONE))
            elif k == "r":
                res.append(("n", y, v))
            elif k in ("x", "u"):
                res.append((k, y, v))
        f = getattr(self.client, "on_return", None)
        if f:
            res = [(k, f(self, y, fn, k, v, node), v) for k, y, v in res]
        if len(res) > 1:
            res = self.dedupe(res)
        return res

    def eval_default(self, st, fn, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        y = St()
        y.env = {"$mod": st.env["$mod"]}
        y.heap = st.heap
        y.ctx = ("default",)
        o = [q for q in self.ev(d, y) if q[0] == "n"]
        if o and (type(o[0][2]) is not R or o[0][2].id in st.heap or o[0][2].id in self.gheap):
            return o[0][2]
        if o and type(o[0][2]) is R:
            # mutable default
            self.gheap[o[0][2].id] = o[0][1].heap[o[0][2].id]
            return o[0][2]
        return self.fresh(st, d, "default")


class _Unw:
    __slots__ = ("uid", "k", "v")

    def __init__(self, uid, k, v):
        self.uid, self.k, self.v = uid, k, v

    def __eq__(self, o):
        return type(o) is _Unw and o.uid is self.uid and o.k == self.k and o.v == self.v

    def __hash__(self):
        return hash((id(self.uid), self.k))


_marks = {}


def marks(v):
    """loop contexts whose counter or phi values occur in a term"""
    if type(v) is T:
        r = _marks.get(v)
        if r is None:
            if v.op == "sym":
                n = v.args[0]
                r = frozenset((n[1],)) if type(n) is tuple and len(n) == 2 and n[0] == "K" else frozenset()
            elif v.op == "phi":
                n = v.args[0]
                r = frozenset(n[:1]) if type(n) is tuple else frozenset()
            else:
                r = frozenset().union(*[marks(a) for a in v.args]) if v.args else frozenset()
            _marks[v] = r
        return r
    if type(v) is Tup:
        return frozenset().union(*[marks(a) for a in v.items]) if v.items else frozenset()
    if type(v) is tuple:
        return frozenset().union(*[marks(a) for a in v]) if v else frozenset()
    return frozenset()


def mentions(key, lctx):
    return lctx in marks(key)


def query_fact(facts, key, val):
    from .state import query_key
    return query_key(facts, key) == val


class _LoadClient(Client):
    unroll = 100000
    peel = 20000


def positive(v):
    if type(v) is C:
        return isinstance(v.v, int) and v.v >= 1
    return nonneg(sub(v, C(1)))


class _Joiner:
    def __init__(self, it, a, b, n, tag, K, itv):
        self.it, self.a, self.b, self.n, self.tag, self.K = it, a, b, n, tag, K
        self.memo = {}
        self.ia = self.ib = self.di = None
        if K is not None and itv in a.env and itv in b.env:
            self.ia, self.ib = a.env[itv], b.env[itv]
            self.di = sub(self.ib, self.ia)
            if self.di == C(0):
                self.di = None

    def phi(self, path, kind=None):
        return mk("phi", (self.tag[1:] if self.tag[0] == "m" else self.tag[1:2]), path, kind=kind)

    def val(self, a, b, path, depth=0):
        if a is b or a == b:
            return a
        if type(a) is T and a.op == "phi" and a.args[:2] == self.phi(path).args[:2]:
            return a
        ia, ib = isint(a), isint(b)
        if ia and ib and not (type(a) is C and isinstance(a.v, bool)) and not (type(b) is C and isinstance(b.v, bool)):
            if self.it.client.track_empty and positive(a) and positive(b) and str(path[-1])[0] != "$":
                return add(C(1), self.phi(path, "nat"))
            d = sub(b, a)
            if d is not None and self.di is not None:
                c = _ratio(d, self.di)
                if c is not None:
                    off = sub(self.K, self.ia)
                    r = add(a, mul(C(c), off))
                    # b is the value one arrival later: it has to fit the line
                    if subst(r, {self.K: self.ib}) == b:
                        return r
            kind = "int"
            if nonneg(a) and nonneg(b):
                kind = "nat"
            return self.phi(path, kind)
        if type(a) is Tup and type(b) is Tup and len(a.items) == len(b.items):
            return Tup([self.val(x, y, path + (i,), depth) for i, (x, y) in enumerate(zip(a.items, b.items))])
        if type(a) is R and type(b) is R and depth < 3:
            oa, ob = self.it.obj(self.a, a), self.it.obj(self.b, b)
            if type(oa) is type(ob) and oa is not None and (type(oa) is not Inst or oa.cls is ob.cls):
                key = (a.id, b.id)
                if key in self.memo:
                    return self.memo[key]
                oid = ("j", self.tag[1:2], path)
                r = R(oid)
                if a.id == oid:
                    r = a
                self.memo[key] = r
                self.n.heap[oid] = self.objs(oid, oa, ob, path, depth + 1)
                return r
            return self.phi(path)
        if type(a) is Ar and type(b) is Ar and a.dt == b.dt and a.step == b.step and a.xf == b.xf:
            if a.sid == b.sid:
                off = self.val(a.off, b.off, path + ("off",), depth)
                ln = self.val(a.ln, b.ln, path + ("ln",), depth)
                return Ar(a.sid, off, ln, a.step, a.dt, a.xf)
            oid = ("j", self.tag[1:2], path)
            sa, sb = self.it.obj(self.a, R(a.sid)), self.it.obj(self.b, R(b.sid))
            if sa is not None and sb is not None:
                ln = self.val(a.ln, b.ln, path + ("ln",), depth)
                self.n.heap[oid] = Sto(("joined", self.tag[1:2], path), (), ln)
                return Ar(oid, C(0), ln, a.step, a.dt, a.xf)
        k = None
        if type(a) is T and type(b) is T and a.kind == b.kind:
            k = a.kind
        elif type(a) is C and type(b) is T and isinstance(a.v, str) and b.kind == "str":
            k = "str"
        elif type(a) is C and type(b) is C and type(a.v) is type(b.v):
            k = {str: "str", bytes: "bytes", bool: "bool"}.get(type(a.v))
        return self.phi(path, k)

    def objs(self, oid, a, b, path, depth=0):
        if a == b:
            return a
        if type(a) is not type(b):
            return Opq(("joined", path))
        if type(a) is Inst:
            attrs = {}
            for k in a.attrs:
                if k in b.attrs:
                    attrs[k] = self.val(a.attrs[k], b.attrs[k], path + (k,), depth)
                else:
                    attrs[k] = self.phi(path + (k,))
            for k in b.attrs:
                if k not in attrs:
                    attrs[k] = self.phi(path + (k,)) if not a.lazy else b.attrs[k]
            return Inst(a.cls, attrs, a.lazy or b.lazy)
        if type(a) is Lst:
            if a.exact and b.exact and len(a.items) == len(b.items):
                return Lst([self.val(x, y, path + (i,), depth) for i, (x, y) in enumerate(zip(a.items, b.items))])
            ln = self.val(a.ln, b.ln, path + ("ln",), depth)
            if type(ln) is T and ln.op == "phi":
                ln.kind = "nat"
            elems = [x for x in (list(a.items) + ([a.summ] if a.summ is not None else []))]
            elb = [x for x in (list(b.items) + ([b.summ] if b.summ is not None else []))]
            s = None
            for x in elems + elb:
                if s is None:
                    s = x
                elif s != x:
                    s = self.val2(s, x, path + ("elem",), depth)
            if s is None:
                s = self.phi(path + ("elem",))
            return Lst((), s, ln)
        if type(a) is Dct:
            ka, kb = dict(a.items), dict(b.items)
            if a.open_ == b.open_ and set(ka) == set(kb) and all(type(k) is C for k in ka):
                return Dct([(k, self.val(v, kb[k], path + (k,), depth)) for k, v in a.items], a.open_, a.default)
            common = [(k, v) for k, v in a.items if kb.get(k) == v]
            vals = [v for v in list(ka.values()) + list(kb.values())]
            return Dct((), mk("dctphi", self.tag[1:2], path, self.dval(vals, path, (a.open_, b.open_))), a.default)
        if type(a) is Set_:
            if self.it.client.track_empty and all(x.adds or x.base is not None and x.base[0] == "phi1" for x in (a, b)):
                return Set_(("phi1", self.tag[1:2], path), ())
            if a.base is not None and a.base[0] == "phi":
                return a if not a.adds else Set_(a.base, ())
            return Set_(("phi", self.tag[1:2], path), ())
        if type(a) is Sto:
            ln = a.ln if a.ln == b.ln else (self.val(a.ln, b.ln, path + ("ln",), depth) if a.ln is not None and b.ln is not None else None)
            return Sto(("joined", self.tag[1:2], path), (), ln, a.owner)
        if type(a) is Opq:
            attrs = {k: (v if b.attrs.get(k) == v else self.val(v, b.attrs[k], path + (k,), depth)) for k, v in a.attrs.items() if k in b.attrs}
            return Opq(a.what if a.what == b.what else ("joined", path), attrs)
        return a

    def dval(self, vals, path, opens=()):
        """representative class of dictionary values: the most general one"""
        cls = []
        for v in vals:
            if type(v) is R:
                o = self.it.obj(self.b, v) or self.it.obj(self.a, v)
                if type(o) is Inst and o.cls is not None:
                    cls.append(o.cls)
        return models.dctclass(self.it, cls, opens)

    def val2(self, x, y, path, depth):
        """join of list elements (both may live in either state)"""
        if x == y:
            return x
        if type(x) is R and type(y) is R:
            ox = self.it.obj(self.a, x) or self.it.obj(self.b, x) or self.n.heap.get(x.id)
            oy = self.it.obj(self.b, y) or self.it.obj(self.a, y) or self.n.heap.get(y.id)
            if type(ox) is Inst and type(oy) is Inst and ox.cls is oy.cls:
                oid = ("j", self.tag[1:2], path)
                if x.id == oid:
                    self.n.heap[oid] = self.weak(ox, oy, path)
                    return x
                self.n.heap[oid] = self.weak(ox, oy, path)
                return R(oid)
        if type(x) is T and x.op == "phi":
            return x
        k = "nat" if nonneg(x) and nonneg(y) else ("int" if isint(x) and isint(y) else None)
        return self.phi(path, k)

    def weak(self, ox, oy, path):
        attrs = {}
        for k in set(ox.attrs) | set(oy.attrs):
            va, vb = ox.attrs.get(k), oy.attrs.get(k)
            if va is not None and vb is not None and va == vb:
                attrs[k] = va
            else:
                if type(va) is T and va.op == "phi":
                    attrs[k] = va
                elif type(va) is Ar and type(vb) is Ar and va.dt == vb.dt and va.step == vb.step:
                    sid = ("jst", self.tag[1:2], path, k)
                    if va.sid == sid:
                        attrs[k] = va
                    else:
                        ln = va.ln if va.ln == vb.ln else self.phi(path + (k, "ln"), "nat")
                        self.n.heap[sid] = Sto(("joined", self.tag[1:2], path + (k,)), (), ln)
                        attrs[k] = Ar(sid, C(0), ln, va.step, va.dt)
                elif va is not None and vb is not None and isint(va) and isint(vb):
                    attrs[k] = self.phi(path + (k,), "nat" if nonneg(va) and nonneg(vb) else "int")
                else:
                    attrs[k] = self.phi(path + (k,))
        return Inst(ox.cls, attrs, ox.lazy or oy.lazy)


def _ratio(d, di):
    """integer c with d == c * di (polynomials), or None"""
    pd, pi = _poly(d), _poly(di)
    if pd is None or pi is None or not pi:
        return None
    m, c = next(iter(pi.items()))
    if m not in pd or pd[m] % c:
        return None
    r = pd[m] // c
    if mul(C(r), di) == d:
        return r
    return None
