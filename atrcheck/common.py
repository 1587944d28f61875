"""Shared machinery of the property checks: the loaded program, reports,
evidence, and builders of abstract start states."""
import ast
import json
import os
import re
import sys
import time
import traceback

from .program import Program, AnalysisBroken
from .terms import *
from .state import *
from .interp import Interp, Client, Budget
from . import interp, models

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

CALL = ast.parse("x()").body[0].value


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []                # (rule, construct, status, detail)
        self.viol = {}               # key -> dict
        self.counts = {}
        self.funcs, self.stmts, self.loops = set(), set(), set()
        self.calls = 0
        self.opaque = {}
        self.assumptions = []
        self.t0 = time.time()

    def ok(self, rule, construct, detail=""):
        self.obs.append((rule, construct, "holds", detail))

    def bad(self, rule, construct, where, detail):
        """a definite violation; key = rule + construct (no line numbers)"""
        key = "%s|%s" % (rule, construct)
        self.obs.append((rule, construct, "violated", detail))
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, construct=construct, where=where, detail=detail)

    def und(self, rule, construct, why=""):
        self.obs.append((rule, construct, "undecided", why))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def absorb(self, it):
        self.funcs |= {f.qual if hasattr(f, "qual") else str(f) for f in it.funcs_seen}
        self.stmts |= {(getattr(s, "_mod", "?"), s.lineno, s.col_offset) for s in it.stmts_seen}
        self.loops |= {(getattr(s, "_mod", "?"), getattr(s, "lineno", 0), getattr(s, "col_offset", 0)) for s in it.loops_seen}
        self.calls += it.calls_seen
        for k in it.opaque:
            self.opaque[k] = True

    def state(self):
        return dict(obs=self.obs, viol=self.viol, counts=self.counts, funcs=self.funcs, stmts=self.stmts, loops=self.loops, calls=self.calls, opaque=self.opaque)

    def merge(self, d):
        self.obs += d["obs"]
        for k, v in d["viol"].items():
            self.viol.setdefault(k, v)
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.funcs |= d["funcs"]
        self.stmts |= d["stmts"]
        self.loops |= d["loops"]
        self.calls += d["calls"]
        self.opaque.update(d["opaque"])


_base = None


def base():
    global _base
    if _base is None:
        _base = Interp(Program())
        if getattr(_base, "load_problem", None):
            raise AnalysisBroken(_base.load_problem)
    return _base


def mkit(client=None, budget=1500000):
    b = base()
    return Interp(b.prog, client or Client(), base=b, budget=budget)


def gval(mod, name, need=True):
    g = base().globals.get("atrcopy." + mod if mod else "atrcopy")
    if g is None or name not in g:
        if need:
            raise AnalysisBroken("anchor vanished: atrcopy.%s.%s" % (mod, name))
        return None
    return g[name]


def classval(name, need=True):
    for g in base().globals.values():
        v = g.get(name)
        if type(v) is Cl and v.info.name == name:
            return v
    if need:
        raise AnalysisBroken("anchor vanished: class %s" % name)
    return None


def gobj(v):
    return base().gheap.get(v.id) if type(v) is R else None


def topy(v, heap=None):
    """constant abstract value -> python value (classes stay Cl); raises
    ValueError for anything not constant"""
    if type(v) is C:
        return v.v
    if type(v) is Tup:
        return tuple(topy(x, heap) for x in v.items)
    if type(v) is Sl:
        return slice(topy(v.a, heap), topy(v.b, heap), topy(v.c, heap))
    if type(v) is R:
        o = (heap or {}).get(v.id) or base().gheap.get(v.id)
        if type(o) is Lst and o.exact:
            return [topy(x, heap) for x in o.items]
        if type(o) is Dct and o.open_ is None:
            return {topy(a, heap): topy(b, heap) for a, b in o.items}
    if type(v) in (Cl, Fn, CArr, Ex):
        return v
    raise ValueError("not constant: %r" % (v,))


def where_node(n):
    return "%s:%d" % (getattr(n, "_file", "?"), getattr(n, "lineno", 0))


def storage(st, sid, ln, base_=None):
    return st.put(sid, Sto(base_ or ("tok", sid), (), ln))


def calls(it, st, f, *args, **kw):
    return it.call_value(st, f, list(args), kw, CALL)


def method(it, st, ref, name, *args, **kw):
    outs = []
    for k, x, m in it.getattr(st, ref, name, CALL):
        if k != "n":
            outs.append((k, x, m))
        else:
            outs.extend(it.call_value(x, m, list(args), kw, CALL))
    return outs


def xname(x):
    """class name of an exception value"""
    c = x.cls
    if type(c) is Cl:
        return c.info.name
    if type(c) is Ex:
        return c.name.split(".")[-1]
    return str(c)


def guarded(rep, rule, construct, f, *a):
    """run one analysis unit; engine trouble makes it undecided, not fatal"""
    try:
        return f(*a)
    except AnalysisBroken:
        raise
    except Budget:
        rep.und(rule, construct, "analysis budget exhausted")
    except RecursionError:
        rep.und(rule, construct, "recursion too deep for the analysis")
    except Exception as e:
        if os.environ.get("ATRCHECK_DEBUG"):
            traceback.print_exc(limit=-4)
        rep.und(rule, construct, "engine: %s: %s" % (type(e).__name__, e))
    return None


def parallel(rep, jobs, nproc=None):
    """jobs: list of (name, function(report)).  Each runs in its own process
    on the already loaded program."""
    import multiprocessing as mp
    base()
    n = nproc or min(8, len(jobs), os.cpu_count() or 1)
    if n <= 1 or os.environ.get("ATRCHECK_SERIAL"):
        for name, f in jobs:
            guarded(rep, "analysis", name, f, rep)
        return
    ctx = mp.get_context("fork")
    global _jobs
    _jobs = [(rep.pid, rep.tier, name, f) for name, f in jobs]
    with ctx.Pool(n) as pool:
        left = {name for _, _, name, _ in _jobs}
        done = pool.imap_unordered(_runjob, range(len(_jobs)), chunksize=1)
        while True:
            try:
                d = done.next(max(1, interp.DEADLINE + 60 - time.monotonic()))
            except StopIteration:
                break
            except mp.TimeoutError:
                for name in sorted(left):
                    rep.und("analysis", name, "not finished in time")
                pool.terminate()
                break
            if "broken" in d:
                raise AnalysisBroken(d["broken"])
            left.discard(d.pop("job"))
            rep.merge(d)


_jobs = []


def _runjob(i):
    pid, tier, name, f = _jobs[i]
    r = Report(pid, tier)
    try:
        guarded(r, "analysis", name, f, r)
    except AnalysisBroken as e:
        return {"broken": str(e)}
    return dict(r.state(), job=name)


# ------------------------------------------------------------------- output

def finish(rep, explanation, assumptions, seed):
    known = {}
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("known", []):
            if e["property"] == rep.pid:
                known[e["key"]] = e["what"]
    rules = {}
    for rule, con, stt, det in rep.obs:
        d = rules.setdefault(rule, {"holds": 0, "violated": 0, "undecided": 0})
        d[stt] += 1
    new = {k: v for k, v in rep.viol.items() if k not in known}
    seen_known = [k for k in rep.viol if k in known]
    obs = sorted(set(rep.obs), key=str)
    und = [o for o in obs if o[2] == "undecided"]
    samples = []
    perrule = {}
    for o in obs:
        if perrule.get(o[0], 0) < 3:
            perrule[o[0]] = perrule.get(o[0], 0) + 1
            samples.append("%s: %s: %s %s" % (o[0], o[1], o[2], str(o[3])[:200]))
    cov = {
        "explanation": explanation,
        "obligations": len(obs),
        "discharged": sum(1 for o in obs if o[2] == "holds"),
        "undecided": len(und),
        "undecided_samples": ["%s: %s: %s" % (o[0], o[1], str(o[3])[:200]) for o in und[:20]],
        "rules": rules,
        "functions_analysed": len(rep.funcs),
        "statements_analysed": len(rep.stmts),
        "loops_solved": len(rep.loops),
        "calls_resolved": rep.calls,
        "opaque_operations": sorted(rep.opaque)[:20],
        "samples": samples[:60],
    }
    cov.update(rep.counts)
    ev = {
        "property": rep.pid, "tier": rep.tier, "seed": seed, "level": "other",
        "coverage": cov,
        "assumptions": list(assumptions) + rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, known[k]))
    rp = os.path.join(VERIF, "evidence", rep.pid + ".replay.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            json.dump({"property": rep.pid, "violations": list(new.values())}, f, indent=1, default=str)
        for v in list(new.values())[:20]:
            print("%s: [%s] %s: %s" % (v["where"], v["rule"], v["construct"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (rep.pid, rp))
        return 1
    print("%s: %d obligations, %d hold, %d undecided, %.1f s" % (rep.pid, len(obs), cov["discharged"], len(und), ev["wall_s"]))
    return 0


# ------------------------------------------------------- abstract disk images

def subclasses(root):
    """concrete view: all loaded classes derived from the class value root"""
    out = {}
    for g in base().globals.values():
        for v in g.values():
            if type(v) is Cl and v.info not in out and root.info in v.info.mro() and v.info is not root.info:
                out[v.info] = v
    return sorted(out.values(), key=lambda c: c.info.name)


N = sym("N", "nat")


def new_segment_data(it, st, d="D", s="S", n=None):
    n = n if n is not None else N
    st = storage(st, d, n)
    st = storage(st, s, n)
    outs = calls(it, st, classval("SegmentData"), Ar(d, C(0), n), Ar(s, C(0), n))
    return [(x, r) for k, x, r in outs if k == "n"]


def load_images(it, cls, per_header=1, n=None):
    """states in which the constructor of an image class has returned, one
    per header class: (label, state, image)"""
    res = []
    seen = {}
    for x, raw in new_segment_data(it, St(), n=n):
        for k, y, img in calls(it, x, cls, raw, C("f.atr")):
            if k != "n" or type(img) is not R:
                continue
            o = it.obj(y, img)
            h = o.attrs.get("header") if type(o) is Inst else None
            ho = it.obj(y, h) if type(h) is R else None
            label = ho.cls.name if type(ho) is Inst and ho.cls is not None else "?"
            if seen.get(label, 0) >= per_header:
                continue
            seen[label] = seen.get(label, 0) + 1
            res.append((label, y, img))
    return res


# ------------------------------------------------- comparing value terms

def setattrs(it, st, ref, **kw):
    for n, v in kw.items():
        st = it.setattr(st, ref, n, v, CALL)[0][1]
    return st


def byte_at(it, st, arr, i):
    """the term stored at index i of an array, or None"""
    i = C(i) if isinstance(i, int) else i
    r = [v for k, x, v in it.getitem(st, arr, i, CALL) if k == "n"]
    return r[0] if len(r) == 1 and isint(r[0]) else None


def terms_equal(t, want, dom=None):
    """True: the terms are equal for all values of the symbols in their
    domains; (False, witness): they differ; None: not decided.
    dom: symbol -> (lo, hi)"""
    dom = dom or {}
    if t == want:
        return True
    if t is None or not isint(t) and not (type(t) is C):
        return None
    widths = {s: hi.bit_length() for s, (lo, hi) in dom.items() if lo == 0 and hi & (hi + 1) == 0}
    a, b = bits(t, widths), bits(want, widths)
    if None not in a and a == b:
        return True
    if type(t) is C and type(want) is C:
        return (False, {}) if t.v != want.v else True
    syms = sorted({x for v in (t, want) if type(v) is T for x in leaves(v) if x in dom}, key=str)
    if not syms:
        return None
    import itertools
    import random
    rnd = random.Random(1)
    size = 1
    for s in syms:
        size *= dom[s][1] - dom[s][0] + 1
    if size <= 4096:
        points = itertools.product(*[range(dom[s][0], dom[s][1] + 1) for s in syms])
        full = True
    else:
        pts = []
        for _ in range(400):
            pts.append(tuple(rnd.choice((dom[s][0], dom[s][1], rnd.randint(*dom[s]), min(dom[s][1], 1 << rnd.randint(0, 12)))) for s in syms))
        points, full = pts, False
    und = False
    for p in points:
        tab = {s: C(v) for s, v in zip(syms, p)}
        x, y = subst(t, tab), subst(want, tab)
        if type(x) is not C or type(y) is not C:
            und = True
            continue
        if x.v != y.v:
            return (False, {str(s): v for s, v in zip(syms, p)})
    return True if full and not und else None


def expect_term(rep, rule, con, where, t, want, dom, what):
    r = terms_equal(t, want, dom)
    if r is True:
        rep.ok(rule, con, "%s = %s" % (what, str(want)[:80]))
    elif r is None:
        rep.und(rule, con, "%s: %s" % (what, str(t)[:80]))
    else:
        w = ", ".join("%s=%s" % i for i in sorted(r[1].items()))
        rep.bad(rule, con, where, "%s is %s, not %s%s" % (what, str(t)[:100], str(want)[:80], " (differs for %s)" % w if w else ""))
    return r


def fact_at(key, tab):
    """truth value of a fact key under a table of constants, or None"""
    if key[0] in ("lt", "eq"):
        v = subst(key[1], tab)
        if type(v) is C and isinstance(v.v, (int, bool)):
            return v.v < 0 if key[0] == "lt" else v.v == 0
        return None
    if key[0] == "cmp" and key[1] in ("<", "==", "in", "is"):
        a, b = subst(key[2], tab), subst(key[3], tab)
        if type(a) is C and type(b) is C:
            try:
                return {"<": lambda: a.v < b.v, "==": lambda: a.v == b.v, "in": lambda: a.v in b.v, "is": lambda: a.v is b.v}[key[1]]()
            except TypeError:
                return None
        return None
    if key[0] == "t":
        v = subst(key[1], tab)
        if type(v) is C:
            return bool(v.v)
    return None


def feasible_at(st, tab, facts=None):
    """False: a path fact contradicts the table; True: all facts hold; None:
    some fact stays open"""
    res = True
    for k, v in (facts if facts is not None else st.facts).items():
        r = fact_at(k, tab)
        if r is None:
            res = None
        elif r != v:
            return False
    return res
