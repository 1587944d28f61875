"""C21: no code path ends in a dangling reference."""
import builtins
import importlib
import string
import symtable

from ..common import *

EXPLANATION = ("Reference resolution over every module: each name is resolved through its scopes (symbol tables plus a "
               "reaching-assignment walk of every function), each attribute of a module, of self and of unknown receivers "
               "through the class hierarchy, each call with a resolvable callee against the signature of every implementation "
               "it can reach, each % and str.format template against its arguments, each assignment through a property "
               "against its setter.  One obligation per reference; only references no definition can satisfy are reported.")
ASSUMPTIONS = ["attributes of numpy and of objects made by third-party code are taken to exist",
               "names bound on some path to their use count as bound"]
MINIMUM = 3000

STDLIB_OK = {"os", "os.path", "sys", "re", "json", "hashlib", "io", "gzip", "bz2", "lzma", "zlib", "zipfile", "struct",
             "base64", "collections", "functools", "itertools", "logging", "argparse", "textwrap", "uuid", "contextlib",
             "bisect", "shutil", "copy", "types", "tempfile", "glob", "fnmatch", "binascii", "string", "math", "operator",
             "pathlib", "warnings", "inspect", "time", "datetime", "random"}
NDARRAY = set("""T all any argmax argmin argsort astype base byteswap choose clip compress conj copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std
strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view names fields descr kind char num str name
isbuiltin isnative alignment subdtype hasobject char mask filled""".split())
MODGLOBALS = {"__name__", "__file__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__dict__", "__class__", "__annotations__"}


# attributes other platforms or bundlers add to a standard module
FROZEN = {("os", "startfile"), ("os", "O_BINARY"), ("sys", "_MEIPASS"), ("sys", "frozen"), ("sys", "getwindowsversion")}


class Cx:
    pass


def live_names(cx):
    """names that are referred to by code the package itself can reach: not
    only from module level functions that nothing refers to"""
    if not hasattr(cx, "live"):
        def refs(t):
            return {k.id if isinstance(k, ast.Name) else k.attr for k in ast.walk(t) if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Load) or isinstance(k, ast.Attribute)}
        live, funcs = {"run"}, {}      # run: called by the script
        for m in cx.mods.values():
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef):
                    funcs.setdefault(s.name, set()).update(refs(s))
                else:
                    live |= refs(s)
        todo = list(live)
        while todo:
            for x in funcs.pop(todo.pop(), ()):
                if x not in live:
                    live.add(x)
                    todo.append(x)
        cx.live = live
    return cx.live


def build():
    cx = Cx()
    b = base()
    cx.b = b
    cx.mods = b.prog.modules
    cx.builtins = set(dir(builtins)) | MODGLOBALS | {"WindowsError"}
    cx.classes = {}          # ast node -> ClassInfo
    cx.infos = []
    for g in b.globals.values():
        for v in g.values():
            if type(v) is Cl and isinstance(v.info.node, ast.ClassDef) and v.info.node not in cx.classes:
                cx.classes[v.info.node] = v.info
                cx.infos.append(v.info)
    # nested ClassDefs are ignored
    cx.subs = {}
    for i in cx.infos:
        for c in i.mro():
            if hasattr(c, "env"):
                cx.subs.setdefault(c, []).append(i)
    cx.inst = {}             # ClassInfo -> set of attrs stored on self
    cx.dynamic = set()
    cx.anystore = set()      # attribute names stored on any receiver
    cx.nonself = set()
    cx.strs = set()
    for m in cx.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                cx.anystore.add(n.attr)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                cx.strs.add(n.value)
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr == "add_argument":
                    dest = None
                    for k in n.keywords:
                        if k.arg == "dest" and isinstance(k.value, ast.Constant):
                            dest = k.value.value
                    for a in n.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            cx.strs.add((dest or a.value).lstrip("-").replace("-", "_"))
                    if dest:
                        cx.strs.add(dest)
                if isinstance(f, ast.Attribute) and f.attr == "add_subparsers":
                    for k in n.keywords:
                        if isinstance(k.value, ast.Constant):
                            cx.strs.add(k.value.value)
    for i in cx.infos:
        s = set()
        for fn in i.node.body:
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.args.args:
                me = fn.args.args[0].arg
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        if isinstance(n.value, ast.Name) and n.value.id == me:
                            s.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                        a = n.args[1]
                        if isinstance(a, ast.Constant):
                            s.add(a.value)
                        elif isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                            cx.dynamic.add(i)
        cx.inst[i] = s
        if "__getattr__" in i.env or "__getattribute__" in i.env or "__slots__" in i.env:
            cx.dynamic.add(i)
    cx.nonself = set()
    for m in cx.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                cx.nonself.add(n.attr)
    # names external objects may have
    ext = set(NDARRAY)
    for t in (str, bytes, bytearray, list, dict, set, frozenset, tuple, int, float, bool, type, object, BaseException, OSError,
              UnicodeDecodeError, KeyError, slice, range, memoryview, property, type(build), type((lambda: (yield))())):
        ext |= set(dir(t))
    for mn in STDLIB_OK:
        try:
            mod = importlib.import_module(mn)
        except ImportError:
            continue
        ext |= set(dir(mod))
        for k in dir(mod):
            v = getattr(mod, k, None)
            if isinstance(v, type):
                ext |= set(dir(v))
    for o in (open(os.devnull), importlib.import_module("hashlib").sha1()):
        ext |= set(dir(o))
    cx.ext = ext
    # package-wide attribute names
    pk = set()
    for g in b.globals.values():
        pk |= set(g)
    for i in cx.infos:
        pk |= set(i.env) | cx.inst[i]
    cx.pkgattrs = pk | cx.anystore | cx.strs
    return cx


def check(rep):
    cx = build()
    for name, m in cx.mods.items():
        guarded(rep, "names", name, names, rep, cx, m)
        guarded(rep, "imports", name, imports, rep, cx, m)
        guarded(rep, "body", name, Walk(rep, cx, m).run)
        guarded(rep, "flow", name, flow, rep, cx, m)
    guarded(rep, "property-setters", "package", setters, rep, cx)
    rep.count("modules", len(cx.mods))
    rep.count("classes", len(cx.infos))


# -------------------------------------------------------------------- names

def modnames(cx, m):
    g = cx.b.globals.get(m.name, {})
    s = set(g)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            s |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                s.add((a.asname or a.name).split(".")[0])
    for n in m.tree.body:
        for k in ast.walk(n):
            if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store):
                pass
    top = symtable.symtable(m.src, m.path, "exec")
    for sy in top.get_symbols():
        if sy.is_assigned() or sy.is_imported() or sy.is_namespace():
            s.add(sy.get_name())
    return s, top


def names(rep, cx, m):
    known, top = modnames(cx, m)
    missing = {}

    def go(t, path):
        for sy in t.get_symbols():
            if sy.is_referenced() and (sy.is_global() or (t.get_type() == "module" and not sy.is_assigned() and not sy.is_imported() and not sy.is_namespace())):
                n = sy.get_name()
                if n in known or n in cx.builtins:
                    rep.ok("names", "%s.%s:%s" % (m.name, path, n))
                elif n.startswith(".") or n.startswith("_["):
                    continue
                else:
                    missing.setdefault((n, path), t.get_lineno())
        for c in t.get_children():
            go(c, (path + "." if path else "") + c.get_name())
    go(top, "")
    guardedn = set()
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(h.type is None or "NameError" in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in t.handlers):
            for bb in t.body:
                guardedn |= {k.id for k in ast.walk(bb) if isinstance(k, ast.Name)}
    for (n, path), line in missing.items():
        if n in guardedn and only_guarded(m.tree, n):
            rep.ok("names", "%s.%s:%s (handled)" % (m.name, path, n))
            continue
        ln = line
        for k in ast.walk(m.tree):
            if isinstance(k, ast.Name) and k.id == n and k.lineno >= line:
                ln = k.lineno
                break
        rep.bad("names", "%s.%s: %s" % (m.name, path, n), "%s:%d" % (m.file, ln), "name %r is bound in no scope" % n)


def only_guarded(tree, name):
    """every use lies in a try body whose handlers take a NameError"""
    inside = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(h.type is None or "NameError" in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in t.handlers):
            for bb in t.body:
                inside |= {id(k) for k in ast.walk(bb)}
    return all(id(k) in inside for k in ast.walk(tree) if isinstance(k, ast.Name) and k.id == name)


def imports(rep, cx, m):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            tgt = cx.b.prog.resolve_import(m.name, n.level, n.module)
            if tgt in cx.mods:
                g = cx.b.globals.get(tgt, {})
                kn, _ = modnames(cx, cx.mods[tgt])
                for a in n.names:
                    if a.name == "*" or a.name in g or a.name in kn or (tgt + "." + a.name) in cx.mods:
                        rep.ok("imports", "%s: %s.%s" % (m.name, tgt, a.name))
                    elif in_import_guard(m.tree, n):
                        continue
                    else:
                        rep.bad("imports", "%s: %s.%s" % (m.name, tgt, a.name), "%s:%d" % (m.file, n.lineno), "%s does not define %r" % (tgt, a.name))
            elif n.level or (n.module or "").startswith("atrcopy"):
                if not in_import_guard(m.tree, n):
                    rep.bad("imports", "%s: %s" % (m.name, tgt), "%s:%d" % (m.file, n.lineno), "no such module in the package")


def in_import_guard(tree, node):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(k is node for b in t.body for k in ast.walk(b)):
            for h in t.handlers:
                if h.type is None or "Import" in ast.dump(h.type) or "'Exception'" in ast.dump(h.type):
                    return True
    return False


# ------------------------------------------------------- attributes, calls

class Walk(ast.NodeVisitor):
    def __init__(self, rep, cx, m):
        self.rep, self.cx, self.m = rep, cx, m
        self.g = cx.b.globals.get(m.name, {})
        self.cls = None
        self.fn = []
        self.me = None
        self.nested = False
        self.multis = {}

    def run(self):
        self.visit(self.m.tree)

    def w(self, n):
        return "%s:%d" % (self.m.file, n.lineno)

    def con(self):
        return ".".join(filter(None, [self.m.name, self.cls.name if self.cls else None] + [f.name for f in self.fn if hasattr(f, "name")]))

    def visit_ClassDef(self, n):
        old = self.cls, self.me, self.fn, self.nested
        self.cls = self.cx.classes.get(n)
        self.nested = self.cls is None
        self.me = None
        if not self.nested:
            self.fn = []
        self.generic_visit(n)
        self.cls, self.me, self.fn, self.nested = old

    def visit_FunctionDef(self, n):
        old = self.me
        if self.cls is not None and not self.fn:
            decs = {d.id for d in n.decorator_list if isinstance(d, ast.Name)}
            if "staticmethod" in decs:
                self.me = None
            elif n.args.args:
                self.me = (n.args.args[0].arg, "cls" if "classmethod" in decs else "self")
        elif n.args.args and self.me and n.args.args[0].arg == self.me[0]:
            self.me = None
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        self.me = old

    # value of an expression when it names something static
    def static(self, e):
        if isinstance(e, ast.Name):
            for f in reversed(self.fn):
                if any(isinstance(k, ast.Name) and k.id == e.id and isinstance(k.ctx, ast.Store) for k in ast.walk(f)):
                    return None
                if any(a.arg == e.id for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]):
                    return None
                for k in ast.walk(f):
                    if isinstance(k, (ast.FunctionDef, ast.ClassDef)) and k is not f and k.name == e.id:
                        return None
                    if isinstance(k, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == e.id for a in k.names):
                        return None
            for k in ast.walk(self.m.tree):
                if isinstance(k, ast.Global) and e.id in k.names:
                    return None
            v = self.g.get(e.id)
            if v is not None and self.multi(e.id):
                return None
            return v
        if isinstance(e, ast.Attribute):
            v = self.static(e.value)
            if type(v) is Mo:
                g = self.cx.b.globals.get(v.name)
                return g.get(e.attr) if g is not None else None
            if type(v) is Ex:
                return Ex(v.name + "." + e.attr)
            if type(v) is Cl:
                x = v.info.find(e.attr)[0]
                return x
        return None

    def multi(self, name):
        """bound more than once at module level"""
        r = self.multis.get(name)
        if r is None:
            r = self.multis[name] = self.multi_(name)
        return r

    def multi_(self, name):
        n = 0
        for k in ast.walk(self.m.tree):
            if isinstance(k, ast.Name) and k.id == name and isinstance(k.ctx, ast.Store):
                n += 1
            elif isinstance(k, (ast.FunctionDef, ast.ClassDef)) and k.name == name and k in self.m.tree.body:
                n += 1
            elif isinstance(k, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in k.names):
                n += 1
        return n > 1

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return
        rep, cx = self.rep, self.cx
        v = self.static(n.value)
        if type(v) is Mo:
            g = cx.b.globals.get(v.name)
            if g is not None:
                kn, _ = modnames(cx, cx.mods[v.name])
                if n.attr in g or n.attr in kn or n.attr in MODGLOBALS or (v.name + "." + n.attr) in cx.mods or n.attr in cx.nonself:
                    rep.ok("module-attr", "%s: %s.%s" % (self.con(), v.name, n.attr))
                else:
                    rep.bad("module-attr", "%s: %s.%s" % (self.con(), v.name, n.attr), self.w(n), "%s has no %r" % (v.name, n.attr))
                return
        if type(v) is Ex:
            mn = v.name
            if mn in STDLIB_OK:
                try:
                    mod = importlib.import_module(mn)
                except ImportError:
                    return
                if hasattr(mod, n.attr):
                    rep.ok("stdlib-attr", "%s: %s.%s" % (self.con(), mn, n.attr))
                elif (mn, n.attr) in FROZEN:
                    pass
                else:
                    rep.bad("stdlib-attr", "%s: %s.%s" % (self.con(), mn, n.attr), self.w(n), "module %s has no %r" % (mn, n.attr))
            return
        if type(v) is Cl:
            if v.info.has_ext_base() or v.info in cx.dynamic:
                return
            if v.info.find(n.attr)[0] is not None or hasattr(type, n.attr) or n.attr in cx.nonself:
                rep.ok("class-attr", "%s: %s.%s" % (self.con(), v.info.name, n.attr))
            else:
                rep.bad("class-attr", "%s: %s.%s" % (self.con(), v.info.name, n.attr), self.w(n), "class %s has no %r" % (v.info.name, n.attr))
            return
        if isinstance(n.value, ast.Name) and self.me and n.value.id == self.me[0] and self.cls is not None and not self.rebound(n.value.id):
            self.self_attr(n)
            return
        if n.attr.startswith("__") and n.attr.endswith("__"):
            return
        if n.attr in cx.pkgattrs or n.attr in cx.ext:
            rep.ok("some-attr", "%s: .%s" % (self.con(), n.attr))
        else:
            root = n.value
            while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                root = root.func if isinstance(root, ast.Call) else root.value
            rv = self.static(root) if isinstance(root, ast.Name) else None
            if type(rv) is Ex or (isinstance(root, ast.Name) and self.importy(root.id)):
                return
            if self.nested or self.hasattr_guard(n.attr) or self.outside_param(n.value):
                return
            rep.bad("some-attr", "%s: .%s" % (self.con(), n.attr), self.w(n), "no class of the package or library type has an attribute %r" % n.attr)

    def outside_param(self, e):
        """a parameter of a function that the package itself never uses"""
        if not isinstance(e, ast.Name) or not self.fn or self.cls is not None:
            return False
        f = self.fn[0]
        if not any(a.arg == e.id for a in f.args.args):
            return False
        return f.name not in live_names(self.cx)

    def importy(self, name):
        for k in ast.walk(self.m.tree):
            if isinstance(k, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in k.names):
                return True
        return False

    def rebound(self, name):
        f = self.fn[0] if self.fn else None
        return f is not None and any(isinstance(k, ast.Name) and k.id == name and isinstance(k.ctx, ast.Store) for k in ast.walk(f))

    def hasattr_guard(self, attr):
        f = self.fn[0] if self.fn else self.m.tree
        for k in ast.walk(f):
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ("hasattr", "getattr") and len(k.args) > 1 and isinstance(k.args[1], ast.Constant) and k.args[1].value == attr:
                return True
            if isinstance(k, ast.ExceptHandler) and k.type is not None and "AttributeError" in ast.dump(k.type):
                return True
        return False

    def self_attr(self, n):
        rep, cx = self.rep, self.cx
        a = n.attr
        fam = cx.subs.get(self.cls, [self.cls])
        con = "%s: self.%s" % (self.con(), a)
        if a.startswith("__") and a.endswith("__"):
            return
        if any(c in cx.dynamic for c in fam) or any(c.has_ext_base() for c in fam if not self.known_ext(c)):
            return
        f0 = self.fn[0]
        missing = []
        have = []
        for c in fam:
            if self.provides(c, a):
                have.append(c)
            elif c.find(f0.name)[0] is not None and self.uses(c, f0):
                missing.append(c)
        if not have:
            if a in cx.nonself or (a in cx.strs and any("setattr" in ast.dump(k.func) for k in ast.walk(self.m.tree) if isinstance(k, ast.Call))):
                return
            if self.hasattr_guard(a):
                return
            rep.bad("self-attr", con, self.w(n), "neither %s nor a base or subclass defines %r" % (self.cls.name, a))
        else:
            rep.ok("self-attr", con)

    def known_ext(self, c):
        return all(e.name in ("builtins.object", "object") for e in c.has_ext_base())

    def uses(self, c, fn):
        v, owner = c.find(fn.name)
        return owner is self.cls

    def provides(self, c, a):
        for k in c.mro():
            if hasattr(k, "env"):
                if a in k.env or a in self.cx.inst.get(k, ()):
                    return True
        return False

    # ------------------------------------------------------------- calls
    def visit_Call(self, n):
        self.generic_visit(n)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        np_, kw = len(n.args), [k.arg for k in n.keywords]
        rep, cx = self.rep, self.cx
        f = n.func
        v = self.static(f)
        if type(v) is Wrapd:
            if isinstance(f, ast.Attribute):
                self.arity(n, v.fn, np_, kw, 1 if v.how == "classmethod" else 0)
            return
        if type(v) is Fn:
            self.arity(n, v, np_, kw, 0)
            return
        if type(v) is Cl:
            self.ctor(n, v.info, np_, kw)
            return
        if isinstance(f, ast.Name) and f.id == "super":
            return
        if isinstance(f, ast.Attribute):
            r = f.value
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "super" and self.cls is not None and self.fn:
                # super().m(...)
                for c in [self.cls]:
                    mro = c.mro()
                    rest = mro[mro.index(self.cls) + 1:] if self.cls in mro else []
                    for k in rest:
                        if hasattr(k, "env") and f.attr in k.env:
                            self.callval(n, k.env[f.attr], np_, kw)
                            return
                        if not hasattr(k, "env"):
                            return
                    if not hasattr(object, f.attr):
                        rep.bad("call", "%s: super().%s" % (self.con(), f.attr), self.w(n), "no base class of %s has %r" % (self.cls.name, f.attr))
                return
            if isinstance(r, ast.Name) and self.me and r.id == self.me[0] and self.cls is not None and self.fn and not self.rebound(r.id):
                fam = cx.subs.get(self.cls, [self.cls])
                f0 = self.fn[0]
                cands = {}
                for c in fam:
                    if self.me[1] == "self" and not self.uses(c, f0):
                        continue
                    if any(f.attr in cx.inst.get(k, ()) for k in c.mro() if hasattr(k, "env")):
                        return
                    x, o = c.find(f.attr)
                    if x is not None:
                        cands.setdefault(id(x), (x, o, c))
                for x, o, c in cands.values():
                    if not self.instantiable(c) and len(cands) > 1:
                        continue
                    self.callval(n, x, np_, kw, " (for %s)" % c.name)
                return
            # unknown receiver: all implementations in the package
            if f.attr in cx.ext or f.attr in cx.anystore:
                return
            impls = {}
            for i in cx.infos:
                x = i.env.get(f.attr)
                if x is not None:
                    impls[id(x)] = (x, i)
            for g in cx.b.globals.values():
                x = g.get(f.attr)
                if x is not None and type(x) in (Fn, Cl):
                    return
            fs = []
            for x, i in impls.values():
                fn, skip = self.unwrap(x)
                if fn is None:
                    return
                fs.append((fn, skip, i))
            if fs:
                errs = [(self.fits(fn, np_, kw, skip), i) for fn, skip, i in fs]
                if all(e for e, i in errs):
                    rep.bad("call", "%s: .%s" % (self.con(), f.attr), self.w(n), "no implementation accepts this call: %s.%s %s" % (errs[0][1].name, f.attr, errs[0][0]))
                else:
                    rep.ok("call", "%s: .%s" % (self.con(), f.attr))

    def instantiable(self, c):
        return True

    def unwrap(self, x):
        if type(x) is Fn:
            return x, 1
        if type(x) is Wrapd:
            return x.fn, 1 if x.how == "classmethod" else 0
        return None, 0

    def callval(self, n, x, np_, kw, extra=""):
        fn, skip = self.unwrap(x)
        if fn is not None:
            self.arity(n, fn, np_, kw, skip, extra)

    def ctor(self, n, info, np_, kw):
        if info.has_ext_base() and not self.known_ext(info):
            # exceptions and the like
            if info.find("__init__")[0] is None:
                return
        x, o = info.find("__init__")
        if x is None:
            nx = info.find("__new__")[0]
            if nx is None and (np_ or kw) and not [e for e in info.has_ext_base() if e.name not in ("builtins.object", "object")]:
                self.rep.bad("call", "%s: %s()" % (self.con(), info.name), self.w(n), "%s has no constructor arguments" % info.name)
            return
        self.callval(n, x, np_, kw, " (constructor of %s)" % info.name)

    def arity(self, n, fn, np_, kw, skip, extra=""):
        e = self.fits(fn, np_, kw, skip)
        con = "%s: call of %s%s" % (self.con(), fn.info.qual, extra)
        if e:
            self.rep.bad("call", con, self.w(n), e)
        else:
            self.rep.ok("call", con)

    def fits(self, fn, np_, kw, skip):
        i = fn.info
        if type(i.node) is ast.Lambda:
            return None
        if i.node.decorator_list and any(not (isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod", "property")) for d in i.node.decorator_list):
            return None
        params = i.params
        pos = np_ + skip
        if pos > len(params) and i.vararg is None:
            return "takes %d positional arguments, %d given" % (len(params) - skip, np_)
        bound = set(params[:pos])
        for k in kw:
            if k in bound:
                return "argument %r given twice" % k
            if k not in params and k not in i.kwonly and i.kwarg is None:
                return "has no parameter %r" % k
            bound.add(k)
        nd = len(i.defaults)
        req = params[:len(params) - nd] if nd else params
        miss = [p for p in req if p not in bound]
        if miss:
            return "missing argument %r" % miss[0]
        for p, d in zip(i.kwonly, i.kw_defaults):
            if d is None and p not in bound:
                return "missing keyword argument %r" % p
        return None

    # ----------------------------------------------------------- formats
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.percent(n, n.left.value, n.right)

    def percent(self, n, fmt, right):
        con = "%s: %r" % (self.con(), fmt[:40])
        specs, err = parse_percent(fmt)
        if err:
            self.rep.bad("format", con, self.w(n), err)
            return
        named = [s for s in specs if s[0] is not None]
        if named:
            if isinstance(right, ast.Dict) and all(isinstance(k, ast.Constant) for k in right.keys):
                have = {k.value for k in right.keys}
                for s in named:
                    if s[0] not in have:
                        self.rep.bad("format", con, self.w(n), "key %r is not in the dictionary" % s[0])
                        return
            elif isinstance(right, ast.Tuple):
                self.rep.bad("format", con, self.w(n), "named conversions with a tuple")
                return
            self.rep.ok("format", con)
            return
        need = sum(1 + s[2] for s in specs)
        if isinstance(right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in right.elts):
                return
            if len(right.elts) != need:
                self.rep.bad("format", con, self.w(n), "%d conversions, %d values" % (need, len(right.elts)))
                return
            for s, e in zip(specs, right.elts) if not any(s[2] for s in specs) else ():
                if self.badtype(s[1], e):
                    self.rep.bad("format", con, self.w(n), "%%%s applied to %s" % (s[1], ast.unparse(e)))
                    return
        elif isinstance(right, (ast.Constant, ast.JoinedStr, ast.Compare, ast.BinOp, ast.ListComp, ast.List)) or (isinstance(right, ast.Call) and isinstance(right.func, ast.Name) and right.func.id in ("str", "len", "int", "repr", "hex")):
            if isinstance(right, ast.BinOp) and not isinstance(right.op, ast.Mod):
                pass
            if need != 1 and not (isinstance(right, ast.BinOp)):
                self.rep.bad("format", con, self.w(n), "%d conversions, 1 value" % need)
                return
            if need == 1 and self.badtype(specs[0][1], right):
                self.rep.bad("format", con, self.w(n), "%%%s applied to %s" % (specs[0][1], ast.unparse(right)))
                return
        elif isinstance(right, ast.Name) and need == 0:
            self.rep.bad("format", con, self.w(n), "no conversion for the value")
            return
        self.rep.ok("format", con)

    def badtype(self, c, e):
        if c in "diouxXeEfFgGc":
            if isinstance(e, ast.JoinedStr):
                return True
            if isinstance(e, ast.Constant) and (e.value is None or (isinstance(e.value, str) and not (c == "c" and len(e.value) == 1)) or isinstance(e.value, bytes)):
                return True
            if c != "c" and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("str", "repr", "hex", "bin", "list", "tuple", "dict", "set", "sorted") and self.static(e.func) in (None, Ex("builtins." + e.func.id)):
                return True
            if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Tuple, ast.DictComp)):
                return True
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                return True
            if c != "c" and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("join", "strip", "rstrip", "lstrip", "upper", "lower", "format", "decode", "encode", "replace", "hexdigest", "tolist"):
                return e.func.attr != "replace"
            v = None
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.me and e.value.id == self.me[0] and self.cls is not None:
                return c != "c" and self.always_str(e.attr)
        return False

    def always_str(self, attr):
        """every definition of the attribute in the family is a string"""
        defs = []
        for c in self.cx.subs.get(self.cls, [self.cls]):
            for k in c.mro():
                if not hasattr(k, "env"):
                    continue
                if attr in k.env:
                    defs.append(k.env[attr])
                if attr in self.cx.inst.get(k, ()):
                    for n in ast.walk(k.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                for q in ast.walk(t):
                                    if isinstance(q, ast.Attribute) and q.attr == attr:
                                        defs.append(n.value if q is t else None)
                        elif isinstance(n, (ast.AugAssign, ast.For, ast.With, ast.AnnAssign)):
                            for q in ast.walk(n):
                                if isinstance(q, ast.Attribute) and q.attr == attr and isinstance(q.ctx, ast.Store):
                                    defs.append(None)
        if attr in self.cx.nonself or not defs:
            return False
        for d in defs:
            if type(d) is C and isinstance(d.v, str):
                continue
            if isinstance(d, ast.Constant) and isinstance(d.value, str):
                continue
            if isinstance(d, ast.JoinedStr):
                continue
            return False
        return True

    def visit_Raise(self, n):
        self.generic_visit(n)
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if e is None:
            return
        v = self.static(e)
        if type(v) is Cl:
            if not v.info.has_ext_base():
                self.rep.bad("raise", "%s: %s" % (self.con(), ast.unparse(e)), self.w(n), "%s is no exception class" % v.info.name)
            else:
                self.rep.ok("raise", "%s: %s" % (self.con(), ast.unparse(e)))
        elif isinstance(e, ast.Name) and v is None and e.id in dir(builtins) and not self.local(e.id):
            o = getattr(builtins, e.id)
            if not (isinstance(o, type) and issubclass(o, BaseException)):
                self.rep.bad("raise", "%s: %s" % (self.con(), e.id), self.w(n), "%s is no exception class" % e.id)
            else:
                self.rep.ok("raise", "%s: %s" % (self.con(), e.id))
        elif type(v) in (Mo, Fn) or (type(v) is C and v.v is not None and not isinstance(v.v, str)):
            self.rep.bad("raise", "%s: %s" % (self.con(), ast.unparse(e)), self.w(n), "raises something that is no exception")

    def local(self, name):
        return any(isinstance(k, ast.Name) and k.id == name and isinstance(k.ctx, ast.Store) for f in self.fn for k in ast.walk(f))

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        for p in n.values:
            if isinstance(p, ast.FormattedValue) and p.format_spec is not None and p.conversion == -1:
                fs = p.format_spec.values
                if len(fs) == 1 and isinstance(fs[0], ast.Constant) and isinstance(fs[0].value, str) and fs[0].value[-1:] in "dxXobcn":
                    if self.badtype("d", p.value):
                        self.rep.bad("format", "%s: %s" % (self.con(), ast.unparse(p.value)), self.w(n), "format code %r applied to a string" % fs[0].value)


def parse_percent(f):
    out = []
    i = 0
    while i < len(f):
        if f[i] != "%":
            i += 1
            continue
        i += 1
        if i < len(f) and f[i] == "%":
            i += 1
            continue
        key = None
        stars = 0
        if i < len(f) and f[i] == "(":
            j = f.find(")", i)
            if j < 0:
                return out, "incomplete conversion"
            key = f[i + 1:j]
            i = j + 1
        while i < len(f) and f[i] in "#0- +":
            i += 1
        while i < len(f) and (f[i].isdigit() or f[i] in "*."):
            if f[i] == "*":
                stars += 1
            i += 1
        while i < len(f) and f[i] in "hlL":
            i += 1
        if i >= len(f):
            return out, "incomplete conversion"
        if f[i] not in "diouxXeEfFgGcrsa%":
            return out, "unknown conversion %%%s" % f[i]
        if f[i] != "%":
            out.append((key, f[i], stars))
        i += 1
    return out, None


# --------------------------------------------------- reaching assignments

def flow(rep, cx, m):
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Flow(rep, m, n).run()


class Flow:
    """which local names may have been bound on some path to a use"""

    def __init__(self, rep, m, fn):
        self.rep, self.m, self.fn = rep, m, fn
        self.locals = set()
        glob = set()
        for n in scope(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= glob
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.reads = 0

    def run(self):
        self.block(self.fn.body, set(self.params))
        if self.reads:
            self.rep.ok("bound-before-use", "%s.%s:%d" % (self.m.name, self.fn.name, self.fn.lineno), "%d reads" % self.reads)

    def use(self, e, may):
        if e is None or may is None:
            return
        comp = set()
        for n in ast.walk(e):
            if isinstance(n, ast.comprehension):
                for k in ast.walk(n.target):
                    if isinstance(k, ast.Name):
                        comp.add(k.id)
            if isinstance(n, ast.Lambda):
                comp |= {x.arg for x in n.args.args + n.args.kwonlyargs}
        lam = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                lam |= {k for k in ast.walk(n.body)}
        walrus = set()
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                walrus.add(n.target.id)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in self.params and n not in lam:
                self.reads += 1
                if n.id not in may and n.id not in comp and n.id not in walrus:
                    self.rep.bad("bound-before-use", "%s.%s: %s" % (self.m.name, self.fn.name, n.id), "%s:%d" % (self.m.file, n.lineno), "local %r is not bound on any path to this use" % n.id)
        may |= walrus

    def bind(self, t, may):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                may.add(n.id)
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n.value, may)
                if isinstance(n, ast.Subscript):
                    self.use(n.slice, may)

    def block(self, body, may):
        for s in body:
            if may is None:
                return None
            may = self.stmt(s, may)
        return may

    def stmt(self, s, may):
        t = type(s).__name__
        if t == "Assign":
            self.use(s.value, may)
            for x in s.targets:
                self.bind(x, may)
            return may
        if t == "AnnAssign":
            self.use(s.value, may)
            if s.value is not None:
                self.bind(s.target, may)
            return may
        if t == "AugAssign":
            self.use(s.value, may)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s), may)
            self.bind(s.target, may)
            return may
        if t in ("Return", "Raise"):
            for f in ("value", "exc", "cause"):
                self.use(getattr(s, f, None), may)
            return None
        if t in ("Break", "Continue"):
            self.jumps |= may
            return None
        if t == "If":
            self.use(s.test, may)
            a = self.block(s.body, set(may))
            b = self.block(s.orelse, set(may))
            if a is None:
                return b
            if b is None:
                return a
            return a | b
        if t in ("For", "While", "AsyncFor"):
            if t == "While":
                pass
            else:
                self.use(s.iter, may)
            pre = set(may)
            inner = set(may)
            for n in scope(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    inner.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    inner |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    inner.add(n.name)
            # a name bound only later in the body is bound from the second
            # iteration on; the first one is examined separately
            first = set(pre)
            if t == "While":
                self.use(s.test, first)
            else:
                self.bind(s.target, first)
            old = getattr(self, "jumps", set())
            self.jumps = set()
            self.block(s.body, set(first) if self.once(s) else inner)
            self.jumps = old
            self.block(s.orelse, set(inner))
            if t == "While" and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in scope(s)):
                return None
            return inner
        if t == "Try" or t == "TryStar":
            pre = set(may)
            a = self.block(s.body, set(may))
            mid = set(pre)
            for b in s.body:
                for n in [b] + list(scope(b)):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        mid.add(n.id)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        mid |= {(x.asname or x.name).split(".")[0] for x in n.names}
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        mid.add(n.name)
            ends = []
            if a is not None:
                a = self.block(s.orelse, a)
                if a is not None:
                    ends.append(a)
            for h in s.handlers:
                x = set(mid)
                self.use(h.type, x)
                if h.name:
                    x.add(h.name)
                x = self.block(h.body, x)
                if x is not None:
                    if h.name:
                        x.discard(h.name)
                    ends.append(x)
            fin = set(mid)
            for e in ends:
                fin |= e
            if s.finalbody:
                f = self.block(s.finalbody, fin)
                if f is None:
                    return None
                if ends:
                    return f
                return None
            if not ends:
                return None
            out = set()
            for e in ends:
                out |= e
            return out
        if t in ("With", "AsyncWith"):
            for i in s.items:
                self.use(i.context_expr, may)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, may)
            r = self.block(s.body, set(may))
            if r is None:
                # the context manager may swallow an exception
                return may if any("suppress" in ast.dump(i.context_expr) for i in s.items) else None
            return r
        if t in ("FunctionDef", "ClassDef"):
            for d in s.decorator_list:
                self.use(d, may)
            may.add(s.name)
            return may
        if t in ("Import", "ImportFrom"):
            for a in s.names:
                may.add((a.asname or a.name).split(".")[0])
            return may
        if t == "Delete":
            for x in s.targets:
                if isinstance(x, ast.Name):
                    if x.id in self.locals and x.id not in self.params and x.id not in may:
                        self.use(ast.copy_location(ast.Name(x.id, ast.Load()), s), may)
                    may.discard(x.id)
                else:
                    self.use(x, may)
            return may
        if t == "Expr":
            self.use(s.value, may)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit"):
                return None
            return may
        if t == "Assert":
            self.use(s.test, may)
            return may
        if t == "Match":
            for n in ast.walk(s):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    may.add(n.name)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    may.add(n.id)
            return may
        return may

    def once(self, s):
        return False


def scope(fn):
    """nodes of a function or statement without nested function scopes"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                todo.append(g.iter)
            continue
        todo.extend(ast.iter_child_nodes(n))


# --------------------------------------------------------------- properties

def setters(rep, cx):
    for i in cx.infos:
        for fn in i.node.body:
            if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                continue
            me = fn.args.args[0].arg
            decs = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
            if decs & {"classmethod", "staticmethod"}:
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    for c in cx.subs.get(i, [i]):
                        if c.find(fn.name)[1] is not i and fn.name != "__init__":
                            continue
                        v, o = c.find(n.attr)
                        con = "%s.%s: self.%s on %s" % (i.name, fn.name, n.attr, c.name)
                        if type(v) is Prop and v.fset is None:
                            if fn.name == "__init__" and c.find("__init__")[1] is not i and not calls_base_init(c, i, cx):
                                continue
                            rep.bad("property-setter", con, "%s:%d" % (i.module.file if hasattr(i.module, "file") else i.name, n.lineno), "%s.%s is a property without setter" % (o.name, n.attr))
                        elif type(v) is Prop:
                            rep.ok("property-setter", con)
    # stores through other receivers
    for m in cx.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                defs = [(i, i.env.get(n.attr)) for i in cx.infos if n.attr in i.env]
                if not defs:
                    continue
                plain = any(n.attr in cx.inst[i] for i in cx.infos)
                ro = [i for i, v in defs if type(v) is Prop and v.fset is None]
                if ro and len(ro) == len(defs) and not plain:
                    rep.bad("property-setter", "%s: .%s" % (m.name, n.attr), "%s:%d" % (m.file, n.lineno), "%s.%s is a property without setter" % (ro[0].name, n.attr))
                elif any(type(v) is Prop for i, v in defs):
                    rep.ok("property-setter", "%s: .%s" % (m.name, n.attr))


def calls_base_init(c, i, cx):
    for k in c.mro():
        if k is i:
            return True
        if hasattr(k, "env") and "__init__" in k.env:
            for q in ast.walk(k.node):
                if isinstance(q, ast.FunctionDef) and q.name == "__init__":
                    if not any(isinstance(z, ast.Attribute) and z.attr == "__init__" for z in ast.walk(q)):
                        return False
    return True
