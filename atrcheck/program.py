"""Program model: the parsed source of the package under /repo."""
import ast
import hashlib
import os

REPO = os.environ.get("ATRCHECK_REPO", "/repo")
PKG = "atrcopy"


class AnalysisBroken(Exception):
    """The analysis cannot find what it is anchored to."""


class ModInfo:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.file = os.path.relpath(path, REPO)


class FuncInfo:
    def __init__(self, node, module, cls, qual):
        self.node = node
        self.name = getattr(node, "name", "<lambda>")
        self.module = module
        self.cls = cls
        self.qual = qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = a.defaults
        self.kw_defaults = a.kw_defaults
        self.is_gen = False
        self.globals_ = set()
        self.nonlocals = set()
        self.assigned = set(self.params + self.kwonly)
        if not isinstance(node, ast.Lambda):
            for n in walk_scope(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
                elif isinstance(n, ast.Global):
                    self.globals_.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.nonlocals.update(n.names)

    @property
    def where(self):
        return "%s:%s" % (self.module.file, self.qual)


def walk_scope(fn):
    """All nodes of a function body, not descending into nested scopes."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            if isinstance(n, ast.FunctionDef):
                todo.extend(n.decorator_list)
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, name, module, node, bases, env, qual=None):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases          # list of Cl / Ex / other values
        self.env = env              # class namespace: name -> value
        self.qual = qual or name
        self._mro = None

    def mro(self):
        if self._mro is None:
            from .terms import Cl
            seqs = []
            for b in self.bases:
                if type(b) is Cl:
                    seqs.append(list(b.info.mro()))
                else:
                    seqs.append([b])
            seqs.append([b.info if type(b) is Cl else b for b in self.bases])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if c in s:
                        s.remove(c)
            self._mro = out
        return self._mro

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.env:
                return c.env[name], c
        return None, None

    def has_ext_base(self):
        from .terms import Ex
        return [c for c in self.mro() if type(c) is Ex and c.name != "builtins.object"]

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "ClassInfo(%s)" % self.qual


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        d = os.path.join(self.root, PKG)
        if not os.path.isdir(d):
            raise AnalysisBroken("package directory %s is missing" % d)
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(d)):
            dn.sort()
            dn[:] = [x for x in dn if x not in ("templates", "__pycache__")]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode() + b"\0")
                try:
                    self.modules[rel] = ModInfo(rel, path, src)
                except SyntaxError as e:
                    raise AnalysisBroken("%s does not parse: %s" % (path, e))
        self.digest = h.hexdigest()

    def resolve_import(self, modname, level, target):
        """Absolute module name for a (relative) import inside modname."""
        if level == 0:
            return target
        parts = modname.split(".")
        is_pkg = modname in self.modules and self.modules[modname].path.endswith("__init__.py")
        drop = level - (1 if is_pkg else 0)
        base = parts[:len(parts) - drop] if drop else parts
        return ".".join(base + ([target] if target else []))
