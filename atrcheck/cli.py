"""Abstract execution of the command line: the argparse declarations of the
program are interpreted, and the command function runs on symbolic option
values and a symbolic disk image."""
from .common import *

ARG = mk("sym", "ARG", kind="str")
FALSE = C(False)
IMG = mk("sym", "IMAGE_FILE_NAME", kind="str")

MUTATORS = {"os." + x for x in """remove unlink rename renames replace rmdir removedirs mkdir makedirs truncate symlink link
 chmod chown utime mkfifo mknod system popen putenv open write ftruncate startfile""".split()}
MUT_PREFIX = ("shutil.", "tempfile.", "subprocess.")
SHUTIL_OK = {"shutil.which", "shutil.disk_usage", "shutil.get_terminal_size"}
PATH_MUT = {"write_text", "write_bytes", "touch", "mkdir", "unlink", "rename", "replace", "rmdir", "symlink_to", "hardlink_to", "chmod"}
NP_MUT = {"numpy.save", "numpy.savez", "numpy.savetxt", "numpy.memmap"}

IMAGE_OPS = {"save", "write_file", "delete_file", "shred", "find_dirent", "find_file", "get_file", "get_vtoc_object",
             "create_executable_file_image", "create_boot_image", "get_file_segment", "parse_segments"}


def canon_path(p):
    while type(p) is T and p.op == "ospath" and p.args[0].v in ("abspath", "normpath", "realpath", "expanduser") and len(p.args) == 2:
        p = p.args[1]
    while type(p) is T and p.op in ("pathlib", "strof") and len(p.args) == 1:
        p = p.args[0]
    return p


KEEP = {("option", "dry_run"), ("option", "force")}


class CliClient(Client):
    """events go to event(it, st, kind, data, node) -> state"""
    unroll = 40
    track_empty = True

    def __init__(self, command, **preset):
        self.command = command           # word given on the command line
        self.preset = preset             # option dest -> constant
        self.parsers = {}                # parser id -> list of (dest, kind, const)
        self.actions = {}
        self.ready = False
        self.help_exit = 0
        self.parse_args_seen = 0
        self.namespaces = []
        self.misparsed = False
        self.argv_form = None

    split_ops = ()          # facts about these terms keep states apart

    def partition(self, st):
        res = []
        for key, val in st.facts.items():
            for t in (key if isinstance(key, tuple) else (key,)):
                if type(t) is not T:
                    continue
                if t.op == "bool" and type(t.args[0]) is T:
                    t = t.args[0]
                if t.op == "sym" and t.args and isinstance(t.args[0], tuple) and t.args[0] in KEEP:
                    res.append((str(key), C(val)))
                elif t.op in self.split_ops:
                    res.append((str(key), C(val)))
        return res

    # ---- events
    def event(self, it, st, kind, data, node):
        return st

    # ---- argparse
    def new_parser(self, it, st, node):
        st, r = it.alloc(st, node, Opq("argparse.parser"), "argp")
        key = ("P", len(self.parsers))
        st = st.put(r.id, Opq("argparse.parser", {"key": C(key)}))
        self.parsers[key] = []
        return st, r

    def on_ext(self, it, st, name, args, kwargs, node):
        if name is None:
            return None
        if name.endswith("ArgumentParser") and name.startswith("argparse"):
            st, r = self.new_parser(it, st, node)
            self.actions[it.obj(st, r).attrs["key"]] = {}
            return [("n", st, r)]
        if name in ("builtins.open", "open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open"):
            return self.do_open(it, st, args, kwargs, node)
        if name in MUTATORS or name in NP_MUT or (name.startswith(MUT_PREFIX) and name not in SHUTIL_OK):
            st = self.event(it, st, "host", (name, tuple(models.tv(it, st, a) for a in args)), node)
            if name in ("os.makedirs", "os.mkdir") and models.spec_catchable(it, "OSError"):
                return [("n", st, NONE), models.exc(st, "FileExistsError", node)]
            return [("n", st, it.fresh(st, node, "ext:" + name))]
        if name in ("builtins.print", "print", "sys.stdout.write"):
            st = self.event(it, st, "print", tuple(models.tv(it, st, a) for a in args), node)
            return [("n", st, NONE)]
        if name in ("pathlib.Path", "pathlib.PurePath") and args:
            return [("n", st, mk("pathlib", models.tv(it, st, args[0])))]
        if name == "os.access":
            return [("n", st, mk("ospath", C("exists"), models.tv(it, st, args[0]), kind="bool"))]
        if name == "os.stat" or name == "os.lstat":
            return None
        return None

    def do_open(self, it, st, args, kwargs, node):
        mode = args[1] if len(args) > 1 else kwargs.get("mode", C("r"))
        path = canon_path(models.tv(it, st, args[0] if args else kwargs.get("file", NONE)))
        m = mode.v if type(mode) is C else None
        x, r = it.alloc(st, node, Opq("file", {"name": path, "mode": models.tv(it, st, mode)}), "file")
        outs = []
        if m is None or any(c in str(m) for c in "wax+"):
            x = self.event(it, x, "write", (path, m), node)
        else:
            x = self.event(it, x, "read", (path, m), node)
        outs.append(("n", x, r))
        if models.spec_catchable(it, "FileNotFoundError") or models.spec_catchable(it, "OSError"):
            outs.append(models.exc(st, "FileNotFoundError", node))
        return outs

    def on_method(self, it, st, base, name, args, kwargs, node):
        if name == "startswith" and base in (IMG, ARG):
            return [("n", st, FALSE)]
        if type(base) is R:
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "argparse.parser":
                return self.argparse_method(it, st, base, o, name, args, kwargs, node)
            if type(o) is Opq and o.what == "file":
                if name in ("write", "writelines", "truncate"):
                    st = self.event(it, st, "fwrite", (o.attrs["name"], o.attrs["mode"], models.tv(it, st, args[0]) if args else NONE), node)
                    return [("n", st, NONE)]
                if name == "read":
                    return [("n", st, mk("filedata", o.attrs["name"], *[models.tv(it, st, a) for a in args], kind="bytes"))]
            if type(o) is Inst and name == "add_parser":
                return self.add_parser(it, st, base, args, kwargs, node)
        if type(base) is T and base.op == "super" and len(base.args) == 2:
            me = base.args[1]
            if name == "add_parser" and type(me) is R:
                return self.add_parser(it, st, me, args, kwargs, node)
        if type(base) is Ar and name == "tofile" or type(base) is T and base.kind == "arr" and name == "tofile":
            t = args[0] if args else NONE
            o = it.obj(st, t) if type(t) is R else None
            if type(o) is Opq and o.what == "file":
                st = self.event(it, st, "fwrite", (o.attrs["name"], o.attrs["mode"], models.tv(it, st, base) if type(base) is T else models.freeze(it, st, base)), node)
            else:
                st = self.event(it, st, "write", (canon_path(models.tv(it, st, t)), "wb"), node)
            return [("n", st, NONE)]
        if type(base) is T and base.op == "pathlib":
            if name in ("exists", "is_file"):
                return [("n", st, mk("ospath", C("exists"), base.args[0], kind="bool"))]
            if name == "open":
                return self.do_open(it, st, [base.args[0]] + list(args), kwargs, node)
            if name in PATH_MUT:
                k = "write" if name in ("write_text", "write_bytes") else "host"
                st = self.event(it, st, k, (base.args[0], "w") if k == "write" else ("pathlib." + name, (base.args[0],)), node)
                return [("n", st, NONE)]
            if name == "joinpath":
                return [("n", st, mk("pathlib", mk("ospath", C("join"), base.args[0], *[models.tv(it, st, a) for a in args], kind="str")))]
        return None

    def kw(self, it, st, kwargs, name, default=None):
        v = kwargs.get(name)
        if v is None:
            return default
        try:
            return topy(v, st.heap)
        except ValueError:
            return v

    def argparse_method(self, it, st, ref, o, name, args, kwargs, node):
        key = o.attrs["key"]
        if name == "register":
            if len(args) == 3 and args[0] == C("action"):
                self.actions.setdefault(key, {})[args[1].v] = args[2]
            return [("n", st, NONE)]
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return [("n", st, ref)]
        if name == "set_defaults":
            for k, v in kwargs.items():
                self.parsers[key.v].append((k, "default", v))
            return [("n", st, NONE)]
        if name == "add_argument":
            flags = [a.v for a in args if type(a) is C]
            dest = self.kw(it, st, kwargs, "dest")
            pos = bool(flags) and not flags[0].startswith("-")
            if dest is None:
                if pos:
                    dest = flags[0]
                else:
                    longs = [f for f in flags if f.startswith("--")] or flags
                    dest = longs[0].lstrip("-").replace("-", "_") if longs else None
            action = self.kw(it, st, kwargs, "action", "store")
            nargs = self.kw(it, st, kwargs, "nargs")
            self.parsers[key.v].append((dest, action, nargs, self.kw(it, st, kwargs, "default"), pos, tuple(flags), kwargs.get("type")))
            return [("n", st, it.fresh(st, node, "action"))]
        if name == "add_subparsers":
            dest = self.kw(it, st, kwargs, "dest")
            cls = self.actions.get(key, {}).get("parsers")
            st, d = it.alloc(st, node, Dct(), "npm")
            st, l = it.alloc(st, node, Lst(), "ca")
            if type(cls) is Cl:
                st, r = it.alloc(st, node, Inst(cls.info, {"_name_parser_map": d, "_choices_actions": l, "dest": C(dest), "choices": d}, True), "subp")
            else:
                st, r = it.alloc(st, node, Opq("argparse.parser", {"key": C(("SUB", key.v)), "_name_parser_map": d}), "subp")
            self.parsers[key.v].append((dest, "subparsers", r))
            return [("n", st, r)]
        if name == "add_parser":
            return self.add_parser(it, st, ref, args, kwargs, node)
        if name in ("print_help", "print_usage", "format_help"):
            return [("n", st, NONE)]
        if name in ("error", "exit"):
            return [("x", st, Xc(Ex("builtins.SystemExit"), site=node))]
        if name in ("parse_args", "parse_known_args", "parse_intermixed_args"):
            return self.parse_args(it, st, key, args, node, name)
        return [("n", st, it.fresh(st, node, "argparse"))]

    def add_parser(self, it, st, sub, args, kwargs, node):
        st, r = self.new_parser(it, st, node)
        o = it.obj(st, sub)
        m = o.attrs.get("_name_parser_map")
        names = [args[0] if args else kwargs.get("name")]
        al = self.kw(it, st, kwargs, "aliases", ())
        names += [C(a) for a in al]
        for n in names:
            k, st, _ = models.setitem(it, st, m, n, r, node)[0]
        ca = o.attrs.get("_choices_actions")
        if ca is not None and "help" in kwargs:
            st = models.list_append(it, st, ca, mk("sym", "choice"), node)
            st = st if isinstance(st, St) else st[0][1]
        return [("n", st, r)]

    def parse_args(self, it, st, key, args, node, name):
        self.parse_args_seen += 1
        if args and type(args[0]) is R:
            l = it.obj(st, args[0])
            if type(l) is Lst and l.exact and any(a in (C("--help"), C("-h")) for a in l.items):
                self.help_exit += 1
                return [("x", st, Xc(Ex("builtins.SystemExit"), site=node, tag="help"))]
        command = self.command
        if args and type(args[0]) is R:
            l = it.obj(st, args[0])
            if type(l) is Lst and l.exact:
                words = [a for a in l.items if not (type(a) is C and str(a.v).startswith("-"))]
                if not words or type(words[0]) is not C:
                    self.misparsed = True
                    return [("x", st, Xc(Ex("builtins.SystemExit"), site=node, tag="no command"))]
                command = words[0].v
        ns = {}
        decl = list(self.parsers[key.v])
        for d in self.parsers[key.v]:
            if d[1] == "subparsers":
                m = it.obj(st, d[2]).attrs["_name_parser_map"]
                mo = it.obj(st, m)
                hit = [v for k, v in mo.items if k == C(command)]
                if not hit:
                    return [("x", st, Xc(Ex("builtins.SystemExit"), site=node, tag="unknown command"))]
                ns[d[0]] = C(command)
                decl += self.parsers[it.obj(st, hit[-1]).attrs["key"].v]
        for d in decl:
            if d[1] == "subparsers":
                continue
            if d[1] == "default":
                ns[d[0]] = d[2]
                continue
            dest, action, nargs, default, pos, flags, typ = d
            if dest in self.preset:
                ns[dest] = self.preset[dest]
                continue
            nm = ("option", dest)
            if action in ("store_true", "store_false"):
                v = mk("sym", nm, kind="bool")
            elif action == "count":
                v = mk("sym", nm, kind="nat")
            elif action == "append":
                v = mk("sym", nm)
            elif nargs in ("+", "*"):
                st, v = it.alloc(st, node, Lst((), mk("sym", nm + ("item",), kind="str"), mk("sym", nm + ("len",), kind="nat")), "opt:" + dest)
            elif nargs == 1 and pos:
                st, v = it.alloc(st, node, Lst([mk("sym", nm, kind="str")]), "opt:" + dest)
            elif pos or isinstance(default, str):
                v = mk("sym", nm, kind="str")
            else:
                v = mk("sym", nm)
            ns[dest] = v
        self.namespaces.append(set(ns))
        st, r = it.alloc(st, node, Opq("namespace", ns), "options")
        self.ready = True
        if name == "parse_known_args":
            return [("n", st, Tup([r, mk("sym", "rest")]))]
        return [("n", st, r)]

    # ---- attributes of the namespace and of argparse objects
    def attr(self, it, st, base, name, node):
        if base == Ex("sys") and name == "argv":
            return self.argv
        if type(base) is R:
            o = it.obj(st, base)
            if type(o) is Opq and o.what == "namespace":
                if name in o.attrs:
                    return [("n", st, o.attrs[name])]
                if name == "__dict__":
                    return None
                return [("x", st, Xc(Ex("builtins.AttributeError"), site=node, tag="options.%s" % name))]
            if type(o) is Opq and o.what == "parser" and name == "segments":
                st = self.event(it, st, "segments", (), node)
                return [("n", st, mk("sym", "SEGMENTS"))]
            if type(o) is Opq and o.what == "argparse.parser":
                if name in o.attrs:
                    return [("n", st, o.attrs[name])]
                return [("n", st, Xm(base, name))]
        return None

    # ---- the disk image
    def image(self, it, st, node, tag):
        cls = classval("DiskImageBase")
        st, r = it.alloc(st, node, Inst(cls.info, {"$image": C(tag)}, True), "image")
        return st, r

    def is_image(self, it, st, v):
        o = it.obj(st, v) if type(v) is R else None
        return type(o) is Inst and "$image" in o.attrs

    def pre_call(self, it, st, f, args, kwargs, node):
        if type(f) is Bm and self.is_image(it, st, f.self_):
            fn = f.fn
            name = fn.info.node.name if type(fn) is Fn and hasattr(fn.info.node, "name") else None
            if name in IMAGE_OPS:
                return self.image_op(it, st, f.self_, name, args, kwargs, node)
            if name in ("__str__", "__len__"):
                return [("n", st, it.fresh(st, node, "image" + name, "str" if name == "__str__" else "nat"))]
        if type(f) is Fn and f.info.module.name == "atrcopy":
            n = f.info.qual
            if n == "find_diskimage":
                return self.find(it, st, args, kwargs, node)
            if n == "find_diskimage_from_data":
                return self.find(it, st, args, kwargs, node)
            if n == "get_template_data":
                st2, d = it.alloc(st, node, Dct((), mk("sym", "inf")), "inf")
                return [("n", st2, Tup([mk("sym", "TEMPLATE_DATA", kind="bytes"), d])), ("x", st, Xc(classval("InvalidDiskImage"), site=node))]
            if n == "assemble_segments":
                st = self.event(it, st, "assemble_segments", (), node)
                return [("n", st, Tup([mk("sym", "ASM_SEGMENTS"), mk("sym", "RUN_ADDR")])), ("x", st, Xc(classval("AtrError"), site=node))]
            if n in ("get_template_info",):
                return [("n", st, mk("sym", "TEMPLATE_INFO", kind="str"))]
        if type(f) is Fn and f.info.qual == "parsers_for_filename":
            st2, r = it.alloc(st, node, Lst([mk("sym", "IMAGE_CLASS")]), "pf")
            return [("n", st2, r), ("x", st, Xc(classval("InvalidDiskImage"), site=node))]
        if type(f) is T and f.op == "attr" and f.args[0] == mk("sym", "IMAGE_CLASS") and f.args[1] == C("create_boot_image"):
            st = self.event(it, st, "create_boot_image", tuple(args), node)
            st, r = self.image(it, st, node, "new")
            return [("n", st, r)]
        return None

    def find(self, it, st, args, kwargs, node):
        a = args[0] if args else kwargs.get("filename", kwargs.get("data", NONE))
        st = self.event(it, st, "load", (models.tv(it, st, a),), node)
        x, img = self.image(it, st, node, "loaded")
        x, p = it.alloc(x, node, Opq("parser", {"image": img, "loaded_from": models.tv(it, st, a)}), "parser")
        outs = [("n", x, Tup([p, mk("sym", "MIME", kind="str")]))]
        for e in ("UnsupportedDiskImage", "UnsupportedContainer"):
            outs.append(("x", st, Xc(classval(e), site=node)))
        outs.append(models.exc(st, "FileNotFoundError", node))
        return outs

    def image_op(self, it, st, img, name, args, kwargs, node):
        tag = it.obj(st, img).attrs["$image"].v
        a = tuple(models.tv(it, st, x) if type(x) is not Ar else models.freeze(it, st, x) for x in args)
        if name == "find_dirent":
            n = a[0] if a else NONE
            q = mk("dirent", n) if not (type(n) is T and n.op in ("dirent", "of", "item")) else n
            outs = []
            x = self.event(it, st, "found", (n, tag), node)
            outs.append(("n", x, q))
            y = self.event(it, st, "absent", (n, tag), node)
            outs.append(("x", y, Xc(classval("FileNotFound"), site=node)))
            return outs
        st1 = self.event(it, st, name, (tag,) + a + tuple(sorted((k, models.tv(it, st, v)) for k, v in kwargs.items())), node)
        outs = []
        if name == "get_file" or name == "find_file":
            outs.append(("n", st1, mk("filecontents", a[0] if a else NONE, kind="bytes")))
        elif name == "create_executable_file_image":
            outs.append(("n", st1, Tup([mk("sym", "EXE_DATA", kind="bytes"), mk("sym", "EXE_TYPE", kind="str")])))
        elif name == "create_boot_image":
            st1, r = self.image(it, st1, node, "new")
            outs.append(("n", st1, r))
        elif name in ("save", "write_file", "delete_file", "shred"):
            outs.append(("n", st1, NONE))
        else:
            outs.append(("n", st1, it.fresh(st1, node, name)))
        if name in ("write_file", "delete_file", "shred"):
            es = {"write_file": ("NotEnoughSpaceOnDisk", "NoSpaceInDirectory", "InvalidFile"), "delete_file": ("FileNotFound", "InvalidFile"), "shred": ("InvalidFile",)}[name]
            for e in es:
                outs.append(("x", st, Xc(classval(e), site=node)))
        return outs


def run_command(cli, budget=1500000):
    """interpret atrcopy.run() for one command word; -> (interp, outcomes)"""
    it = mkit(cli, budget)
    st = St()
    f = gval("", "run")
    argv, r = it.alloc(st, CALL, Lst([C("atrcopy")] + list(cli.argv_form or [IMG, C(cli.command), ARG])), "argv")
    cli.argv = r
    st = argv.fork()
    st.mon = cli.start() if hasattr(cli, "start") else frozenset()
    # facts of an ordinary command line: neither word is an option
    return it, calls(it, st, f)


# ---------------------------------------------- who may write host files

def _mode_writes(call, pos):
    m = None
    if len(call.args) > pos:
        m = call.args[pos]
    for k in call.keywords:
        if k.arg == "mode":
            m = k.value
    if m is None:
        return False
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return any(c in m.value for c in "wax+")
    return True


def host_write_sites(fn):
    out = []
    for n in ast.walk(fn):
        if not isinstance(n, ast.Call):
            continue
        f = n.func
        if isinstance(f, ast.Name) and f.id == "open" and _mode_writes(n, 1):
            out.append((n, "open for writing"))
        elif isinstance(f, ast.Attribute):
            b = f.value.id if isinstance(f.value, ast.Name) else None
            if b in ("io", "codecs", "gzip", "bz2", "lzma") and f.attr == "open" and _mode_writes(n, 1):
                out.append((n, "open for writing"))
            elif b == "os" and "os." + f.attr in MUTATORS or b in ("shutil", "tempfile", "subprocess") and b + "." + f.attr not in SHUTIL_OK:
                out.append((n, b + "." + f.attr))
            elif b in ("np", "numpy") and "numpy." + f.attr in NP_MUT:
                out.append((n, f.attr))
            elif f.attr in ("write_text", "write_bytes", "touch", "tofile"):
                out.append((n, f.attr))
    return out


def host_writers():
    """simple names of package functions that may, transitively (resolved by
    name), write to the host file system -> one witness path"""
    prog = base().prog
    defs, sites, callees = {}, {}, {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs.setdefault(n.name, []).append((m, n))
    for name, ds in defs.items():
        cal = set()
        for m, n in ds:
            for s, w in host_write_sites(n):
                sites.setdefault(name, "%s at %s:%d" % (w, getattr(m, "file", m.name), s.lineno))
            for q in ast.walk(n):
                if isinstance(q, ast.Call):
                    if isinstance(q.func, ast.Name):
                        cal.add(q.func.id)
                    elif isinstance(q.func, ast.Attribute):
                        cal.add(q.func.attr)
        callees[name] = cal
    W = dict(sites)
    changed = True
    while changed:
        changed = False
        for name, cal in callees.items():
            if name not in W:
                for c in sorted(cal):
                    if c in W and c in defs:
                        W[name] = "%s -> %s" % (c, W[c])
                        changed = True
                        break
    return W


COMMANDS = ("list", "crc", "extract", "add", "create", "boot", "assemble", "delete", "vtoc", "segments")
