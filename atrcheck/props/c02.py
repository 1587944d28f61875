"""C02: --dry-run changes nothing on the host file system."""
from ..cli import *

EXPLANATION = ("run() is interpreted abstractly for every command, with dry_run the constant True and every other option, the "
               "file list, the image and all file contents symbolic.  The argparse declarations are interpreted too, so the "
               "option record is the one the program declares.  Every opening of a file with a writing mode, every os/shutil/"
               "tempfile call that changes the file system, every save of an image and every call of a package function that "
               "may transitively write (by name-resolved call graph) on any path is a violation.")
ASSUMPTIONS = ["pyatasm (an optional external assembler) does not write host files", "printing is not a host file system change"]
MINIMUM = 8


class Cli(CliClient):
    def __init__(self, rep, W, *a, **k):
        CliClient.__init__(self, *a, **k)
        self.rep, self.W, self.n = rep, W, 0

    def event(self, it, st, kind, data, node):
        self.n += 1
        c = self.canon
        fn = it.active[-1].qual if it.active else "?"
        if kind in ("write", "host"):
            what = "opens %s for writing" % (data[0],) if kind == "write" else "calls %s" % data[0]
            self.rep.bad("no-host-change", "%s: %s in %s" % (c, kind, fn), it.where(node), "with --dry-run the %s command %s" % (c, what))
        elif kind == "save":
            self.rep.bad("no-host-change", "%s: save in %s" % (c, fn), it.where(node), "with --dry-run the %s command saves the image" % c)
        elif kind not in ("read", "fwrite", "print", "found", "absent", "load"):
            if kind in self.W:
                self.rep.bad("no-host-change", "%s: %s in %s" % (c, kind, fn), it.where(node), "with --dry-run the %s command calls %s, which may write: %s" % (c, kind, self.W[kind]))
        return st


def one(rep, W, c):
    cli = Cli(rep, W, c, dry_run=C(True))
    cli.canon = c
    n0 = len(rep.viol)
    it, outs = run_command(cli)
    rep.absorb(it)
    if not cli.parse_args_seen or not cli.namespaces:
        rep.und("no-host-change", c, "the option parser was not reached")
        return
    if "dry_run" not in cli.namespaces[0]:
        rep.bad("option", c, "atrcopy/__init__.py", "--dry-run is not accepted with the %s command" % c)
    norm = sum(1 for k, x, v in outs if k == "n")
    if norm and len(rep.viol) == n0:
        rep.ok("no-host-change", c, "%d paths, %d events" % (len(outs), cli.n))
    elif not norm:
        rep.und("no-host-change", c, "no path completes")


def check(rep):
    W = host_writers()
    for f in ("find_diskimage", "find_diskimage_from_data", "get_template_data", "get_template_images", "assemble_segments", "get_file", "find_dirent", "get_vtoc_object",
              "create_executable_file_image", "create_boot_image", "parsers_for_filename", "delete_file", "shred"):
        if f in W:
            rep.bad("pure-helper", f, "atrcopy", "%s is used by dry runs but may write host files: %s" % (f, W[f]))
        else:
            rep.ok("pure-helper", f)
    for c in COMMANDS:
        guarded(rep, "no-host-change", c, one, rep, W, c)
