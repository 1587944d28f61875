"""C15: the tables of formats agree with each other."""
from ..common import *

EXPLANATION = ("Constant propagation over the module-level code evaluates mime_parsers, mime_parse_order, "
               "mime_display_order, pretty_mime, sha1_signatures, magic, known_cart_types and the parser classes made "
               "from it (type(...) in the loop at the end of parsers.py); each table row is one obligation of a "
               "cross-reference rule.  Dictionary literals are additionally read from the syntax tree, because a "
               "repeated key is lost by evaluation.")
ASSUMPTIONS = ["the tables are built by module-level code and not changed later by functions"]
MINIMUM = 2000


def cattr(info, name):
    v = info.find(name)
    return v[0] if isinstance(v, tuple) else v


def dup_keys(rep):
    prog = base().prog
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict) and len(n.keys) > 1:
                seen = {}
                for k in n.keys:
                    if isinstance(k, ast.Constant):
                        kk = (type(k.value).__name__, k.value)
                        if kk in seen:
                            rep.bad("unique-keys", "%s: key %r" % (m.name, k.value), "%s:%d" % (m.path, k.lineno),
                                    "dictionary literal lists the key twice; the first entry (line %d) is unreachable" % seen[kk])
                        seen[kk] = k.lineno
                rep.ok("unique-keys", "%s dict at %d" % (m.name, n.lineno), "%d keys" % len(n.keys))


def check(rep):
    b = base()
    try:
        parsers = topy(gval("parsers", "mime_parsers"))
        order = topy(gval("parsers", "mime_parse_order"))
        display = topy(gval("parsers", "mime_display_order"))
        pretty = topy(gval("parsers", "pretty_mime"))
        carts = topy(gval("cartridge", "known_cart_types"))
        sha = topy(gval("signatures", "sha1_signatures"))
        magic = topy(gval("magic", "magic"))
    except ValueError as e:
        rep.und("constant", "tables", str(e))
        return
    W = "atrcopy/parsers.py"

    def need(rule, cond, con, where, why):
        if cond:
            rep.ok(rule, con)
        else:
            rep.bad(rule, con, where, why)

    dup_keys(rep)
    for nm, l in (("mime_parse_order", order), ("mime_display_order", display)):
        for m in l:
            need("has-parsers", bool(parsers.get(m)), "%s %s" % (nm, m), W, "no parsers are registered for this MIME type")
            need("has-name", bool(pretty.get(m)), "%s %s" % (nm, m), W, "no readable name for this MIME type")
            need("listed-once", l.count(m) == 1, "%s %s" % (nm, m), W, "listed %d times" % l.count(m))
    for m in order:
        need("detected-is-displayed", m in display, m, W, "automatic detection can return a type that no menu shows")
    for m in parsers:
        need("has-name", bool(pretty.get(m)), "mime_parsers %s" % m, W, "no readable name for this MIME type")
        need("displayed", m in display, "mime_parsers %s" % m, W, "registered parsers that mime_display_order never offers")
        need("nonempty", bool(parsers[m]), "mime_parsers %s" % m, W, "no parser in the list")
    for m in pretty:
        need("name-used", m in parsers, "pretty_mime %s" % m, W, "name for a MIME type without parsers")
    names = {}
    for m, v in pretty.items():
        need("name-unique", v not in names, "pretty_mime %s" % m, W, "same readable name as %s" % names.get(v))
        names[v] = m

    # parser classes
    SP = gval("parsers", "SegmentParser").info
    where = {}
    for m, l in parsers.items():
        for c in l:
            if type(c) is not Cl:
                rep.bad("is-parser", "%s %r" % (m, c), W, "entry is not a class")
                continue
            need("is-parser", c.info.is_sub(SP), "%s %s" % (m, c.info.name), W, "entry is not a SegmentParser")
            where.setdefault(c.info, []).append(m)
    for c, l in where.items():
        need("registered-once", len(l) == 1, c.name, W, "registered under %s" % ", ".join(l))
        need("registered-once", len(set(l)) == len(l), c.name + " (twice in one list)", W, "listed twice under %s" % l[0])
    pg = b.globals["atrcopy.parsers"]
    subs = [v.info for k, v in pg.items() if type(v) is Cl and v.info.is_sub(SP) and v.info.name == k]
    for c in subs:
        it = cattr(c, "image_type")
        if it is None or it == C(None):
            continue
        if c in where:
            rep.ok("parser-registered", c.name)
            continue
        kids = [d for d in list(where) if d is not c and d.is_sub(c)]
        need("parser-registered", bool(kids), c.name, W, "parser class is in no table, so its format is never detected")
    it_classes = {}
    for c in where:
        it = cattr(c, "image_type")
        need("image-class", type(it) is Cl, c.name, W, "parser without image class")

    # one system per MIME type: the image class of 5200 parsers etc.
    seen_types = {}
    for m, l in parsers.items():
        for c in l:
            if type(c) is not Cl:
                continue
            ct, ci = c.info.env.get("cart_type"), c.info.env.get("cart_info")
            if ct is None or ci is None:
                continue
            try:
                t, row = topy(ct), topy(ci)
            except ValueError:
                continue
            seen_types.setdefault(t, []).append(m)
            is52 = "5200" in row[1]
            need("cart-system", is52 == ("5200" in m), "type %d" % t, W, "%r is registered under %s" % (row[1], m))
            need("cart-row", row[0] == t, "type %d" % t, W, "parser for type %d carries the description of type %d" % (t, row[0]))
            img = cattr(c.info, "image_type")
            if type(img) is Cl:
                need("cart-image", is52 == ("5200" in img.info.name), "type %d" % t, W, "%r is parsed by %s" % (row[1], img.info.name))
    for row in carts[1:]:
        n = len(seen_types.get(row[0], []))
        need("cart-registered", n == 1, "type %d" % row[0], "atrcopy/cartridge.py", "%r has %d parsers" % (row[1], n))
    for t in seen_types:
        need("cart-known", any(r[0] == t for r in carts), "type %d" % t, W, "parser for a cartridge type that is not known")

    # signatures
    for size, d in sha.items():
        if not isinstance(d, dict):
            continue
        need("sig-size", isinstance(size, int) and size > 0, "size %r" % size, "atrcopy/signatures.py", "size can never be the length of data")
        for h, match in d.items():
            con = "sha1 %s" % (h.hex() if isinstance(h, bytes) else h)
            need("sig-hash", isinstance(h, bytes) and len(h) == 20, con, "atrcopy/signatures.py", "not a SHA-1 digest, can never match")
            need("sig-mime", bool(match and parsers.get(match[0])), con, "atrcopy/signatures.py", "MIME type %r has no parsers" % (match and match[0],))
            need("sig-name", bool(match and pretty.get(match[0])), con, "atrcopy/signatures.py", "MIME type %r has no readable name" % (match and match[0],))

    # detail signatures
    seen = []
    for e in magic:
        mm, con = e.get("mime"), "magic %s" % e.get("name")
        MW = "atrcopy/magic.py"
        parents = [m for m in parsers if mm.startswith(m)]
        need("magic-parent", bool(parents), con, MW, "%s extends no MIME type with parsers" % mm)
        need("magic-parent-detected", any(m in order for m in parents), con, MW, "%s belongs to a type that detection never tries" % mm)
        need("magic-parent-unique", len(parents) <= 1, con, MW, "%s extends several types %s" % (mm, parents))
        cons = {}
        okc = True
        for idx, val in e["signature"]:
            if isinstance(idx, slice):
                n = idx.stop - idx.start
                if not isinstance(val, list) or len(val) != n:
                    okc = False
                    rep.bad("magic-shape", con, MW, "slice of %d bytes compared with %r can never match" % (n, val))
                    continue
                for i, v in enumerate(val):
                    if cons.get(idx.start + i, v) != v:
                        okc = False
                        rep.bad("magic-consistent", con, MW, "offset %d must be %d and %d" % (idx.start + i, cons[idx.start + i], v))
                    cons[idx.start + i] = v
            else:
                if isinstance(val, list):
                    okc = False
                    rep.bad("magic-shape", con, MW, "single byte compared with a list can never match")
                    continue
                if cons.get(idx, val) != val:
                    okc = False
                    rep.bad("magic-consistent", con, MW, "offset %d must be %d and %d" % (idx, cons[idx], val))
                cons[idx] = val
        for o, v in cons.items():
            if not (isinstance(v, int) and 0 <= v <= 255) or o < 0:
                okc = False
                rep.bad("magic-shape", con, MW, "value %r at offset %r is no byte" % (v, o))
        if okc:
            rep.ok("magic-shape", con)
        for pm, pc, pn in seen:
            if set(pc.items()) <= set(cons.items()) and any(pm.startswith(m) and mm.startswith(m) for m in parsers):
                rep.bad("magic-reachable", con, MW, "every image that matches it already matches %r, which is tried first" % pn)
        need("magic-mime-once", all(mm != x[0] for x in seen), con, MW, "MIME type listed twice")
        seen.append((mm, cons, e.get("name")))
    # containers listed once and all are containers
    kc = gval("parsers", "known_containers", need=False)
    try:
        l = topy(kc) if kc is not None else []
        for c in l:
            need("container-once", l.count(c) == 1, c.info.name, W, "listed twice")
        DC = classval("DiskImageContainer", need=False)
        if DC is not None:
            have = [c.info for c in l]
            for g in b.globals.values():
                for k, v in list(g.items()):
                    if type(v) is Cl and v.info.name == k and v.info is not DC.info and v.info.is_sub(DC.info):
                        need("container-registered", v.info in have, k, W, "container class is never tried")
    except ValueError:
        pass
    # every cartridge in the known list reaches known_segment_parsers
    rep.count("mime_types", len(parsers))
    rep.count("parser_classes", len(where))
    rep.count("signature_rows", sum(len(d) for d in sha.values() if isinstance(d, dict)))
