"""C02: reading a document yields exactly the content the document states."""
import io
import itertools
import pathlib
import tempfile
import zlib

from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from bind import CLS
from explore import dumps
from model import N, Style, esc, lex, render
from spec import NS

BOUNDS = {
    "quick": "documents rendered by the model for the object space of C01 (1-field deviations, pairs, subsets) in the plain "
             "spelling; 4 baselines, every field alone, every field removed and 2 values per field in each of 29 spellings "
             "(prefixes, white space, CDATA, references, comments and elements inside texts and between elements, foreign elements and attributes, empty elements, "
             "sibling orders, number forms); values as large as in C01; both back ends, strict and lenient, alone and below the root",
    "thorough": "as quick with all spellings for every 1-field deviation, plus all pairs of spellings on the baselines",
}
ASSUMPTIONS = ["text containing carriage returns is not covered", "where the document repeats a single-valued element the result is unspecified"]

K, G, A = NS["kml"], NS["gx"], NS["atom"]


def leafs(f):
    return f.kind in ("text", "bool", "int", "float", "enum", "date")


def f_ns(c, f):
    return K if f.kind == "date" or (f.kind == "enum" and f.arg == "AltitudeMode") else NS[c.ns]


def nm(style, ns, tag):
    p = style.prefixes[ns]
    return (p + ":" if p else "") + tag


def noise_comments(node, parts, style):
    if node.src is None and not parts:
        return parts
    out = ["<!-- <name>no</name> -->"]
    for x in parts:
        out += [x, "<?pi name='x'?>", "<!--c-->"]
    return out


def noise_foreign(node, parts, style):
    """Foreign elements with the names the reader looks for, before the real ones."""
    if node.src is None:
        return parts
    c = SPEC[node.src["$"]]
    out = []
    for f in c.fields:
        if leafs(f):
            out.append('<x:%s xmlns:x="urn:x">1</x:%s>' % (f.xml, f.xml))
        elif f.kind in ("obj", "list"):
            for cl in f.arg:
                out.append('<x:%s xmlns:x="urn:x" id="wrong">%s</x:%s>' % (SPEC[cl].tag, "1,2" if cl == "Coordinates" else "", SPEC[cl].tag))
        elif f.kind == "track":
            out += ['<x:when xmlns:x="urn:x">1999</x:when>', '<x:coord xmlns:x="urn:x">1 2</x:coord>', '<x:angles xmlns:x="urn:x">1 2 3</x:angles>']
    return out + parts


def noise_descendants(node, parts, style):
    """The same names with other values, deeper inside unknown elements, before and after."""
    if node.src is None or node.src["$"] in ("Coordinates", "StyleUrl", "Snippet", "SimpleData"):
        return parts
    inner = expected(gen.full(node.src["$"], gen.Seq(100), 0))
    s = Style(prefixes=style.prefixes)
    body = "".join(render(k, s, False) for k in inner.kids)
    whole = render(inner, s, False)
    x = '<x:wrap xmlns:x="urn:x">%s%s</x:wrap>' % (body, whole)
    y = "<%s>%s%s</%s>" % (nm(style, K, "UnknownThing"), body, whole, nm(style, K, "UnknownThing"))
    return [x, y] + parts + [y, x]


def noise_empty(fill):
    def noise(node, parts, style):
        """Every value that is not set is present as an empty element."""
        if node.src is None:
            return parts
        c = SPEC[node.src["$"]]
        have = {(k.ns, k.tag) for k in node.kids}
        out = []
        for f in c.fields:
            if leafs(f) and (f_ns(c, f), f.xml) not in have and (G, f.xml) not in have:
                n = nm(style, f_ns(c, f), f.xml)
                out.append("<%s>%s</%s>" % (n, fill, n) if fill is not None else "<%s/>" % n)
        return out + parts
    return noise


def groups_of(kids):
    g = {}
    for k in kids:
        g.setdefault((k.ns, k.tag), []).append(k)
    return list(g.values())


def order_rev(kids):
    return [k for g in reversed(groups_of(kids)) for k in g]


def order_rot(i):
    def order(kids):
        g = groups_of(kids)
        j = i % max(1, len(g))
        return [k for x in g[j:] + g[:j] for k in x]
    return order


def order_rr(kids):
    out = []
    for row in itertools.zip_longest(*groups_of(kids)):
        out += [k for k in row if k is not None]
    return out


def order_hash(salt):
    def order(kids):
        return [k for x in sorted(groups_of(kids), key=lambda g: zlib.crc32((salt + g[0].tag).encode())) for k in x]
    return order


def wrap_ws(s, node):
    return "\n \t " + esc(s) + " \n  "


def wrap_cdata(s, node):
    return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"


def wrap_refs(s, node):
    return "".join("&#x%x;" % ord(ch) for ch in s)


def wrap_mixed(s, node):
    i = len(s) // 2
    return "".join("&#%d;" % ord(ch) for ch in s[:i]) + wrap_cdata(s[i:], node)


def wrap_ws_cdata(s, node):
    return "\n  <![CDATA[ " + s.replace("]]>", "]]]]><![CDATA[>") + "\n]]> "


def wrap_comments(s, node):
    i = len(s) // 2
    return "<!-- 9 -->" + esc(s[:i]) + "<!-- <b>no</b> -->" + esc(s[i:]) + "<!--7-->"


def wrap_pis(s, node):
    i = (len(s) + 2) // 3
    return "<?a 1?> " + esc(s[:i]) + "<?b c='d'?>" + esc(s[i:2 * i]) + "<!---->" + wrap_cdata(s[2 * i:], node) + "\n<?e?>"


def wrap_child(s, node):
    return esc(s) + '<x:b xmlns:x="urn:x">9</x:b><x:c xmlns:x="urn:x"/>'


def lex_words(t):
    if t[0] == "bool":
        return "true" if t[1] else "false"
    return lex(t)


def lex_forms(t):
    k, v = t[0], t[1]
    if k == "float" and abs(float(v)) < 1e15 and float(v) == int(float(v)):
        return "+%d" % v if float(v) > 0 else "%d" % v
    if k == "float":
        return "%.17e" % float(v)
    if k == "int":
        return "+00%d" % v if v >= 0 else "-00%d" % -v
    if k == "bool":
        return "true" if v else "0"
    if k == "date" and v.endswith("Z"):
        return v[:-1] + "+00:00"
    if k == "coords":
        return "\n     " + "\n\t\t".join(",".join("%.17E" % float(x) for x in p) for p in v) + "\n  "
    if k == "tuple":
        return "  " + "   ".join("%.17e" % float(x) for x in v) + " \n"
    return lex(t)


DEF = {K: "", G: "gx", A: "atom"}
FOREIGN_ATTRS = ' xmlns:x="urn:x" x:id="W" x:targetId="W" x:name="W" x:x="9" x:y="9" x:xunits="pixels" x:yunits="pixels" x:href="W" x:rel="W" x:maxLines="7" x:schemaUrl="W" x:type="int" unknown="z"'
STYLES = {
    "plain": lambda: Style(),
    "prefixed": lambda: Style(prefixes={K: "kml", G: "gx", A: "atom"}),
    "odd-prefixes": lambda: Style(prefixes={K: "atom", G: "kml", A: "gx"}),
    "gx-default": lambda: Style(prefixes={K: "k", G: "", A: "a"}),
    "atom-default": lambda: Style(prefixes={K: "k", G: "g", A: ""}),
    "indent": lambda: Style(indent=True),
    "ws": lambda: Style(textwrap=wrap_ws, indent=True),
    "cdata": lambda: Style(textwrap=wrap_cdata),
    "refs": lambda: Style(textwrap=wrap_refs),
    "mixed": lambda: Style(textwrap=wrap_mixed),
    "ws-cdata": lambda: Style(textwrap=wrap_ws_cdata),
    "comments-in-text": lambda: Style(textwrap=wrap_comments),
    "pis-in-text": lambda: Style(textwrap=wrap_pis),
    "elements-in-text": lambda: Style(textwrap=wrap_child),
    "comments": lambda: Style(noise=noise_comments),
    "foreign": lambda: Style(noise=noise_foreign),
    "descendants": lambda: Style(noise=noise_descendants),
    "foreign-attrs": lambda: Style(attrs=FOREIGN_ATTRS),
    "empty": lambda: Style(noise=noise_empty(None)),
    "blank": lambda: Style(noise=noise_empty(" \n ")),
    "words": lambda: Style(lexer=lex_words),
    "forms": lambda: Style(lexer=lex_forms),
    "rev": lambda: Style(order=order_rev),
    "rot1": lambda: Style(order=order_rot(1)),
    "rot3": lambda: Style(order=order_rot(3)),
    "rot7": lambda: Style(order=order_rot(7)),
    "rr": lambda: Style(order=order_rr),
    "hash-a": lambda: Style(order=order_hash("a")),
    "hash-b": lambda: Style(order=order_hash("bcd")),
}
SLOTS = ("prefixes", "indent", "order", "noise", "textwrap", "lexer", "extra_attrs")


def make_style(name):
    parts = name.split("+")
    s = STYLES[parts[0]]()
    base = Style()
    for p in parts[1:]:
        t = STYLES[p]()
        for slot in SLOTS:
            v = getattr(t, slot)
            if slot == "textwrap" or slot == "lexer":
                if (slot == "lexer" and v is not lex) or (slot == "textwrap" and p in ("ws", "cdata", "refs", "mixed", "ws-cdata", "comments-in-text", "pis-in-text", "elements-in-text")):
                    setattr(s, slot, v)
            elif v != getattr(base, slot):
                setattr(s, slot, v)
    return s


def groups(tier):
    return [c + "/" + k for c in NAMES for k in ("space", "styles")] + ["orders", "large", "files"] + (["style-pairs"] if tier == "thorough" else [])


def shards(g, tier):
    big = g.split("/")[0] in ("Folder", "Document", "PhotoOverlay", "ScreenOverlay", "GroundOverlay", "NetworkLink", "Placemark")
    if g in ("large", "files"):
        return 16
    if tier == "thorough":
        return 8 if big or g == "style-pairs" else 3
    return 3 if big and g.endswith("styles") else 1


def bases(cname, tier):
    c = SPEC[cname]
    yield from gen.baselines(cname)
    whole = gen.full(cname, deep=0)
    for f in c.fields:
        yield {"$": cname, f.attr: whole[f.attr]}
        yield gen.put(whole, f.attr, None)
        for v in gen.small(cname, f):
            yield gen.put(whole, f.attr, v)
    if tier == "thorough":
        yield from gen.deviate1(cname)


def readable(a):
    """Documents whose reading is defined: schemata have ids, track entries are whole."""
    for _, x in gen.walk(a):
        if x["$"] == "Schema" and not (x.get("id") or "").strip():
            return False
    return True


def cases(group, tier):
    seen = set()

    def emit(a, style):
        if readable(a):
            k = dumps((a, style))
            if k not in seen:
                seen.add(k)
                yield {"a": a, "style": style}

    if group == "large":
        for s in gen.large_specs(tier):
            yield {"large": s, "style": "plain"}
        return
    if group == "files":
        roots = [gen.to_root(a) for c in NAMES for a in (gen.mini(c), gen.full(c, deep=1))]
        roots += [{"$": "KML", "features": [{"$": "Placemark", "name": t, "description": "d " + t}]} for t in ("caf\u00e9 \u00fc\u00df", "\u6771\u4eac", "\U0001f5fa & <b>", "plain")]
        for r in roots:
            if r is not None and readable(r):
                for e in ENCODINGS:
                    yield {"file": r, "encoding": e}
        return
    if group == "orders":
        yield from orders()
        return
    if group == "style-pairs":
        for c in NAMES:
            for s, t in itertools.permutations([x for x in STYLES if x != "plain"], 2):
                yield {"a": gen.full(c, deep=1), "style": s + "+" + t}
        return
    cname, what = group.split("/")
    if what == "space":
        for a in object_space(cname, tier):
            yield from emit(a, "plain")
    else:
        for a in bases(cname, tier):
            for style in STYLES:
                if style != "plain":
                    yield from emit(a, style)


def orders():
    """All permutations of the children for types with up to six of them."""
    for c in NAMES:
        a = gen.full(c, deep=0)
        node = expected(a, keep=True)
        n = len(groups_of(node.kids))
        if 2 <= n <= 6:
            for p in itertools.permutations(range(n)):
                yield {"a": a, "perm": list(p)}
        elif n > 6:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        p = [x for x in range(n) if x != i]
                        p.insert(j, i)
                        yield {"a": a, "perm": p}


def spelled(case):
    node = expected(case["a"], keep=True)
    if "perm" in case:
        g = groups_of(node.kids)
        node = N(node.ns, node.tag, node.attrs, node.text, [k for i in case["perm"] for k in g[i]], node.src)
        return render(node), node
    return render(node, make_style(case["style"])), node


def fix_attr_ws(a):
    return a


ENCODINGS = ["utf-8", "UTF-8 with mark", "utf-16", "utf-16 little", "utf-16 big", "iso-8859-1", "us-ascii", "none", "entities", "doctype", "leading"]


def encoded(node, e):
    """The document as bytes in an encoding that it declares, or in another spelling of the whole file."""
    text = render(node)
    if e == "utf-8":
        return ("<?xml version='1.0' encoding='UTF-8'?>\r\n" + text).encode()
    if e == "UTF-8 with mark":
        return b"\xef\xbb\xbf" + ('<?xml version="1.0" encoding="utf-8" standalone="yes"?>' + text).encode()
    if e == "utf-16":
        return ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode("utf-16")
    if e == "utf-16 little":
        return b"\xff\xfe" + ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode("utf-16-le")
    if e == "utf-16 big":
        return b"\xfe\xff" + ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode("utf-16-be")
    if e == "iso-8859-1":
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>\n' + text).encode("iso-8859-1", "xmlcharrefreplace")
    if e == "us-ascii":
        return ('<?xml version="1.0" encoding="US-ASCII"?>\n' + text).encode("ascii", "xmlcharrefreplace")
    if e == "none":
        return text.encode()
    if e == "entities":
        def wrap(s, n):
            i = len(s) // 2
            return "".join("&x%02x;" % ord(c) if "a" <= c <= "m" else esc(c) for c in s[:i]) + "&nothing;" + esc(s[i:])
        decl = "".join('<!ENTITY x%02x "%s">' % (ord(c), c) for c in "abcdefghijklm") + '<!ENTITY nothing "">'
        return ("<!DOCTYPE kml [%s]>" % decl + render(node, Style(textwrap=wrap))).encode()
    if e == "doctype":
        return ('<?xml version="1.0"?><!DOCTYPE kml>\n' + text + "\n\n").encode()
    return ("<?xml version='1.0'?>\n<!-- made by x -->\n<?xml-stylesheet href='a.css'?>\n<!--\n-->" + text + "<!-- end -->\n<?x?>\n").encode()


def check_file(case, ctx):
    r = case["file"]
    data = encoded(expected(r, keep=True), case["encoding"])
    want = expect_track(norm(r, group=True))
    kml = CLS["KML"]
    with tempfile.NamedTemporaryFile(suffix=".kml", prefix="mc02-") as f:
        f.write(data)
        f.flush()
        for b in BACK:
            use(b)

            def stream():
                with open(f.name, "rb") as g:
                    return kml.parse(g, validate=False)
            ways = [("BytesIO", lambda: kml.parse(io.BytesIO(data), validate=False)), ("path", lambda: kml.parse(pathlib.Path(f.name), validate=False)),
                    ("string path", lambda: kml.parse(f.name, strict=False)), ("binary stream", stream)]
            if case["encoding"] in ("none", "entities", "doctype", "leading"):
                ways += [("string", lambda: kml.from_string(data.decode())), ("StringIO", lambda: kml.parse(io.StringIO(data.decode()), validate=False))]
            for name, rd in ways:
                ctx.op()
                d = diff(see(rd(), group=True), want)
                if d:
                    return "%s, %s, read from %s: %s" % (b, case["encoding"], name, d)
    return None


def check(case, ctx):
    if "file" in case:
        return check_file(case, ctx)
    if "large" in case:
        case = dict(case, a=gen.large(case["large"]))
    a = case["a"]
    text, _node = spelled(case)
    want = expect_track(norm(a, group=True))
    cls = CLS[a["$"]]
    for b in BACK:
        use(b)
        for strict in (True, False):
            o = cls.from_string(text, strict=strict)
            ctx.op()
            d = diff(see(o, group=True), want)
            if d:
                return "%s, strict=%s: %s\nfrom %s" % (b, strict, d, text[:900])
    if a["$"] != "KML" and gen.CHAIN.get(a["$"]):
        # the same element below the document root
        r = gen.to_root(a)
        if not readable(r):
            return None
        node = expected(r, keep=True)
        text = render(node, make_style(case.get("style", "plain")))
        want = expect_track(norm(r, group=True))
        b = BACK[len(text) % 2]
        use(b)
        for how in ("string", "parse"):
            if how == "string":
                o = CLS["KML"].from_string(text)
            else:
                o = CLS["KML"].parse(io.BytesIO(b'<?xml version="1.0" encoding="UTF-8"?>\n' + text.encode()), strict=False)
            ctx.op()
            d = diff(see(o, group=True), want)
            if d:
                return "%s, below the root, %s: %s\nfrom %s" % (b, how, d, text[:900])
    return None


def expect_track(want):
    return expect_read(want)
