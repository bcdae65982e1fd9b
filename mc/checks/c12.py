"""C12: the XML back ends are interchangeable, also when switched at run time."""
import io
import itertools

import lxml.etree as LX

import fastkml
from bind import BACKENDS, CLS, REPO, config, make_value
from checks.c01 import expect_read
from checks.c02 import noise_comments, wrap_comments, wrap_pis
from checks.common import *  # noqa: F403
from fastkml.exceptions import KMLParseError, KMLWriteError
from model import Style, render

BOUNDS = {
    "quick": "every object of the C01 space (incomplete parts included) written under both back ends in three verbosities and read "
             "under both, all four mixtures of writer and reader; every typed value x ordinary, odd and malformed texts, strict and "
             "lenient, alone and in files given to KML.parse; 18 spellings of documents (declarations, doctype, entities, CDATA, prefixes, comments and instructions between and inside values); every history of "
             "4 operations (switch, create, read, write, edit, append, parse, search, validate ...) over 3 documents",
    "thorough": "as quick with the deeper object space and histories of 6 operations",
}
ASSUMPTIONS = [
    "texts contain only characters XML can represent, no carriage returns (the standard library's writer leaves them raw)",
    "documents stay within libxml2's default limits (element depth, 10 MB text nodes)",
]

ODD = {
    "bool": ["TRUE", "True", " 1 ", "01", "2", "-1", "\u0661", "yes", "1.0", "true false", "t"],
    "int": ["1_0", "\u0661\u0662", "+5", " 7 ", "1.0", "1e2", "inf", "0x1", "1 2", "99999999999999999999", "-0", "\u00a05", "x"],
    "float": ["1_0.5", "nan", "inf", "-INF", "Infinity", "\u0661.5", " 2.5 ", ".5", "5.", "1e400", "1e-400", "1,5", "0x1p3", "1 2", "x"],
    "enum": ["", " ", "CLAMPTOGROUND", "clamp to ground", "absolute ", "bogus", "0", "None", "1"],
    "date": ["2000-W01", "1997/07/16", "19970716", "1997-07-16T07:30", "1997-07-16 07:30:15", "1997-07-16T07:30:15", "2000-13-01",
             "24:00", "2000-01-01T24:00:00Z", "99999", "-0001", "+2000", "\u0661997", " 1997 ", "1997-7", "x", "2000-01-01T00:00:00+99:00"],
    "coords": ["1,2", " 1 , 2 ", "1, 2 3, 4", "1,2,3,4", "1", "1,2 3", "a,b", "1;2", "nan,inf", "1_0,2", "\u0661,2", "1,2\n\t3,4", ",", "1,,2"],
    "text": ["0", " padded ", "\u00e9\u0301", "\U0001f5fa", "]]>", "a\tb\nc", "&amp;", "<b>x</b>", "\u00a0", "\u2028x"],
}


def kind_of(f):
    k = f.kind.lstrip("@")
    return "text" if k in ("text", "content") else k if k in ODD else None


SPELL = [
    ("plain", lambda t: t),
    ("declaration", lambda t: '<?xml version="1.0"?>' + t),
    ("utf-8", lambda t: '<?xml version="1.0" encoding="UTF-8"?>\n' + t),
    ("utf8 single quotes", lambda t: "<?xml version='1.0' encoding='utf-8' standalone='yes'?>" + t),
    ("latin-1", lambda t: '<?xml version="1.0" encoding="ISO-8859-1"?>\n' + t),
    ("ascii", lambda t: '<?xml version="1.0" encoding="us-ascii"?>\n' + t),
    ("comment first", lambda t: "<!-- first --><?pi data?>\n" + t),
    ("comment last", lambda t: t + "\n<!-- last -->\n"),
    ("space after", lambda t: t + "\n\n  \n"),
    ("doctype", lambda t: "<!DOCTYPE x [<!ENTITY a \"b\">]>" + t),
    ("prefixes", None),
    ("indented", None),
    ("cdata", None),
    ("references", None),
    ("comments inside", None),
    ("instructions inside", None),
    ("comments between", None),
    ("declared comments", None),
]


def spelled(a, name):
    node = expected(a, keep=True)
    if name == "prefixes":
        return render(node, Style(prefixes={"http://www.opengis.net/kml/2.2": "k", "http://www.google.com/kml/ext/2.2": "g", "http://www.w3.org/2005/Atom": "kml"}))
    if name == "indented":
        return render(node, Style(indent=True))
    if name == "cdata":
        return render(node, Style(textwrap=lambda s, n: "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"))
    if name == "references":
        return render(node, Style(textwrap=lambda s, n: "".join("&#%d;" % ord(c) for c in s)))
    if name == "comments inside":
        return render(node, Style(textwrap=wrap_comments))
    if name == "instructions inside":
        return render(node, Style(textwrap=wrap_pis))
    if name == "declared comments":
        return '<?xml version="1.0" encoding="utf-8"?>\n' + render(node, Style(textwrap=wrap_pis, noise=noise_comments))
    if name == "comments between":
        return render(node, Style(noise=noise_comments))
    return dict(SPELL)[name](render(node))


def groups(tier):
    return NAMES + ["texts", "spelling", "edges"] + ["history/" + o for o in OPS]


def shards(g, tier):
    if g.startswith("history"):
        return 16 if tier == "thorough" else 1
    return {"texts": 8, "spelling": 4, "edges": 4}.get(g, 4 if tier == "thorough" else 1)


def cases(group, tier):
    if group in SPEC:
        for a in object_space(group, tier):
            yield {"obj": a}
    elif group == "edges":
        for s in gen.HUGE:
            yield {"large": s}
        yield {"large": gen.HUGE[0], "declared": True}
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=1)):
                r = gen.to_root(a)
                yield {"obj": r or a}
                for p, attr in gen.UP.get(c, ()):
                    yield {"obj": gen.embed(a, p, attr)}
    elif group == "texts":
        for c in NAMES:
            for f in SPEC[c].fields:
                if kind_of(f):
                    for t in ODD[kind_of(f)]:
                        yield {"cls": c, "attr": f.attr, "text": t}
        for part in range(3):
            for t in ["", " ", "x", "1 2", "1 2 3", "1 2 3 4", "1,2,3", "1", " 1  2\n3 ", "nan 1 2", "2000", "2000-01-01", "1_0 2 3"]:
                yield {"cls": "Track", "attr": part, "text": t}
    elif group == "spelling":
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=1)):
                for n, _ in SPELL:
                    yield {"spell": n, "obj": a}
        r = gen.to_root(gen.full("Document", deep=2))
        for n, _ in SPELL:
            yield {"spell": n, "obj": r}
    else:
        depth = 6 if tier == "thorough" else 4
        first = group.split("/")[1]
        for start in BACK:
            for doc in range(len(DOCS)):
                for seq in itertools.product(OPS, repeat=depth - 1):
                    h = (first, *seq)
                    if useful(h):
                        yield {"start": start, "doc": doc, "history": list(h)}


def useful(h):
    """Leave out histories that repeat a pure switch or end in one: they equal shorter ones."""
    if h[-1] == "switch":
        return False
    return not any(x == y == "switch" for x, y in zip(h, h[1:]))


def check(case, ctx):
    if "history" in case:
        return history(case, ctx)
    if "spell" in case:
        return spelling(case, ctx)
    if "text" in case:
        return texts(case, ctx)
    if "declared" in case:
        return declared(gen.to_root(gen.large(case["large"])), ctx)
    return objects(gen.large(case["large"]) if "large" in case else case["obj"], ctx)


def objects(a, ctx):
    want = norm(a, group=True)
    cls = CLS[a["$"]]
    made, out = {}, {}
    for b in BACK:
        use(b)
        made[b] = build(a)
    for b in BACK:
        use(b)
        ctx.op(4)
        if not (made["lxml"] == made["std"] and made["std"] == made["lxml"]) or made["lxml"] != made["std"]:
            return "objects created alike under both back ends differ (compared under %s)" % b
        for m in BACK:
            for v in VERB:
                t = made[m].to_string(verbosity=VERB[v])
                i = infoset(t)
                k = out.setdefault(v, (repr(i), b, m))
                if k[0] != repr(i):
                    return "%s output of an object made under %s written under %s differs from that made under %s written under %s:\n%s\n%s" % (
                        v, m, b, k[2], k[1], repr(i)[:600], k[0][:600])
                if v == "normal":
                    out[b, m] = t
    got = {}
    for w in BACK:
        for r in BACK:
            use(r)
            ctx.op()
            x = got[w, r] = cls.from_string(out[w, w])
            if gen.parts_complete(a):
                d = diff(see(x, group=True), expect_read(want))
                if d:
                    return "written under %s, read under %s: %s" % (w, r, d)
    base = got["lxml", "lxml"]
    for k, x in got.items():
        if not (x == base and base == x):
            return "reading %s differs from reading under lxml alone" % (k,)
        if diff(see(x), see(base)):
            return "reading %s differs: %s" % (k, diff(see(x), see(base)))
    return None


def declared(a, ctx):
    """A very large document with an encoding declaration, as a string, a text and a binary stream."""
    text = '<?xml version="1.0" encoding="UTF-8"?>\n' + render(expected(a))
    want = expect_read(norm(a, group=True))
    for b in BACK:
        use(b)
        for how, fn in (("string", lambda: fastkml.KML.from_string(text)), ("text stream", lambda: fastkml.KML.parse(io.StringIO(text), validate=False)),
                        ("binary stream", lambda: fastkml.KML.parse(io.BytesIO(text.encode()), validate=False))):
            ctx.op()
            d = diff(see(fn(), True), want)
            if d:
                return "%s: a large document read as %s: %s" % (b, how, d[:300])
    return None


def outcome(fn):
    try:
        o = fn()
    except KMLParseError:
        return "KMLParseError"
    return o


def compare(fn, what, ctx):
    res = {}
    for b in BACK:
        use(b)
        res[b] = outcome(fn)
        ctx.op()
    x, y = res["lxml"], res["std"]
    ctx.outcome(x if isinstance(x, str) else "read")
    if isinstance(x, str) or isinstance(y, str):
        return None if isinstance(x, str) and x == y else "%s: %r under lxml, %r under the standard library" % (what, x, y)
    sx, sy = repr(see(x)), repr(see(y))
    if sx != sy:
        return "%s is read differently:\n%s\n%s" % (what, sx[:500], sy[:500])
    if "nan" not in (sx + what).lower() and not (x == y and y == x):
        return "%s: the objects read are not equal" % what
    outs = set()
    for b in BACK:
        use(b)
        for o in (x, y):
            try:
                outs.add(repr(infoset(o.to_string())))
            except KMLWriteError:
                outs.add("KMLWriteError")
    return None if len(outs) == 1 else "%s is written differently after reading" % what


def texts(case, ctx):
    c, attr, t = case["cls"], case["attr"], case["text"]
    if c == "Track" and isinstance(attr, int):
        items = [["2010-05-28T02:02:0%dZ" % i, [1.0 + i, 2.0, 3.0], [10.0 + i, 1.0, 2.0]] for i in range(3)]
        node = expected({"$": "Track", "track_items": items})
        [k for k in node.kids if k.tag == ("when", "coord", "angles")[attr]][1].text = t
    else:
        f = SPEC[c].by_attr[attr]
        a = gen.full(c, deep=0)
        node = expected(a, keep=True)
        if f.kind[0] == "@":
            node.attrs[f.xml] = t
        elif f.kind in ("coords", "content"):
            node.text = t
        else:
            next(k for k in node.kids if k.tag == f.xml).text = t
    text = render(node)
    if c == "Schema" and attr == "id":
        return None
    for strict in (True, False):
        d = compare(lambda: CLS[c].from_string(text, strict=strict), "%s.%s = %r, strict=%s" % (c, attr, t, strict), ctx)
        if d:
            return d
    if c == "KML":
        return None
    # the same text in a whole document, given to KML.parse as a file
    top = gen.to_root(a if not isinstance(attr, int) else node.src)
    if top is None:
        return None
    root = expected(top, keep=True)
    if not graft(root, node):
        return None
    text = render(root)
    for strict in (True, False):
        for kind in (io.StringIO, lambda s: io.BytesIO(s.encode())):
            d = compare(lambda: CLS["KML"].parse(kind(text), validate=False, strict=strict),
                        "%s.%s = %r in a document parsed with strict=%s" % (c, attr, t, strict), ctx)
            if d:
                return d
    return None


def graft(root, node):
    """Put the changed element in the place of the one made from the same object."""
    for i, k in enumerate(root.kids):
        if k.src is not None and k.src is node.src:
            root.kids[i] = node
            return True
        if graft(k, node):
            return True
    return False


def spelling(case, ctx):
    a = case["obj"]
    text = spelled(a, case["spell"])
    want = norm(a, group=True)
    cls = CLS[a["$"]]
    calls = [("from_string", lambda: cls.from_string(text)), ("lenient", lambda: cls.from_string(text, strict=False))]
    if a["$"] == "KML":
        if case["spell"] not in ("latin-1", "ascii"):
            calls.append(("parse text", lambda: cls.parse(io.StringIO(text), validate=False)))
        if case["spell"] not in ("latin-1", "ascii"):
            calls.append(("parse bytes", lambda: cls.parse(io.BytesIO(text.encode()), validate=False)))
    for n, fn in calls:
        d = compare(fn, "%s of a document spelled %r" % (n, case["spell"]), ctx)
        if d:
            return d
        for b in BACK:
            use(b)
            d = diff(see(fn(), group=True), expect_read(want))
            if d:
                return "%s under %s, spelled %r: %s" % (n, b, case["spell"], d)
    return None


# ---------------------------------------------------------------- histories
OPS = ["switch", "create", "edit", "append", "write", "read", "parse", "validate", "search", "file"]

PM = {"$": "Placemark", "id": "p", "name": "P \u00fc", "kml_geometry": {"$": "Point", "kml_coordinates": {"$": "Coordinates", "coords": [[1.5, 2.0, 3.0]]}}}
DOCS = [
    {"$": "KML", "features": [{"$": "Document", "id": "d", "name": "doc", "features": [PM]}]},
    {"$": "KML", "features": [dict(gen.full("Placemark", deep=1), kml_geometry=PM["kml_geometry"])]},
    {"$": "KML", "features": [{"$": "Folder", "name": "bad", "features": [{"$": "Placemark", "id": "not an id", "name": "x"}]}]},
]
_SCHEMA = []


def verdict(text):
    """The verdict of the shipped schema, loaded here and not by the library."""
    if not _SCHEMA:
        _SCHEMA.append(LX.XMLSchema(LX.parse(REPO + "/fastkml/schema/ogckml22.xsd")))
    return _SCHEMA[0].validate(LX.fromstring(text))


def history(case, ctx):
    """Interpret the history on the real library and on the abstract objects in step."""
    cur = case["start"]
    config.set_etree_implementation(BACKENDS[cur])
    doc = DOCS[case["doc"]]
    abst, real = doc, build(doc)
    text, want_text = None, None
    n = 0
    for op in case["history"]:
        ctx.op()
        if op == "switch":
            cur = "std" if cur == "lxml" else "lxml"
            fastkml.config.set_etree_implementation(BACKENDS[cur])
            continue
        if op == "create":
            abst, real = doc, build(doc)
        elif op == "edit":
            n += 1
            f = abst["features"][0]
            abst = dict(abst, features=[dict(f, name="name %d" % n, visibility=n % 2 == 0)] + abst["features"][1:])
            real.features[0].name = "name %d" % n
            real.features[0].visibility = n % 2 == 0
        elif op == "append":
            n += 1
            p = {"$": "Placemark", "id": "n%d" % n, "begin": None} if n < 0 else dict(PM, id="n%d" % n)
            abst = dict(abst, features=abst["features"] + [p])
            real.append(build(p))
        elif op == "write":
            text, want_text = real.to_string(), abst
            d = match(infoset(text), expected(abst))
            if d:
                return "%s after %s: written %s" % (cur, case["history"], d)
        elif op in ("read", "parse"):
            if text is None:
                text, want_text = render(expected(abst)), abst
            if op == "read":
                real, abst = CLS["KML"].from_string(text), want_text
            else:
                real, abst = CLS["KML"].parse(io.BytesIO(text.encode()), validate=False), want_text
        elif op == "validate":
            try:
                v = real.validate()
            except AssertionError:
                v = False
            want = None if cur == "std" else verdict(render(expected(abst)))
            if v is not want:
                return "%s after %s: validate gives %r, expected %r" % (cur, case["history"], v, want)
        elif op == "search":
            got = len(list(fastkml.find_all(real, of_type=CLS["Placemark"])))
            want = sum(1 for _, x in gen.walk(abst) if x["$"] == "Placemark")
            if got != want:
                return "%s after %s: %d placemarks found, %d expected" % (cur, case["history"], got, want)
        elif op == "file":
            if text is None:
                text, want_text = render(expected(abst)), abst
            o = CLS["KML"].parse(io.StringIO(text), strict=False)
            d = diff(see(o), norm(want_text))
            if d:
                return "%s after %s: parsed %s" % (cur, case["history"], d)
        d = diff(see(real), norm(abst))
        if d:
            return "%s after %s (at %s): %s" % (cur, case["history"], op, d)
    for b in BACK:
        fastkml.config.set_etree_implementation(BACKENDS[b])
        d = match(infoset(real.to_string()), expected(abst))
        if d:
            return "finally written under %s after %s: %s" % (b, case["history"], d)
    return None


_ = make_value
