"""C16: namespaces are honoured when reading and writing."""
import io
import itertools

import pygeoif.geometry as geo

from bind import CLS, config, infoset, make_value
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from model import N, Style, esc, render
from spec import NS

BOUNDS = {
    "quick": "every type x 12 prefix layouts; every type below a root of 7 namespace versions (read from file or with the caller's "
             "table, written again, read again); every type built with 4 namespaces of the caller's choice, and with an empty one; every "
             "field of every type with a same-named element or attribute of 4 foreign namespaces before, after or instead of it; every "
             "history of 4 reads, constructions and combinations of documents in 4 namespaces",
    "thorough": "as quick with the C01 object space for layouts and versions, and histories of 5 operations",
}
ASSUMPTIONS = ["elements without any namespace are outside the property (the library accepts them as a fallback)"]
KML, GX, ATOM = NS["kml"], NS["gx"], NS["atom"]
VERSIONS = [
    "http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.0", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.2",
    "http://www.opengis.net/kml/2.3", "http://e.example/kml", "urn:x-kml:kml",
]
FOREIGN = ["http://e.example/other", "http://www.w3.org/1999/xhtml", "http://earth.google.com/kml/2.1", "http://www.opengis.net/kml/2.2x"]


def layouts():
    """Assignments of prefixes; where the declarations stand."""
    return [
        ("default", {KML: "", GX: "gx", ATOM: "atom"}, None),
        ("prefixed", {KML: "kml", GX: "gx", ATOM: "atom"}, None),
        ("odd prefixes", {KML: "gx", GX: "atom", ATOM: "kml"}, None),
        ("gx default", {KML: "k", GX: "", ATOM: "a"}, None),
        ("atom default", {KML: "k", GX: "x", ATOM: ""}, None),
        ("ns0", {KML: "ns0", GX: "ns1", ATOM: "ns2"}, None),
        ("long", {KML: "_very.long-prefix", GX: "\u00e9", ATOM: "a1"}, None),
        ("every element", {KML: "k", GX: "g", ATOM: "a"}, "all"),
        ("every element default", {KML: "", GX: "", ATOM: ""}, "own"),
        ("alternating", {KML: "p", GX: "p", ATOM: "p"}, "own"),
        ("unused", {KML: "", GX: "gx", ATOM: "atom", "http://e.example/unused": "kml", "urn:y": "y"}, None),
        ("twice", {KML: "kml", GX: "gx", ATOM: "atom"}, "two"),
    ]


LAYOUTS = {x[0]: x for x in layouts()}


def spell(node, layout, root=True, depth=0):
    """Render the element with the given prefixes."""
    name, pre, where = LAYOUTS[layout]
    p = pre[node.ns]
    if where == "two" and depth % 2:
        p = "alt" + p
    tag = (p + ":" if p else "") + node.tag
    at = ""
    if where == "own":
        at += ' xmlns%s="%s"' % (":" + p if p else "", node.ns)
    elif root or where == "all":
        for uri, q in pre.items():
            at += ' xmlns%s="%s"' % (":" + q if q else "", uri)
            if where == "two":
                at += ' xmlns:alt%s="%s"' % (q, uri)
    for k, v in node.attrs.items():
        at += ' %s="%s"' % (k, esc(v if isinstance(v, str) else Style().lexer(v), True))
    body = "" if node.text is None else esc(node.text if isinstance(node.text, str) else Style().lexer(node.text))
    body += "".join(spell(k, layout, False, depth + 1) for k in node.kids)
    return "<%s%s>%s</%s>" % (tag, at, body, tag)


def spaces(a, table):
    """The namespaces every object of the tree must have."""
    return [(x["$"], "{%s}" % table[SPEC[x["$"]].ns]) for _, x in gen.walk(a)]


def seen_spaces(o):
    c = NAME[type(o)]
    yield c, o.ns
    for f in SPEC[c].fields:
        v = getattr(o, f.attr)
        if f.kind == "obj" and v is not None:
            yield from seen_spaces(v)
        elif f.kind == "list":
            for x in v:
                yield from seen_spaces(x)


NAME = {v: k for k, v in CLS.items()}


def groups(tier):
    return [k + "/" + c for c in NAMES for k in ("layout", "version", "own", "foreign")] + ["history", "geometry"]


def shards(g, tier):
    big = g.split("/")[-1] in ("PhotoOverlay", "ScreenOverlay", "GroundOverlay", "Placemark", "Document", "Folder", "NetworkLink", "KML")
    return 8 if g == "history" else (2 if tier == "quick" else 8) if big else 1


def bases(c, tier):
    yield gen.mini(c)
    yield gen.full(c, deep=0)
    yield gen.full(c, deep=1)
    for p, attr in gen.UP.get(c, ()):
        yield gen.embed(gen.full(c, deep=0), p, attr)
    if tier == "thorough":
        yield from (a for a in object_space(c, "quick") if gen.parts_complete(a))


def cases(group, tier):
    kind, _, c = group.partition("/")
    if kind == "layout":
        for a in bases(c, tier):
            for n in LAYOUTS:
                yield {"layout": n, "a": a}
                r = gen.to_root(a)
                if r is not None and r is not a:
                    yield {"layout": n, "a": r}
    elif kind == "version":
        for a in bases(c, tier):
            for v in VERSIONS:
                yield {"version": v, "a": a}
    elif kind == "own":
        for a in bases(c, tier):
            for t in range(len(TABLES)):
                yield {"own": t, "a": a}
            yield {"given": a}
    elif kind == "foreign":
        for f in SPEC[c].fields:
            for w in range(4):
                for how in ("before", "after", "instead"):
                    yield {"foreign": FOREIGN[w], "cls": c, "attr": f.attr, "how": how}
            if c.startswith("atom."):
                yield {"foreign": KML, "cls": c, "attr": f.attr, "how": "instead"}
            elif f.kind[0] != "@":
                own = f.kind == "obj" and any(x.startswith("atom.") for x in f.arg)
                if not own:
                    yield {"foreign": ATOM, "cls": c, "attr": f.attr, "how": "instead"}
                else:
                    yield {"foreign": KML, "cls": c, "attr": f.attr, "how": "instead"}
                    yield {"foreign": GX, "cls": c, "attr": f.attr, "how": "instead"}
    elif kind == "geometry":
        for i in range(len(GEOMS)):
            for v in VERSIONS:
                yield {"geometry": i, "version": v}
    else:
        for seq in itertools.product(range(len(HOPS)), repeat=5 if tier == "thorough" else 4):
            yield {"history": list(seq)}


def check(case, ctx):
    for k in ("layout", "version", "own", "given", "foreign", "geometry", "history"):
        if k in case and not (k == "version" and "geometry" in case):
            try:
                return globals()["do_" + k](case, ctx)
            finally:
                use("lxml")
    raise KeyError(case)


def do_layout(case, ctx):
    a = case["a"]
    text = spell(expected(a), case["layout"])
    want, cls = expect_read(norm(a, group=True)), CLS[a["$"]]
    for b in BACK:
        use(b)
        calls = [lambda: cls.from_string(text)]
        if cls is CLS["KML"]:
            calls.append(lambda: cls.parse(io.BytesIO(text.encode()), validate=False))
        for fn in calls:
            ctx.op()
            o = fn()
            d = diff(see(o, True), want)
            if d:
                return "%s, prefixes %s: %s\n%s" % (b, case["layout"], d, text[:600])
            if sorted(seen_spaces(o)) != sorted(spaces(a, NS)):
                return "%s, prefixes %s: namespaces of the objects are %s" % (b, case["layout"], sorted(set(seen_spaces(o)) - set(spaces(a, NS))))
            d = match(infoset(o.to_string()), infoset_of(o, a))
            if d:
                return "%s, prefixes %s: written again: %s" % (b, case["layout"], d)
    return None


def infoset_of(o, a, ns=None):
    """Expected output; after reading, entries of different kinds are grouped by kind and tracks state all angles."""
    return expected(regroup(a), ns=ns)


def regroup(a):
    c = SPEC[a["$"]]
    out = {}
    for k, v in a.items():
        f = c.by_attr.get(k)
        if f is not None and f.kind == "obj" and v is not None:
            v = regroup(v)
        elif f is not None and f.kind == "list" and v:
            v = sorted([regroup(x) for x in v], key=lambda x: f.arg.index(x["$"]))
        elif f is not None and f.kind == "track" and v:
            v = [[w, p, g or [0.0, 0.0, 0.0]] for w, p, g in v]
        out[k] = v
    return out


def do_version(case, ctx):
    a, uri = case["a"], case["version"]
    table = dict(NS, kml=uri)
    cls = CLS[a["$"]]
    r = gen.to_root(a)
    for b in BACK:
        use(b)
        todo = []
        if r is not None:
            text = render(expected(r, ns={"kml": uri}), Style(prefixes={uri: "", GX: "gx", ATOM: "atom"}))
            k = CLS["KML"]
            todo += [
                (r, lambda: k.parse(io.BytesIO(text.encode()), validate=False)),
                (r, lambda: k.parse(io.StringIO(text), strict=False)),
                (r, lambda: k.parse(io.StringIO(text), ns="{%s}" % uri, validate=False)),
                (r, lambda: k.parse(io.StringIO(text), name_spaces={"kml": "{%s}" % uri, "q": "{http://q}"}, validate=False)),
                (r, lambda: k.from_string(text, ns="{%s}" % uri, name_spaces={"kml": "{%s}" % uri})),
            ]
        frag = render(expected(a, ns={"kml": uri}), Style(prefixes={uri: "k", GX: "gx", ATOM: "atom"}))
        todo.append((a, lambda: cls.from_string(frag, name_spaces={"kml": "{%s}" % uri})))
        for x, fn in todo:
            ctx.op(3)
            o = fn()
            d = diff(see(o, True), expect_read(norm(x, True)))
            if d:
                return "%s, namespace %s: %s" % (b, uri, d)
            if sorted(seen_spaces(o)) != sorted(spaces(x, table)):
                return "%s, namespace %s: namespaces of the objects are %s" % (b, uri, sorted(set(seen_spaces(o)) - set(spaces(x, table))))
            if o.name_spaces.get("kml") != "{%s}" % uri or o.name_spaces.get("gx") != "{%s}" % GX or o.name_spaces.get("atom") != "{%s}" % ATOM:
                return "%s, namespace %s: namespace table %s" % (b, uri, o.name_spaces)
            for v in ("normal", "verbose"):
                out = o.to_string(verbosity=VERB[v])
                d = match(infoset(out), expected(regroup(x), ns={"kml": uri}, verbosity=v))
                if d:
                    return "%s, namespace %s: written again (%s): %s" % (b, uri, v, d)
            if x["$"] == "KML":
                again = CLS["KML"].parse(io.StringIO(o.to_string()), validate=False)
                if "q" not in o.name_spaces and (not again == o or not o == again):
                    return "%s, namespace %s: written and read again is not equal" % (b, uri)
    return None


TABLES = [
    {"kml": VERSIONS[1]},
    {"gx": "http://e.example/gx"},
    {"atom": "http://e.example/atom"},
    {"kml": "http://e.example/1", "gx": "http://e.example/2", "atom": "http://e.example/3"},
    None,  # no namespaces at all
]


def construct(a, table):
    """Every object of the tree built with the caller's namespaces."""
    c = SPEC[a["$"]]
    kw = {}
    for k, v in a.items():
        if k[0] == "$" or v is None:
            continue
        f = c.by_attr[k]
        if f.kind == "obj":
            kw[k] = construct(v, table)
        elif f.kind == "list":
            kw[k] = [construct(x, table) for x in v]
        else:
            kw[k] = make_value(f, v)
    if table is None:
        return CLS[c.name](ns="", name_spaces={"kml": "", "gx": "", "atom": ""}, **kw)
    braced = {k: "{%s}" % v for k, v in table.items()}
    return CLS[c.name](name_spaces=braced, **kw)


def do_own(case, ctx):
    a, t = case["a"], TABLES[case["own"]]
    for b in BACK:
        use(b)
        o = construct(a, t)
        ctx.op(2)
        if t is None:
            text = o.to_string()
            root = infoset(text)
            e = expected(a, ns={"kml": KML if a["$"] == "KML" else "", "gx": KML if a["$"] == "KML" else "", "atom": KML if a["$"] == "KML" else ""})
            d = match(root, e)
            if d:
                return "%s, no namespace: %s\n%s" % (b, d, text[:500])
            continue
        full = dict(NS, **t)
        if sorted(seen_spaces(o)) != sorted(spaces(a, full)):
            return "%s, own namespaces %s: objects have %s" % (b, t, sorted(set(seen_spaces(o)) - set(spaces(a, full))))
        text = o.to_string()
        d = match(infoset(text), expected(a, ns=full))
        if d:
            return "%s, own namespaces %s: %s\n%s" % (b, t, d, text[:500])
        r = CLS[a["$"]].from_string(text, name_spaces={k: "{%s}" % v for k, v in t.items()})
        d = diff(see(r, True), expect_read(norm(a, True)))
        if d:
            return "%s, own namespaces %s, read back: %s" % (b, t, d)
        if sorted(seen_spaces(r)) != sorted(spaces(a, full)):
            return "%s, own namespaces %s, read back: objects have %s" % (b, t, sorted(set(seen_spaces(r)) - set(spaces(a, full))))
        braced = {k: "{%s}" % v for k, v in t.items()}
        root = gen.to_root(a)
        ways = [("element", a, lambda: CLS[a["$"]].class_from_element(ns="{%s}" % full[SPEC[a["$"]].ns], name_spaces=braced, element=config.etree.fromstring(text), strict=True))]
        if root is not None:
            doc = render(expected(root, ns=full), Style(prefixes={full["kml"]: "", full["gx"]: "gx", full["atom"]: "a"}))
            ways += [("stream", root, lambda: CLS["KML"].parse(io.BytesIO(doc.encode()), name_spaces=braced, validate=False)),
                     ("lenient stream", root, lambda: CLS["KML"].parse(io.StringIO(doc), name_spaces=braced, strict=False)),
                     ("root", root, lambda: CLS["KML"].from_string(doc, name_spaces=braced))]
        for name, x, fn in ways:
            ctx.op()
            table = dict(braced)
            r = fn()
            if braced != table:
                return "%s, own namespaces %s: the caller's table was changed" % (b, t)
            d = diff(see(r, True), expect_read(norm(x, True)))
            if d:
                return "%s, own namespaces %s, read from %s: %s" % (b, t, name, d)
            if sorted(seen_spaces(r)) != sorted(spaces(x, full)):
                return "%s, own namespaces %s, read from %s: objects have %s" % (b, t, name, sorted(set(seen_spaces(r)) - set(spaces(x, full))))
    return None


def do_given(case, ctx):
    """A namespace given to one object is kept and used for it and its simple values, not for its parts."""
    a = case["given"]
    c, uri = SPEC[a["$"]], "http://e.example/given"
    mine = {f.xml for f in c.fields if f.kind in ("text", "bool", "int", "float") or (f.kind == "enum" and f.arg != "AltitudeMode")}
    for b in BACK:
        use(b)
        parts = build(a)
        o = CLS[c.name](ns="{%s}" % uri, **{k: getattr(parts, k) for k in a if k[0] != "$"})
        ctx.op(2)
        if o.ns != "{%s}" % uri or o.name_spaces != parts.name_spaces:
            return "%s: %s given a namespace has %s and the table %s" % (b, c.name, o.ns, o.name_spaces)
        for v in VERB:
            root = infoset(o.to_string(verbosity=VERB[v]))
            want = infoset(parts.to_string(verbosity=VERB[v]))
            if root.ns != uri:
                return "%s: %s given a namespace is written in %s" % (b, c.name, root.ns)
            root.ns = want.ns
            for i, k in enumerate(root.kids):
                if k.tag in mine and k.ns != uri:
                    return "%s: %s given a namespace writes %s in %s" % (b, c.name, k.tag, k.ns)
                if k.ns == uri and i < len(want.kids):
                    k.ns = want.kids[i].ns
            if repr(root) != repr(want):
                return "%s: %s given a namespace is written (%s) as %s instead of %s" % (b, c.name, v, repr(root)[:600], repr(want)[:600])
    return None


def do_foreign(case, ctx):
    """A same-named element or attribute of another namespace is not the value."""
    c, attr, uri, how = case["cls"], case["attr"], case["foreign"], case["how"]
    f = SPEC[c].by_attr[attr]
    a = gen.full(c, deep=0)
    if a.get(attr) is None:
        return None
    node = expected(a, keep=True)
    other = expected(dict(gen.full(c, gen.Seq(777), deep=0)), keep=True)
    names = {"track": ("when", "coord", "angles")}.get(f.kind)
    without = {k: v for k, v in a.items() if k != attr}
    prefixes = {KML: "", GX: "gx", ATOM: "atom"}
    if uri not in prefixes:
        prefixes[uri] = "f"
    if f.kind[0] == "@":
        if how == "instead":
            node.attrs = {k if k != f.xml else "f:" + k: v for k, v in node.attrs.items()}
        else:
            node.attrs = dict([("f:" + f.xml, other.attrs[f.xml])] + list(node.attrs.items()) if how == "before" else list(node.attrs.items()) + [("f:" + f.xml, other.attrs[f.xml])])
        if uri in (KML, GX, ATOM):
            return None
    elif f.kind in ("content", "coords"):
        return None
    else:
        if names is None:
            names = (f.xml,) if f.kind not in ("obj", "list") else {SPEC[x].tag for x in f.arg}
        mine = [k for k in node.kids if k.tag in names]
        theirs = [foreign(k, uri) for k in other.kids if k.tag in names]
        if not mine or not theirs:
            return None
        if c == "Polygon" and how != "instead":
            pass
        i = node.kids.index(mine[0])
        rest = [k for k in node.kids if k.tag not in names]
        j = len([k for k in node.kids[:i] if k.tag not in names])
        seq = {"before": theirs + mine, "after": mine + theirs, "instead": theirs}[how]
        node.kids = rest[:j] + seq + rest[j:]
    if c == "Schema" and attr == "id":
        return None
    text = render(node, Style(prefixes=prefixes))
    wants = [norm(a if how != "instead" else without, True)]
    for b in BACK:
        use(b)
        for strict in (True, False):
            ctx.op()
            o = CLS[c].from_string(text, strict=strict)
            d = diff(see(o, True), expect_read(wants[0]))
            if d:
                return "%s: %s.%s in namespace %s (%s): %s\n%s" % (b, c, attr, uri, how, d, text[:700])
    return None


def foreign(n, uri):
    """The element itself in another namespace, its content unchanged."""
    return N(uri, n.tag, n.attrs, n.text, n.kids)


# ---------------------------------------------------------------- geometries made from shapes
GEOMS = [
    geo.Point(1, 2), geo.LineString([(0, 0), (1, 1)]), geo.LinearRing([(0, 0), (0, 1), (1, 1), (0, 0)]),
    geo.Polygon([(0, 0), (0, 9), (9, 9), (0, 0)], [[(1, 2), (1, 3), (2, 3), (1, 2)]]),
    geo.MultiPoint([(0, 0), (1, 1)]), geo.MultiLineString([[(0, 0), (1, 1)]]), geo.MultiPolygon([[[(0, 0), (0, 1), (1, 1), (0, 0)]]]),
    geo.GeometryCollection([geo.Point(1, 2), geo.GeometryCollection([geo.Point(3, 4)])]),
]


def do_geometry(case, ctx):
    from fastkml.geometry import create_kml_geometry
    uri = case["version"]
    ns = "{%s}" % uri
    use("lxml")
    g = GEOMS[case["geometry"]]
    for o in (create_kml_geometry(g, ns=ns, name_spaces={"kml": ns}), create_kml_geometry(g, name_spaces={"kml": ns})):
        ctx.op()
        got = set(seen_spaces(o))
        if {n for _, n in got} != {ns}:
            return "created for namespace %s: %s" % (uri, sorted(got))
        if any(e.ns != uri for e in flat(infoset(o.to_string()))):
            return "created for namespace %s, written as %s" % (uri, o.to_string()[:500])
    p = CLS["Placemark"](ns=ns, name_spaces={"kml": ns}, geometry=g)
    if any(e.ns != uri for e in flat(infoset(p.to_string()))):
        return "a placemark created for namespace %s is written as %s" % (uri, p.to_string()[:500])
    return None


def flat(n):
    yield n
    for k in n.kids:
        yield from flat(k)


# ---------------------------------------------------------------- histories
def doc(i):
    return {"$": "KML", "features": [{"$": "Folder", "id": "f%d" % i, "name": "doc %d" % i, "atom_author": {"$": "atom.Author", "name": "x"}, "features": [
        {"$": "Placemark", "name": "p%d" % i, "kml_geometry": {"$": "Track", "track_items": [["2000", [1.0, 2.0], [0.0, 0.0, 0.0]]]}},
        {"$": "Placemark", "name": "q%d" % i, "view": {"$": "Camera", "altitude_mode": "clampToSeaFloor", "longitude": 1.0, "latitude": 2.0}}]}]}


HOPS = [("read", 0), ("read", 1), ("read", 2), ("string", 1), ("new", 0), ("new", 3), ("fragment", 2), ("adopt", None), ("table", None), ("bare", None), ("plain", None)]
PLAIN = '<kml><Document xmlns="http://www.opengis.net/kml/2.2"><name>n</name></Document></kml>'


def plain():
    """A root without namespace: what is read must not depend on what was read before."""
    o = CLS["KML"].parse(io.StringIO(PLAIN), validate=False)
    return list(seen_spaces(o)), see(o), dict(o.name_spaces)


PLAIN_READ = None


def do_history(case, ctx):
    b = "lxml" if sum(case["history"]) % 2 == 0 else "std"
    use(b)
    before = (dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES))
    live = []  # (object, abstract, list of expected namespaces, expected output)
    for i in case["history"]:
        op, v = HOPS[i]
        n = len(live)
        a = doc(n)
        ctx.op()
        if op in ("read", "string", "new"):
            uri = VERSIONS[v]
            ns = "{%s}" % uri
            e = expected(a, ns={"kml": uri})
            text = render(e, Style(prefixes={uri: "", GX: "gx", ATOM: "atom"}))
            if op == "read":
                o = CLS["KML"].parse(io.StringIO(text), validate=False)
            elif op == "string":
                o = CLS["KML"].from_string(text, name_spaces={"kml": ns})
            else:
                o = construct(a, {"kml": uri})
            live.append([o, a, spaces(a, dict(NS, kml=uri)), e])
        elif op == "fragment":
            uri = VERSIONS[v]
            a = a["features"][0]
            e = expected(a, ns={"kml": uri})
            text = render(e, Style(prefixes={uri: "", GX: "gx", ATOM: "atom"}))
            live.append([CLS["Folder"].from_string(text, name_spaces={"kml": "{%s}" % uri}), a, spaces(a, dict(NS, kml=uri)), e])
        elif op == "bare":
            a = {"$": "Placemark", "name": "bare"}
            live.append([CLS["Placemark"](name="bare"), a, spaces(a, NS), expected(a)])
        elif op == "adopt" and len(live) > 1 and live[-1][1]["$"] == live[-2][1]["$"] == "KML":
            # the features of the last document move into the one before: they keep their namespace
            x, y = live[-2], live.pop()
            for fo in y[0].features:
                x[0].append(fo)
            x[1] = dict(x[1], features=x[1]["features"] + y[1]["features"])
            x[2] = x[2] + y[2][1:]
            x[3] = N(x[3].ns, x[3].tag, x[3].attrs, x[3].text, x[3].kids + y[3].kids)
        elif op == "plain":
            if plain() != PLAIN_READ:
                return "%s after %s: a document without namespace is read as %s, alone as %s" % (b, [HOPS[j] for j in case["history"]], plain(), PLAIN_READ)
        elif op == "table" and live:
            live[-1][0].name_spaces["mine"] = "{http://e.example/mine}"
        for o, a, want, e in live:
            if list(seen_spaces(o)) != order(want, a, o):
                return "%s after %s: namespaces %s, expected %s" % (b, [HOPS[j] for j in case["history"]], list(seen_spaces(o)), want)
            d = match(infoset(o.to_string()), e)
            if d:
                return "%s after %s: written %s" % (b, [HOPS[j] for j in case["history"]], d)
    if before != (dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES)):
        return "the default namespaces changed"
    return None


def order(want, a, o):
    got = list(seen_spaces(o))
    return got if sorted(got) == sorted(want) else want


use("lxml")
PLAIN_READ = plain()
