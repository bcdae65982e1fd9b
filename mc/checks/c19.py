"""C19: derived accessors always reflect the current content."""
import copy
import itertools
import unicodedata
import urllib.parse

import pygeoif.geometry as geo
from bind import CLS, enum_member, make_time, make_value
from checks.common import *  # noqa: F403
from fastkml import geometry as kg
from fastkml.gx import TrackItem
from model import complete

BOUNDS = {
    "quick": "every sequence of 4 (style lookup, polygons, collections, placemarks: 3) edits from every start (new, read from text, copied), "
             "all accessors compared with the content after every edit; truth value of every type in every combination of up to 2 changed "
             "attributes and after every pair of assignments; styles below every kind of holder to depth 3, odd identifiers; appending to every container",
    "thorough": "as quick with sequences of one more edit",
}
ASSUMPTIONS = ["styles are found in document order: own styles first, then those of the contained features",
               "the geometry library merges repeated neighbouring vertices"]


def groups(tier):
    return (["seq/%s/%s" % (f, s) for f in FAMILIES for s in FAMILIES[f]["starts"]] + ["bool/" + c for c in NAMES] + ["append", "ids", "shortcut"]
            + ["seq/times:%s/new" % c for c in TIMED if c != "Placemark"])


def shards(g, tier):
    if not g.startswith("seq/"):
        return 1
    return 4 if tier == "quick" else 16


def cases(group, tier):
    kind, _, rest = group.partition("/")
    if kind == "seq":
        f, s = rest.split("/")
        n = len(FAMILIES[f.split(":")[0]]["ops"])
        d = FAMILIES[f.split(":")[0]]["depth"] + (tier == "thorough")
        if ":" in f:
            d -= 1
        for seq in itertools.product(range(n), repeat=d):
            yield {"family": f, "start": s, "ops": list(seq)}
    elif kind == "bool":
        c = rest
        for a in object_space(c, tier):
            yield {"bool": a}
        fields = SPEC[c].fields
        for f in fields:
            if f.kind in ("obj", "list"):
                for x in gen.hollow(f):
                    for base in (gen.mini(c), gen.full(c, deep=0)):
                        yield {"bool": dict(base, **{f.attr: [x] if f.kind == "list" else x})}
        for f1, f2 in itertools.product(fields, repeat=2):
            yield {"assign": c, "fields": [f1.attr, f2.attr]}
    elif kind == "shortcut":
        for a in object_space("IconStyle", tier):
            yield {"shortcut": a}
    elif kind == "ids":
        for i, j in itertools.product(range(len(ODD_IDS)), repeat=2):
            for where in ("style", "map", "inner", "feature"):
                yield {"ids": [i, j], "where": where}
        for c in HOLDERS:
            for depth in range(4):
                for kind in ("style", "map", "inner"):
                    for pos in range(3):
                        yield {"holder": c, "depth": depth, "kind": kind, "pos": pos}
    else:
        for c in ("Folder", "Document"):
            for seq in itertools.product(("self", "new", "folder", "again"), repeat=4):
                yield {"append": c, "ops": list(seq)}


def check(case, ctx):
    use("lxml")
    if "family" in case:
        return sequence(case, ctx)
    if "bool" in case:
        o = build(case["bool"])
        ctx.op(2)
        if bool(o) is not bool(complete(norm(case["bool"]))):
            return "the truth value of %s is %r" % (case["bool"], bool(o))
        return None
    if "assign" in case:
        return assign(case, ctx)
    if "shortcut" in case:
        return shortcut(case["shortcut"], ctx)
    if "holder" in case:
        return holder(case, ctx)
    if "ids" in case:
        return odd_ids(case, ctx)
    return append(case, ctx)


# ---------------------------------------------------------------- histories of edits
def sequence(case, ctx):
    name, _, c = case["family"].partition(":")
    fam = FAMILIES[name]
    o = fam["starts"][case["start"]](*([c] if c else []))
    fam["note"](o)
    d = fam["query"](o)
    if d:
        return "at the start: %s" % d
    for i, k in enumerate(case["ops"]):
        op = fam["ops"][k]
        op[1](o)
        ctx.op(2)
        d = fam["query"](o)
        if d:
            return "after %s: %s" % ([fam["ops"][j][0] for j in case["ops"][: i + 1]], d)
    ctx.outcome(name + str(type(o)))
    return None


def reread(o):
    return type(o).from_string(o.to_string())


def at(lst, i):
    return lst[i] if lst and -len(lst) <= i < len(lst) else None


def pop(lst, i):
    if lst:
        lst.pop(i)


def setat(lst, i, attr, v):
    x = at(lst, i)
    if x is not None:
        setattr(x, attr, v)


# ---- style maps
KEY = {k: enum_member("PairKey", k) for k in ("normal", "highlight")}


def pair(key, what):
    st = None
    if what == "url":
        st = CLS["StyleUrl"](url="#u-" + str(key))
    elif what == "style":
        st = CLS["Style"](id="s-" + str(key), styles=[CLS["LineStyle"](width=2.0)])
    elif what == "empty":
        st = CLS["Style"](id="e")
    return CLS["Pair"](key=KEY.get(key), style=st)


def map_start():
    return CLS["StyleMap"](id="m", pairs=[pair("normal", "url"), pair("highlight", "style")])


def map_query(m):
    for acc in ("normal", "highlight"):
        want = None
        for p in m.pairs:
            if p.key is KEY[acc]:
                want = p.style
                break
        if getattr(m, acc) is not want:
            return "the %s style is %r, the pairs say %r" % (acc, getattr(m, acc), want)
    if bool(m) is not (len(m.pairs) > 0):
        return "truth value %r with %d pairs" % (bool(m), len(m.pairs))
    return None


MAP_OPS = [
    ("append normal", lambda m: m.pairs.append(pair("normal", "style"))),
    ("append highlight", lambda m: m.pairs.append(pair("highlight", "url"))),
    ("insert normal", lambda m: m.pairs.insert(0, pair("normal", "empty"))),
    ("insert keyless", lambda m: m.pairs.insert(0, pair(None, "url"))),
    ("pop first", lambda m: pop(m.pairs, 0)),
    ("pop last", lambda m: pop(m.pairs, -1)),
    ("first is highlight", lambda m: setat(m.pairs, 0, "key", KEY["highlight"])),
    ("last is normal", lambda m: setat(m.pairs, -1, "key", KEY["normal"])),
    ("first has no key", lambda m: setat(m.pairs, 0, "key", None)),
    ("first has another style", lambda m: setat(m.pairs, 0, "style", CLS["StyleUrl"](url="#other"))),
    ("first has no style", lambda m: setat(m.pairs, 0, "style", None)),
    ("new pairs", lambda m: setattr(m, "pairs", [pair("highlight", "url"), pair("normal", "url"), pair("normal", "style")])),
    ("no pairs", lambda m: setattr(m, "pairs", [])),
    ("reverse", lambda m: m.pairs.reverse()),
]

# ---- icons
ICON_OPS = [
    ("icon a", lambda o: setattr(o, "icon", CLS["Icon"](href="http://e.example/a.png"))),
    ("icon b", lambda o: setattr(o, "icon", CLS["Icon"](href="http://e.example/b.png", x=1))),
    ("icon without address", lambda o: setattr(o, "icon", CLS["Icon"]())),
    ("no icon", lambda o: setattr(o, "icon", None)),
    ("other address", lambda o: setattr(o.icon, "href", "http://e.example/c.png") if o.icon is not None else None),
    ("address removed", lambda o: setattr(o.icon, "href", None) if o.icon is not None else None),
    ("address emptied", lambda o: setattr(o.icon, "href", "") if o.icon is not None else None),
    ("scale", lambda o: setattr(o, "scale", 0.0)),
    ("no scale", lambda o: setattr(o, "scale", None)),
    ("hot spot", lambda o: setattr(o, "hot_spot", CLS["HotSpot"](x=0.5, y=0.5))),
    ("no hot spot", lambda o: setattr(o, "hot_spot", None)),
]


def icon_query(o):
    want = o.icon.href if o.icon is not None and o.icon.href else None
    if o.icon_href != want:
        return "icon_href is %r, the icon says %r" % (o.icon_href, want)
    full = bool(want) or any(x is not None for x in (o.color, o.color_mode, o.scale, o.heading, o.hot_spot))
    if bool(o) is not full:
        return "truth value %r" % bool(o)
    return None


# ---- times
T = [make_time(t) for t in ("1999", "2001-02", "2003-04-05", "2010-05-28T02:02:09Z")]


def set_times(attr, v):
    def op(o):
        if o.times is not None and hasattr(o.times, attr):
            setattr(o.times, attr, v)
    return op


TIME_OPS = [
    ("stamp", lambda o: setattr(o, "times", CLS["TimeStamp"](timestamp=T[0]))),
    ("stamp without time", lambda o: setattr(o, "times", CLS["TimeStamp"]())),
    ("span", lambda o: setattr(o, "times", CLS["TimeSpan"](begin=T[1], end=T[2]))),
    ("open span", lambda o: setattr(o, "times", CLS["TimeSpan"](end=T[3]))),
    ("span without limits", lambda o: setattr(o, "times", CLS["TimeSpan"]())),
    ("no times", lambda o: setattr(o, "times", None)),
    ("new stamp time", set_times("timestamp", T[3])),
    ("no stamp time", set_times("timestamp", None)),
    ("new begin", set_times("begin", T[0])),
    ("no begin", set_times("begin", None)),
    ("new end", set_times("end", T[1])),
    ("no end", set_times("end", None)),
]


def times_query(o):
    t = o.times
    stamp, begin, end = None, None, None
    if type(t) is CLS["TimeStamp"]:
        stamp = t.timestamp
        full = stamp is not None
    elif type(t) is CLS["TimeSpan"]:
        begin, end = t.begin, t.end
        full = begin is not None or end is not None
    got = (o.time_stamp, o.begin, o.end)
    if any(x is not y for x, y in zip(got, (stamp, begin, end))):
        return "time stamp, begin and end are %s, the times say %s" % ([str(x) for x in got], [str(x) for x in (stamp, begin, end)])
    if t is not None and bool(t) is not full:
        return "truth value of the times is %r" % bool(t)
    return None


TIMED = [n for n in NAMES if hasattr(CLS[n], "time_stamp")]

# ---- style lookup
URLS = ["#a", "#b", "#c", "doc.kml#a", "http://e.example/x.kml?q=1#b", "http://e.example/x#c", "a", "", "#", "http://e.example/a", "#A", "##a", "#a "]


def style(i, w=2.0):
    return CLS["Style"](id=i, styles=[CLS["LineStyle"](width=w)])


def stylemap(i, inner):
    return CLS["StyleMap"](id=i, pairs=[CLS["Pair"](key=KEY["normal"], style=style(inner, 7.0))])


def lookup_start():
    d = CLS["Document"](id="a", styles=[style("a", 1.0), style(None), stylemap("b", "c")])
    d.append(CLS["Folder"](id="b", styles=[style("c", 3.0)], features=[CLS["Placemark"](id="c", styles=[style("a", 4.0)])]))
    return d


def in_order(x):
    """Styles below a feature, in document order."""
    for s in x.styles or ():
        yield s
        if type(s) is CLS["StyleMap"]:
            for p in s.pairs:
                if isinstance(p.style, CLS["Style"]):
                    yield p.style
    for f in getattr(x, "features", None) or ():
        yield from in_order(f)


def lookup_query(d, urls=URLS):
    for u in urls:
        frag = u.split("#", 1)[1] if "#" in u else ""
        want = None
        if frag:
            want = next((s for s in in_order(d) if s.id == frag), None)
        got = d.get_style_by_url(u)
        if got is not want:
            return "the style for %r is %s, the document has %s" % (u, got, want)
        if d.get_style_by_url(style_url=u) is not got:
            return "looking up %r twice gives different styles" % u
    return None


LOOKUP_OPS = [
    ("append a", lambda d: d.styles.append(style("a", 8.0))),
    ("insert b", lambda d: d.styles.insert(0, style("b", 9.0))),
    ("insert map c(a)", lambda d: d.styles.insert(0, stylemap("c", "a"))),
    ("pop first", lambda d: pop(d.styles, 0)),
    ("pop last", lambda d: pop(d.styles, -1)),
    ("no styles", lambda d: setattr(d, "styles", [])),
    ("first is c", lambda d: setat(d.styles, 0, "id", "c")),
    ("first has no id", lambda d: setat(d.styles, 0, "id", None)),
    ("reverse", lambda d: d.styles.reverse()),
    ("folder with b first", lambda d: d.features.insert(0, CLS["Folder"](styles=[style("b", 11.0)]))),
    ("append nested document", lambda d: d.append(CLS["Document"](styles=[style("c", 12.0), style("a", 13.0)]))),
    ("no features", lambda d: setattr(d, "features", [])),
    ("style into first feature", lambda d: d.features[0].styles.append(stylemap("b", "a")) if d.features else None),
    ("first feature's style is a", lambda d: setat(d.features[0].styles, 0, "id", "a") if d.features else None),
    ("new styles", lambda d: setattr(d, "styles", [style("c", 14.0), style("c", 15.0)])),
    ("id of the document", lambda d: setattr(d, "id", "b")),
    ("first replaced by one like it", lambda d: d.styles.__setitem__(0, copy.copy(d.styles[0])) if d.styles else None),
]


def only(u):
    """The look-up of one address with no other look-up in between."""
    return lambda d: lookup_query(d, (u,))


def shortcut(a, ctx):
    """An icon style made with the address of an icon is the one made with an icon of that address."""
    rest = {k: make_value(SPEC["IconStyle"].by_attr[k], v) for k, v in a.items() if k[0] != "$" and k != "icon"}
    icon = build(a["icon"]) if a.get("icon") else None
    for href in (None, "", "  ", "a.png", " http://e.example/i.png?x=1&y=[2] ", "0", "#x"):
        clean = (href or "").strip() or None
        kept = bool(icon)  # an icon that is given wins
        o = CLS["IconStyle"](icon_href=href, icon=icon, **rest)
        ctx.op(3)
        if kept or clean is None:
            if o.icon is not icon:
                return "icon_href=%r displaced the icon given: %r" % (href, o.icon)
        elif type(o.icon) is not CLS["Icon"] or diff(see(o.icon), norm({"$": "Icon", "href": clean})):
            return "icon_href=%r makes the icon %r" % (href, o.icon)
        want = o.icon.href if o.icon else None
        if o.icon_href != want:
            return "icon_href=%r reads as %r" % (href, o.icon_href)
        b = dict(a) if kept or clean is None else dict(a, icon={"$": "Icon", "href": clean})
        p = build(b)
        if o != p or p != o or o.to_string() != p.to_string() or bool(o) is not bool(p):
            return "icon_href=%r: %s is not the style made with an icon: %s" % (href, o, p)
    return None


ODD_IDS = ["a", "A", "a%20b", "a b", "a+b", "a&b", "a/b", "a?b", "a:b", "\u00e9", "%C3%A9", "a#b", "a.b", "a;b", "a=b", "0", "a_b", "a-b", "a%2Fb", "None", "x" * 300, "a[0]",
           "a@b", "a,b", "a'b", "a\"b", "~a", "a|b", "e\u0301", "a--b", "//a", "http:", "a%23b", "%", "a*", ".*", "a(b)", "$a", "^a", "\u6771"]


HOLDERS = [c for c in NAMES if "styles" in SPEC[c].by_attr and c != "Style"]


def holder(case, ctx):
    """Every kind of feature may hold the style that is looked up."""
    s = {"style": style("x", 3.0), "map": stylemap("x", None), "inner": stylemap(None, "x")}[case["kind"]]
    want = s.pairs[0].style if case["kind"] == "inner" else s
    o = build(gen.mini(case["holder"]))
    o.styles = [style("y"), style(None), s] if case["pos"] == 2 else [s, style("y")] if case["pos"] else [s]
    rest = [build(gen.mini(c)) for c in HOLDERS]
    for i, r in enumerate(rest):
        r.styles = [style("r%d" % i)]
    for i in range(case["depth"]):
        o = CLS["Folder" if i % 2 else "Document"](features=[CLS["Placemark"](), o])
    d = CLS["Document"](id="x", features=rest[: case["pos"] * 3] + [o] + rest[case["pos"] * 3:])
    for i in range(2):
        ctx.op()
        got = d.get_style_by_url("#x")
        if got is not want:
            return "a style of a %s, %d levels down, is not found: %r" % (case["holder"], case["depth"], got)
        for i, r in enumerate(rest):
            if d.get_style_by_url("a.kml#r%d" % i) is not r.styles[0]:
                return "the style of a %s is not found" % type(r).__name__
    want.id = "z"
    ctx.op(2)
    if d.get_style_by_url("#x") is not None or d.get_style_by_url("#z") is not want:
        return "a style of a %s that was renamed is found by its old name or not by the new one" % case["holder"]
    return None


def odd_ids(case, ctx):
    """Styles are found by exactly the identifier they have, whatever characters it is made of."""
    one, two = (ODD_IDS[i] for i in case["ids"])
    s1, s2 = style(one, 1.0), style(two, 2.0)
    if case["where"] == "style":
        d = CLS["Document"](styles=[s1, s2])
    elif case["where"] == "map":
        s1, s2 = stylemap(one, None), stylemap(two, None)
        d = CLS["Document"](styles=[s1, s2])
    elif case["where"] == "inner":
        d = CLS["Document"](styles=[CLS["StyleMap"](pairs=[CLS["Pair"](key=KEY["normal"], style=s1), CLS["Pair"](key=KEY["highlight"], style=s2)])])
    else:
        d = CLS["Document"](features=[CLS["Placemark"](styles=[s1]), CLS["Folder"](features=[CLS["Placemark"](styles=[s2])])])
    for i, want in ((one, s1), (two, s1 if one == two else s2)):
        for u in ("#" + i, "s.kml#" + i, "http://e.example/d/s.kml?x=1&y=2#" + i, "../s.kmz#" + i, "http://e.example:80/%20/s.kml#" + i):
            ctx.op()
            got = d.get_style_by_url(u)
            if got is not want:
                return "the style for %r is %s, the document has %s" % (u, got, want)
    for i in ODD_IDS:
        if i not in (one, two) and not {quoted(i)} & {quoted(one), quoted(two)}:
            ctx.op()
            got = d.get_style_by_url("#" + i)
            if got is not None:
                return "the style for %r is %s, the document has none" % ("#" + i, got)
    return None


def quoted(i):
    """Identifiers that may name the same thing under some reading of URLs are not told apart."""
    return unicodedata.normalize("NFC", urllib.parse.unquote(i))


# ---- geometries
SHAPES = {
    "P1": [(1.0, 2.0)], "P2": [(3.0, 4.0, 5.0)],
    "L1": [(0.0, 0.0), (1.0, 1.0)], "L2": [(0.0, 0.0, 1.0), (2.0, 3.0, 1.0), (4.0, 1.0, 2.0)],
    "R1": [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 0.0)], "R2": [(1.0, 1.0, 9.0), (2.0, 1.0, 8.0), (2.0, 2.0, 7.0), (1.0, 1.0, 9.0)],
}


def coords(k):
    return kg.Coordinates(coords=list(SHAPES[k]))


def pts(seq):
    out = []
    for p in seq:
        p = tuple(float(x) for x in p)
        if not out or out[-1] != p:
            out.append(p)
    return out


def shape(o):
    """Shape of a KML geometry according to its content: nested tuples or None."""
    t = type(o).__name__
    if t in ("Point", "LineString", "LinearRing"):
        if o.kml_coordinates is None or not o.kml_coordinates.coords:
            return None
        c = pts(o.kml_coordinates.coords)
        if t == "LinearRing" and c[0] != c[-1]:
            c.append(c[0])  # the geometry library closes rings
        return (t, tuple(c))
    if t in ("OuterBoundaryIs", "InnerBoundaryIs"):
        return shape(o.kml_geometry) if o.kml_geometry is not None else None
    if t == "Polygon":
        out = shape(o.outer_boundary) if o.outer_boundary is not None else None
        if out is None:
            return None
        return (t, out[1], tuple(s[1] for s in map(shape, o.inner_boundaries) if s is not None))
    if t == "MultiGeometry":
        parts = [s for s in map(shape, o.kml_geometries) if s is not None]
        if not parts:
            return None
        kinds = {p[0] for p in parts}
        name = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}.get(kinds.pop()) if len(kinds) == 1 else None
        return (name or "GeometryCollection", tuple(parts))
    if t == "Placemark":
        return shape(o.kml_geometry) if o.kml_geometry is not None else None
    if t == "Location":
        if o.longitude is None or o.latitude is None:
            return None
        z = () if o.altitude is None else (float(o.altitude),)
        return ("Point", ((float(o.longitude), float(o.latitude)) + z,))
    if t == "Model":
        return shape(o.location) if o.location is not None else None
    if t == "Track":
        c = pts(i.coord.coords[0] for i in o.track_items if i.coord is not None)
        return ("LineString", tuple(c)) if c else None
    if t == "MultiTrack":
        parts = [s for s in map(shape, o.tracks) if s is not None]
        return ("MultiLineString", tuple(parts)) if parts else None
    raise AssertionError(t)


def seen(g):
    """The same form for a geometry object."""
    if g is None or g.is_empty:
        return None
    t = g.geom_type
    if t in ("Point", "LineString", "LinearRing"):
        return (t, tuple(pts(g.coords)))
    if t == "Polygon":
        return (t, tuple(pts(g.exterior.coords)), tuple(tuple(pts(i.coords)) for i in g.interiors))
    return (t, tuple(seen(x) for x in g.geoms))


def geometry_query(o):
    want = shape(o)
    got = seen(o.geometry)
    if want is not None and len(want) > 1 and want[0].startswith(("Multi", "Geometry")):
        # members of a homogeneous collection
        pass
    if got != want:
        return "the geometry is %r, the content says %r" % (got, want)
    t = type(o).__name__
    full = want is not None
    if t == "Track":
        full = bool(o.track_items)
    elif t == "MultiTrack":
        full = bool(o.tracks)
    elif t == "Placemark":
        full = True
    elif t == "Model":
        full = full and o.link is not None and bool(o.link.href)
    if bool(o) is not full:
        return "the truth value is %r with the shape %r" % (bool(o), want)
    for part in parts_of(o):
        d = geometry_query(part)
        if d:
            return "in %s: %s" % (type(part).__name__, d)
    return None


def parts_of(o):
    t = type(o).__name__
    if t == "Polygon":
        return [x for x in [o.outer_boundary] + list(o.inner_boundaries) if x is not None]
    if t in ("OuterBoundaryIs", "InnerBoundaryIs"):
        return [o.kml_geometry] if o.kml_geometry is not None else []
    if t == "MultiGeometry":
        return list(o.kml_geometries)
    if t == "Placemark":
        return [o.kml_geometry] if o.kml_geometry is not None else []
    if t == "Model":
        return [o.location] if o.location is not None else []
    if t == "MultiTrack":
        return list(o.tracks)
    return []


def simple_ops(keys):
    ops = [("coords " + k, lambda o, k=k: setattr(o, "kml_coordinates", coords(k))) for k in keys]
    ops += [("no coords", lambda o: setattr(o, "kml_coordinates", None)),
            ("empty coords", lambda o: setattr(o, "kml_coordinates", kg.Coordinates(coords=[])))]
    for k in keys:
        ops.append(("list " + k, lambda o, k=k: setattr(o.kml_coordinates, "coords", list(SHAPES[k])) if o.kml_coordinates is not None else None))
    ops.append(("list emptied", lambda o: o.kml_coordinates.coords.clear() if o.kml_coordinates is not None else None))
    ops.append(("edited in place", lambda o: o.kml_coordinates.coords.__setitem__(0, tuple(x + 10 for x in o.kml_coordinates.coords[0])) if o.kml_coordinates else None))
    ops.append(("copied", lambda o: setattr(o, "kml_coordinates", copy.deepcopy(o.kml_coordinates))))
    return ops


LINE_MORE = [
    ("vertex appended", lambda o: o.kml_coordinates.coords.append(tuple(x + 5 for x in o.kml_coordinates.coords[-1])) if o.kml_coordinates else None),
    ("reversed", lambda o: o.kml_coordinates.coords.reverse() if o.kml_coordinates else None),
]


def ring(k):
    return kg.LinearRing(kml_coordinates=coords(k))


RING_OPS = [
    ("ring R1", lambda o: setattr(o, "kml_geometry", ring("R1"))),
    ("ring R2", lambda o: setattr(o, "kml_geometry", ring("R2"))),
    ("empty ring", lambda o: setattr(o, "kml_geometry", kg.LinearRing())),
    ("no ring", lambda o: setattr(o, "kml_geometry", None)),
    ("coords R2", lambda o: setattr(o.kml_geometry, "kml_coordinates", coords("R2")) if o.kml_geometry is not None else None),
    ("no coords", lambda o: setattr(o.kml_geometry, "kml_coordinates", None) if o.kml_geometry is not None else None),
    ("list R1", lambda o: setattr(o.kml_geometry.kml_coordinates, "coords", list(SHAPES["R1"])) if o.kml_geometry is not None and o.kml_geometry.kml_coordinates is not None else None),
    ("edited in place", lambda o: o.kml_geometry.kml_coordinates.coords.insert(1, (9.0, 9.0, 9.0) if len(o.kml_geometry.kml_coordinates.coords[0]) == 3 else (9.0, 9.0)) if o.kml_geometry else None),
]


def inner(k):
    return kg.InnerBoundaryIs(kml_geometry=ring(k))


def outer(k):
    return kg.OuterBoundaryIs(kml_geometry=ring(k))


POLY_OPS = [
    ("outer R1", lambda o: setattr(o, "outer_boundary", outer("R1"))),
    ("outer R2", lambda o: setattr(o, "outer_boundary", outer("R2"))),
    ("empty outer", lambda o: setattr(o, "outer_boundary", kg.OuterBoundaryIs())),
    ("no outer", lambda o: setattr(o, "outer_boundary", None)),
    ("outer list R1", lambda o: setattr(o.outer_boundary.kml_geometry, "kml_coordinates", coords("R1")) if o.outer_boundary is not None and o.outer_boundary.kml_geometry is not None else None),
    ("inner appended", lambda o: o.inner_boundaries.append(inner("R1"))),
    ("inner inserted", lambda o: o.inner_boundaries.insert(0, inner("R2"))),
    ("empty inner", lambda o: o.inner_boundaries.insert(0, kg.InnerBoundaryIs())),
    ("inner popped", lambda o: pop(o.inner_boundaries, 0)),
    ("new inners", lambda o: setattr(o, "inner_boundaries", [inner("R2"), inner("R1"), inner("R2")])),
    ("no inners", lambda o: setattr(o, "inner_boundaries", [])),
    ("first inner emptied", lambda o: setattr(o.inner_boundaries[0], "kml_geometry", None) if o.inner_boundaries else None),
    ("first inner changed", lambda o: setattr(o.inner_boundaries[0], "kml_geometry", ring("R1")) if o.inner_boundaries else None),
]


def pt(k="P1"):
    return kg.Point(kml_coordinates=coords(k))


def ln(k="L1"):
    return kg.LineString(kml_coordinates=coords(k))


def poly():
    return kg.Polygon(outer_boundary=outer("R1"), inner_boundaries=[inner("R1")])


MULTI_OPS = [
    ("append point", lambda o: o.kml_geometries.append(pt("P2"))),
    ("append line", lambda o: o.kml_geometries.append(ln("L2"))),
    ("append polygon", lambda o: o.kml_geometries.append(poly())),
    ("append ring", lambda o: o.kml_geometries.append(ring("R1"))),
    ("insert empty point", lambda o: o.kml_geometries.insert(0, kg.Point())),
    ("insert collection", lambda o: o.kml_geometries.insert(0, kg.MultiGeometry(kml_geometries=[pt(), ln()]))),
    ("append empty collection", lambda o: o.kml_geometries.append(kg.MultiGeometry())),
    ("pop first", lambda o: pop(o.kml_geometries, 0)),
    ("pop last", lambda o: pop(o.kml_geometries, -1)),
    ("reverse", lambda o: o.kml_geometries.reverse()),
    ("no geometries", lambda o: setattr(o, "kml_geometries", [])),
    ("new geometries", lambda o: setattr(o, "kml_geometries", [ln(), ln("L2"), ln()])),
    ("first loses its coordinates", lambda o: setattr(o.kml_geometries[0], "kml_coordinates", None) if o.kml_geometries and hasattr(o.kml_geometries[0], "kml_coordinates") else None),
    ("point into the nested collection", lambda o: o.kml_geometries[0].kml_geometries.append(pt("P1")) if o.kml_geometries and hasattr(o.kml_geometries[0], "kml_geometries") else None),
]


def track(n=2, z=True):
    return CLS["Track"](track_items=[TrackItem(when=T[3], coord=geo.Point(i, 2 * i, 3) if z else geo.Point(i, 2 * i)) for i in range(n)])


PLACE_OPS = [
    ("point", lambda o: setattr(o, "kml_geometry", pt())),
    ("empty point", lambda o: setattr(o, "kml_geometry", kg.Point())),
    ("line", lambda o: setattr(o, "kml_geometry", ln("L2"))),
    ("ring", lambda o: setattr(o, "kml_geometry", ring("R2"))),
    ("polygon", lambda o: setattr(o, "kml_geometry", poly())),
    ("collection", lambda o: setattr(o, "kml_geometry", kg.MultiGeometry(kml_geometries=[pt(), pt("P1")]))),
    ("model", lambda o: setattr(o, "kml_geometry", CLS["Model"](link=CLS["Link"](href="http://e.example/m"), location=CLS["Location"](latitude=1.0, longitude=2.0, altitude=0.0)))),
    ("track", lambda o: setattr(o, "kml_geometry", track())),
    ("multi-track", lambda o: setattr(o, "kml_geometry", CLS["MultiTrack"](tracks=[track(3), track(2, False)]))),
    ("no geometry", lambda o: setattr(o, "kml_geometry", None)),
    ("coordinates edited", lambda o: setattr(o.kml_geometry, "kml_coordinates", coords("R1")) if type(o.kml_geometry) in (kg.LineString, kg.LinearRing) else None),
    ("coordinates removed", lambda o: setattr(o.kml_geometry, "kml_coordinates", None) if hasattr(o.kml_geometry, "kml_coordinates") else None),
    ("entry removed", lambda o: pop(o.kml_geometry.track_items, 0) if hasattr(o.kml_geometry, "track_items") else None),
    ("part removed", lambda o: pop(o.kml_geometry.kml_geometries, 0) if hasattr(o.kml_geometry, "kml_geometries") else None),
]


def loc(o):
    return o.location if o.location is not None else CLS["Location"]()


MODEL_OPS = [
    ("location", lambda o: setattr(o, "location", CLS["Location"](latitude=1.0, longitude=2.0, altitude=3.0))),
    ("flat location", lambda o: setattr(o, "location", CLS["Location"](latitude=0.0, longitude=0.0))),
    ("half location", lambda o: setattr(o, "location", CLS["Location"](latitude=5.0))),
    ("no location", lambda o: setattr(o, "location", None)),
    ("latitude", lambda o: setattr(loc(o), "latitude", -7.5)),
    ("no latitude", lambda o: setattr(loc(o), "latitude", None)),
    ("longitude", lambda o: setattr(loc(o), "longitude", 0.0)),
    ("no longitude", lambda o: setattr(loc(o), "longitude", None)),
    ("altitude", lambda o: setattr(loc(o), "altitude", 0.0)),
    ("no altitude", lambda o: setattr(loc(o), "altitude", None)),
    ("link", lambda o: setattr(o, "link", CLS["Link"](href="http://e.example/m"))),
    ("no link", lambda o: setattr(o, "link", None)),
]


def item(k, when=0):
    return TrackItem(when=T[when], coord=geo.Point(*SHAPES[k][0]) if k else None)


TRACK_OPS = [
    ("append", lambda o: o.track_items.append(item("P2", 1))),
    ("append the same", lambda o: o.track_items.append(item("P2", 2))),
    ("insert", lambda o: o.track_items.insert(0, item("P2", 3))),
    ("insert without position", lambda o: o.track_items.insert(1, item(None))),
    ("pop first", lambda o: pop(o.track_items, 0)),
    ("pop last", lambda o: pop(o.track_items, -1)),
    ("reverse", lambda o: o.track_items.reverse()),
    ("no entries", lambda o: setattr(o, "track_items", [])),
    ("new entries", lambda o: setattr(o, "track_items", [TrackItem(when=T[0], coord=geo.Point(9, 8, 7)), TrackItem(when=T[1], coord=geo.Point(6, 5, 4))])),
    ("replace", lambda o: o.track_items.__setitem__(0, TrackItem(when=T[1], coord=geo.Point(-1, -2, -3))) if o.track_items else None),
]
MTRACK_OPS = [
    ("append", lambda o: o.tracks.append(track(3))),
    ("insert", lambda o: o.tracks.insert(0, track(2))),
    ("insert empty", lambda o: o.tracks.insert(0, CLS["Track"](track_items=[]))),
    ("pop first", lambda o: pop(o.tracks, 0)),
    ("no tracks", lambda o: setattr(o, "tracks", [])),
    ("new tracks", lambda o: setattr(o, "tracks", [track(4), track(2)])),
    ("entry added", lambda o: o.tracks[0].track_items.append(item("P2")) if o.tracks else None),
    ("entry removed", lambda o: pop(o.tracks[0].track_items, 0) if o.tracks else None),
    ("reverse", lambda o: o.tracks.reverse()),
]


def starts(make, copied=True):
    out = {"new": make, "read": lambda: reread(make())}
    if copied:
        out["copied"] = lambda: copy.deepcopy(touch(make()))
    return out


def touch(o):
    for a in ("geometry", "normal", "highlight", "icon_href", "time_stamp", "begin", "end"):
        getattr(o, a, None)
    return o


def fam(make, ops, query, depth, copied=True):
    return {"starts": starts(make, copied), "ops": ops, "query": query, "depth": depth, "note": lambda o: None}


FAMILIES = {
    "map": fam(map_start, MAP_OPS, map_query, 4),
    "icon": fam(lambda: CLS["IconStyle"](id="i", icon=CLS["Icon"](href="http://e.example/0.png")), ICON_OPS, icon_query, 4),
    "lookup": fam(lookup_start, LOOKUP_OPS, lookup_query, 3),
    "lookup a": fam(lookup_start, LOOKUP_OPS, only("#a"), 3, False),
    "lookup b": fam(lookup_start, LOOKUP_OPS, only("x.kml#b"), 3, False),
    "lookup c": fam(lookup_start, LOOKUP_OPS, only("#c"), 3, False),
    "point": fam(pt, simple_ops(("P1", "P2")), geometry_query, 4),
    "line": fam(ln, simple_ops(("L1", "L2")) + LINE_MORE, geometry_query, 4),
    "ring": fam(lambda: ring("R1"), simple_ops(("R1", "R2")), geometry_query, 4),
    "outer": fam(lambda: outer("R1"), RING_OPS, geometry_query, 4),
    "inner": fam(lambda: inner("R1"), RING_OPS, geometry_query, 4),
    "polygon": fam(poly, POLY_OPS, geometry_query, 3),
    "multi": fam(lambda: kg.MultiGeometry(kml_geometries=[pt(), ln()]), MULTI_OPS, geometry_query, 3),
    "placemark": fam(lambda: CLS["Placemark"](kml_geometry=poly()), PLACE_OPS, geometry_query, 3),
    "model": fam(lambda: CLS["Model"](link=CLS["Link"](href="http://e.example/m"), location=CLS["Location"](latitude=1.0, longitude=2.0)), MODEL_OPS, geometry_query, 4),
    "track": fam(track, TRACK_OPS, geometry_query, 4, False),
    "multitrack": fam(lambda: CLS["MultiTrack"](tracks=[track(), track(3)]), MTRACK_OPS, geometry_query, 4, False),
}


def timed(c="Placemark"):
    o = build(gen.mini(c))
    o.times = CLS["TimeSpan"](begin=T[0], end=T[1])
    return o


FAMILIES["times"] = fam(timed, TIME_OPS, times_query, 4)


# ---------------------------------------------------------------- truth value after assignments
def assign(case, ctx):
    c = case["assign"]
    full, mini = gen.full(c, deep=0), gen.mini(c)
    o, a = build(mini), dict(mini)
    from bind import make_value
    for attr in case["fields"]:
        f = SPEC[c].by_attr[attr]
        for v in (full.get(attr), None, mini.get(attr)):
            if f.kind in ("list", "track", "coords") and v is None:
                v = []
            setattr(o, attr, make_value(f, v))
            a[attr] = v
            ctx.op(2)
            b = {k: x for k, x in a.items() if x is not None}
            if bool(o) is not bool(complete(b)):
                return "%s with %s=%r has the truth value %r" % (c, attr, v, bool(o))
    return None


# ---------------------------------------------------------------- appending
def append(case, ctx):
    o = CLS[case["append"]](id="o")
    want = []
    last = None
    for op in case["ops"]:
        ctx.op()
        if op == "self":
            try:
                o.append(o)
            except ValueError:
                pass
            else:
                return "a %s can be appended to itself" % case["append"]
        else:
            x = CLS["Placemark"](name="p%d" % len(want)) if op == "new" else CLS["Folder"](id="o") if op == "folder" else last or CLS["Placemark"]()
            last = x
            o.append(x)
            want.append(x)
        if len(o.features) != len(want) or any(p is not q for p, q in zip(o.features, want)):
            return "after %s the features are %s" % (case["ops"], o.features)
    return None
