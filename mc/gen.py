"""Finite alphabets and exhaustive enumerations of abstract objects."""
import itertools

from model import _ALL, _ANY, _SUB, complete, is_set
from spec import ENUMS, GX_VALUES, SPEC

# ---------------------------------------------------------------- scalar alphabets
TEXTS = [
    "plain",
    "two words",
    "Z\u00fcrich \u6771\u4eac \U0001f5fa e\u0301",
    "<b>&amp; \"q\" 'x' & more</b>",
    "0",
    "1",
    "None",
    "false",
    "line 1\nline 2\n\n  line 4",
    "a]]>b<![CDATA[c",
    "{curly} %s \\n ${x} $[name]",
    "http://e.example/p/a?x=1&y=[z]#frag",
    "  padded\t",
    "x" * 5000,
    "-",
    ".",
    "<!-- no comment -->",
    "BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]",
    "ffffffff",
    "FF00aaBB",
    "FFFFFFFF",
    "\u200bzero width\ufeff",
    "double  blanks   inside",
    "true",
    "NaN",
    "-inf",
    "1e5",
    "007",
    "+1.50",
    "1.0",
    "-0",
    "tab\tinside",
    "nbsp\u00a0\u2003inside",
    "/a//b\\c/",
    ",;,",
    "$HOME ${HOME} ~/x %PATH% %20",
    "'single'",
    "\"double\"",
    "a\u2028b\u0085c\u2029d",
    "HTTP://E.Example/A%20b/%C3%A9/",
    "\ufb01 \u00c5 \u212b \uff21 \u0130",
]
ATTR_TEXTS = [t for t in TEXTS if t == t.strip() and "\n" not in t]
IDS = ["a", "id-1", "_x.y", "\u00e9t\u00e9", "0", "a b", "with:colon", "X" * 300, "a&b<c>\"d'", " a  b ", "A", "None"]
URLS = ["#a", "http://e.example/s.kml#b", "rel/path.kmz", "s.kml#x?y=1&z=2", "#0", "C:\\icons\\a b.png", "root://icons/palette-3.png?x=32&y=0", "http://E.Example:80/a/../b/./c//d;p?#", "a%20b%2fc", "mailto:x@e.example"]
INTS = [0, 1, -1, 2, 7, 255, 256, 2**31 - 1, -(2**31), 10**12, 2**53 + 1, -(2**63) - 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, 0.1, 1 / 3, 1e-5, 1e-7, -2.5e-9, 123456.789012345, 1e15, 1e16, 1e22,
          1.7976931348623157e308, 5e-324, 3, 0, -7, 90.0, -90.0, 180.0, -180.0, 359.999999999, 4.0, -122.08220354,
          0.30000000000000004, 9007199254740993.0]
DATES = [
    "1997", "0001", "0999", "9999", "2000", "1900",
    "1997-07", "2000-01", "1999-12", "0050-02",
    "1997-07-16", "2000-01-01", "2000-02-29", "1999-12-31", "0001-01-01", "9999-12-31", "1970-01-01",
    "1997-07-16T07:30:15Z", "1997-07-16T10:30:15+03:00", "1997-07-16T10:30:15-09:30", "1997-07-16T10:30:15+05:45",
    "2000-01-01T00:00:00Z", "1999-12-31T23:59:59Z", "2016-02-29T12:00:00+14:00", "2016-02-29T12:00:00-12:00",
    "2010-05-28T02:02:09.500000Z", "2010-05-28T02:02:09.000001Z", "2010-05-28T02:02:09.999999+01:00",
    "2010-05-28T02:02:09.120000-00:30", "1970-01-01T00:00:00Z", "0001-01-02T00:00:00Z", "9999-12-30T23:59:59.999999Z",
    "2010-05-28T00:00:00+00:00", "2010-05-28T24:00:00Z"[:0] or "2010-05-28T23:00:00Z",
]
POINTS = [
    [0.0, 0.0], [1.0, 2.0], [1.0, 2.0, 3.0], [-122.0822035425683, 37.42228990140251, 0.0], [180.0, -90.0, -1.5],
    [1e-7, -2.5e-9], [0.1, 1 / 3, 1e16], [-0.0, 0.0], [123456.789012345, 5e-324, 1e22], [0.0, 0.0, 0.0], [3, 4], [7, 8, 9],
    [1e-5, 0.0001],
]
LINES = [
    [[0.0, 0.0], [1.0, 1.0]],
    [[0.0, 0.0], [0.0, 0.0]],
    [[1.5, 2.5], [3.5, 4.5], [1.5, 2.5]],
    [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [1.0, 2.0, 3.0], [4.0, 5.0, 6.0]],
    [[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]],
    [[-122.0822035425683, 37.42228990140251], [1e-7, -2.5e-9], [1e16, 0.1]],
    [[float(i), float(-i)] for i in range(33)],
    [[i / 8, -i / 4, i * 1.5] for i in range(300)],
]
RINGS = [
    [[0.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.0]],
    [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0], [0.0, 0.0]],
    [[0.0, 0.0, 1.0], [1.0, 0.0, 2.0], [1.0, 1.0, 3.0], [0.0, 0.0, 1.0]],
    [[-122.1, 37.4, 17.0], [-122.2, 37.4, 17.0], [-122.2, 37.3, 18.0], [-122.1, 37.3, 19.0], [-122.1, 37.4, 17.0]],
    [[0.1, 0.2], [0.3, 0.7], [0.9, 0.4], [0.1, 0.2]],
    [[0.0, 0.0]] + [[float(i), float(i * i)] for i in range(1, 60)] + [[0.0, 0.0]],
    [[0.0, 0.0], [1.0, 1.0], [0.0, 0.0], [2.0, 2.0], [0.0, 0.0]],
]
MIXED = [  # tuples with and without altitude side by side
    [[0.0, 1.0], [2.0, 3.0, 4.0], [5.0, 6.0]],
    [[0.0, 1.0, 2.0], [3.0, 4.0], [5.0, 6.0, 7.0]],
    [[1.0, 2.0, 0.0], [1.0, 2.0], [1.0, 2.0, 0.0]],
]
ANGLES = [None, [0.0, 0.0, 0.0], [45.5, 66.25, 77.0], [-1.5, 1e-7, 359.9]]
WHENS = ["2010-05-28T02:02:09Z", "2010-05-28T02:02:35.5Z"[:19] + "Z", "1997", "2001-02", "2001-02-03", "2010-05-28T02:02:09.250000+02:00"]


class Seq:
    """Deterministic supply of values that are all different."""

    def __init__(self, start=0):
        self.n = start

    def next(self):
        self.n += 1
        return self.n


HREF = {"href", "uri", "url", "schema_url", "target_href", "source_href"}
COLOR = {"color", "bg_color", "text_color"}


def typical(cname, f, q):
    """A set, non-default value of a scalar field, different on every call."""
    u, k = q.next(), f.kind
    if k in ("text", "content", "@text"):
        if f.attr in COLOR:
            return "%08x" % (0x11000000 + u)
        if f.attr in ("id", "target_id"):
            return "id%d" % u
        if f.attr in HREF:
            return "#s%d" % u if cname in ("StyleUrl", "SchemaData") else "http://e.example/%d" % u
        if f.attr == "email":
            return "m%d@e.example" % u
        if f.attr == "hreflang":
            return "de"
        return "%s %d" % (f.attr, u)
    if k in ("int", "@int"):
        return 3 + u
    if k in ("float", "@float"):
        return 0.5 + 0.125 * (u % 640)
    if k == "bool":
        return (not f.default) if f.default is not None else bool(u % 2)
    if k in ("enum", "@enum"):
        ms = [m for m in ENUMS[f.arg] if m != f.default and m not in GX_VALUES]
        return ms[u % len(ms)]
    if k == "date":
        return "%04d-%02d-%02dT01:02:03Z" % (1900 + u % 199, 1 + u % 12, 1 + u % 28)
    if k == "coords":
        x = float(u % 60)
        return [[x, x + 1.0], [x + 2.0, x + 1.0], [x + 2.0, x + 3.0], [x, x + 1.0]]
    if k == "track":
        x = float(u % 60)
        return [["20%02d-01-01T00:00:%02dZ" % (u % 100, i), [x + i, x, 1.0 + i], [float(u % 80 + i), 1.0, 2.0]] for i in range(2)]
    raise AssertionError(k)


def coords_for(cname, q, n=None):
    x = float(q.next() % 60)
    if cname == "Point":
        return {"$": "Coordinates", "coords": [[x, x + 0.5, 1.0]]}
    if cname == "LineString":
        return {"$": "Coordinates", "coords": [[x, x + 0.5], [x + 1.0, x - 0.5]]}
    return {"$": "Coordinates", "coords": [[x, x + 0.5], [x + 1.0, x + 0.5], [x + 1.0, x + 2.0], [x, x + 0.5]]}


def child(cname, f, cls, q, deep):
    if cls == "Coordinates":
        return coords_for(cname, q)
    return full(cls, q, deep - 1) if deep > 0 else mini(cls, q)


def mini(cname, q=None):
    """A smallest complete object of the type."""
    q = q or Seq()
    c = SPEC[cname]
    a = {"$": cname}
    need = _ALL.get(cname) or _ANY.get(cname, ())[:1] or _SUB.get(cname, ())
    if cname == "MultiGeometry":
        need = ("kml_geometries",)
    elif cname == "Style":
        need = ("styles",)
    elif cname == "IconStyle":
        need = ("icon",)
    elif cname == "Schema":
        need = ("id",)
    for attr in need:
        f = c.by_attr[attr]
        if f.kind == "obj":
            a[attr] = child(cname, f, f.arg[0], q, 0)
        elif f.kind == "list":
            a[attr] = [child(cname, f, f.arg[0], q, 0)]
        else:
            a[attr] = typical(cname, f, q)
    return a


def full(cname, q=None, deep=1, lists=2):
    """Every field set, all values different; nested parts full down to `deep` levels."""
    q = q or Seq()
    c = SPEC[cname]
    a = {"$": cname}
    for f in c.fields:
        if f.kind == "obj":
            a[f.attr] = child(cname, f, f.arg[q.next() % len(f.arg)] if deep <= 0 else f.arg[0], q, deep)
        elif f.kind == "list":
            if cname == "StyleMap":
                a[f.attr] = [
                    dict(mini("Pair", q), key="normal"),
                    {"$": "Pair", "key": "highlight", "style": mini("Style", q)},
                ]
                continue
            out = []
            for cls in f.arg:
                if cls in ("Document", "Folder", "MultiGeometry") and deep <= 0:
                    continue
                d = 0 if cls in ("Document", "Folder") else deep
                out.append(child(cname, f, cls, q, d))
                if lists > 1:
                    out.append(child(cname, f, cls, q, 0))
            a[f.attr] = out
        else:
            a[f.attr] = typical(cname, f, q)
    return a


# ---------------------------------------------------------------- field alphabets
def wide(cname, f, q=None):
    """All values of the field's alphabet (None = not set is not included)."""
    q = q or Seq(500)
    k = f.kind
    out = []
    if k in ("text", "content"):
        out = list(TEXTS)
        if f.attr in HREF:
            out += URLS
    elif k == "@text":
        out = list(IDS) if f.attr in ("id", "target_id") else list(ATTR_TEXTS) + (URLS if f.attr in HREF else [])
    elif k in ("int", "@int"):
        out = list(INTS)
    elif k in ("float", "@float"):
        out = list(FLOATS)
    elif k == "bool":
        out = [False, True]
    elif k in ("enum", "@enum"):
        out = list(ENUMS[f.arg])
    elif k == "date":
        out = list(DATES)
    elif k == "coords":
        out = [list(x) for x in LINES + RINGS + MIXED] + [[p] for p in POINTS]
    elif k == "track":
        out = tracks()
    elif k == "obj":
        if "Coordinates" in f.arg:
            pool = [[p] for p in POINTS] if cname == "Point" else LINES if cname == "LineString" else RINGS
            out = [{"$": "Coordinates", "coords": p} for p in pool]
        else:
            for cls in f.arg:
                out += [mini(cls, q), full(cls, q, 0)]
    elif k == "list":
        out = lists(cname, f, q)
    if f.default is not None and f.default not in out:
        out.append(f.default)
    return out


def tracks():
    out = []
    for n in (1, 2, 3):
        for angs in itertools.product(ANGLES[:1] + ANGLES[2:3], repeat=n):
            out.append([[WHENS[i], POINTS[(2, 3, 1)[i]], angs[i]] for i in range(n)])
    for w in WHENS:
        for p in POINTS:
            out.append([[w, p, None]])
    for g in ANGLES[1:]:
        out.append([[WHENS[0], POINTS[2], g], [WHENS[0], POINTS[2], g]])
    out.append([["2010-01-01T00:%02d:%02dZ" % (i // 60, i % 60), [float(i), float(-i), i / 8], [float(i), 1.0, 2.0] if i % 3 else None] for i in range(130)])
    return out


def lists(cname, f, q):
    """Small lists of every class: 1, 2 (both orders), all classes, duplicates, long."""
    out = []
    for cls in f.arg:
        x, y = child(cname, f, cls, q, 0), child(cname, f, cls, q, 1 if cls not in ("Document", "Folder") else 0)
        if cls == "Schema":
            x, y = dict(x, id="s1"), dict(y, id="s2")
        out += [[x], [y], [x, y], [y, x], [x, x], [x, y, x]]
    if len(f.arg) > 1:
        for c1, c2 in itertools.combinations(f.arg, 2):
            out.append([child(cname, f, c1, q, 0), child(cname, f, c2, q, 0)])
        out.append([child(cname, f, c, q, 0) for c in f.arg])
        out.append([child(cname, f, c, q, 0) for c in f.arg for _ in range(3)])
    n = 40
    out.append([child(cname, f, f.arg[0], q, 0) for _ in range(n)])
    return out


def small(cname, f, q=None):
    """Two or three telling values of a field (falsy ones first)."""
    q = q or Seq(700)
    k = f.kind
    if k in ("text", "content", "@text"):
        return ["0", "v & w"] if f.attr not in ("id", "target_id") else ["x1"]
    if k in ("int", "@int"):
        return [0, 5]
    if k in ("float", "@float"):
        return [0.0, -2.5]
    if k == "bool":
        return [False, True]
    if k in ("enum", "@enum"):
        ms = ENUMS[f.arg]
        return [ms[0], ms[-1]]
    if k == "date":
        return ["1997", "1997-07-16T07:30:15Z"]
    if k == "coords":
        return [RINGS[0]]
    if k == "track":
        return [tracks()[1]]
    if k == "obj":
        if "Coordinates" in f.arg:
            pool = [[p] for p in POINTS] if cname == "Point" else LINES if cname == "LineString" else RINGS
            return [{"$": "Coordinates", "coords": p} for p in (pool[0], pool[2])]
        return [mini(cls, q) for cls in f.arg]
    if k == "list":
        return [[child(cname, f, cls, q, 0)] for cls in f.arg[:2]] + [[child(cname, f, f.arg[-1], q, 0), child(cname, f, f.arg[-1], q, 0)]]
    raise AssertionError(k)


# ---------------------------------------------------------------- object spaces
def put(a, attr, v):
    b = dict(a)
    if v is None:
        b.pop(attr, None)
    else:
        b[attr] = v
    return b


def baselines(cname):
    return [{"$": cname}, mini(cname), full(cname, deep=0), full(cname, deep=1)]


def deviate1(cname, bases=None):
    """Every single-field deviation from every baseline (wide alphabets)."""
    c = SPEC[cname]
    for base in bases or (mini(cname), full(cname, deep=0)):
        for f in c.fields:
            yield put(base, f.attr, None)
            for v in wide(cname, f):
                yield put(base, f.attr, v)


def deviate2(cname, bases=None):
    """Every pair of fields, small alphabets (with removal), from the baselines."""
    c = SPEC[cname]
    for base in bases or (mini(cname),):
        for f, g in itertools.combinations(c.fields, 2):
            for v in [None] + small(cname, f):
                for w in [None] + small(cname, g):
                    yield put(put(base, f.attr, v), g.attr, w)


def subsets(cname, limit=12):
    """Every subset of set fields (for types with few fields), typical values."""
    c = SPEC[cname]
    if len(c.fields) > limit:
        return
    whole = full(cname, deep=0)
    for r in range(len(c.fields) + 1):
        for fs in itertools.combinations(c.fields, r):
            a = {"$": cname}
            for f in fs:
                a[f.attr] = whole[f.attr]
            yield a


def edges():
    """All (parent type, attribute, child type) containments."""
    for c in SPEC.values():
        for f in c.fields:
            if f.kind in ("obj", "list"):
                for cls in f.arg:
                    yield c.name, f.attr, cls


def _parents():
    up = {}
    for p, attr, ch in edges():
        up.setdefault(ch, []).append((p, attr))
    return up


UP = _parents()


def hollow(f):
    """Parts for the field that say too little to be written."""
    for c in f.arg:
        m = mini(c)
        for x in ({"$": c}, *({k: v for k, v in m.items() if k != g} for g in m if g != "$")):
            if not complete(x):
                yield x


def embed(a, parent, attr, q=None):
    """A complete parent that holds `a` under `attr`."""
    f = SPEC[parent].by_attr[attr]
    p = mini(parent, q or Seq(300))
    p[attr] = a if f.kind == "obj" else [a]
    return p


def _chain():
    """Shortest containment chain from every type to the KML root."""
    nxt, todo = {"KML": None}, ["KML"]
    while todo:
        p = todo.pop(0)
        for parent, attr, ch in edges():
            if parent == p and ch not in nxt:
                nxt[ch] = (parent, attr)
                todo.append(ch)
    return nxt


CHAIN = _chain()


def to_root(a):
    while a["$"] != "KML":
        if CHAIN.get(a["$"]) is None:
            return None
        a = embed(a, *CHAIN[a["$"]])
    return a


def all_complete(a):
    """The object and every part of it is complete."""
    if not complete(a):
        return False
    return parts_complete(a)


def parts_complete(a):
    c = SPEC[a["$"]]
    for k, v in a.items():
        f = c.by_attr.get(k)
        if f is None or v is None:
            continue
        if f.kind == "obj" and not all_complete(v):
            return False
        if f.kind == "list" and not all(all_complete(x) for x in v):
            return False
    return True


def walk(a, path=()):
    """All abstract objects in a, with their paths."""
    yield path, a
    c = SPEC[a["$"]]
    for f in c.fields:
        v = a.get(f.attr)
        if f.kind == "obj" and v is not None:
            yield from walk(v, path + (f.attr,))
        elif f.kind == "list" and v:
            for i, x in enumerate(v):
                yield from walk(x, path + (f.attr, i))


def at(a, path):
    for p in path:
        a = a[p]
    return a


def replaced(a, path, value):
    """Copy of a with the part at `path` replaced (None: removed); shares the rest."""
    p = path[0]
    out = list(a) if isinstance(a, list) else dict(a)
    if len(path) > 1:
        out[p] = replaced(a[p], path[1:], value)
    elif value is None:
        if isinstance(out, list):
            del out[p]
        else:
            out.pop(p, None)
    else:
        out[p] = value
    return out


# ---------------------------------------------------------------- large values
def large_specs(tier="quick"):
    """Compact descriptions of objects with one very long value; see large()."""
    for c in SPEC.values():
        for f in c.fields:
            if f.kind in ("text", "content", "@text"):
                for n in (9001, 70001) if f.attr not in ("description", "value", "text") else (9001, 70001, 300007):
                    yield ["text", c.name, f.attr, n]
            elif f.kind == "list" and c.name != "StyleMap":
                for cls in f.arg:
                    yield ["list", c.name, f.attr, 1100, cls]
            elif f.kind == "coords":
                for n in (257, 1025, 5003, 20011):
                    yield ["coords", c.name, f.attr, n]
            elif f.kind == "track":
                for n in (257, 1100, 4201):
                    yield ["track", c.name, f.attr, n]
    for c in ("LineString", "LinearRing"):
        for n in (1025, 10011):
            yield ["line", c, "kml_coordinates", n]
    yield ["list", "Folder", "features", 4200, "Placemark"]
    yield ["list", "SchemaData", "data", 6000, "SimpleData"]


# beyond the limits that lxml has unless told otherwise
HUGE = [["text", "Placemark", "description", 10_400_000], ["text", "SimpleData", "value", 10_400_000]]


def large(spec):
    kind, cname, attr, n = spec[:4]
    a, f, q = mini(cname), SPEC[cname].by_attr[attr], Seq(900)
    if kind == "text":
        unit = "%s-%s-" % (cname, attr)
        v = ("".join(unit + str(i) for i in range(n // len(unit))) + "x" * n)[: n - 4] + " end"
        return put(a, attr, v.replace("-", "", 1) if attr in ("id", "target_id") else v)
    if kind == "list":
        out = [child(cname, f, spec[4], q, 0) for _ in range(n)]
        if "id" in SPEC[spec[4]].by_attr:
            out = [dict(x, id="e%d" % i) for i, x in enumerate(out)]
        return put(a, attr, out)
    pts = [[i / 8 - 90.0, (i * 7 % 1000) / 16, float(i)] for i in range(n)]
    if kind == "coords":
        return put(a, attr, pts)
    if kind == "line":
        return put(a, attr, {"$": "Coordinates", "coords": pts[:-1] + [pts[0]]})
    return put(a, attr, [["2010-%02d-01T%02d:%02d:%02dZ" % (1 + i % 12, i // 3600 % 24, i // 60 % 60, i % 60), p, [p[1], 1.0, 2.0]] for i, p in enumerate(pts)])


_ = is_set
