"""
Reference model: abstract objects, completeness, canonical form, expected XML.

An abstract object is a plain dict {"$": class name, attribute: value, ...}; a missing key
means "not set".  Values are JSON-able: str, int, float, bool, abstract objects, lists of
abstract objects; enumerations are their KML text, times their XML Schema text, coordinates
lists of lists, track entries [when, coord, angle-or-None].
"""
import datetime
import re
from decimal import ROUND_HALF_EVEN, Context, Decimal

from spec import GX_VALUES, NS, SPEC

# ---------------------------------------------------------------- time values
_DATE = re.compile(r"^(\d{4})(?:-(\d\d)(?:-(\d\d))?)?$")
_DT = re.compile(
    r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6})\d*)?(Z|[+-]\d\d:?\d\d)?$"
)


def canon_time(text):
    """XML Schema gYear/gYearMonth/date/dateTime -> (resolution, instant fields)."""
    m = _DATE.match(text)
    if m:
        y, mo, d = m.groups()
        res = "date" if d else "gYearMonth" if mo else "gYear"
        datetime.date(int(y), int(mo or 1), int(d or 1))
        return (res, int(y), int(mo or 1), int(d or 1))
    m = _DT.match(text)
    if not m:
        raise ValueError("not an XML Schema time: %r" % text)
    y, mo, d, h, mi, s, frac, off = m.groups()
    us = int((frac or "0").ljust(6, "0"))
    if off in (None, "Z"):
        minutes = 0
    else:
        off = off.replace(":", "")
        minutes = (int(off[1:3]) * 60 + int(off[3:5])) * (-1 if off[0] == "-" else 1)
    datetime.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s))
    return ("dateTime", int(y), int(mo), int(d), int(h), int(mi), int(s), us, minutes)


# ---------------------------------------------------------------- completeness
def is_set(v):
    return v is not None and v != "" and v != []


_NSEW = ("north", "south", "east", "west")
_ALL = {
    "SimpleField": ("name", "type_"),
    "Data": ("name", "value"),
    "SimpleData": ("name", "value"),
    "SchemaData": ("schema_url", "data"),
    "ExtendedData": ("elements",),
    "atom.Link": ("href",),
    "atom.Author": ("name",),
    "atom.Contributor": ("name",),
    "Link": ("href",),
    "Icon": ("href",),
    "Location": ("latitude", "longitude"),
    "ResourceMap": ("aliases",),
    "LatLonAltBox": _NSEW,
    "LatLonBox": _NSEW,
    "Lod": ("min_lod_pixels",),
    "Snippet": ("text",),
    "StyleUrl": ("url",),
    "Pair": ("key", "style"),
    "StyleMap": ("pairs",),
    "ViewVolume": ("left_fov", "right_fov", "bottom_fov", "top_fov", "near"),
    "ImagePyramid": ("max_width", "max_height"),
    "OverlayXY": ("x", "y"),
    "ScreenXY": ("x", "y"),
    "RotationXY": ("x", "y"),
    "Size": ("x", "y"),
    "TimeStamp": ("timestamp",),
    "Coordinates": ("coords",),
    "Track": ("track_items",),
    "MultiTrack": ("tracks",),
}
_ANY = {
    "Orientation": ("heading", "tilt", "roll"),
    "Scale": ("x", "y", "z"),
    "Alias": ("target_href", "source_href"),
    "LineStyle": ("width", "color", "color_mode"),
    "PolyStyle": ("fill", "outline", "color", "color_mode"),
    "LabelStyle": ("scale", "color", "color_mode"),
    "BalloonStyle": ("bg_color", "text_color", "text", "display_mode"),
    "TimeSpan": ("begin", "end"),
}
_SUB = {  # complete when these sub-objects are
    "Point": ("kml_coordinates",),
    "LineString": ("kml_coordinates",),
    "LinearRing": ("kml_coordinates",),
    "OuterBoundaryIs": ("kml_geometry",),
    "InnerBoundaryIs": ("kml_geometry",),
    "Polygon": ("outer_boundary",),
    "Model": ("link", "location"),
    "Region": ("lat_lon_alt_box",),
    "NetworkLink": ("link",),
}


def complete(a):
    """Does the object say enough to be written when it is part of another one?"""
    c = a["$"]
    if c in _ALL:
        return all(is_set(a.get(k)) for k in _ALL[c])
    if c in _ANY:
        return any(is_set(a.get(k)) for k in _ANY[c])
    if c in _SUB:
        return all(a.get(k) is not None and complete(a[k]) for k in _SUB[c])
    if c == "MultiGeometry":
        return any(complete(g) for g in a.get("kml_geometries") or ())
    if c == "Style":
        return any(complete(g) for g in a.get("styles") or ())
    if c == "IconStyle":
        return (a.get("icon") is not None and complete(a["icon"])) or any(
            a.get(k) is not None for k in ("color", "color_mode", "scale", "heading", "hot_spot")
        )
    return True


# ---------------------------------------------------------------- canonical form
def norm(a, group=False):
    """Canonical form of an abstract object (what its public attributes must show)."""
    c = SPEC[a["$"]]
    out = {"$": a["$"]}
    for f in c.fields:
        v = a.get(f.attr)
        if v is None or v == "":
            continue
        k = f.kind
        if k in ("text", "content", "@text"):
            v = v if f.attr in ("id", "target_id") and c.name != "Schema" else v.strip()
            if v:
                out[f.attr] = v
        elif k in ("float", "@float"):
            out[f.attr] = float(v)
        elif k in ("int", "@int"):
            out[f.attr] = int(v)
        elif k == "date":
            out[f.attr] = canon_time(v)
        elif k == "coords":
            if v:
                out[f.attr] = [tuple(float(x) for x in t) for t in v]
        elif k == "track":
            if v:
                out[f.attr] = [
                    (
                        None if w is None else canon_time(w),
                        None if p is None else tuple(float(x) for x in p),
                        None if g is None else tuple(float(x) for x in g),
                    )
                    for w, p, g in v
                ]
        elif k == "obj":
            out[f.attr] = norm(v, group)
        elif k == "list":
            vs = list(v)
            if (c.name, f.attr) in (("ExtendedData", "elements"), ("MultiTrack", "tracks")):
                vs = [x for x in vs if complete(x)]
            if group:
                vs = sorted(vs, key=lambda x: x["$"])
            if vs:
                out[f.attr] = [norm(x, group) for x in vs]
        else:  # bool, enum, @enum
            out[f.attr] = v
    return out


def drop_incomplete(a):
    """The object as it can survive a write: incomplete parts left out, recursively."""
    c = SPEC[a["$"]]
    out = {}
    for k, v in a.items():
        f = c.by_attr.get(k)
        if f is not None and f.kind == "obj" and v is not None:
            v = drop_incomplete(v) if complete(v) else None
        elif f is not None and f.kind == "list" and v:
            v = [drop_incomplete(x) for x in v if complete(x)]
        out[k] = v
    return out


def diff(a, b, path=""):
    """First difference of two canonical forms, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get("$") != b.get("$"):
            return "%s: %s != %s" % (path, a.get("$"), b.get("$"))
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s.%s: %r != %r" % (path, k, short(a.get(k)), short(b.get(k)))
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d entries != %d entries (%s / %s)" % (path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if type(a) in (int, float) and type(b) in (int, float):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    if type(a) is not type(b) or a != b:
        return "%s: %r != %r" % (path, short(a), short(b))
    return None


def short(v, n=160):
    r = v if isinstance(v, str) else repr(v)
    return r if len(r) <= n else r[:n] + "..."


# ---------------------------------------------------------------- expected XML
class N:
    """Expected (or observed) element: qualified name, attributes, text, children."""

    __slots__ = ("ns", "tag", "attrs", "text", "kids", "src")

    def __init__(self, ns, tag, attrs=None, text=None, kids=None, src=None):
        self.ns, self.tag, self.attrs, self.text, self.kids = ns, tag, attrs or {}, text, kids or []
        self.src = src

    def __repr__(self):
        return "<%s:%s %r %r %r>" % (self.ns, self.tag, self.attrs, self.text, self.kids)


TERSE, NORMAL, VERBOSE = "terse", "normal", "verbose"


def _effective(v, default, verbosity):
    if v is None and default is not None and verbosity == VERBOSE:
        return default
    if v is not None and default is not None and v == default and verbosity == TERSE:
        return None
    return v


def expected(a, verbosity=NORMAL, ns=None, precision=None, keep=False):
    """The XML element an object must be written as.  Leaf values are (kind, value).

    keep: also render incomplete parts (documents for the reader, not output of the writer)."""
    c = SPEC[a["$"]]
    ns = dict(NS, **(ns or {}))
    own = ns[c.ns]
    node = N(own, c.tag, src=a)
    for f in c.fields:
        v = a.get(f.attr)
        k = f.kind
        if k in ("obj", "list"):
            for x in ([v] if k == "obj" and v is not None else v or []):
                if keep or complete(x):
                    node.kids.append(expected(x, verbosity, ns, precision, keep))
            continue
        if k == "coords":
            if v:
                node.text = ("coords", v, precision)
            continue
        if k == "track":
            items = v or []
            for w, _, _ in items:
                if w is not None:
                    node.kids.append(N(ns["kml"], "when", text=("date", w)))
            for _, p, _ in items:
                if p is not None:
                    node.kids.append(N(own, "coord", text=("tuple", p, precision)))
            if any(g is not None for _, _, g in items):
                for _, _, g in items:
                    node.kids.append(N(own, "angles", text=("tuple", g or (0.0, 0.0, 0.0), precision)))
            continue
        if k in ("text", "content", "@text") and v is not None:
            v = (v if f.attr in ("id", "target_id") and c.name != "Schema" else v.strip()) or None
        v = _effective(v, f.default, verbosity)
        if v is None:
            continue
        if k[0] == "@":
            node.attrs[f.xml] = (k[1:], v)
        elif k == "content":
            node.text = ("text", v)
        else:
            n = own
            if k == "date" or (k == "enum" and f.arg == "AltitudeMode"):
                n = ns["gx" if v in GX_VALUES else "kml"]
            node.kids.append(N(n, f.xml, text=(k, v)))
    return node


def lex(t):
    """Canonical text of a typed leaf, for documents made by the model."""
    k, v = t[0], t[1]
    if k == "bool":
        return "1" if v else "0"
    if k == "float":
        return repr(float(v))
    if k == "int":
        return str(v)
    if k == "coords":
        return " ".join(",".join(repr(float(x)) for x in p) for p in v)
    if k == "tuple":
        return " ".join(repr(float(x)) for x in v)
    return v


def leaf_matches(actual, t):
    k, v = t[0], t[1]
    if actual is None:
        return False
    try:
        if k in ("text", "enum"):
            return actual == v
        if k == "bool":
            return actual in ("1", "true", "0", "false") and (actual in ("1", "true")) == bool(v)
        if k == "float":
            return float(actual) == float(v) and "_" not in actual
        if k == "int":
            return re.match(r"^-?\d+$", actual) is not None and int(actual) == int(v)
        if k == "date":
            return canon_time(actual) == canon_time(v)
        if k in ("coords", "tuple"):
            pts = [p.split(",") for p in actual.split()] if k == "coords" else [actual.split()]
            want = v if k == "coords" else [v]
            return len(pts) == len(want) and all(
                len(p) == len(w) and all(num_matches(x, y, t[2]) for x, y in zip(p, w))
                for p, w in zip(pts, want)
            )
    except ValueError:
        return False
    raise AssertionError(k)


def num_matches(text, value, precision):
    if precision is None:
        return float(text) == float(value)
    if not re.match(r"^-?[0-9]+(\.[0-9]+)?$", text):
        return False
    q = Decimal(1).scaleb(-precision)
    want = Decimal(float(value)).quantize(q, rounding=ROUND_HALF_EVEN, context=Context(prec=400))
    body = text.lstrip("-")
    digits = len(body.split(".")[1]) if "." in body else 0
    return Decimal(text) == want and digits == precision


def match(actual, exp, path=""):
    """Compare an observed element (see bind.infoset) with the expected one."""
    path = path + "/" + exp.tag
    if (actual.ns, actual.tag) != (exp.ns, exp.tag):
        return "%s: element is {%s}%s, expected {%s}%s" % (path, actual.ns, actual.tag, exp.ns, exp.tag)
    for k, v in exp.attrs.items():
        if not leaf_matches(actual.attrs.get(k), v):
            return "%s: attribute %s is %r, expected %r" % (path, k, short(actual.attrs.get(k)), short(v[1]))
    for k in actual.attrs:
        if k not in exp.attrs:
            return "%s: unexpected attribute %s=%r" % (path, k, short(actual.attrs[k]))
    if exp.text is None:
        if actual.text not in (None, ""):
            return "%s: unexpected text %r" % (path, short(actual.text))
    elif not leaf_matches(actual.text, exp.text):
        return "%s: text is %r, expected %r" % (path, short(actual.text), short(exp.text[1]))
    if [(k.ns, k.tag) for k in actual.kids] != [(k.ns, k.tag) for k in exp.kids]:
        return "%s: children are %s, expected %s" % (
            path,
            short([k.tag for k in actual.kids], 300),
            short([k.tag for k in exp.kids], 300),
        )
    for i, (x, y) in enumerate(zip(actual.kids, exp.kids)):
        d = match(x, y, path if len(exp.kids) < 2 else path)
        if d:
            return d
    return None


# ---------------------------------------------------------------- rendering
def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s


class Style:
    """How a document is spelled: prefixes, white space, order, noise."""

    def __init__(self, prefixes=None, indent=False, order=None, noise=None, textwrap=None, lexer=None, attrs=None):
        self.lexer = lexer or lex
        self.extra_attrs = attrs or ""
        self.prefixes = prefixes or {NS["kml"]: "", NS["gx"]: "gx", NS["atom"]: "atom"}
        self.indent, self.order, self.noise = indent, order, noise
        self.textwrap = textwrap or (lambda s, node: esc(s))


def render(node, style=None, root=True):
    style = style or Style()
    p = style.prefixes[node.ns] if node.ns else None
    name = (p + ":" if p else "") + node.tag
    at = ""
    if root:
        for uri, pre in style.prefixes.items():
            at += ' xmlns%s="%s"' % (":" + pre if pre else "", uri)
    for k, v in node.attrs.items():
        at += ' %s="%s"' % (k, esc(v if isinstance(v, str) else style.lexer(v), True))
    at += style.extra_attrs
    kids = list(node.kids)
    if style.order:
        kids = style.order(kids)
    parts = [render(k, style, False) for k in kids]
    if style.noise:
        parts = style.noise(node, parts, style)
    body = ""
    if node.text is not None:
        t = node.text if isinstance(node.text, str) else style.lexer(node.text)
        body += style.textwrap(t, node)
    sep = "\n  " if style.indent and parts else ""
    body += "".join(sep + x for x in parts) + ("\n" if sep else "")
    return "<%s%s>%s</%s>" % (name, at, body, name) if body else "<%s%s/>" % (name, at)


# ---------------------------------------------------------------- defaults
def fill(a):
    """Canonical form with every missing value that has a default replaced by it."""
    c = SPEC[a["$"]]
    out = dict(a)
    for f in c.fields:
        v = a.get(f.attr)
        if f.kind == "obj" and v is not None:
            out[f.attr] = fill(v)
        elif f.kind == "list" and v:
            out[f.attr] = [fill(x) for x in v]
        elif f.kind == "track" and v:
            out[f.attr] = [(w, p, g or (0.0, 0.0, 0.0)) for w, p, g in v]
        elif v is None and f.default is not None:
            out[f.attr] = float(f.default) if f.kind in ("float", "@float") else f.default
    return out
