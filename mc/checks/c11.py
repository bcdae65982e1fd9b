"""C11: equality reflects content; printed representations rebuild equal objects."""
import datetime
import importlib
import pkgutil

import dateutil.tz
import pygeoif
import pygeoif.geometry as geo

import fastkml
from bind import CLS, enums, make_time, make_value
from checks.common import *  # noqa: F403
from explore import dumps
from fastkml.gx import Angle, TrackItem
from model import complete

BOUNDS = {
    "quick": "per type: all ordered pairs of its variants (every single-field deviation with wide alphabets from a minimal and a full "
             "object, every pair deviation from the minimal one; rows limited to the deviations of the full object); all pairs of "
             "types and foreign operands; every single leaf change anywhere in deep documents (all positions, all fields); "
             "representation of every object of the C01 space, of every type in every parent and below the root",
    "thorough": "as quick with all variant pairs (triples included) and deeper documents",
}
ASSUMPTIONS = ["numbers are finite", "shapes compare as the geometry library does: repeated neighbours merged, relative tolerance 1e-9"]

for _m in pkgutil.iter_modules(fastkml.__path__, "fastkml."):
    importlib.import_module(_m.name)

LOCALS = {"fastkml": fastkml, "datetime": datetime, "pygeoif": pygeoif, "TrackItem": TrackItem, "Angle": Angle, "tzutc": dateutil.tz.tzutc,
          "tzoffset": dateutil.tz.tzoffset, "tzlocal": dateutil.tz.tzlocal}
for _n in dir(geo):
    if isinstance(getattr(geo, _n), type):
        LOCALS[_n] = getattr(geo, _n)
for _n in dir(enums):
    if _n[0].isupper():
        LOCALS[_n] = getattr(enums, _n)


def groups(tier):
    return [k + "/" + c for c in NAMES for k in ("pairs", "repr")] + ["types", "leaves", "nested", "odd", "revert", "extra", "space"]


def shards(g, tier):
    if g == "leaves":
        return 8
    big = g.split("/")[-1] in ("Folder", "Document", "PhotoOverlay", "ScreenOverlay", "GroundOverlay", "NetworkLink", "Placemark")
    return 8 if tier == "thorough" else 4 if big else 1


def variants(cname, tier):
    """Distinct abstract objects of the type."""
    seen, out = set(), []
    src = list(gen.baselines(cname)) + list(gen.deviate1(cname)) + list(gen.deviate2(cname))
    if tier == "thorough":
        from checks.common import deviate3
        src += list(deviate3(cname)) if len(SPEC[cname].fields) < 10 else []
    for a in src:
        if cname == "Schema" and not (a.get("id") or "").strip():
            continue
        k = dumps(a)
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out


_CACHE = {}


def get_variants(cname, tier):
    if (cname, tier) not in _CACHE:
        vs = variants(cname, tier)
        use("lxml")
        _CACHE.clear()
        _CACHE[(cname, tier)] = (vs, [build(a) for a in vs], [canon(a) for a in vs])
    return _CACHE[(cname, tier)]


def line(coords):
    out = []
    for p in coords:
        if not out or out[-1] != p:
            out.append(p)
    return out


SHAPES = ("Point", "LineString", "LinearRing", "Polygon")


def canon(a):
    """Canonical content; shapes of geometries instead of the objects that make them up."""
    return shaped(norm(a))


def shaped(n):
    c = SPEC[n["$"]]
    out = {}
    for k, v in n.items():
        f = c.by_attr.get(k)
        if f is not None and f.kind == "obj":
            v = shaped(v)
        elif f is not None and f.kind == "list":
            v = [shaped(x) for x in v]
        elif f is not None and f.kind == "date":
            v = instant(v)
        elif f is not None and f.kind == "track":
            v = [(instant(w), p, g) for w, p, g in v]
        out[k] = v
    if n["$"] in ("Point", "LineString", "LinearRing"):
        co = n.get("kml_coordinates")
        out.pop("kml_coordinates", None)
        out["shape"] = line(co["coords"]) if co and co.get("coords") else None
    elif n["$"] == "Polygon":
        o = n.get("outer_boundary")
        ring = ring_of(o) if o else None
        holes = [ring_of(x) for x in n.get("inner_boundaries", [])]
        out.pop("outer_boundary", None)
        out.pop("inner_boundaries", None)
        out["shape"] = [ring] + [h for h in holes if h] if ring else None
    return out


def instant(t):
    """Times compare by resolution and instant, not by the UTC offset they are written with."""
    if t is None or t[0] != "dateTime" or t[8] is None:
        return t
    return (t[0], datetime.datetime(*t[1:8]) - datetime.datetime(1, 1, 1) - datetime.timedelta(minutes=t[8]))


def ring_of(b):
    r = b.get("kml_geometry") or {}
    co = (r.get("kml_coordinates") or {}).get("coords")
    return line(co) if co else None


def cases(group, tier):
    kind, _, c = group.partition("/")
    if kind == "pairs":
        n = len(variants(c, tier))
        for i in range(n):
            yield {"pairs": c, "row": i, "tier": tier}
    elif kind == "repr":
        for a in object_space(c, tier):
            yield {"repr": a}
    elif kind == "types":
        for c1 in NAMES:
            yield {"type": c1}
    elif kind == "nested":
        for c1 in NAMES:
            for a in (gen.mini(c1), gen.full(c1, deep=1)):
                for p, attr in gen.UP.get(c1, ()):
                    w = gen.embed(a, p, attr)
                    yield {"repr": w}
                    r = gen.to_root(w)
                    if r is not None:
                        yield {"repr": r}
    elif kind == "odd":
        for c1 in ("Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Placemark", "OuterBoundaryIs"):
            for i in range(len(ODD)):
                yield {"odd": i, "cls": c1}
    elif kind == "space":
        for c1 in NAMES:
            yield {"space": c1}
    elif kind == "extra":
        for c1 in NAMES:
            yield {"extra": c1}
    elif kind == "revert":
        for c1 in NAMES:
            yield {"revert": c1}
    else:
        for i, (c1, deep) in enumerate(LEAFDOCS[: 8 if tier == "quick" else None]):
            n = sum(1 for _ in gen.walk(gen.full(c1, deep=deep)))
            for j in range(n):
                yield {"leaf": [c1, deep], "at": j}


LEAFDOCS = [("KML", 2), ("Placemark", 3), ("PhotoOverlay", 2), ("GroundOverlay", 2), ("ScreenOverlay", 2), ("NetworkLink", 2),
            ("MultiGeometry", 2), ("MultiTrack", 2), ("KML", 3), ("Document", 3), ("Folder", 3)]


def check(case, ctx):
    use("lxml")
    if "pairs" in case:
        return pairs(case, ctx)
    if "repr" in case:
        return representation(case["repr"], ctx)
    if "type" in case:
        return types(case["type"], ctx)
    if "odd" in case:
        return odd(case, ctx)
    if "revert" in case:
        return revert(case["revert"], ctx)
    if "space" in case:
        return space(case["space"], ctx)
    if "extra" in case:
        return extra(case["extra"], ctx)
    return leaf(case, ctx)


def compare(x, y, want, what):
    e, n = x == y, x != y
    if e is not want or n is want:
        return "%s: == is %r and != is %r, expected equal: %s" % (what() if callable(what) else what, e, n, want)
    return None


def pairs(case, ctx):
    vs, os, cs = get_variants(case["pairs"], case["tier"])
    i = case["row"]
    fresh = build(vs[i])
    for j in range(len(vs)):
        want = cs[i] == cs[j]
        ctx.op(2)
        d = compare(fresh, os[j], want, lambda: "%s and %s" % (dumps(vs[i])[:300], dumps(vs[j])[:300])) or compare(
            os[j], fresh, want, lambda: "%s and %s" % (dumps(vs[j])[:300], dumps(vs[i])[:300]))
        if d:
            return d
    return None


class Foreign:
    __geo_interface__ = {"type": "Point", "coordinates": (1.0, 2.0)}


def types(c, ctx):
    objs = [build(gen.mini(x)) for x in NAMES] + [build(gen.full(x, deep=0)) for x in NAMES] + [build({"$": x, "id": "i"} if x == "Schema" else {"$": x}) for x in NAMES]
    names = NAMES * 3
    bare = {"$": c, "id": "i"} if c == "Schema" else {"$": c}
    for a in (gen.mini(c), gen.full(c, deep=0), bare):
        o = build(a)
        for n, x in zip(names, objs):
            if n != c:
                ctx.op(2)
                d = compare(o, x, False, "%s and %s" % (c, n)) or compare(x, o, False, "%s and %s" % (n, c))
                if d:
                    return d
        for x in (None, 0, 1.5, "x", "", object(), [], [o], {}, (), True, geo.Point(1, 2), Foreign(), o.to_string(), type(o), make_time("2000"), o.__dict__):
            ctx.op(2)
            d = compare(o, x, False, "%s and %r" % (c, x)) or compare(x, o, False, "%r and %s" % (x, c))
            if d:
                return d
        d = compare(o, o, True, "%s and itself" % c)
        if d:
            return d

        class Sub(CLS[c]):
            pass
        s = Sub.__new__(Sub)
        s.__dict__.update(o.__dict__)
        d = compare(o, s, False, "%s and a subclass instance" % c) or compare(s, o, False, "a subclass instance and %s" % c)
        if d:
            return d
    return None


def leaf(case, ctx):
    c, deep = case["leaf"]
    a = gen.full(c, deep=deep)
    path, x = list(gen.walk(a))[case["at"]]
    o, cn = build(a), canon(a)
    same = build(a)
    d = compare(o, same, True, "two objects built alike")
    if d:
        return d
    q = gen.Seq(300)
    for f in SPEC[x["$"]].fields:
        vals = [None] + gen.small(x["$"], f)[:2]
        if f.kind not in ("obj", "list", "coords"):
            vals.append(gen.typical(x["$"], f, q))
        if f.kind == "list" and x.get(f.attr):
            vals += [x[f.attr][::-1], x[f.attr][:-1], x[f.attr] + x[f.attr][:1]]
        for v in vals:
            if (x["$"], f.attr) == ("Schema", "id") and not v:
                continue
            y = gen.put(x, f.attr, v)
            b = gen.replaced(a, path, y) if path else y
            want = canon(b) == cn
            p = build(b)
            ctx.op(2)
            where = "%s.%s = %s" % ("/".join(map(str, path)), f.attr, str(v)[:100])
            d = compare(o, p, want, where) or compare(p, o, want, where)
            if d:
                return d
    return None


ODD = [
    [], [[1.0, 2.0]], [[1.0, 2.0], [3.0, 4.0, 5.0]], [[1.0, 2.0], [1.0, 2.0]], [[1.0]], [[1.0, 2.0, 3.0, 4.0]], [[0.0, 0.0], [0.0, 1.0], [1.0, 1.0]],
    [[0.0, 0.0], [0.0, 1.0], [1.0, 1.0, 2.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.0], [0.0, 0.0], [0.0, 0.0]],
]


def odd(case, ctx):
    """Degenerate coordinates: equality stays reflexive and symmetric and never raises."""
    objs = []
    for co in ODD:
        a = {"$": "Coordinates", "coords": co}
        ring = {"$": "LinearRing", "kml_coordinates": a}
        c = case["cls"]
        if c in ("Point", "LineString", "LinearRing"):
            x = {"$": c, "kml_coordinates": a}
        elif c == "OuterBoundaryIs":
            x = {"$": c, "kml_geometry": ring}
        elif c == "Polygon":
            x = {"$": c, "outer_boundary": {"$": "OuterBoundaryIs", "kml_geometry": ring}, "inner_boundaries": [{"$": "InnerBoundaryIs", "kml_geometry": ring}]}
        elif c == "MultiGeometry":
            x = {"$": c, "kml_geometries": [{"$": "LineString", "kml_coordinates": a}, {"$": "Point", "kml_coordinates": a}]}
        else:
            x = {"$": c, "kml_geometry": {"$": "LineString", "kml_coordinates": a}}
        objs.append(x)
    a = objs[case["odd"]]
    o, p = build(a), build(a)
    d = compare(o, o, True, "degenerate geometry and itself") or compare(o, p, True, "degenerate geometry and its like")
    if d:
        return d
    for b in objs:
        x = build(b)
        ctx.op(2)
        if (o == x) is not (x == o) or (o == x) is (o != x):
            return "equality of %s and %s is not symmetric" % (a, b)
    return None


def revert(c, ctx):
    """Changing a value and changing it back restores equality; comparing follows the current content."""
    for base in (gen.mini(c), gen.full(c, deep=0)):
        o, p = build(base), build(base)
        for f in SPEC[c].fields:
            if (c, f.attr) == ("Schema", "id"):
                continue
            old = getattr(o, f.attr)
            for v in gen.small(c, f):
                b = gen.put(base, f.attr, v)
                setattr(o, f.attr, make_value(f, v))
                ctx.op(2)
                want = canon(b) == canon(base)
                d = compare(o, p, want, "%s.%s assigned %r" % (c, f.attr, str(v)[:100])) or compare(o, build(b), True, "%s.%s assigned and constructed with %r" % (c, f.attr, str(v)[:100]))
                if d:
                    return d
                setattr(o, f.attr, old)
                d = compare(o, p, True, "%s.%s changed back" % (c, f.attr))
                if d:
                    return d
    return None


def space(c, ctx):
    """Objects whose elements lie in different namespaces are different; the representation keeps the namespace."""
    for a in (gen.mini(c), gen.full(c, deep=0)):
        args = {k: make_value(SPEC[c].by_attr[k], v) for k, v in a.items() if k[0] != "$"}

        def make(**kw):
            return CLS[c](**args, **kw)
        kinds = [{}, {"ns": "{urn:a}"}, {"ns": ""}, {"name_spaces": {"my": "{urn:b}"}}, {"name_spaces": {"my": "{urn:c}"}}, {"ns": "{urn:a}", "name_spaces": {"my": "{urn:b}"}}]
        for i, k in enumerate(kinds):
            for j, m in enumerate(kinds):
                ctx.op(2)
                d = compare(make(**k), make(**m), i == j, "%s with %r and with %r" % (c, k, m))
                if d:
                    return d
            o = make(**k)
            if o.ns != k.get("ns", make().ns):
                return "%s: ns %r is kept as %r" % (c, k.get("ns"), o.ns)
            r = eval(repr(o), {}, dict(LOCALS))  # noqa: S307
            if r.ns != o.ns or r.name_spaces != o.name_spaces:
                return "%s: the representation loses the namespaces of %r" % (c, k)
    return None


EXTRA = [0, 1, False, "", "x", 0.0, 1.5, (), (1, 2), "None", "0"]


def extra(c, ctx):
    """Additional keyword arguments are kept as attributes; they are part of the object."""
    for a in (gen.mini(c), gen.full(c, deep=0)):
        args = {k: make_value(SPEC[c].by_attr[k], v) for k, v in a.items() if k[0] != "$"}
        plain = CLS[c](**args)
        for v in EXTRA:
            for kw in ({"rank": v}, {"rank": v, "x_label": "y"}, {"x_label": "y", "rank": v}):
                o = CLS[c](**args, **kw)
                ctx.op(4)
                if any(type(getattr(o, k)) is not type(x) or getattr(o, k) != x for k, x in kw.items()):
                    return "%s: additional argument %r is not kept" % (c, kw)
                d = compare(o, plain, False, "with and without %r" % kw) or compare(o, CLS[c](**args, **kw), True, "two objects with %r" % kw)
                if d:
                    return "%s: %s" % (c, d)
                for w in EXTRA:
                    if w != v:
                        d = compare(o, CLS[c](**args, **dict(kw, rank=w)), False, "rank=%r and rank=%r" % (v, w))
                        if d:
                            return "%s: %s" % (c, d)
                d = rebuilt(o, ctx)
                if d:
                    return d
                o.rank = "changed"
                d = compare(o, CLS[c](**args, **dict(kw, rank="changed")), True, "changed and made with the same additional argument") or rebuilt(o, ctx)
                if d:
                    return "%s: %s" % (c, d)
    return None


def representation(a, ctx):
    return rebuilt(build(a), ctx)


def rebuilt(o, ctx):
    text = repr(o)
    ctx.op(2)
    try:
        r = eval(text, {}, dict(LOCALS))  # noqa: S307
    except Exception as e:  # noqa: BLE001
        return "representation cannot be evaluated: %r\n%s" % (e, text[:800])
    d = diff(shaped(see(r)), shaped(see(o)))
    if d:
        return "representation rebuilds a different object: %s\n%s" % (d, text[:800])
    if not (r == o) or not (o == r) or r != o:
        return "representation rebuilds an unequal object\n%s" % text[:800]
    if type(r) is not type(o):
        return "representation rebuilds a %s" % type(r)
    if repr(r) != text:
        return "representation of the rebuilt object differs"
    return None


_ = complete
