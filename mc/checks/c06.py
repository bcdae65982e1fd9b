"""C06: geometries keep their exact shape between Python geometry, KML and text."""
import itertools

import pygeoif.geometry as geo

from bind import CLS, enum_member
from checks.common import *  # noqa: F403
from fastkml import Placemark
from fastkml.exceptions import GeometryError
from fastkml.geometry import create_kml_geometry

BOUNDS = {
    "quick": "all points over a 9-value coordinate alphabet (2D, 3D); all lines of 2-3 vertices over 5 points incl. repeats plus "
             "long ones; rings of 3-8 vertices; closed and self-touching lines; polygons with 0-5 and with many holes of 7 ring shapes in both orders; multi-part collections "
             "of <= 3 parts of every type, nested collections to depth 4; 10 construction routes, all option combinations; "
             "both back ends",
    "thorough": "as quick with lines of <= 4 vertices, collections of <= 4 parts, precision and verbosity variants",
}
ASSUMPTIONS = ["geometries are finite, non-empty pygeoif (or __geo_interface__) geometries", "a collection of one kind of part may be reported as the multi-geometry of that kind"]

NUM = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 1e-7, -122.0822035425683, 1e16]
PT2 = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.1, -2.5), (1e-7, 179.99999999)]
RINGS2 = [
    [(0.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.0, 0.0)],
    [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 0.0)],
    [(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0), (0.0, 0.0)],
    [(1.0, 1.0), (1.5, 1.0), (1.5, 1.5), (1.0, 1.5), (1.0, 1.0)],
    [(2.0, 2.0), (2.1, 2.0), (2.1, 2.1), (2.0, 2.0)],
    [(3.0, 3.0), (3.25, 3.0), (3.25, 3.5), (3.1, 3.2), (3.0, 3.5), (3.0, 3.0)],
    [(-0.0, 1e-7), (0.1, 0.2), (0.3, 1 / 3), (-0.5, 0.25), (-0.0, 1e-7)],
]


def z(ring, base=1.5):
    return [(x, y, base + i * 0.5 if i < len(ring) - 1 else base) for i, (x, y) in enumerate(ring)]


RINGS_ = RINGS2 + [z(r) for r in RINGS2]


def points():
    for x, y in itertools.product(NUM, NUM):
        yield ["P", [x, y]]
    for x, y, h in itertools.product(NUM[::2], NUM[1::2], NUM):
        yield ["P", [x, y, h]]


def lines(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for ps in itertools.product(PT2, repeat=n):
            if all(p != q for p, q in zip(ps, ps[1:])):  # pygeoif itself merges repeated neighbours
                yield ["L", [list(p) for p in ps]]
            yield ["L", [list(p) + [float(i)] for i, p in enumerate(ps)]]
    for r in RINGS_:
        for l in (r, r[::-1], r + r[1:], r[:-1] + r[::-1]):
            yield ["L", [list(p) for p in l]]  # closed, or passing through a point twice
    for n in (10, 101, 1000):
        yield ["L", [[i / 7, -i / 3] for i in range(n)]]
        yield ["L", [[i / 7, -i / 3, i * 1e-3] for i in range(n)]]


def rings():
    for r in RINGS_:
        yield ["R", r]
        yield ["R", r[::-1]]
        for i in range(1, len(r) - 1):
            yield ["R", r[i:-1] + r[:i] + [r[i]]]


def polygons():
    for r in RINGS_:
        yield ["G", r, []]
        yield ["G", r[::-1], []]
    for outer in (RINGS2[2], z(RINGS2[2])):
        hs = [h for h in RINGS_ if len(h[0]) == len(outer[0])]
        for n in (1, 2, 3):
            for holes in itertools.permutations(hs[:5], n):
                yield ["G", outer, list(holes)]
        yield ["G", outer, hs[:5]]
        yield ["G", outer, [hs[3], hs[3]]]
        yield ["G", outer, [hs[4]] * 12]
        for n in (10, 17, 70, 300):
            yield ["G", outer, [moved(hs[3 + i % 2], (i * 37) % n, (i * 11) % 7) for i in range(n)]]


def moved(r, dx, dy):
    return [(p[0] + dx, p[1] + dy, *p[2:]) for p in r]


def parts():
    return [
        ["P", [0.0, 0.0]], ["P", [1.0, 2.0]], ["P", [3.0, 4.0, 5.0]],
        ["L", [[0.0, 0.0], [1.0, 1.0]]], ["L", [[0.0, 0.0, 1.0], [1.0, 1.0, 2.0], [0.5, 0.1, 3.0]]],
        ["R", RINGS2[0]], ["R", z(RINGS2[2])],
        ["G", RINGS2[2], []], ["G", RINGS2[2], [RINGS2[3], RINGS2[4]]], ["G", z(RINGS2[2]), [z(RINGS2[3])]],
    ]


def collections(tier):
    ps = parts()
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for c in itertools.product(ps, repeat=n):
            yield ["C", list(c)]
    for kind in "PLG":
        same = [p for p in ps if p[0] == kind]
        for n in (1, 2, 3, 4):
            for c in itertools.product(same, repeat=n):
                if len({dim(x) for x in c}) == 1:
                    yield ["M" + kind, list(c)]
    yield ["MP", [["P", [float(i), 1.0]] for i in range(60)]]
    for n in (11, 40, 150):
        at = [((i * 37) % n, (i * 11) % 7) for i in range(n)]
        ls = [["L", [[float(x), float(y)], [x + 1.0, y + 0.5]]] for x, y in at]
        gs = [["G", moved(RINGS2[2], x, y), [moved(RINGS2[3], x, y)] * (i % 3)] for i, (x, y) in enumerate(at)]
        yield ["MP", [["P", [float(x), float(y)]] for x, y in at]]
        yield ["ML", ls]
        yield ["MG", gs]
        yield ["C", [q for t in zip(ls, gs) for q in t]]
        yield ["C", gs + ls]
    yield ["C", [["P", [float(i), 1.0]] if i % 2 else ["L", [[0.0, float(i)], [1.0, 1.0]]] for i in range(60)]]


def nested():
    ps = parts()
    for a, b, c in itertools.product(ps[::3], ps[1::3], ps[2::3]):
        yield ["C", [a, ["C", [b, ["C", [c]]]]]]
        yield ["C", [["C", [a]], ["C", [b, c]]]]
        yield ["C", [["MP", [ps[0], ps[1]]], a, ["MG", [ps[7], ps[8]]], ["ML", [ps[3]]]]]
        yield ["C", [a, ["C", [b, ["C", [c, ["C", [a, b]]]]]], c]]
    x = ps[0]
    for i in range(12):
        x = ["C", [x, ps[i % 10]]]
        yield x


def dim(g):
    k = g[0]
    return len(g[1]) if k == "P" else len(g[1][0])


def make(g):
    k = g[0]
    if k == "P":
        return geo.Point(*g[1])
    if k == "L":
        return geo.LineString([tuple(p) for p in g[1]])
    if k == "R":
        return geo.LinearRing([tuple(p) for p in g[1]])
    if k == "G":
        return geo.Polygon([tuple(p) for p in g[1]], [[tuple(p) for p in h] for h in g[2]])
    ms = [make(x) for x in g[1]]
    if k == "MP":
        return geo.MultiPoint.from_points(*ms)
    if k == "ML":
        return geo.MultiLineString.from_linestrings(*ms)
    if k == "MG":
        return geo.MultiPolygon.from_polygons(*ms)
    return geo.GeometryCollection(ms)


def want(g, plain=False):
    """Shape as nested tuples, independent of the geometry library's own comparison."""
    k = g[0]
    if k == "P":
        return ("P", tuple(map(float, g[1])))
    if k in ("L", "R"):
        return (k, tuple(tuple(map(float, p)) for p in g[1]))
    if k == "G":
        return ("G", tuple(tuple(map(float, p)) for p in g[1]), tuple(tuple(tuple(map(float, p)) for p in h) for h in g[2]))
    return ("C", tuple(want(x) for x in g[1]))


def shape_of(x):
    t = type(x)
    if t is geo.Point:
        return ("P", tuple(x.coords[0]))
    if t is geo.LinearRing:
        return ("R", tuple(map(tuple, x.coords)))
    if t is geo.LineString:
        return ("L", tuple(map(tuple, x.coords)))
    if t is geo.Polygon:
        return ("G", tuple(map(tuple, x.exterior.coords)), tuple(tuple(map(tuple, i.coords)) for i in x.interiors))
    return ("C", tuple(shape_of(y) for y in x.geoms))


def exact(a, b):
    return repr(a) == repr(b)  # tells 0.0 from -0.0


CLASS = {"P": "Point", "L": "LineString", "R": "LinearRing", "G": "Polygon", "C": "MultiGeometry", "MP": "MultiGeometry", "ML": "MultiGeometry", "MG": "MultiGeometry"}


class Foreign:
    """Any object with a __geo_interface__."""

    def __init__(self, d):
        self.__geo_interface__ = d


OPTS = [
    {},
    {"id": "g1", "target_id": "t1", "extrude": True, "tessellate": True, "altitude_mode": "absolute"},
    {"id": "g2", "extrude": False, "tessellate": False, "altitude_mode": "clampToSeaFloor"},
    {"extrude": True},
    {"tessellate": True},
    {"altitude_mode": "relativeToGround"},
]


def groups(tier):
    return ["points", "lines", "rings", "polygons", "collections", "nested", "options", "refuse", "routes"]


def shards(g, tier):
    return {"collections": 8, "lines": 3, "points": 2, "polygons": 2}.get(g, 1) * (2 if tier == "thorough" else 1)


def cases(group, tier):
    if group in ("points", "rings", "polygons", "nested"):
        for g in {"points": points, "rings": rings, "polygons": polygons, "nested": nested}[group]():
            yield {"g": g, "o": {}}
    elif group == "lines":
        for g in lines(tier):
            yield {"g": g, "o": {}}
    elif group == "collections":
        for g in collections(tier):
            yield {"g": g, "o": {}}
    elif group in ("options", "routes"):
        gs = parts() + [["MP", parts()[:2]], ["ML", parts()[3:4] * 2], ["MG", parts()[7:9]], ["C", parts()], ["C", [parts()[0], ["C", parts()[5:]]]]]
        for g in gs:
            if group == "options":
                for ex, te in itertools.product((None, False, True), repeat=2):
                    for am in (None, "clampToGround", "relativeToGround", "absolute", "clampToSeaFloor", "relativeToSeaFloor"):
                        for ids in ({}, {"id": "g-1"}, {"id": "g-1", "target_id": "t-1"}):
                            o = dict(ids)
                            for k, v in (("extrude", ex), ("tessellate", te), ("altitude_mode", am)):
                                if v is not None:
                                    o[k] = v
                            yield {"g": g, "o": o}
            else:
                yield {"g": g, "o": {}, "routes": True}
    else:
        for g in parts() + [["MP", parts()[:2]], ["C", parts()]]:
            for h in parts():
                yield {"g": g, "h": h, "refuse": True}


def options_seen(k, o, kind, top=True):
    """The options must be on every simple geometry; ids only on the outermost one."""
    exp_id = o.get("id", "") if top else ""
    exp_t = o.get("target_id", "") if top else ""
    if (k.id or "") != exp_id or (k.target_id or "") != exp_t:
        return "id/target_id are %r/%r, requested %r/%r" % (k.id, k.target_id, exp_id, exp_t)
    if type(k) is CLS["MultiGeometry"]:
        for x in k.kml_geometries:
            d = options_seen(x, o, kind, False)
            if d:
                return d
        return None
    for attr in ("extrude", "tessellate", "altitude_mode"):
        if attr == "tessellate" and type(k) is CLS["Point"]:
            continue
        v = getattr(k, attr)
        e = o.get(attr)
        if attr == "altitude_mode" and e is not None:
            e = enum_member("AltitudeMode", e)
        if v is not e and v != e:
            return "%s.%s is %r, requested %r" % (type(k).__name__, attr, v, e)
    return None


def check(case, ctx):
    use("lxml")
    if case.get("refuse"):
        return refuse(case, ctx)
    g = case["g"]
    w = want(g)
    opts = dict(case["o"])
    if "altitude_mode" in opts:
        opts["altitude_mode"] = enum_member("AltitudeMode", opts["altitude_mode"])
    cls = CLS[CLASS[g[0]]]
    pg = make(g)
    if shape_of(pg) != w:
        raise AssertionError("harness: pygeoif changes %r" % (g,))
    made = []
    o2 = {k: v for k, v in opts.items() if not (cls is CLS["Point"] and k == "tessellate")}
    made.append(("constructor", cls(geometry=pg, **o2)))
    made.append(("create_kml_geometry", create_kml_geometry(pg, **opts)))
    if not opts:
        made.append(("placemark", Placemark(geometry=pg).kml_geometry))
    ctx.op(len(made))
    if case.get("routes"):
        made.append(("__geo_interface__", create_kml_geometry(Foreign(pg.__geo_interface__))))
        try:
            import shapely.geometry as sg
            if g[0] not in ("C",):
                made.append(("shapely", create_kml_geometry(sg.shape(pg.__geo_interface__))))
        except ImportError:
            pass
        if g[0] == "R":
            for bc in ("OuterBoundaryIs", "InnerBoundaryIs"):
                bo = CLS[bc](geometry=pg)
                if not exact(shape_of(bo.geometry), w):
                    return "%s reports %r" % (bc, bo.geometry)
                if not exact(shape_of(CLS[bc].from_string(bo.to_string()).geometry), w):
                    return "%s changes in a round trip" % bc
    for how, k in made:
        if type(k) is not cls:
            return "%s made a %s of a %s" % (how, type(k).__name__, g[0])
        before = shape_of(k.geometry)
        if not exact(before, w):
            return "%s: geometry reported as %r, given %r" % (how, before, w)
        d = options_seen(k, case["o"], g[0])
        if d:
            return "%s: %s" % (how, d)
        if not k:
            return "%s: geometry is falsy" % how
    k = made[0][1]
    for b in BACK:
        use(b)
        text = k.to_string()
        for strict in (True, False):
            r = cls.from_string(text, strict=strict)
            ctx.op(2)
            got = shape_of(r.geometry)
            if not same_shape(got, w):
                return "%s: read back as %r, given %r\nfrom %s" % (b, got, w, text[:400])
            d = options_seen(r, case["o"], g[0])
            if d:
                return "%s: read back: %s" % (b, d)
        coords = [e.text for e in iter_coords(text)]
        if coords != flat_text(g) and [[tuple(map(float, p.split(","))) for p in t.split()] for t in coords] != [[tuple(map(float, p)) for p in c] for c in flat(g)]:
            return "%s: coordinates in the output are %r" % (b, coords)
        pm = Placemark.from_string(Placemark(kml_geometry=k).to_string())
        ctx.op(2)
        if not same_shape(shape_of(pm.geometry), w):
            return "%s: placemark reads back %r" % (b, pm.geometry)
    return None


def same_shape(got, w):
    """Parts of one kind keep their order; kinds may be regrouped when read."""
    if got[0] != "C" or w[0] != "C":
        return exact(got, w)
    if len(got[1]) != len(w[1]):
        return False
    return all(same_shape(x, y) for x, y in zip(sorted(got[1], key=lambda p: p[0]), sorted(w[1], key=lambda p: p[0])))


def iter_coords(text):
    import xml.etree.ElementTree as ET
    return [e for e in ET.fromstring(text).iter() if e.tag.endswith("}coordinates")]


def flat(g):
    k = g[0]
    if k == "P":
        return [[g[1]]]
    if k in ("L", "R"):
        return [g[1]]
    if k == "G":
        return [g[1]] + list(g[2])
    return [c for x in g[1] for c in flat(x)]


def flat_text(g):
    return [" ".join(",".join(str(x) for x in p) for p in c) for c in flat(g)]


def refuse(case, ctx):
    pg, ph = make(case["g"]), make(case["h"])
    cls, other = CLS[CLASS[case["g"][0]]], CLS[CLASS[case["h"][0]]]
    co = CLS["Coordinates"](coords=[(9.0, 9.0)])
    ring = CLS["LinearRing"](geometry=geo.LinearRing([(0, 0), (0, 1), (1, 1), (0, 0)]))
    tries = []
    n = case["g"][0]
    if n in ("P", "L", "R"):
        tries.append(lambda: cls(geometry=pg, kml_coordinates=co))
    elif n == "G":
        tries += [
            lambda: cls(geometry=pg, outer_boundary=CLS["OuterBoundaryIs"](kml_geometry=ring)),
            lambda: cls(geometry=pg, outer_boundary=CLS["OuterBoundaryIs"](kml_geometry=ring), inner_boundaries=[CLS["InnerBoundaryIs"](kml_geometry=ring)]),
            lambda: cls(geometry=pg, inner_boundaries=[CLS["InnerBoundaryIs"](kml_geometry=ring)]),
        ]
    else:
        tries += [lambda: cls(geometry=pg, kml_geometries=[other(geometry=ph)]), lambda: cls(geometry=pg, kml_geometries=[])]
    if n == "R":
        tries += [lambda c=c: CLS[c](geometry=pg, kml_geometry=ring) for c in ("OuterBoundaryIs", "InnerBoundaryIs")]
    for t in tries:
        ctx.op()
        try:
            t()
        except GeometryError:
            continue
        return "a geometry together with explicit parts is not refused (%s)" % cls.__name__
    ctx.op()
    try:
        Placemark(geometry=pg, kml_geometry=other(geometry=ph))
    except (GeometryError, ValueError):
        return None
    return "placemark accepts a geometry together with a KML geometry"
