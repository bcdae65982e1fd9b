"""C07: output precision rounds coordinates and nothing else."""
import itertools
import pathlib
import tempfile

from bind import CLS, LX
from checks.common import *  # noqa: F403

BOUNDS = {
    "quick": "a 40-value coordinate alphabet (ties, carries, tiny, huge, signed zero, integers) x precisions 0..17 and none x "
             "position in points, lines, rings, tracks (2D, 3D, angles) ; every type's object space (1-field deviations, "
             "every number type) x precisions {0, 3}; every type nested in every parent and below the root x precisions "
             "{none, 0, 1, 2, 5, 9, 15} x 3 verbosities; string, element and file output; both back ends",
    "thorough": "as quick with all ordered pairs of coordinate values per point and the object space pairs",
}
ASSUMPTIONS = ["coordinates are finite numbers", "rounding is of the exact binary value, half to even"]

VALUES = [
    0.0, -0.0, 0.5, 1.5, 2.5, -0.5, -1.5, 0.25, 0.125, 0.375, 0.05, 0.15, 0.45, 1.005, 2.675, 0.1, 1 / 3, 2 / 3, -1 / 3,
    9.5, 99.5, 0.9999, 0.99999999, 1e-5, 1e-7, 4.9e-7, -2.5e-9, 5e-324, 123456.789012345, -122.0822035425683,
    37.42228990140251, 179.9999999999, -180.0, 90, 7, -3, 1e15, 1e16, 123456789.987654321, 0.30000000000000004,
]
PREC = [None] + list(range(18))


def groups(tier):
    return ["numbers/%s" % p for p in PREC] + [c + "/space" for c in NAMES] + [c + "/nest" for c in NAMES]


def shards(g, tier):
    return 4 if tier == "thorough" else 1


def shapes(x, y, h):
    ring = [[x, y], [y, x], [x, x], [x, y]]
    co = lambda ps: {"$": "Coordinates", "coords": ps}  # noqa: E731
    yield {"$": "Point", "kml_coordinates": co([[x, y]])}
    yield {"$": "Point", "kml_coordinates": co([[x, y, h]])}
    yield {"$": "LineString", "kml_coordinates": co([[h, y], [x, y], [y, x]])}
    yield {"$": "LinearRing", "kml_coordinates": co([p + [h] for p in ring])}
    yield {"$": "Polygon", "outer_boundary": {"$": "OuterBoundaryIs", "kml_geometry": {"$": "LinearRing", "kml_coordinates": co(ring)}},
           "inner_boundaries": [{"$": "InnerBoundaryIs", "kml_geometry": {"$": "LinearRing", "kml_coordinates": co(ring)}}]}
    yield {"$": "Track", "track_items": [["2010-01-01T00:00:00.250000Z", [x, y, h], [h, x, y]], ["2010-01-01T00:00:01Z", [y, x], None]]}


def cases(group, tier):
    kind, what = group.split("/")
    if kind == "numbers":
        p = None if what == "None" else int(what)
        n = len(VALUES)
        for i, x in enumerate(VALUES):
            ys = VALUES if tier == "thorough" else [VALUES[(i + 7) % n], VALUES[(i * 3 + 1) % n]]
            for y in ys:
                for a in shapes(x, y, VALUES[(i + 13) % n]):
                    yield {"a": a, "p": [p], "v": ["normal"]}
        return
    if what == "space":
        it = object_space(kind, tier) if tier == "thorough" else itertools.chain(gen.baselines(kind), gen.deviate1(kind))
        for a in it:
            if kind != "Schema" or (a.get("id") or "").strip():
                yield {"a": a, "p": [0, 3], "v": ["normal"]}
        return
    for a in (gen.mini(kind), gen.full(kind, deep=1)):
        ws = [a] + [gen.embed(a, p, attr) for p, attr in gen.UP.get(kind, ())]
        for w in ws:
            yield {"a": w, "p": [None, 0, 1, 2, 5, 9, 15], "v": ["terse", "normal", "verbose"]}
            r = gen.to_root(w)
            if r is not None and r is not w:
                yield {"a": r, "p": [None, 0, 1, 5, 15], "v": ["terse", "normal", "verbose"], "file": True}


def check(case, ctx):
    a = case["a"]
    for b in BACK:
        use(b)
        o = build(a)
        before = see(o)
        for p, v in itertools.product(case["p"], case["v"]):
            exp = expected(a, v, precision=p)
            text = o.to_string(precision=p, verbosity=VERB[v])
            ctx.op()
            d = match(infoset(text), exp)
            if d:
                return "%s, precision %s, %s: %s\nin %s" % (b, p, v, d, text[:900])
            if b == "lxml":
                d = match(infoset(LX.tostring(o.etree_element(precision=p, verbosity=VERB[v]), encoding="unicode")), exp)
                ctx.op()
                if d:
                    return "%s, element, precision %s, %s: %s" % (b, p, v, d)
            if p is None:
                r = CLS[a["$"]].from_string(text)
                ctx.op()
                if numbers(see(r)) != numbers(before) and v == "normal":
                    return "%s: coordinates read back without precision differ: %r, %r" % (b, numbers(see(r)), numbers(before))
        if case.get("file"):
            with tempfile.TemporaryDirectory(prefix="mc-c07-") as tmp:
                for p in case["p"]:
                    path = pathlib.Path(tmp) / "a.kml"
                    o.write(path, precision=p)
                    ctx.op()
                    d = match(infoset(path.read_text(encoding="utf-8")), expected(a, precision=p))
                    if d:
                        return "%s: file, precision %s: %s" % (b, p, d)
        after = see(o)
        if repr(after) != repr(before):
            return "%s: writing changed the object: %s" % (b, diff(after, before))
    return None


def numbers(x):
    """All coordinates of a canonical form, in a fixed order (kinds may be regrouped)."""
    out = []

    def rec(y):
        if isinstance(y, dict):
            for k, v in y.items():
                if k == "coords":
                    out.append(repr(v))
                elif k == "track_items":
                    out.append(repr([(i[1], i[2] or (0.0, 0.0, 0.0)) for i in v]))
                else:
                    rec(v)
        elif isinstance(y, list):
            for v in y:
                rec(v)
    rec(x)
    return sorted(out)
