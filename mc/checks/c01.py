"""C01: write then read gives back an equal object."""
from checks.common import *  # noqa: F403
from bind import CLS
from explore import dumps

BOUNDS = {
    "quick": "61 element types; every 1-field deviation (wide alphabets), every pair of fields (small alphabets), every subset "
             "of set fields (types with <= 8 fields), all 165 containments and their chain to the root, nesting depth <= 280, "
             "lists <= 6000, texts <= 10.4 million characters, <= 20011 coordinates, <= 4201 track entries; both back ends, strict and lenient, pretty-printed or not",
    "thorough": "as quick, plus every triple of fields, pairs of deviations from full objects, subsets for <= 12 fields, "
                "all containments of containments",
}
ASSUMPTIONS = ["values outside the alphabets are not covered", "equality is the library's own == and, independently, agreement of all public attributes"]


def groups(tier):
    return NAMES + ["edges", "deep", "large"] + (["edges2"] if tier == "thorough" else [])


def shards(g, tier):
    return {"edges": 2, "large": 16, "edges2": 16}.get(g, 1) if tier == "quick" else (16 if g in ("edges2", "large") else 4)


def wrapped(a):
    yield a
    for p, attr in gen.UP.get(a["$"], ()):
        w = gen.embed(a, p, attr)
        yield w
        r = gen.to_root(w)
        if r is not None and r is not w:
            yield r


def objects(group, tier):
    if group in SPEC:
        for a in object_space(group, tier):
            if gen.parts_complete(a):
                yield a
    elif group == "edges":
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=0), gen.full(c, deep=1), gen.full(c, deep=2)):
                yield from wrapped(a)
    elif group == "edges2":
        for c in NAMES:
            for w in wrapped(gen.full(c, deep=0)):
                for p, attr in gen.UP.get(w["$"], ()):
                    x = gen.embed(w, p, attr)
                    yield x
                    r = gen.to_root(x)
                    if r is not None:
                        yield r
    else:
        yield from deep()


def deep():
    """Deep nesting and long lists."""
    for kind in ("Folder", "Document"):
        for n in (1, 2, 3, 8, 15, 40, 150, 280):
            a = gen.mini("Placemark")
            for i in range(n):
                a = {"$": kind, "id": "f%d" % i, "name": "n%d" % i, "features": [dict(gen.mini("Folder"), name="s%d" % i), a]
                     if kind == "Document" or i % 2 else [a]}
            yield {"$": "KML", "features": [a]}
    for n in (1, 2, 3, 10, 30):
        a = {"$": "MultiGeometry", "kml_geometries": [gen.mini("Point")]}
        for i in range(n):
            a = {"$": "MultiGeometry", "id": "m%d" % i, "kml_geometries": [gen.mini("Point", gen.Seq(i)), a]}
        yield a
        yield gen.to_root(a)
    for c, attr, cls in gen.edges():
        f = SPEC[c].by_attr[attr]
        if f.kind == "list":
            for n in (9, 10, 11, 33, 101, 300):
                q = gen.Seq()
                yield dict(gen.mini(c), **{attr: [gen.child(c, f, cls, q, 0) for _ in range(n)]})


def cases(group, tier):
    if group == "large":
        for s in gen.large_specs(tier):
            yield {"large": s}
        for s in gen.HUGE:
            yield {"large": s}
        return
    for a in objects(group, tier):
        yield a


def check(a, ctx):
    if "large" in a:
        a = gen.large(a["large"])
    want = norm(a, group=True)
    cls = CLS[a["$"]]
    for b in BACK:
        use(b)
        o = build(a)
        d = diff(see(o, group=True), want)
        if d:
            return "constructor lost content: %s" % d
        for pretty in (True, False) if b == "lxml" else (True,):
            text = o.to_string(prettyprint=pretty)
            for strict in (True, False):
                r = cls.from_string(text, strict=strict)
                ctx.op(2)
                d = diff(see(r, group=True), expect_read(want))
                if d:
                    return "%s, strict=%s, prettyprint=%s: read back differs: %s" % (b, strict, pretty, d)
                if comparable(a) and not (r == o and o == r and not (r != o)):
                    return "%s, strict=%s, prettyprint=%s: read back object is not == the original" % (b, strict, pretty)
        d = diff(see(o, group=True), want)
        if d:
            return "writing changed the object: %s" % d
    return None


def expect_read(want):
    """A track with some orientations is written with all of them (missing ones as zero)."""
    if isinstance(want, dict):
        out = {k: expect_read(v) for k, v in want.items()}
        if want["$"] == "Track" and "track_items" in want:
            out["track_items"] = [(w, p, g or (0.0, 0.0, 0.0)) for w, p, g in want["track_items"]]
        return out
    if isinstance(want, list):
        return [expect_read(x) for x in want]
    return want


def comparable(a):
    """Entries of different kinds are regrouped by kind when read; and absent orientations read as zero."""
    for _, x in gen.walk(a):
        if x["$"] == "Track" and any(g is None for _, _, g in x.get("track_items") or ()):
            return False
        for f in SPEC[x["$"]].fields:
            if f.kind == "list" and len(f.arg) > 1:
                ks = [f.arg.index(y["$"]) for y in x.get(f.attr) or ()]
                if ks != sorted(ks):
                    return False
    return True


_ = dumps
