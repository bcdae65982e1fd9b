"""C09: track entries keep time, position and orientation together."""
import itertools

import pygeoif.geometry as geo

from bind import CLS, enum_member, make_time, see_time
from checks.common import *  # noqa: F403
from fastkml.gx import Angle, Track, TrackItem
from model import N, canon_time, render
from spec import NS

BOUNDS = {
    "quick": "entry sequences of 0-4 entries, every entry with or without orientation, 2D or 3D, repeated or distinct, plus long "
             "ones; 4 construction routes; every edit history of <= 4 operations out of 13 (state compared after every step); "
             "documents: all interleavings of <= 3 times, positions and orientations, all counts 0..4 of each, every single "
             "unusable value at every place; nesting in multi-tracks (<= 3 tracks), placemarks, folders, documents with siblings; "
             "both back ends",
    "thorough": "as quick with edit histories of <= 5 operations and 5-entry sequences",
}
ASSUMPTIONS = ["every entry has a time and a position (TrackItem's types)",
               "an entry read without orientation carries the neutral orientation (0, 0, 0), which is what KML says it means"]
NEUTRAL = (0.0, 0.0, 0.0)


def entry(i, d3, ang):
    """Entry i: all its values identify it."""
    x = [10.0 + i, 20.0 + i, 30.0 + i] if d3 else [10.0 + i, 20.0 + i]
    return ["20%02d-01-%02dT00:00:00Z" % (i % 100, 1 + i % 28), x, [1.0 + i, 2.0 + i, 3.0 + i] if ang else None]


def sequences(tier):
    for n in range(5 if tier == "quick" else 6):
        for angs in itertools.product((False, True), repeat=n):
            for d3 in (False, True):
                yield [entry(i, d3, angs[i]) for i in range(n)]
            if n in (2, 3):
                for ds in itertools.product((False, True), repeat=n):
                    yield [entry(i, ds[i], angs[i]) for i in range(n)]
    e = [entry(i, True, i != 1) for i in range(3)]
    for n in (2, 3, 4):
        for ix in itertools.product(range(3), repeat=n):
            yield [e[i] for i in ix]
    same_t = [[e[0][0], [float(i), 1.0], [float(i), 0.0, 0.0]] for i in range(4)]
    yield same_t
    yield [[e[i][0], [1.0, 1.0], None] for i in range(3)]
    yield [["2000", [0.0, 0.0], [0.0, 0.0, 0.0]], ["2000-02", [0.0, 0.0, 0.0], None], ["2000-02-03", [-0.0, 5.0], [0.0, 0.0, 1.0]]]
    for n in (50, 300):
        yield [entry(i, i % 2 == 0, i % 3 == 0) for i in range(n)]


OPS = ["append", "append_noangle", "insert0", "insert1", "pop", "del0", "del1", "reverse", "set_last", "replace", "extend", "rotate", "sort"]


def groups(tier):
    return ["routes", "edits", "shuffle", "counts", "unusable", "nest", "multi"]


def shards(g, tier):
    return {"edits": 8, "shuffle": 6, "counts": 2, "unusable": 2, "routes": 2}.get(g, 1)


def cases(group, tier):
    if group == "routes":
        for s in sequences(tier):
            for am in (None, "absolute"):
                yield {"seq": s, "am": am}
    elif group == "edits":
        for n in range(1, 5 if tier == "quick" else 6):
            for ops in itertools.product(OPS, repeat=n):
                yield {"ops": list(ops)}
    elif group == "shuffle":
        for n in (1, 2, 3):
            for perm in sorted(set(itertools.permutations("w" * n + "c" * n + "a" * n))) if n < 3 else shuffles(n):
                yield {"order": "".join(perm), "n": n}
    elif group == "counts":
        for w, c, a in itertools.product(range(5), repeat=3):
            yield {"counts": [w, c, a]}
    elif group == "unusable":
        for n in (1, 2, 3, 4):
            for i in range(n):
                for what, bad in UNUSABLE:
                    yield {"n": n, "at": [[i, what, bad]]}
        for (i, (w1, b1)), (j, (w2, b2)) in itertools.combinations([(i, u) for i in range(3) for u in UNUSABLE[::3]], 2):
            if (i, w1) != (j, w2):
                yield {"n": 3, "at": [[i, w1, b1], [j, w2, b2]]}
    elif group == "nest":
        for s in [x for x in sequences("quick") if 0 < len(x) < 4]:
            yield {"nest": s}
    else:
        ss = [[entry(i, True, i % 2) for i in r] for r in (range(1), range(1, 3), range(3, 6), range(6, 10))] + [[entry(20, False, False)]]
        for n in (1, 2, 3):
            for combo in itertools.permutations(ss, n):
                for am, ip in ((None, None), ("absolute", True), ("clampToSeaFloor", False)):
                    yield {"multi": list(combo), "am": am, "ip": ip}


UNUSABLE = [("when", "x"), ("when", ""), ("when", " "), ("when", "1997-13"), ("coord", "x"), ("coord", "1"), ("coord", "1 2 3 4"), ("coord", "1 y"),
            ("coord", ""), ("coord", " \n"), ("angles", "x y z"), ("angles", "1 2 q"), ("angles", "1")]


def shuffles(n):
    def rec(s, w, c, a):
        if not (w or c or a):
            yield s
        if w:
            yield from rec(s + "w", w - 1, c, a)
        if c:
            yield from rec(s + "c", w, c - 1, a)
        if a:
            yield from rec(s + "a", w, c, a - 1)
    return list(rec("", n, n, n))


def real(e):
    return TrackItem(when=make_time(e[0]), coord=geo.Point(*e[1]), angle=None if e[2] is None else Angle(*e[2]))


def canon(s, fill=False):
    return [(canon_time(w), tuple(map(float, p)), tuple(map(float, g)) if g is not None else (NEUTRAL if fill else None)) for w, p, g in s]


def shown(t):
    return [(see_time(i.when), tuple(map(float, i.coord.coords[0])), None if i.angle is None else tuple(map(float, (i.angle.heading, i.angle.tilt, i.angle.roll)))) for i in t.track_items]


def line(s):
    """Positions in entry order; the geometry library merges repeated neighbours."""
    out = []
    for _, p, _ in s:
        p = tuple(map(float, p))
        if not out or out[-1] != p:
            out.append(p)
    return out


def state(t, s, ctx, fill=False):
    """Everything a track shows must agree with the list of triples."""
    ctx.op(2)
    want = canon(s, fill)
    if shown(t) != want:
        return "entries are %r, expected %r" % (shown(t), want)
    if [see_time(w) for w in t.whens] != [w for w, _, _ in want]:
        return "whens are %r" % (t.whens,)
    if [tuple(map(float, c)) for c in t.coords] != [c for _, c, _ in want]:
        return "coords are %r" % (t.coords,)
    ang = [tuple(map(float, g)) for g in t.angles]
    if any(g is not None for _, _, g in want):
        if ang != [g or NEUTRAL for _, _, g in want]:
            return "angles are %r" % (t.angles,)
    elif ang and ang != [NEUTRAL] * len(want):
        return "angles of entries without orientation are %r" % (t.angles,)
    if bool(t) is not bool(s):
        return "truth value is %r" % bool(t)
    if s and len({len(p) for _, p, _ in s}) == 1:
        g = t.geometry
        if type(g) is not geo.LineString or [tuple(map(float, c)) for c in g.coords] != line(s):
            return "geometry is %r" % (g,)
    return None


def trip(t, s, ctx, am=None):
    a = {"$": "Track", "track_items": s}
    if am:
        a["altitude_mode"] = am
    for b in BACK:
        use(b)
        text = t.to_string()
        ctx.op(2)
        d = match(infoset(text), expected(a))
        if d:
            return "%s: %s\nin %s" % (b, d, text[:700])
        d = state(Track.from_string(text), s, ctx, fill=True)
        if d:
            return "%s, read back: %s" % (b, d)
    return None


def check(case, ctx):
    use("lxml")
    for k, f in (("seq", routes), ("ops", edits), ("order", shuffle), ("counts", counts), ("at", unusable), ("nest", nest), ("multi", multi)):
        if k in case:
            return f(case, ctx)
    raise AssertionError(case)


def routes(case, ctx):
    s, am = case["seq"], case["am"]
    kw = {"altitude_mode": enum_member("AltitudeMode", am)} if am else {}
    items = [real(e) for e in s]
    made = [("list", Track(track_items=items, **kw), False), ("tuple", Track(track_items=tuple(items), **kw), False),
            ("iterator", Track(track_items=iter(items), **kw), False)]
    if s:
        ws, cs, gs = [make_time(e[0]) for e in s], [tuple(e[1]) for e in s], [None if e[2] is None else tuple(e[2]) for e in s]
        made.append(("parallel", Track(whens=ws, coords=cs, angles=gs, **kw), True))
        made.append(("parallel iterators", Track(whens=iter(ws), coords=iter(cs), angles=iter(gs), **kw), True))
        k = max([i + 1 for i, g in enumerate(gs) if g is not None] or [0])
        made.append(("short angles", Track(whens=tuple(ws), coords=tuple(cs), angles=gs[:k] or None, **kw), True))
    for how, t, fill in made:
        d = state(t, s, ctx, fill) or trip(t, s if not fill else [[w, p, g or [0.0, 0.0, 0.0]] for w, p, g in s], ctx, am)
        if d:
            return "%s: %s" % (how, d)
    for kw2 in ({"whens": [make_time("2000")]}, {"coords": [(1.0, 2.0)]}, {"whens": [make_time("2000")], "coords": [(1.0, 2.0)]}):
        if items:
            try:
                Track(track_items=items, **kw2)
            except ValueError:
                continue
            return "entries together with %s are accepted" % list(kw2)
    return None


def edits(case, ctx):
    s = [entry(0, True, True), entry(1, True, False)]
    t = Track(track_items=[real(e) for e in s])
    nxt = 2
    for i, op in enumerate(case["ops"]):
        e = entry(nxt, True, op != "append_noangle")
        nxt += 1
        li = t.track_items
        if op in ("append", "append_noangle"):
            li.append(real(e))
            s.append(e)
        elif op == "insert0":
            li.insert(0, real(e))
            s.insert(0, e)
        elif op == "insert1":
            li.insert(1, real(e))
            s.insert(1, e)
        elif op == "pop":
            if s:
                li.pop()
                s.pop()
        elif op == "del0":
            if s:
                del li[0]
                del s[0]
        elif op == "del1":
            if len(s) > 1:
                del li[1]
                del s[1]
        elif op == "reverse":
            li.reverse()
            s.reverse()
        elif op == "set_last":
            if s:
                li[-1] = real(e)
                s[-1] = e
        elif op == "replace":
            s = [e] + s[:1]
            t.track_items = [real(x) for x in s]
        elif op == "extend":
            li += [real(e), real(entry(nxt, True, False))]
            s += [e, entry(nxt, True, False)]
            nxt += 1
        elif op == "rotate":
            li[:] = li[1:] + li[:1]
            s[:] = s[1:] + s[:1]
        elif op == "sort":
            li.sort(key=lambda x: -x.coord.x)
            s.sort(key=lambda x: -x[1][0])
        d = state(t, s, ctx)
        if d:
            return "after %s: %s" % (case["ops"][: i + 1], d)
        if i == len(case["ops"]) - 1:
            d = trip(t, s, ctx)
            if d:
                return "after %s: %s" % (case["ops"], d)
    return None


def document(s, order, angles=None):
    """A gx:Track element with the values of s in the given element order."""
    node = N(NS["gx"], "Track")
    ix = {"w": 0, "c": 0, "a": 0}
    for k in order:
        e = s[ix[k]]
        ix[k] += 1
        if k == "w":
            node.kids.append(N(NS["kml"], "when", text=e[0]))
        elif k == "c":
            node.kids.append(N(NS["gx"], "coord", text=" ".join(map(str, e[1]))))
        else:
            node.kids.append(N(NS["gx"], "angles", text=" ".join(map(str, e[2]))))
    return node


def shuffle(case, ctx):
    s = [entry(i, i != 1, True) for i in range(case["n"])]
    text = render(document(s, case["order"]))
    for b in BACK:
        use(b)
        for strict in (True, False):
            d = state(Track.from_string(text, strict=strict), s, ctx, True)
            if d:
                return "%s: %s\nin %s" % (b, d, text)
    return None


def counts(case, ctx):
    w, c, a = case["counts"]
    s = [entry(i, True, True) for i in range(4)]
    text = render(document(s, "w" * w + "c" * c + "a" * a))
    want = [[e[0], e[1], e[2] if i < a else None] for i, e in enumerate(s[: min(w, c)])]
    for b in BACK:
        use(b)
        d = state(Track.from_string(text, strict=False), want, ctx, True)
        if d:
            return "%s: %s\nin %s" % (b, d, text)
    return None


def unusable(case, ctx):
    """Entries with an unusable time or position go as a whole; an unusable orientation leaves the neutral one."""
    s = [entry(i, True, True) for i in range(case["n"])]
    node = document(s, "w" * len(s) + "c" * len(s) + "a" * len(s))
    gone, neutral = set(), set()
    for i, what, bad in case["at"]:
        [k for k in node.kids if k.tag == what][i].text = bad
        (neutral if what == "angles" else gone).add(i)
    want = [[w, p, None if i in neutral else g] for i, (w, p, g) in enumerate(s) if i not in gone]
    text = render(node)
    for b in BACK:
        use(b)
        d = state(Track.from_string(text, strict=False), want, ctx, True)
        if d:
            return "%s: %s\nin %s" % (b, d, text)
    return None


def nest(case, ctx):
    s = case["nest"]
    other = [entry(40, True, True), entry(41, True, False)]
    tr = {"$": "Track", "id": "t", "track_items": s}
    ot = {"$": "Track", "track_items": other}
    pm = {"$": "Placemark", "name": "p", "kml_geometry": tr}
    docs = [
        (pm, [s]),
        ({"$": "Placemark", "kml_geometry": {"$": "MultiTrack", "tracks": [ot, tr, ot]}}, [other, s, other]),
        ({"$": "KML", "features": [{"$": "Document", "features": [{"$": "Placemark", "kml_geometry": ot}, pm, {"$": "Placemark", "kml_geometry": {"$": "MultiTrack", "tracks": [tr]}}]}]},
         [other, s, s]),
        ({"$": "Folder", "features": [{"$": "Folder", "features": [pm]}, {"$": "Placemark", "kml_geometry": ot}]}, [s, other]),
    ]
    for a, tracks in docs:
        for b in BACK:
            use(b)
            o = build(a)
            text = o.to_string()
            ctx.op(2)
            d = match(infoset(text), expected(a))
            if d:
                return "%s: %s" % (b, d)
            r = CLS[a["$"]].from_string(text)
            want = [canon(x, True) for x in tracks if x]
            got = [x for x in found(see(r))]
            if got != want:
                return "%s: tracks read back are %r, expected %r\nin %s" % (b, got, want, text[:600])
    return None


def found(x):
    if isinstance(x, dict):
        if x["$"] == "Track":
            yield [(w, p, g or NEUTRAL) for w, p, g in x.get("track_items", [])]
        for v in x.values():
            yield from found(v)
    elif isinstance(x, list):
        for v in x:
            yield from found(v)


def multi(case, ctx):
    a = {"$": "MultiTrack", "tracks": [{"$": "Track", "track_items": s, "id": "t%d" % i} for i, s in enumerate(case["multi"])]}
    if case["am"]:
        a["altitude_mode"] = case["am"]
    if case["ip"] is not None:
        a["interpolate"] = case["ip"]
    for b in BACK:
        use(b)
        o = build(a)
        text = o.to_string()
        d = match(infoset(text), expected(a))
        if d:
            return "%s: %s" % (b, d)
        for m, fill in ((o, False), (CLS["MultiTrack"].from_string(text), True)):
            if len(m.tracks) != len(case["multi"]):
                return "%d tracks" % len(m.tracks)
            for t, s in zip(m.tracks, case["multi"]):
                d = state(t, s, ctx, fill)
                if d:
                    return "%s: %s" % (b, d)
            lines = [[tuple(map(float, c)) for c in g.coords] for g in m.geometry.geoms]
            if lines != [line(s) for s in case["multi"]]:
                return "%s: geometry of the multi-track is %r" % (b, m.geometry)
    return None


FINDINGS = [{"key": "empty-angles", "case": {"n": 3, "at": [[1, "angles", ""]]}}]
