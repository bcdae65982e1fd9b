"""C10: searching a document finds every match exactly once, parents first."""
import itertools
from collections import Counter

import fastkml
from bind import CLS, NAME, enum_member, make_time, make_value
from checks.common import *  # noqa: F403
from fastkml import find, find_all
from fastkml.gx import Angle, TrackItem
from fastkml.times import KmlDateTime

BOUNDS = {
    "quick": "documents: every type full and minimal, nested in every parent and below the root, two large documents (every type at "
             "several places, depth 6), documents with incomplete parts, with shared parts, nested to depth 40, and with values that only look alike (None and 'None', 1 and '1'); with thousands of parts, and with tuples for lists; queries: every type, every base "
             "type, every pair of types, every (attribute, value) that occurs anywhere in the document with and without type, "
             "attribute pairs, absent values, unknown attributes, derived attributes, conditions of other types (tuples, types, patterns, prefixes, other letter case); all edit histories of <= 3 edits out of 9; "
             "search from the root and from every inner object",
    "thorough": "as quick with full objects two levels deep and edit histories of <= 4",
}
ASSUMPTIONS = ["documents are trees or acyclic graphs", "only results that are KML objects, times, track entries or angles are counted for queries without type"]

SMALL = (KmlDateTime, TrackItem, Angle)
KINDS = tuple(CLS.values()) + SMALL


def bases():
    out = {}
    for c in CLS.values():
        for b in c.__mro__[1:]:
            if b is not object and b.__module__.startswith("fastkml") and b not in CLS.values():
                out[b.__name__] = b
    return out


BASES = bases()


def reach(o, path=()):
    """Reference traversal: every KML object with the path it is found at."""
    yield path, o
    if isinstance(o, TrackItem):
        for k in ("when", "angle"):
            if getattr(o, k) is not None:
                yield path + (k,), getattr(o, k)
        return
    if type(o) not in NAME:
        return
    for f in SPEC[NAME[type(o)]].fields:
        v = getattr(o, f.attr)
        if f.kind == "obj" and v is not None:
            yield from reach(v, path + (f.attr,))
        elif f.kind in ("list", "track"):
            for i, x in enumerate(v):
                yield from reach(x, path + (f.attr, i))
        elif f.kind == "date" and v is not None:
            yield path + (f.attr,), v


def groups(tier):
    return ["types/" + c for c in NAMES] + ["values/" + c for c in NAMES] + ["big", "shared", "edits", "incomplete", "deep", "alike", "many", "tuples"]


def shards(g, tier):
    return {"edits": 6, "big": 8, "deep": 8, "alike": 4, "many": 8, "shared": 4}.get(g, 1)


def big():
    q = gen.Seq()
    feats = [gen.full(c, q, 2) for c in ("Placemark", "NetworkLink", "GroundOverlay", "PhotoOverlay", "ScreenOverlay")]
    geoms = [dict(gen.mini("Placemark", q), kml_geometry=gen.full(g, q, 1)) for g in SPEC["Placemark"].by_attr["kml_geometry"].arg]
    inner = dict(gen.full("Document", q, 1), features=feats[:2] + geoms[:4])
    folder = dict(gen.full("Folder", q, 1), features=geoms[4:] + [inner] + feats[2:] + [gen.mini("Placemark", q), gen.mini("Placemark", q)])
    yield {"$": "KML", "features": [dict(gen.full("Document", q, 0), features=[folder, gen.mini("Folder", q)]), gen.mini("Placemark", q),
                                    gen.full("NetworkLinkControl", q, 1)]}
    yield {"$": "KML", "features": [gen.full("Document", gen.Seq(7), 3)]}


def cases(group, tier):
    deep = 1 if tier == "quick" else 2
    if group.startswith("types/") or group.startswith("values/"):
        kind, c = group.split("/")
        for a in (gen.mini(c), gen.full(c, deep=deep)):
            ws = [a] + [gen.embed(a, p, attr) for p, attr in gen.UP.get(c, ())]
            if kind == "values":
                ws = ws[:1] + [x for x in [gen.to_root(a)] if x is not None]
            for w in ws:
                yield {"doc": w, "q": kind}
                r = gen.to_root(w)
                if r is not None and kind == "types":
                    yield {"doc": r, "q": kind}
    elif group == "big":
        for i, d in enumerate(big()):
            for part in range(12):
                yield {"big": i, "q": "types", "part": [part, 12]}
                yield {"big": i, "q": "values", "part": [part, 12]}
            for part in range(8):
                yield {"big": i, "q": "inner", "part": [part, 8]}
    elif group == "deep":
        for kind in ("Folder", "Document", "MultiGeometry"):
            for n in (5, 9, 12, 13, 17, 24, 33, 40):
                for q in ("types", "values"):
                    for part in range(3):
                        yield {"deep": [kind, n], "q": q, "part": [part, 3]}
    elif group == "alike":
        for c in NAMES:
            for f in SPEC[c].fields:
                if f.kind not in ("obj", "list", "track", "coords"):
                    yield {"alike": [c, f.attr]}
    elif group == "tuples":
        for c, attr, cls in gen.edges():
            if SPEC[c].by_attr[attr].kind == "list":
                yield {"tuple": [c, attr, cls]}
    elif group == "many":
        for i, (c, attr, cls) in enumerate(gen.edges()):
            if SPEC[c].by_attr[attr].kind == "list" and c != "StyleMap":
                yield {"many": ["list", c, attr, 300, cls]}
                if (c, cls) in (("Folder", "Placemark"), ("Document", "Folder"), ("SchemaData", "SimpleData"), ("MultiGeometry", "Point"), ("KML", "Placemark")):
                    yield {"many": ["list", c, attr, 2100, cls]}
                    yield {"many": ["list", c, attr, 9000, cls]}
    elif group == "shared":
        for n in (1, 2, 3):
            for what in ("Style", "Placemark", "Region", "StyleUrl", "Point", "Data", "Icon"):
                for part in range(4):
                    yield {"shared": what, "n": n, "part": [part, 4]}
    elif group == "incomplete":
        for p, attr, c in gen.edges():
            f = SPEC[p].by_attr[attr]
            x = {"$": c, "id": "s"} if c == "Schema" else {"$": c}
            if f.kind == "obj" or (p, attr) not in (("ExtendedData", "elements"), ("MultiTrack", "tracks")):
                yield {"doc": dict(gen.mini(p), **{attr: x if f.kind == "obj" else [x, x]}), "q": "types"}
    else:
        for n in range(1, 4 if tier == "quick" else 5):
            for ops in itertools.product(range(9), repeat=n):
                yield {"ops": list(ops)}


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def order_ok(places, got):
    """Ancestors first, earlier list entries (with their contents) first.  Only for objects found at one place."""
    pos = {id(x): i for i, x in enumerate(got)}
    seq = [(p, pos[id(x)]) for p, x in places if id(x) in pos]
    for i, (p, a) in enumerate(seq):
        for r, b in seq[i + 1:]:
            n = 0
            while n < len(p) and n < len(r) and p[n] == r[n]:
                n += 1
            if n == len(p) and a > b:
                return "%r comes before its container %r" % (r, p)
            if n == len(r) and b > a:
                return "%r comes before its container %r" % (p, r)
            if n < len(p) and n < len(r) and isinstance(p[n], int) and (p[n] < r[n]) != (a < b):
                return "list entries %r and %r are out of order" % (p, r)
    return None


def matches(x, of_type, kw):
    if of_type is not None and not isinstance(x, of_type):
        return False
    for k, v in kw.items():
        if not hasattr(x, k) or not (getattr(x, k) == v):
            return False
    return True


def one(o, places, ctx, of_type=None, **kw):
    """One query compared with the reference."""
    want = [x for _, x in places if matches(x, of_type, kw)]
    args = dict(kw)
    if of_type is not None:
        args["of_type"] = of_type
    got = list(find_all(o, **args))
    ctx.op()
    first = find(o, **args)
    if (first is not got[0]) if got else first is not None:
        return "find(%s) is not the first result of find_all" % (args,)
    if of_type is None:
        extra = [x for x in got if not isinstance(x, KINDS)]
        for x in extra:
            if not matches(x, None, kw):
                return "find_all(%s) returns %r" % (args, x)
        got = [x for x in got if isinstance(x, KINDS)]
    cw, cg = Counter(id(x) for x in want), Counter(id(x) for x in got)
    if cw != cg:
        miss = [x for x in want if cg[id(x)] < cw[id(x)]]
        more = [x for x in got if cg[id(x)] > cw[id(x)]]
        return "find_all(%s): %d results, expected %d; missing %s, surplus %s" % (
            str(args)[:200], len(got), len(want), [type(x).__name__ for x in miss][:5], [type(x).__name__ for x in more][:5])
    if want and max(cw.values()) == 1 and len({id(x) for _, x in places}) == len(places) and len(want) < 80:
        return order_ok([(p, x) for p, x in places if id(x) in cg], got)
    return None


def type_queries(o, places, ctx, part=None):
    qs = [c for c in KINDS] + list(BASES.values())
    have = list(dict.fromkeys(type(x) for _, x in places))
    qs += list(itertools.combinations(have, 2))
    qs += [tuple(have[:3]), tuple(KINDS)]
    for i, q in enumerate(qs):
        if part and i % part[1] != part[0]:
            continue
        d = one(o, places, ctx, of_type=q)
        if d:
            return d
    return None


def value_queries(o, places, ctx, part=None):
    qs = []
    seen = set()
    for _, x in places:
        if type(x) not in NAME:
            continue
        c = SPEC[NAME[type(x)]]
        for f in c.fields:
            v = getattr(x, f.attr)
            key = (f.attr, repr(v)[:400])
            if key in seen:
                continue
            seen.add(key)
            qs.append((None, {f.attr: v}))
            qs.append((type(x), {f.attr: v}))
            qs.append((type(x), {f.attr: None}))
            qs.append((type(x), {f.attr: "no such value"}))
            if f.attr not in seen:
                # a condition is equality with the value, not membership, pattern, prefix or truth
                seen.add(f.attr)
                qs.append((None, {f.attr: (v, "other")}))
                qs.append((None, {f.attr: [v]}))
                qs.append((None, {f.attr: type(v)}))
                qs.append((None, {f.attr: ".*"}))
                qs.append((None, {f.attr: ""}))
                if isinstance(v, str) and v:
                    qs.append((None, {f.attr: v[:-1]}))
                    qs.append((None, {f.attr: v.swapcase()}))
                    qs.append((None, {f.attr: v + " "}))
        if len(c.fields) > 1:
            f, g = c.fields[0], c.fields[-1]
            qs.append((None, {f.attr: getattr(x, f.attr), g.attr: getattr(x, g.attr)}))
            qs.append((type(x), {f.attr: getattr(x, f.attr), g.attr: "other"}))
        for derived in ("geometry", "begin", "end", "time_stamp", "normal", "highlight", "icon_href", "whens", "coords"):
            if hasattr(type(x), derived):
                qs.append((type(x), {derived: getattr(x, derived)}))
                qs.append((None, {derived: getattr(x, derived)}))
    qs += [(None, {"nonsense": 1}), (None, {"nonsense": None}), (fastkml.Placemark, {"nonsense": None}), (None, {"id": "id1", "nonsense": 2})]
    for i, (t, kw) in enumerate(qs):
        if part and i % part[1] != part[0]:
            continue
        d = one(o, places, ctx, of_type=t, **kw)
        if d:
            return d
    return None


def check(case, ctx):
    use("lxml")
    if "ops" in case:
        return edits(case["ops"], ctx)
    if "shared" in case:
        return shared(case, ctx)
    if "tuple" in case:
        return tuples(*case["tuple"], ctx)
    if "many" in case:
        return many(case["many"], ctx)
    if "alike" in case:
        return alike(*case["alike"], ctx)
    a = case["doc"] if "doc" in case else nested(*case["deep"]) if "deep" in case else list(big())[case["big"]]
    o = build(a)
    places = list(reach(o))
    part = case.get("part")
    if case["q"] == "types":
        return type_queries(o, places, ctx, part)
    if case["q"] == "values":
        return value_queries(o, places, ctx, part)
    for i, (path, x) in enumerate(places):
        if i % part[1] != part[0]:
            continue
        sub = list(reach(x))
        for q in list(CLS.values())[:: max(1, len(sub) // 40)] + list(SMALL) + [fastkml.Point, fastkml.Data, fastkml.styles.Style]:
            d = one(x, sub, ctx, of_type=q)
            if d:
                return "below %s: %s" % (path, d)
    return None


def many(spec, ctx):
    """A list of very many entries: all of them are found, in order, wherever the match is."""
    o = build(gen.large(spec))
    lst = getattr(o, spec[2])
    places = list(reach(o))
    t = CLS[spec[4]]
    qs = [(t, {}), (None, {})]
    for i in (0, 1, len(lst) // 2, len(lst) - 1):
        for f in SPEC[spec[4]].fields:
            v = getattr(lst[i], f.attr)
            if v is not None and f.kind not in ("list", "obj"):
                qs.append((t, {f.attr: v}))
                break
    qs.append((t, {SPEC[spec[4]].fields[0].attr: "no such value"}))
    for q, kw in qs:
        d = one(o, places, ctx, of_type=q, **kw)
        if d:
            return d[:2000]
    mine = {id(x) for x in lst}
    if [id(x) for x in find_all(o, of_type=t) if id(x) in mine] != [id(x) for x in lst]:
        return "the entries of %s are not found in list order" % spec
    return None


def tuples(c, attr, cls, ctx):
    """Entries assigned as a tuple instead of a list are found all the same."""
    f, q = SPEC[c].by_attr[attr], gen.Seq(70)
    o = build(gen.mini(c))
    holder = CLS["Placemark"](name="x")
    holder.extra = (o,)
    entries = tuple(build(gen.child(c, f, cls, q, 1)) for _ in range(3))
    setattr(o, attr, entries)
    for root, wrap in ((o, ()), (holder, (holder,))):
        for t in (CLS[cls], None, CLS[c]):
            got = [id(x) for x in find_all(root, of_type=t)] if t else [id(x) for x in find_all(root)]
            ctx.op()
            if t is not CLS[c] or c == cls:
                if [i for i in got if i in {id(e) for e in entries}] != [id(e) for e in entries]:
                    return "the entries of a tuple %s.%s are not found" % (c, attr)
            if t is not CLS[cls] or c == cls:
                if got.count(id(o)) != 1:
                    return "%s is found %d times" % (c, got.count(id(o)))
        places = [((i,), x) for i, x in enumerate(list(wrap) + [o])] + [((9, i) + p, x) for i, e in enumerate(entries) for p, x in reach(e)]
        want = {id(x) for _, x in places if isinstance(x, CLS["Coordinates"])}
        have = {id(x) for x in find_all(root, of_type=CLS["Coordinates"])}
        if c not in ("Polygon",) and want != have and not want <= have:
            return "the contents of a tuple %s.%s are not found" % (c, attr)
    return None


def nested(kind, n):
    q = gen.Seq(20)
    if kind == "MultiGeometry":
        a = {"$": "MultiGeometry", "kml_geometries": [gen.mini("Point", q)]}
        for i in range(n):
            a = {"$": "MultiGeometry", "id": "m%d" % i, "kml_geometries": [a, gen.mini("LineString", q)] if i % 3 else [a]}
        return gen.to_root(a)
    a = gen.full("Placemark", q, 0)
    for i in range(n):
        sib = gen.mini("Placemark", q)
        a = {"$": kind, "id": "f%d" % i, "features": [a] if i % 3 == 0 else [a, sib] if i % 3 == 1 else [sib, a]}
    return {"$": "KML", "features": [a]}


LIKE = ["None", "1", "True", "0", "False", "1.0", "", "none", "0.0", "NONE"]
ASK = [None, 1, True, 0, False, 1.0, 0.0, "None", "1", "True", "0", "False", "1.0", "", "none", b"1", (), []]


def alike(cname, attr, ctx):
    """Values whose texts look alike but which are not equal, asked for in every form."""
    f = SPEC[cname].by_attr[attr]
    if f.kind in ("text", "content", "@text"):
        vals = [None] + [t for t in LIKE if t]
    elif f.kind in ("int", "@int"):
        vals = [None, 0, 1, -1]
    elif f.kind in ("float", "@float"):
        vals = [None, 0.0, 1.0, 0.5]
    elif f.kind == "bool":
        vals = [None, True, False]
    else:
        vals = [None] + gen.small(cname, f)
    if (cname, attr) == ("Schema", "id"):
        vals = vals[1:]
    holder = next(((p, at) for p, at in gen.UP.get(cname, ()) if SPEC[p].by_attr[at].kind == "list"), None)
    items = [gen.put(gen.mini(cname, gen.Seq(i)), attr, v) for i, v in enumerate(vals)]
    asks = ASK + [make_value(f, v) for v in vals if v is not None] + [v for v in vals if isinstance(v, str)]
    if holder:
        roots = [dict(gen.mini(holder[0]), **{holder[1]: items})]
    else:
        roots = items
    for r in roots:
        o = build(r)
        places = list(reach(o))
        for v in asks:
            for t in (None, CLS[cname]):
                d = one(o, places, ctx, of_type=t, **{attr: v})
                if d:
                    return d
    return None


def shared(case, ctx):
    c, n = case["shared"], case["n"]
    x = build(gen.full(c, deep=1))
    doc = CLS["Document"](id="d")
    for i in range(n):
        pm = CLS["Placemark"](id="p%d" % i)
        if c == "Style":
            pm.styles.extend([x, x][: 1 + i % 2])
        elif c == "Placemark":
            pm = x
        elif c == "Region":
            pm.region = x
        elif c == "StyleUrl":
            pm.style_url = x
        elif c == "Point":
            pm.kml_geometry = CLS["MultiGeometry"](kml_geometries=[x, x])
        elif c == "Data":
            pm.extended_data = CLS["ExtendedData"](elements=[x, x])
        else:
            pm = CLS["GroundOverlay"](id="p%d" % i, icon=x)
        doc.features.append(pm)
    if c == "Style":
        doc.styles.append(x)
    k = CLS["KML"](features=[doc, doc])
    for o in (doc, k):
        places = list(reach(o))
        d = type_queries(o, places, ctx, case["part"]) or value_queries(o, places, ctx, case["part"])
        if d:
            return d
    return None


def edits(ops, ctx):
    q = gen.Seq(90)
    k = build({"$": "KML", "features": [{"$": "Document", "id": "d", "features": [gen.full("Placemark", q, 1), {"$": "Folder", "id": "f", "features": [gen.mini("Placemark", q)]}]}]})
    doc = k.features[0]
    watch = [CLS[c] for c in ("Placemark", "Folder", "Style", "StyleUrl", "Point", "LineString", "TimeStamp", "Region", "Data", "Camera", "LookAt", "Snippet")] + [KmlDateTime]
    for i, op in enumerate(ops):
        folder = doc.features[-1] if isinstance(doc.features[-1], CLS["Folder"]) else doc
        pm = doc.features[0]
        if op == 0:
            folder.append(build(gen.full("Placemark", q, 1)))
        elif op == 1:
            if len(doc.features) > 1:
                del doc.features[0]
        elif op == 2:
            doc.styles.append(build(dict(gen.full("Style", q, 1), id="s%d" % i)))
        elif op == 3:
            if isinstance(pm, CLS["Placemark"]):
                pm.style_url, pm.view, pm.extended_data = None, None, None
        elif op == 4:
            if isinstance(pm, CLS["Placemark"]):
                pm.kml_geometry = build(gen.full("LineString", q, 0))
                pm.times = CLS["TimeStamp"](timestamp=make_time("2001-02-03"))
        elif op == 5:
            doc.features.reverse()
        elif op == 6:
            pm.name = "renamed %d" % i
            pm.snippet = build(gen.full("Snippet", q))
        elif op == 7:
            k.features = [doc, build(gen.mini("Folder", q))]
        elif op == 8:
            doc.features.append(pm)
        places = list(reach(k))
        for c in watch:
            d = one(k, places, ctx, of_type=c)
            if d:
                return "after %s: %s" % (ops[: i + 1], d)
        for kw in ({"name": "renamed %d" % i}, {"id": "s%d" % i}, {"id": "f"}, {"name": None}, {"style_url": None}, {"visibility": None}):
            d = one(k, places, ctx, **kw) or one(k, places, ctx, of_type=CLS["Placemark"], **kw)
            if d:
                return "after %s: %s" % (ops[: i + 1], d)
    return None


_ = (make_value, enum_member, hashable)
