"""C03: writing emits exactly the current content, in schema order - after any edit history."""
import itertools

from bind import CLS, build_shared, make_value
from checks.common import *  # noqa: F403
from explore import dumps

BOUNDS = {
    "quick": "object space of C01 including incomplete parts; edit histories: from 3 start objects per type every single assignment "
             "(wide alphabets, removal), every ordered pair of assignments of different fields (small alphabets), every list "
             "history of <= 3 operations out of 12 (one appends the same object again) on every list field, and every single assignment two levels below; "
             "tuples in place of lists, many objects in a row; output compared before and after every step, both back ends",
    "thorough": "as quick with triples, pairs from full objects, list histories of <= 4 operations",
}
ASSUMPTIONS = ["values are assigned in their documented types"]


def groups(tier):
    return [c + "/" + k for c in NAMES for k in ("space", "assign", "nested")] + ["lists/" + c + "/" + f.attr for c in NAMES for f in SPEC[c].fields if f.kind == "list"] + ["large"]


def shards(g, tier):
    if g == "large":
        return 16
    big = g.split("/")[0] in ("Folder", "Document", "PhotoOverlay", "ScreenOverlay", "GroundOverlay", "NetworkLink", "Placemark", "KML")
    return 8 if tier == "thorough" else 4 if big else 1


def settable(f, v):
    """Assigned text is not trimmed by the library; only trimmed text is assigned."""
    return not isinstance(v, str) or v == v.strip()


SEQ = ("list", "track", "coords")
LISTOPS = ["append0", "append1", "insert0", "pop", "pop0", "reverse", "clear", "extend", "replace", "setitem", "slice", "again"]


def cases(group, tier):
    if group == "large":
        for s in gen.large_specs(tier):
            yield {"large": s, "steps": []}
        return
    if group.startswith("lists/"):
        _, c, attr = group.split("/")
        for depth in range(1, 4 if tier == "quick" else 5):
            for ops in itertools.product(LISTOPS, repeat=depth):
                yield {"list": [c, attr], "ops": list(ops)}
        return
    cname, what = group.split("/")
    c = SPEC[cname]
    if what == "space":
        for a in object_space(cname, tier):
            yield {"start": a, "steps": []}
        return
    starts = [gen.mini(cname), gen.full(cname, deep=0)] + ([{"$": cname}] if cname != "Schema" else [])
    if what == "assign":
        for s in starts:
            for f in c.fields:
                if cname == "Schema" and f.attr == "id":
                    continue
                for v in [None] + gen.wide(cname, f):
                    if settable(f, v) and not (f.kind in SEQ and v is None):
                        yield {"start": s, "steps": [[f.attr, v]]}
        for s in starts[:1] if tier == "quick" else starts:
            for f, g in itertools.permutations(c.fields, 2):
                for v in [None if f.kind not in SEQ else []] + gen.small(cname, f)[:2]:
                    for w in [None if g.kind not in SEQ else []] + gen.small(cname, g)[:1]:
                        yield {"start": s, "steps": [[f.attr, v], [g.attr, w], [f.attr, None if f.kind not in SEQ else []]]}
    else:
        whole = gen.full(cname, deep=1)
        for path, x in gen.walk(whole):
            if not path or len(path) > 4:
                continue
            for f in SPEC[x["$"]].fields:
                if (x["$"], f.attr) == ("Schema", "id"):
                    continue
                for v in [None] + gen.small(x["$"], f):
                    yield {"start": whole, "path": list(path), "steps": [[f.attr, v if v is not None or f.kind not in SEQ else []]]}


def descend(o, path):
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


def written(o, a, ctx, where):
    exp = expected(a)
    for b in BACK:
        use(b)
        t1 = o.to_string()
        t2 = o.to_string()
        ctx.op(2)
        if t1 != t2:
            return "%s: %s: writing twice gives different text" % (where, b)
        d = match(infoset(t1), exp)
        if d:
            return "%s: %s: %s\nin %s" % (where, b, d, t1[:900])
        if b == "lxml" and where == "start":
            d = match(infoset(o.to_string(prettyprint=False)), exp)
            ctx.op()
            if d:
                return "%s: %s, prettyprint=False: %s" % (where, b, d)
    if str(o) != t1:
        return "%s: str(object) differs from to_string()" % where
    return None


def check(case, ctx):
    use("lxml")
    if "list" in case:
        return check_list(case, ctx)
    a = gen.large(case["large"]) if "large" in case else case["start"]
    o = build(a)
    path = case.get("path", [])
    if not case["steps"]:
        d = written(o, a, ctx, "start")
        if d:
            return d
        if repeats(a):
            d = written(build_shared(a), a, ctx, "with equal parts being one object")
            if d:
                return d
    elif len(case["steps"]) == 1:
        o.to_string(), bool(o), repr(o), o == o  # anything kept from before the edit must not show
    for i, (attr, v) in enumerate(case["steps"]):
        x = gen.at(a, path)
        y = dict(x)
        if v is None:
            y.pop(attr, None)
        else:
            y[attr] = v
        a = gen.replaced(a, path, y) if path else y
        f = SPEC[x["$"]].by_attr[attr]
        use("lxml")
        setattr(descend(o, path), attr, make_value(f, v) if v is not None or f.kind not in SEQ else [])
        d = written(o, a, ctx, "after step %d (%s)" % (i + 1, attr))
        if d:
            return d
    return None


def repeats(a):
    """Does the object have equal parts?"""
    seen = set()
    for path, x in gen.walk(a):
        k = dumps(x)
        if k in seen:
            return True
        seen.add(k)
    return False


def check_list(case, ctx):
    c, attr = case["list"]
    f = SPEC[c].by_attr[attr]
    q = gen.Seq(40)
    # entries are grouped in library order so that re-reading is not needed here
    pool = [gen.child(c, f, cls, q, 0) for cls in f.arg for _ in range(2)][:4] or []
    one = gen.child(c, f, f.arg[-1], q, 0)
    a = dict(gen.mini(c), **{attr: [pool[0], pool[-1]]})
    o = build(a)
    lst = list(a[attr])
    o.to_string(), bool(o), repr(o)
    for i, op in enumerate(case["ops"]):
        real = getattr(o, attr)
        if op in ("append0", "append1"):
            x = pool[0] if op == "append0" else one
            if attr in ("features", "fields") and hasattr(o, "append"):
                o.append(build(x))
            elif attr == "data" and hasattr(o, "append_data"):
                o.append_data(build(x))
            else:
                real.append(build(x))
            lst.append(x)
        elif op == "insert0":
            real.insert(0, build(one))
            lst.insert(0, one)
        elif op == "pop":
            if lst:
                real.pop()
                lst.pop()
        elif op == "pop0":
            if lst:
                del real[0]
                del lst[0]
        elif op == "reverse":
            real.reverse()
            lst.reverse()
        elif op == "clear":
            real.clear()
            lst.clear()
        elif op == "extend":
            real.extend([build(pool[-1]), build(pool[0])])
            lst.extend([pool[-1], pool[0]])
        elif op == "replace":
            setattr(o, attr, [build(one), build(pool[0])])
            lst = [one, pool[0]]
        elif op == "setitem":
            if lst:
                real[-1] = build(one)
                lst[-1] = one
        elif op == "again":
            if lst:
                real.append(real[-1])
                lst.append(lst[-1])
        elif op == "slice":
            real[1:] = [build(pool[1 % len(pool)])]
            lst[1:] = [pool[1 % len(pool)]]
        a = dict(a, **{attr: list(lst)})
        d = written(o, a, ctx, "after %s" % case["ops"][: i + 1])
        if d:
            return d
    if len(case["ops"]) < 3:
        setattr(o, attr, tuple(getattr(o, attr)))
        return written(o, a, ctx, "after %s, held in a tuple" % case["ops"])
    return None


_ = (CLS, dumps)
