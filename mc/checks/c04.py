"""C04: malformed values - strict reading rejects them, lenient reading drops only them."""
import io
import itertools
import re

from bind import CLS
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from fastkml.exceptions import KMLParseError
from model import N, render
from spec import ENUMS

BOUNDS = {
    "quick": "every typed value of every element type, in 4 surroundings (alone, all siblings set, inside every parent, below the "
             "root), x every malformed text of its alphabet; every pair of malformed values in one object; malformed values in "
             "every position of a full document; partly good coordinate lists; every valid value, coordinate form and letter-case variant; both back ends, both modes",
    "thorough": "as quick, plus triples of malformed values and all pairs within two-level objects",
}
ASSUMPTIONS = ["malformed texts are taken from finite alphabets that contain only texts no reading of the XML Schema types accepts"]

BAD = {
    "bool": ["yes", "no", "x", "truee", "t", "0x1", "1 0", "none", "on", "-", "t rue", "\u0663x", "?", "#N/A", "null", "1/0", "!", "{}", "true.", "[true]", "\"true\"", "y", "T", "F", "false;", "x" * 2000],
    "int": ["x", "1.5", "1e3", "0x10", "--1", "1 2", "1,5", "one", "3px", "+-2", "1.0", "-", "nan", "12three", "?", "#N/A", "null", "1/0", "!", "{}", "%d", "12\u00b0", "5%", "5m", "$5", "1'000", "\u00bd", "(5)", "[5]", "=5", "5;", "0b1", "\"5\"", "5.", "<=5", "~5", "5 px", "1e0", "x" * 2000],
    "float": ["x", "1,5", "1 2", "--1", "0x1A", "1e", "12.3.4", "1.0f", "-", ".", "e5", "5 m", "1.5abc", "north", "?", "#N/A", "null", "1/0", "!", "{}", "$[x]", "12\u00b0", "5%", "5m", "$5", "1'000", "\u00bd", "(5)", "[5]", "=5", "5;", "0b1", "\"5\"", "<=5", "~5", "5 px", "1.5.", "12\u00b030'", "1d5", "x" * 2000],
    "date": ["x", "2000-13", "2000-00", "2000-02-30", "2001-02-29", "yesterday", "2000-01-01T25:00:00Z", "2000-01-01T10:61:00Z",
             "12/31/1999", "20-01-2000", "200", "2000-01-01T", "2000-01-32", "1999-04-31", "?", "#N/A", "null", "!", "{}", "now", "2000-1-1-1", "Jan 2000", "2000-01-01T10:00:00 PM", "2000-W60", "c. 2000", "2000-01-01 to 2001", "x" * 2000],
    "coords": ["a,b", "1,2,x", "1,2 3,y", "1.2.3,4", "--1,2", "1;2;3", "x", "1,,2", "1,2 oops 3,4", "N12,E13", "?", "?,?", "1,2 ?,4", "null", "1,2,#N/A", "1,2,", "1,2,3,", "(1,2)", "[1,2]", "1,2;3,4", "1\u00b0,2\u00b0", "1/2", "1|2", "1,2m", "\"1,2\"", "1:2",
               "1,2 3,4 5,6 x,y", "x,y 1,2 3,4 5,6 7,8", "1,2,3 4,5,6 7,8,x 9,9,9 1,1,1", "1,2 3,4 ... 5,6", " ".join(["1,2"] * 40 + ["x"]), "? " + " ".join(["1,2,3"] * 40)],
    "tuple": ["a b", "1 2 x", "1,2,3", "1", "1 2 3 4", "1 2 3 x", "x", "1..2 3", "? ?", "1 2 null", "(1 2 3)", "1;2;3", "1 2 3m", "[1 2 3]"],
}
STRICT_ONLY_BAD = {"bool": ["TRUE", "True", "FALSE", "fAlSe", "2", "-1", "1.0", "01", "0.0", "+1"]}


def bad_texts(kind, arg):
    if kind != "enum":
        return BAD[kind]
    out = ["bogus", "0", "x", "-", "?", "#N/A", "null", "!", "{}"]
    for v in ENUMS[arg]:
        out += [v + "x", "x" + v, v[:-1], v[:1] + "_" + v[1:], v + " " + v, "\"" + v + "\"", v + ".", v + ";"]
        words = re.findall("[A-Z]?[a-z0-9]+", v)
        for sep in (" ", "-", "_", ".", "/"):
            if len(words) > 1:
                out += [sep.join(words), sep.join(words).lower(), sep.join(words).upper()]
    for other, vs in ENUMS.items():
        if other != arg and vs[0].lower() not in [m.lower() for m in ENUMS[arg]]:
            out.append(vs[0])
    low = [m.lower() for m in ENUMS[arg]]
    return [t for t in dict.fromkeys(out) if t.lower() not in low]


def kind_of(f):
    k = f.kind.lstrip("@")
    return k if k in ("bool", "int", "float", "enum", "date", "coords") else None


def leaves(a):
    """(path, field) of every typed value that is set in a."""
    for path, x in gen.walk(a):
        for f in SPEC[x["$"]].fields:
            if kind_of(f) and x.get(f.attr) is not None:
                yield path, f
            elif f.kind == "track" and x.get("track_items"):
                for i in range(len(x["track_items"])):
                    for part in range(3):
                        if x["track_items"][i][part] is not None:
                            yield path, (i, part)


def groups(tier):
    return [c + "/" + k for c in NAMES for k in ("one", "valid", "pairs")] + ["everywhere", "empty"]


def shards(g, tier):
    return 8 if g == "everywhere" else 4 if tier == "thorough" else 1


def surroundings(cname):
    c = SPEC[cname]
    for f in c.fields:
        whole = gen.full(cname, deep=0)
        if kind_of(f):
            a = gen.mini(cname)
            a[f.attr] = whole[f.attr]
            yield a, f
            yield whole, f
        elif f.kind == "track":
            for n in (1, 2, 3):
                items = [["2010-05-28T02:02:0%dZ" % i, [1.0 + i, 2.0, 3.0], [10.0 + i, 1.0, 2.0]] for i in range(n)]
                a = dict(gen.full(cname, deep=0), track_items=items)
                for i in range(n):
                    for part in range(3):
                        yield a, (i, part)


def cases(group, tier):
    if group == "everywhere":
        roots = [gen.to_root(gen.full(c, deep=1)) for c in ("Document", "Placemark", "PhotoOverlay", "ScreenOverlay", "GroundOverlay", "NetworkLink", "NetworkLinkControl")]
        roots.append(gen.to_root({"$": "Folder", "features": [dict(gen.full("Placemark", gen.Seq(i), 0)) for i in range(3)]}))
        for r in roots:
            for path, f in leaves(r):
                yield fault(r, [(path, f, first_bad(f))])
                yield fault(r, [(path, f, "?")])
        for p, attr, ch in gen.edges():
            if SPEC[p].by_attr[attr].kind == "list" and p != "StyleMap":
                for n in (2, 9, 17, 70):
                    q = gen.Seq(60)
                    a = dict(gen.mini(p), **{attr: [gen.full(ch, q, 0) if i in (0, n // 2, n - 1) else gen.mini(ch, q) for i in range(n)]})
                    if ch == "Schema":
                        a[attr] = [dict(x, id="s%d" % i) for i, x in enumerate(a[attr])]
                    done = set()
                    for path, f in leaves(a):
                        if path and path[0] == attr and path[1] in (0, n // 2, n - 1) and path[1] not in done:
                            done.add(path[1])
                            yield fault(a, [(path, f, first_bad(f))])
                            yield fault(a, [(path, f, last_bad(f))])
        for p, attr, ch in gen.edges():
            a = gen.embed(gen.full(ch, deep=0), p, attr)
            for path, f in leaves(a):
                if path:
                    for t in every_bad(f):
                        yield fault(a, [(path, f, t)])
        return
    if group == "empty":
        for c in NAMES:
            whole = gen.full(c, deep=0)
            for f in SPEC[c].fields:
                if kind_of(f):
                    for t in ("", " ", "\n\t "):
                        if f.kind[0] != "@" or t == "":
                            yield dict(fault(whole, [((), f, t)]), empty=True)
        return
    cname, what = group.split("/")
    if what == "one":
        for a, f in surroundings(cname):
            ts = BAD["date" if f[1] == 0 else "tuple"] if isinstance(f, tuple) else bad_texts(kind_of(f), f.arg)
            for t in ts:
                yield fault(a, [((), f, t)])
            r = gen.to_root(a)
            if r is not None and r is not a:
                path = next(p for p, x in gen.walk(r) if x is a or (x["$"] == a["$"] and x == a))
                for t in ts[:3]:
                    yield fault(r, [(path, f, t)])
            if not isinstance(f, tuple) and kind_of(f) == "bool":
                for t in STRICT_ONLY_BAD["bool"]:
                    yield dict(fault(a, [((), f, t)]), strict_only=True)
    elif what == "valid":
        for a, f in surroundings(cname):
            if isinstance(f, tuple):
                continue
            k = kind_of(f)
            if k == "enum":
                for v in ENUMS[f.arg]:
                    for t in dict.fromkeys([v.upper(), v.lower(), v.title(), v.swapcase(), v]):
                        yield {"a": dict(a, **{f.attr: v}), "faults": [[[], f.attr, t]], "valid": "exact" if t == v else "case"}
            elif k == "bool":
                for v, t in ((True, "true"), (True, "1"), (False, "false"), (False, "0")):
                    yield {"a": dict(a, **{f.attr: v}), "faults": [[[], f.attr, t]], "valid": "exact"}
                for v, t in ((True, "TRUE"), (True, "True"), (False, "FALSE"), (False, "fAlSe")):
                    yield {"a": dict(a, **{f.attr: v}), "faults": [[[], f.attr, t]], "valid": "case"}
            elif k == "int":
                for t in ("0", "-0", "7", "-7", "+7", "007", "2147483648", "-99999999999"):
                    yield {"a": dict(a, **{f.attr: int(t)}), "faults": [[[], f.attr, t]], "valid": "exact"}
            elif k == "float":
                for t in ("0", "-0", "7", "-7", "+7", "007", ".5", "5.", "1e3", "1E-3", "-1.5e+2", "0.1", "1e400"[:3], "123456789012345678"):
                    yield {"a": dict(a, **{f.attr: float(t)}), "faults": [[[], f.attr, t]], "valid": "exact"}
            elif k == "coords":
                for t in ("1,2", "+1,-2", "1e3,2E-1", ".5,5.", "007,-0", "1,2,3", " 1,2\n\t3,4  5,6 ", "1,2,3 4,5,6", "1, 2 3, 4", "-122.0822035425683,37.42228990140251,0"):
                    yield {"a": dict(a, **{f.attr: [[float(x) for x in p.split(",")] for p in re.sub(", +", ",", t).split()]}), "faults": [[[], f.attr, t]], "valid": "exact"}
            elif k == "date":
                for t in gen.DATES:
                    yield {"a": dict(a, **{f.attr: t}), "faults": [[[], f.attr, t]], "valid": "exact"}
    else:
        whole = gen.full(cname, deep=1 if tier == "thorough" else 0)
        ls = [(p, f) for p, f in leaves(whole) if len(p) <= 2]
        for (p, f), (q, g) in itertools.combinations(ls[:40], 2):
            yield fault(whole, [(p, f, first_bad(f)), (q, g, last_bad(g))])
        if tier == "thorough":
            own = [(p, f) for p, f in ls if not p]
            for t in itertools.combinations(own[:12], 3):
                yield fault(whole, [(p, f, first_bad(f)) for p, f in t])
        if ls:
            yield fault(whole, [(p, f, first_bad(f)) for p, f in ls])


def first_bad(f):
    if isinstance(f, tuple):
        return BAD["date" if f[1] == 0 else "tuple"][0]
    return bad_texts(kind_of(f), f.arg)[0]


def every_bad(f):
    return BAD["date" if f[1] == 0 else "tuple"] if isinstance(f, tuple) else bad_texts(kind_of(f), f.arg)


def last_bad(f):
    if isinstance(f, tuple):
        return BAD["date" if f[1] == 0 else "tuple"][-1]
    return bad_texts(kind_of(f), f.arg)[-1]


def fault(a, fs):
    return {"a": a, "faults": [[list(p), f.attr if not isinstance(f, tuple) else list(f), t] for p, f, t in fs]}


def spoil(a, faults):
    """The document with the texts replaced, and the object without those values."""
    node = expected(a, keep=True)
    by_src = {}

    def index(n):
        if n.src is not None:
            by_src[id(n.src)] = n
        for k in n.kids:
            index(k)

    index(node)
    out = a
    dropped = {}
    for path, f, text in faults:
        x = gen.at(a, path)
        n = by_src[id(x)]
        if isinstance(f, list):
            i, part = f
            kids = [k for k in n.kids if k.tag == ("when", "coord", "angles")[part]]
            kids[i].text = text
            dropped.setdefault(tuple(path), []).append((i, part))
            continue
        fld = SPEC[x["$"]].by_attr[f]
        if fld.kind[0] == "@":
            n.attrs[fld.xml] = text
        elif fld.kind == "coords":
            n.text = text
        else:
            next(k for k in n.kids if k.tag == fld.xml).text = text
        y = dict(gen.at(out, path))
        y.pop(f)
        out = gen.replaced(out, path, y) if path else y
    for path, lst in dropped.items():
        y = dict(gen.at(out, path))
        items = [list(i) for i in y["track_items"]]
        for i, part in lst:
            items[i][part] = (0.0, 0.0, 0.0) if part == 2 else None
        items = [i for i in items if i[0] is not None and i[1] is not None]
        if items:
            y["track_items"] = items
        else:
            y.pop("track_items")
        out = gen.replaced(out, list(path), y) if path else y
    return node, out


def check(case, ctx):
    a = case["a"]
    node, without = spoil(a, case["faults"])
    text = render(node)
    cls = CLS[a["$"]]
    valid = case.get("valid")
    for b in BACK:
        use(b)
        # strict
        want = norm(a, group=True) if valid == "exact" else norm(without, group=True) if case.get("empty") else None
        readers = [lambda: cls.from_string(text)]
        if cls is CLS["KML"]:
            readers.append(lambda: cls.parse(io.BytesIO(text.encode()), validate=False))
        for rd in readers:
            ctx.op()
            try:
                o = rd()
            except KMLParseError:
                if want is not None:
                    return "%s: strict reading rejects valid text: %s" % (b, text[:700])
                ctx.outcome("rejected")
            else:
                if want is None:
                    return "%s: strict reading accepts %s in %s" % (b, case["faults"], text[:700])
                d = diff(see(o, group=True), expect_read(want))
                if d:
                    return "%s: strict: %s\nfrom %s" % (b, d, text[:700])
        if case.get("strict_only"):
            continue
        want = expect_read(norm(a if valid else without, group=True))
        readers = [lambda: cls.from_string(text, strict=False)]
        if cls is CLS["KML"]:
            readers.append(lambda: cls.parse(io.BytesIO(text.encode()), strict=False))
        for rd in readers:
            ctx.op()
            o = rd()
            d = diff(see(o, group=True), want)
            if d:
                return "%s: lenient: %s\nfrom %s" % (b, d, text[:700])
            ctx.outcome("read")
    return None


FINDINGS = [
    {"key": "lod-decimal", "case": {"a": {"$": "Lod", "min_lod_pixels": 256}, "faults": [[[], "min_lod_pixels", "256.0"]], "valid": "exact"}},
    {"key": "underscore", "case": {"a": {"$": "Lod", "min_lod_pixels": 256}, "faults": [[[], "min_lod_pixels", "2_56"]]}},
]
_ = N
