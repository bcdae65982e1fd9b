"""C13: operations have no hidden side effects and objects share no hidden state."""
import copy
import gc
import io
import itertools
import os
import pathlib
import sys
import tempfile
import warnings
import xml.etree.ElementTree as ET
import zipfile

import fastkml
import fastkml.validator
from bind import BACKENDS, CLS, config, infoset, make_value
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from fastkml import registry as regmod
from model import render
from spec import NS

BOUNDS = {
    "quick": "every ordered pair of 18 reading operations on 4 objects of each of the 61 types; for 10 ways (one with empty arguments) to obtain two objects "
             "separately: every edit of every field, list and namespace table of every part of one of them; every history of 4 "
             "operations (create, edit, grow, edit namespaces, query, copy, read) over 2 live objects of 6 kinds; streams, elements and own namespace tables left as they were",
    "thorough": "as quick with every triple of reading operations on full objects, deeper objects and histories of 5 operations",
}
ASSUMPTIONS = [
    "deepcopy is left out for tracks: the geometry library's points cannot be deep-copied",
    "objects passed as children are shared on purpose; lists and mappings passed as arguments are not",
    "state is observed through public attributes, namespaces, identities of parts and lists, and the library's global tables",
]

PURE = [
    "to_string", "plain", "terse", "verbose", "precise", "element", "eq self", "eq other", "ne none", "repr", "str", "bool",
    "attributes", "find_all", "find none", "validate", "read back", "deepcopy",
]
GX = ("Track", "MultiTrack")


def groups(tier):
    return [k + "/" + c for c in NAMES for k in ("pure", "share")] + ["history/%d" % i for i in range(len(FAMILIES))] + ["streams", "elements", "tables"]


def shards(g, tier):
    if g.startswith("history"):
        return 16
    return 2 if tier == "quick" else 4


def bases(c, tier):
    yield {"$": c, "id": "i"} if c == "Schema" else {"$": c}
    yield gen.mini(c)
    yield gen.full(c, deep=0)
    yield gen.full(c, deep=1)
    if tier == "thorough":
        yield gen.full(c, deep=2)


WAYS = ["construct", "bare", "read lxml", "read std", "write and read", "deepcopy", "shared arguments", "shared name_spaces", "element", "empty arguments"]


def cases(group, tier):
    kind, _, c = group.partition("/")
    if kind == "tables":
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=1)):
                for i in range(len(TABLES)):
                    for op in PURE:
                        yield {"table": i, "of": a, "op": op}
        return
    if kind == "elements":
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=1)):
                for b in BACK:
                    yield {"element": a, "backend": b}
        return
    if kind == "streams":
        docs = [gen.to_root(a) for a in (gen.mini("Placemark"), dict(gen.mini("Document"), id="d", name="n", features=[dict(gen.mini("Placemark"), id="p%d" % i) for i in range(3)]), gen.mini("Track"), {"$": "KML"}, dict(gen.mini("Folder"), name="Z\u00fcrich \u6771"))]
        for d in docs:
            for k in STREAMS:
                for b in BACK:
                    for kw in ({}, {"validate": False}, {"validate": True}, {"strict": False}, {"strict": False, "validate": True}):
                        yield {"stream": d, "kind": k, "backend": b, "kw": kw}
        return
    if kind == "pure":
        for i, a in enumerate(bases(c, tier)):
            for seq in itertools.product(PURE, repeat=2):
                yield {"pure": a, "ops": list(seq)}
            if tier == "thorough" and i == 2:
                for seq in itertools.product(PURE, repeat=3):
                    yield {"pure": a, "ops": list(seq)}
    elif kind == "share":
        for a in bases(c, tier):
            for w in WAYS:
                for which in (0, 1):
                    yield {"share": a, "way": w, "edited": which}
    else:
        for seq in itertools.product(HOPS, repeat=5 if tier == "thorough" else 4):
            if seq[0][1] == "B":  # both start alike
                continue
            yield {"family": int(c), "history": list(seq)}


# ---------------------------------------------------------------- observation
def snapshot(o):
    """Content, namespaces and identity of an object and all its parts."""
    c = SPEC[CLS_NAME[type(o)]]
    out = [id(o), o.ns, tuple(sorted(o.name_spaces.items()))]
    for f in c.fields:
        v = getattr(o, f.attr)
        if v is None:
            out.append(None)
        elif f.kind == "obj":
            out.append(snapshot(v))
        elif f.kind == "list":
            out.append((id(v), [snapshot(x) for x in v]))
        else:
            out.append(repr(v))
    return out


CLS_NAME = {v: k for k, v in CLS.items()}


def world():
    """The library's and the process's global settings."""
    return (
        dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES), config.KMLNS, config.ATOMNS, config.GXNS, id(config.etree),
        {n: tuple(regmod.registry.get(c)) for n, c in CLS.items()},
        dict(ET._namespace_map), [BACKENDS[b].tostring(BACKENDS[b].Element(n[0] + "a")) for b in BACK for n in ((config.KMLNS,), (config.GXNS,), (config.ATOMNS,), ("{u}",))],
        sys.getrecursionlimit(), len(warnings.filters), os.getcwd(), os.environ.get("TZ"),
    )


_WORLD = {}


def start(b="lxml"):
    if not _WORLD:
        for x in BACK:
            use(x)
    use(b)
    if b not in _WORLD:
        _WORLD[b] = world()
    return _WORLD[b]


def check(case, ctx):
    try:
        if "pure" in case:
            return pure(case, ctx)
        if "share" in case:
            return share(case, ctx)
        if "table" in case:
            return tables(case, ctx)
        if "element" in case:
            return element(case, ctx)
        if "stream" in case:
            return stream(case, ctx)
        return history(case, ctx)
    finally:
        use("lxml")


# ---------------------------------------------------------------- reading operations
def perform(op, o, other, text):
    """Execute a reading operation; its comparable result."""
    if op == "to_string":
        return o.to_string()
    if op == "plain":
        return o.to_string(prettyprint=False)
    if op in VERB:
        return o.to_string(verbosity=VERB[op])
    if op == "precise":
        return o.to_string(precision=2)
    if op == "element":
        return repr(infoset(config.etree.tostring(o.etree_element(), encoding="unicode")))
    if op == "eq self":
        return (o == o, o == other, other == o)
    if op == "eq other":
        return (o == fastkml.Placemark(name="q"), o == 1, o != other)
    if op == "ne none":
        return (o is not None and o != None, o == None)  # noqa: E711
    if op == "repr":
        return repr(o)
    if op == "str":
        return str(o)
    if op == "bool":
        return bool(o)
    if op == "attributes":
        out = []
        for n in sorted(set(dir(type(o))) | set(vars(o))):
            if n[0] != "_":
                v = getattr(o, n)
                if not callable(v):
                    out.append((n, repr(v)))
        return out
    if op == "find_all":
        return [id(x) if type(x) in CLS_NAME else type(x) for x in fastkml.find_all(o)]
    if op == "find none":
        return fastkml.find(o, of_type=CLS["Schema"], name="no such name")
    if op == "validate":
        try:
            return o.validate()
        except AssertionError as e:
            return str(e)
    if op == "read back":
        x = type(o).from_string(text)
        return repr(see(x)), x == other
    if op == "deepcopy":
        if tracked(o):
            return None
        x = copy.deepcopy(o)
        return repr(see(x)), x == o, [i for i in ids(x) if i in ids(o)]
    raise KeyError(op)


def tracked(o):
    """Track positions are geometries of pygeoif, which refuses to deepcopy them."""
    return any(type(x) is CLS["Track"] for x in fastkml.find_all(o))


def ids(o):
    out = []

    def go(s):
        out.append(s[0])
        for x in s[3:]:
            if isinstance(x, tuple):
                for y in x[1]:
                    go(y)
            elif isinstance(x, list):
                go(x)

    go(snapshot(o))
    return out


_ALONE = {}


def alone(a, op, text):
    """The result of the operation on an untouched object."""
    from explore import dumps
    k = (dumps(a), op)
    if k not in _ALONE:
        if len(_ALONE) > 200:
            _ALONE.clear()
        _ALONE[k] = neutral(perform(op, build(a), build(a), text), op)
    return _ALONE[k]


def neutral(r, op):
    """Results without addresses."""
    if op == "find_all":
        return [x if isinstance(x, type) else "object" for x in r]
    return r


def pure(case, ctx):
    a = case["pure"]
    w = start()
    o, other = build(a), build(a)
    text = render(expected(a))
    before, before2 = snapshot(o), snapshot(other)
    for i, op in enumerate(case["ops"]):
        ctx.op()
        want = alone(a, op, text)
        for again in (False, True):
            got = perform(op, o, other, text)
            if neutral(got, op) != want:
                return "%s after %s%s gives %s, on an untouched object %s" % (op, case["ops"][:i], " repeated" if again else "", str(got)[:400], str(want)[:400])
            if snapshot(o) != before:
                return "%s after %s changed the object: %s" % (op, case["ops"][:i], where(before, snapshot(o)))
            if snapshot(other) != before2:
                return "%s after %s changed the other object" % (op, case["ops"][:i])
    if world() != w:
        return "%s changed global settings: %s" % (case["ops"], where(w, world()))
    return None


def where(x, y, path=""):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return where(p, q, path + "/%d" % i)
    return "%s: %s -> %s" % (path, str(x)[:200], str(y)[:200])


STREAMS = ["StringIO", "BytesIO", "text file", "binary file", "zip member", "path", "text path"]


def stream(case, ctx):
    """Reading leaves what is read from as it was: open, unchanged, readable again; one object per reading."""
    a, kind = case["stream"], case["kind"]
    start()
    use(case["backend"])
    text = render(expected(a))
    data = text.encode()
    want = expect_read(norm(a, True))
    with tempfile.TemporaryDirectory(prefix="mc13-") as d:
        path = os.path.join(d, "x.kml")
        with open(path, "wb") as f:
            f.write(data)
        if kind == "zip member":
            with zipfile.ZipFile(os.path.join(d, "x.kmz"), "w") as z:
                z.writestr("doc.kml", data)
        z = None
        if kind == "StringIO":
            f = io.StringIO(text)
        elif kind == "BytesIO":
            f = io.BytesIO(data)
        elif kind == "text file":
            f = open(path, encoding="utf-8")
        elif kind == "binary file":
            f = open(path, "rb")
        elif kind == "zip member":
            z = zipfile.ZipFile(os.path.join(d, "x.kmz"))
            f = z.open("doc.kml")
        else:
            f = path if kind == "text path" else pathlib.Path(path)
        before = open_files()
        objs = []
        for i in range(3):
            objs.append(CLS["KML"].parse(f, **case["kw"]))
            ctx.op()
            if hasattr(f, "closed") and f.closed:
                return "%s %s: reading closed the stream" % (case["backend"], kind)
            if "IO" in kind and f.getvalue() != (text if kind == "StringIO" else data):
                return "%s %s: reading changed the stream" % (case["backend"], kind)
            x = diff(see(objs[-1], True), want)
            if x:
                return "%s %s, reading %d: %s" % (case["backend"], kind, i + 1, x)
            if "path" not in kind:
                f.seek(0)
        if open_files() != before:
            return "%s %s: reading left a file open" % (case["backend"], kind)
        if len({n for o in objs for n in ids(o)}) != sum(len(ids(o)) for o in objs):
            return "%s %s: separate readings share parts" % (case["backend"], kind)
        if "path" not in kind:
            if f.read() != (text if kind in ("StringIO", "text file") else data):
                return "%s %s: the stream reads otherwise afterwards" % (case["backend"], kind)
            f.close()
        if z is not None:
            z.close()
        if set(os.listdir(d)) - {"x.kml", "x.kmz"}:
            return "reading left files behind: %s" % os.listdir(d)
        with open(path, "rb") as f:
            if f.read() != data:
                return "reading changed the file"
    return None


def element(case, ctx):
    """Elements handed to the library - read or validated, valid or not - stay as they are."""
    a = case["element"]
    start()
    use(case["backend"])
    et = BACKENDS[case["backend"]]
    cls = CLS[a["$"]]
    text = render(expected(a))
    for spelling in (text, text.replace(">", ">\n   ", 1), text.replace("</", "<x:unknown xmlns:x='urn:x'>1</x:unknown></", 1), text.replace(">", "><!-- c -->", 1),
                     text.replace("</", "<bogus/></", 1)):
        root = et.fromstring(spelling)
        outer = et.Element("outer")
        outer.text = "\n"
        inner = et.fromstring(spelling)
        inner.tail = " tail "
        outer.append(inner)
        for e, whole in ((root, root), (inner, outer)):
            before = et.tostring(whole)
            for what in ("validate", "read", "read lenient", "validate again", "kwargs"):
                ctx.op()
                try:
                    if what.startswith("validate"):
                        fastkml.validator.validate(element=e)
                    else:
                        cls.class_from_element(ns=config.GXNS if a["$"] in GX else "{%s}" % NS["atom"] if a["$"].startswith("atom") else config.KMLNS,
                                               name_spaces=None, element=e, strict=what == "read")
                except AssertionError:
                    pass
                if et.tostring(whole) != before:
                    return "%s of an element changed it: %s -> %s" % (what, before[:300], et.tostring(whole)[:300])
    return None


TABLES = [
    {"other": "{http://www.w3.org/2005/Atom}", "zz": "{http://www.opengis.net/kml/2.2}", "ext": "{http://www.google.com/kml/ext/2.2}"},
    {"kml": "{http://earth.google.com/kml/2.1}", "gx": "{http://e.example/gx}", "atom": "{http://e.example/atom}"},
    {"": "{u}", "u": "{u}", "ns0": "{http://e.example/0}"},
]


def tables(case, ctx):
    """Objects with their own namespace table leave the global tables, their table and other objects alone."""
    a, op = case["of"], case["op"]
    w = start()
    plain = build(a)
    text = plain.to_string()
    table = dict(TABLES[case["table"]])
    args = shallow_args(a)
    o = CLS[a["$"]](ns=None, name_spaces=table, **args)
    other = CLS[a["$"]](ns=None, name_spaces=table, **args)
    own = dict(o.name_spaces)
    before = snapshot(o)
    first = None
    for again in (False, True):
        ctx.op()
        got = perform(op, o, other, text)
        if again and neutral(got, op) != first:
            return "%s with the table %s repeated gives another result" % (op, table)
        first = neutral(got, op)
        if snapshot(o) != before or o.name_spaces != own or table != TABLES[case["table"]]:
            return "%s with the table %s changed the object or the table" % (op, table)
        if world() != w:
            return "%s with the table %s changed global settings: %s" % (op, table, where(w, world()))
        if plain.to_string() != text or build(a).to_string() != text:
            return "%s with the table %s changed how other objects are written" % (op, table)
    return None


def open_files():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


# ---------------------------------------------------------------- separate objects
def shallow_args(a):
    """Constructor arguments whose lists are reused for two objects."""
    c = SPEC[a["$"]]
    return {k: make_value(c.by_attr[k], v) for k, v in a.items() if k[0] != "$"}


def share(case, ctx):
    a, way = case["share"], case["way"]
    cls = CLS[a["$"]]
    w = start("std" if way == "read std" else "lxml")
    text = render(expected(a))
    ns = {"kml": config.KMLNS, "extra": "{http://e.example/x}"}
    if case["edited"]:
        ns = {**ns, "gx": config.GXNS, "atom": config.ATOMNS}
    ns0 = dict(ns)
    args, args0 = {}, {}
    deep = True

    def make():
        if way in ("construct", "deepcopy", "write and read"):
            return build(a)
        if way == "bare":
            return cls(id="i") if a["$"] == "Schema" else cls()
        if way in ("read lxml", "read std"):
            return cls.from_string(text)
        if way in ("shared arguments", "empty arguments"):
            return cls(ns=None, name_spaces=ns, **args)
        if way == "shared name_spaces":
            if a["$"] == "KML" and case["edited"]:
                return cls.parse(io.BytesIO(text.encode()), name_spaces=ns, validate=False)
            return cls.from_string(text, name_spaces=ns)
        return cls.class_from_element(ns=config.GXNS if a["$"] in GX else config.KMLNS, name_spaces=ns, element=element, strict=True)

    element = config.etree.fromstring(text)
    xml0 = config.etree.tostring(element)
    if way in ("shared arguments", "empty arguments"):
        args = shallow_args(a)
        if way == "empty arguments":
            args.update({f.attr: [] for f in SPEC[a["$"]].fields if f.kind in ("list", "track", "coords")})
        args0 = {k: list(v) if isinstance(v, list) else v for k, v in args.items()}
        deep = False
    pair = [make(), None]
    if way == "deepcopy" and not tracked(pair[0]):
        pair[1] = copy.deepcopy(pair[0])
    elif way == "write and read":
        pair[1] = cls.from_string(pair[0].to_string())
    else:
        pair[1] = make()
    x, y = pair[case["edited"]], pair[1 - case["edited"]]
    pristine = content(make() if way != "bare" else y)
    before = snapshot(y)
    before_text = y.to_string()
    if deep:
        common = set(ids(x)) & set(ids(y))
        if common:
            return "%s: two separate objects share parts" % way
    parts = list(tree(x)) if deep else [x]
    for part in parts:
        for what in edit(part):
            ctx.op()
            if snapshot(y) != before:
                return "%s: %s of %s of one object changed the other: %s" % (way, what, type(part).__name__, where(before, snapshot(y)))
            if ns != ns0:
                return "%s: %s of %s changed the mapping passed in: %s" % (way, what, type(part).__name__, ns)
            for k, v in args.items():
                if isinstance(v, list) and (len(v) != len(args0[k]) or any(p is not q for p, q in zip(v, args0[k]))):
                    return "%s: %s of %s changed the list passed in as %s" % (way, what, type(part).__name__, k)
    if world() != w:
        return "%s: edits changed global settings: %s" % (way, where(w, world()))
    if y.to_string() != before_text:
        return "%s: edits of one object changed the output of the other" % way
    if config.etree.tostring(element) != xml0:
        return "%s: the element read was changed" % way
    z = make()
    if content(z) != pristine:
        return "%s: after edits a new object differs: %s" % (way, where(pristine, content(z)))
    if way == "construct":
        # the element written is detached from the object, in both directions
        e1, e2 = y.etree_element(), y.etree_element()
        for e in e1.iter():
            e.text, e.tail = "changed", "changed"
            e.set("x", "changed")
        s = config.etree.tostring(e2)
        if snapshot(y) != before or y.to_string() != before_text:
            return "editing a written element changed the object"
        for _ in edit(y):
            pass
        if config.etree.tostring(e2) != s or b"changed" in s:
            return "editing changed an element written earlier"
    return None


def content(o):
    """Snapshot without identities."""
    def strip(s):
        return [strip(x) if isinstance(x, list) else [strip(y) for y in x[1]] if isinstance(x, tuple) and x and isinstance(x[0], int) else x
                for x in s[1:]]
    return strip(snapshot(o))


def tree(o):
    c = SPEC[CLS_NAME[type(o)]]
    for f in c.fields:
        v = getattr(o, f.attr)
        if f.kind == "obj" and v is not None:
            yield from tree(v)
        elif f.kind == "list":
            for x in list(v):
                yield from tree(x)
    yield o


def edit(o):
    """Perform every edit of the object, one after the other; yields after each."""
    c = SPEC[CLS_NAME[type(o)]]
    o.name_spaces["kml"] = "{http://changed}"
    yield "changing name_spaces"
    o.name_spaces["new"] = "{http://new}"
    yield "adding to name_spaces"
    o.name_spaces.clear()
    yield "clearing name_spaces"
    o.ns = "{http://changed}"
    yield "changing ns"
    for f in c.fields:
        v = getattr(o, f.attr)
        if isinstance(v, list):
            v.reverse()
            yield "reversing " + f.attr
            v.extend(make_value(f, gen.small(c.name, f)[-1]))
            yield "extending " + f.attr
            v.pop(0)
            yield "shortening " + f.attr
            v.clear()
            yield "clearing " + f.attr
            v.append("rubbish")
            yield "appending to " + f.attr
            v.clear()
        else:
            for t in gen.small(c.name, f)[-1:]:
                setattr(o, f.attr, make_value(f, t))
                yield "assigning " + f.attr
            setattr(o, f.attr, None)
            yield "removing " + f.attr


# ---------------------------------------------------------------- histories
def _polygon():
    a = gen.mini("Placemark")
    a["kml_geometry"] = gen.full("Polygon", deep=1)
    return a


FAMILIES = [
    # base, edit (path, attr, values), grow (path, attr, entries)
    (dict(gen.mini("Document"), features=[gen.mini("Placemark")]), ((), "name", ["A", "B"]), ((), "features", [gen.mini("Placemark")])),
    (dict(gen.mini("KML"), features=[dict(gen.mini("Folder"), features=[gen.mini("Placemark")])]), (("features", 0, "features", 0), "name", ["A", "B"]),
     (("features", 0), "features", [gen.mini("Placemark")])),
    (_polygon(), (("kml_geometry",), "extrude", [True, False]), (("kml_geometry",), "inner_boundaries", [gen.mini("InnerBoundaryIs")])),
    (gen.full("StyleMap", deep=1), (("pairs", 0), "key", ["highlight", "normal"]), ((), "pairs", [gen.mini("Pair")])),
    ({"$": "Track", "altitude_mode": "absolute", "track_items": [["2000", [1.0, 2.0], [1.0, 2.0, 3.0]]]}, ((), "altitude_mode", ["relativeToGround", "clampToGround"]),
     ((), "track_items", [["2001", [3.0, 4.0], [4.0, 5.0, 6.0]]])),
    ({"$": "ExtendedData", "elements": [gen.mini("Data"), gen.full("SchemaData", deep=1)]}, (("elements", 0), "value", ["A", "B"]), (("elements", 1), "data", [gen.mini("SimpleData")])),
]
HOPS = "nA nB eA eB gA gB sA sB qA qB cAB cBA rAB rBA".split()


def at_real(o, path):
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


def history(case, ctx):
    w = start()
    base, ed, gr = FAMILIES[case["family"]]
    cls = CLS[base["$"]]
    tables0 = dict(build(base).name_spaces)
    slot = {s: [build(base), base, dict(tables0)] for s in "AB"}
    n = 0
    for op in case["history"]:
        ctx.op()
        n += 1
        k, s = op[0], op[1]
        real, abst, table = slot[s]
        if k == "n":
            slot[s] = [build(base), base, dict(tables0)]
        elif k == "e":
            path, attr, vals = ed
            v = vals[n % 2]
            x = gen.put(gen.at(abst, path), attr, v)
            slot[s][1] = gen.replaced(abst, path, x) if path else x
            setattr(at_real(real, path), attr, make_value(SPEC[x["$"]].by_attr[attr], v))
        elif k == "g":
            path, attr, vals = gr
            v = vals[n % len(vals)]
            y = gen.at(abst, path)
            x = gen.put(y, attr, list(y.get(attr) or []) + [v])
            slot[s][1] = gen.replaced(abst, path, x) if path else x
            getattr(at_real(real, path), attr).append(make_value(SPEC[x["$"]].by_attr[attr], [v])[0])
        elif k == "s":
            real.name_spaces["n%d" % n] = "{http://e.example/%d}" % n
            table["n%d" % n] = "{http://e.example/%d}" % n
        elif k == "q":
            real.to_string()
            repr(real)
            list(fastkml.find_all(real, of_type=CLS["Placemark"]))
            _ = real == slot["A" if s == "B" else "B"][0]
            bool(real)
            real.validate() if case["family"] in (0, 1) and n == 1 else None
        elif k == "c":
            if base["$"] == "Track":
                slot[op[2]] = [build(abst), abst, dict(tables0)]
            else:
                slot[op[2]] = [copy.deepcopy(real), abst, dict(table)]
        elif k == "r":
            slot[op[2]] = [cls.from_string(real.to_string()), abst, dict(tables0)]
        for t in "AB":
            real, abst, table = slot[t]
            d = diff(expect_read(see(real, True)), expect_read(norm(abst, True)))
            if d:
                return "after %s: %s is %s" % (case["history"][:n], t, d)
            if real.name_spaces != table:
                return "after %s: the namespace table of %s is %r, expected %r" % (case["history"][:n], t, real.name_spaces, table)
    for t in "AB":
        real, abst, _ = slot[t]
        d = match(infoset(real.to_string()), expected(abst))
        if d:
            return "after %s: %s is written as %s" % (case["history"], t, d)
    if world() != w:
        return "after %s global settings changed: %s" % (case["history"], where(w, world()))
    fresh = build(base)
    if diff(see(fresh), norm(base)) or fresh.name_spaces != tables0:
        return "after %s a new object differs" % case["history"]
    return None
