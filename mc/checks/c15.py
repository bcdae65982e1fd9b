"""C15: schema validation gives the right verdict and is applied when asked for."""
import copy
import io
import itertools
import pathlib
import shutil
import tempfile

import lxml.etree as LX

from bind import CLS, REPO, config
from checks.common import *  # noqa: F403
from fastkml import validator
from fastkml.exceptions import KMLParseError
from model import complete, render

BOUNDS = {
    "quick": "every type: valid objects (full to depth 2, every field alone, every field left out) in three verbosities must satisfy "
             "the schema; verdict on every object of the C01 space, alone and below the root, against the schema loaded separately; "
             "every single edit (delete, duplicate, swap, rename, foreign element or attribute, bad text) of 6 documents, validated as "
             "object, element, part, tree and file; strict x validate x document x manner x back end; every history of 3 validations",
    "thorough": "as quick with the deeper object space, pairs of edits and histories of 4 validations",
}
ASSUMPTIONS = ["the schema files shipped in fastkml/schema are the reference; libxml2 interprets them"]
SCHEMA = pathlib.Path(REPO) / "fastkml" / "schema"
_S = {}


def oracle(what=None):
    """A schema loaded here, never by the library."""
    what = str(what or SCHEMA / "ogckml22.xsd")
    if what not in _S:
        _S[what] = LX.XMLSchema(LX.parse(what))
    return _S[what]


def tidy(a):
    """The object with values the schema allows: one style per kind, one root feature, plain icons in icon styles."""
    c = SPEC[a["$"]]
    out = {}
    for k, v in a.items():
        f = c.by_attr.get(k)
        if f is not None and f.kind == "obj" and v is not None:
            v = tidy(v)
        elif f is not None and f.kind == "list" and v:
            v = [tidy(x) for x in v]
            if a["$"] == "Style":
                v = sorted({x["$"]: x for x in v}.values(), key=lambda x: f.arg.index(x["$"]))
            if a["$"] == "KML":
                v = v[:1]
        elif a["$"] == "atom.Link" and k == "type" and v:
            v = "text/html"
        out[k] = v
    if a["$"] == "IconStyle" and out.get("icon"):
        out["icon"] = {k: v for k, v in out["icon"].items() if k in ("$", "href", "x", "y", "w", "h", "id")}
    return out


def valid_objects(c):
    seen = []
    for deep in (0, 1, 2):
        base = gen.full(c, deep=deep)
        vs = [base, gen.mini(c)]
        for f in SPEC[c].fields:
            vs.append({k: v for k, v in base.items() if k != f.attr})
            if f.attr in base:
                vs.append(dict(gen.mini(c), **{f.attr: base[f.attr]}))
            if f.kind == "enum" and deep == 0:
                from spec import ENUMS
                vs += [dict(base, **{f.attr: v}) for v in ENUMS[f.arg] if not (f.attr == "altitude_mode" and c in ("x",))]
        for a in vs:
            if c == "Schema" and not a.get("id"):
                continue
            if complete(a) and a not in seen:
                seen.append(a)
                yield a


def groups(tier):
    return [k + "/" + c for c in NAMES for k in ("valid", "same")] + ["edits/%d" % i for i in range(len(EDITDOCS))] + ["matrix", "arguments", "history", "schemas"]


def shards(g, tier):
    if g.startswith("edits"):
        return 8
    return 8 if g == "history" else 4 if tier == "thorough" else 1


def cases(group, tier):
    kind, _, c = group.partition("/")
    if kind == "valid":
        for a in valid_objects(c):
            yield {"valid": a}
    elif kind == "same":
        for a in object_space(c, tier):
            yield {"same": a}
    elif kind == "edits":
        i = int(c)
        root = LX.fromstring(edit_text(i))
        n = sum(1 for _ in root.iter())
        for j in range(n):
            for k in EDITS:
                yield {"edit": k, "doc": i, "at": j}
                if tier == "thorough" and i < 2:
                    for m in range(n):
                        yield {"edit": k, "doc": i, "at": j, "then": ["delete", m]}
    elif kind == "matrix":
        for d in MATRIX:
            for strict in (None, True, False):
                for val in ("unset", None, True, False):
                    for m in ("path", "string path", "bytes", "text", "binary file", "text file"):
                        for b in BACK:
                            yield {"matrix": d, "strict": strict, "validate": val, "manner": m, "backend": b}
    elif kind == "arguments":
        for schema in (False, True):
            for e in (False, True):
                for f in (False, True):
                    for b in BACK:
                        yield {"arguments": [schema, e, f], "backend": b}
    elif kind == "schemas":
        for seq in itertools.product(range(6), repeat=4 if tier == "thorough" else 3):
            yield {"schemas": list(seq)}
        for n in (10, 40, 140):
            yield {"schemas": [i % n for i in range(2 * n)] + [(i * 7) % n for i in range(n)]}
    else:
        for seq in itertools.product(range(len(STEPS)), repeat=4 if tier == "thorough" else 3):
            yield {"history": list(seq)}


def check(case, ctx):
    try:
        for k in ("valid", "same", "edit", "matrix", "arguments", "history", "schemas"):
            if k in case:
                return globals()["do_" + k](case, ctx)
        raise KeyError(case)
    finally:
        use("lxml")
        while _TMP:
            shutil.rmtree(_TMP.pop(), ignore_errors=True)


_TMP = []


def scratch():
    _TMP.append(tempfile.mkdtemp(prefix="mc15-"))
    return pathlib.Path(_TMP[-1])


def verdict(fn):
    """True, or False for a rejection; anything else is returned as it is."""
    try:
        return fn()
    except AssertionError:
        return False


def has_icon_style(a):
    return any(x["$"] == "IconStyle" and x.get("icon") for _, x in gen.walk(a))


def do_valid(case, ctx):
    use("lxml")
    a = tidy(case["valid"])
    tops = [a]
    r = gen.to_root(a)
    if r is not None:
        tops.append(tidy(r))
    for p, attr in gen.UP.get(a["$"], ()):
        w = gen.to_root(gen.embed(a, p, attr))
        if w is not None:
            tops.append(tidy(w))
    for t in tops:
        if not globally(t["$"]):
            continue
        o = build(t)
        ctx.op()
        if verdict(o.validate) is not True:
            return "a valid %s is rejected: %s\n%s" % (a["$"], reason(o.to_string()), o.to_string()[:800])
        for v in VERB:
            if v == "verbose" and has_icon_style(t) and not case.get("finding"):
                continue
            text = o.to_string(verbosity=VERB[v])
            e = LX.fromstring(text)
            ctx.op(2)
            if not oracle().validate(e):
                return "%s output of a valid %s breaks the schema: %s" % (v, a["$"], reason(text))
            if verdict(lambda: validator.validate(element=e)) is not True:
                return "valid %s output is rejected" % v
    return None


_GLOBAL = {}


def globally(c):
    """Whether the schema declares the element on its own (else it is only valid inside its parent)."""
    if c not in _GLOBAL:
        out = expected(gen.mini(c))
        _GLOBAL[c] = not _missing(render(out))
    return _GLOBAL[c]


def _missing(text):
    s = oracle()
    s.validate(LX.fromstring(text))
    return any("No matching global declaration" in e.message for e in s.error_log)


def reason(text):
    s = oracle()
    s.validate(LX.fromstring(text))
    return [str(e.message)[:300] for e in s.error_log][:2]


def do_same(case, ctx):
    use("lxml")
    a = case["same"]
    for t in (a, gen.to_root(a)):
        if t is None:
            continue
        want = oracle().validate(LX.fromstring(render(expected(t))))
        ctx.op()
        got = verdict(build(t).validate)
        ctx.outcome(got)
        if got is not want:
            return "validate gives %r, the schema says %r: %s" % (got, want, build(t).to_string()[:800])
    return None


# ---------------------------------------------------------------- edited documents
EDITDOCS = [
    lambda: gen.to_root(tidy(gen.full("Placemark", deep=1))),
    lambda: gen.to_root(tidy(gen.full("Track", deep=1))),
    lambda: gen.to_root(tidy(gen.full("Document", deep=1))),
    lambda: gen.to_root(tidy(gen.full("PhotoOverlay", deep=1))),
    lambda: gen.to_root(tidy(gen.full("GroundOverlay", deep=1))),
    lambda: gen.to_root(tidy(gen.full("ScreenOverlay", deep=1))),
    lambda: gen.to_root(tidy(gen.full("NetworkLinkControl", deep=1))),
    lambda: gen.to_root(tidy(gen.full("MultiGeometry", deep=1))),
]
EDITS = ["none", "delete", "duplicate", "swap", "rename", "foreign element", "unknown element", "attribute", "foreign attribute", "text", "id", "comment", "namespace"]


def edit_text(i):
    return render(expected(tidy(EDITDOCS[i]())))


def apply(root, kind, at):
    els = [e for e in root.iter() if isinstance(e.tag, str)]
    if at >= len(els):
        return None
    e = els[at]
    p = e.getparent()
    if kind in ("delete", "duplicate", "swap"):
        if p is None:
            return None
        i = p.index(e)
        if kind == "delete":
            p.remove(e)
        elif kind == "duplicate":
            p.insert(i, copy.deepcopy(e))
        elif i + 1 < len(p):
            p.insert(i, p[i + 1])
        else:
            return None
    elif kind == "rename":
        e.tag = e.tag + "X"
    elif kind == "namespace":
        e.tag = "{http://e.example/other}" + e.tag.split("}")[1]
    elif kind == "foreign element":
        e.append(LX.Element("{http://e.example/other}thing"))
    elif kind == "unknown element":
        e.insert(0, LX.Element("{http://www.opengis.net/kml/2.2}thing"))
    elif kind == "attribute":
        e.set("thing", "1")
    elif kind == "foreign attribute":
        e.set("{http://e.example/other}thing", "1")
    elif kind == "text":
        e.text = "not a value"
    elif kind == "id":
        e.set("id", "not an id")
    elif kind == "comment":
        e.append(LX.Comment("harmless"))
    return root


def do_edit(case, ctx):
    use("lxml")
    root = apply(LX.fromstring(edit_text(case["doc"])), case["edit"], case["at"])
    if root is not None and "then" in case:
        root = apply(root, *case["then"])
    if root is None:
        return None
    want = oracle().validate(root)
    before = LX.tostring(root)
    d = scratch()
    p = d / "x.kml"
    p.write_bytes(before)
    ctx.outcome(want)
    calls = {
        "element": lambda: validator.validate(element=root),
        "tree": lambda: validator.validate(element=root.getroottree()),
        "file": lambda: validator.validate(file_to_validate=p),
        "string path": lambda: validator.validate(file_to_validate=str(p)),
        "element again": lambda: validator.validate(element=root),
    }
    for n, fn in calls.items():
        ctx.op()
        got = verdict(fn)
        if got is not want:
            return "%s at element %d: validating as %s gives %r, the schema says %r" % (case["edit"], case["at"], n, got, want)
    try:
        r = CLS["KML"].parse(p, strict=False, validate=True)
    except AssertionError:
        r = False
    ctx.op()
    if (r is not False) is not want:
        return "%s at element %d: reading with validation %s, the schema says %r" % (case["edit"], case["at"], "accepts" if r is not False else "rejects", want)
    # every part of the document, still in its place
    if case["at"] % 5 == 0 and "then" not in case:
        for e in root.iter():
            if isinstance(e.tag, str):
                w = oracle().validate(e)
                ctx.op()
                got = verdict(lambda: validator.validate(element=e))
                if got is not w:
                    return "%s at element %d: validating the part %s gives %r, the schema says %r" % (case["edit"], case["at"], e.tag, got, w)
    if LX.tostring(root) != before:
        return "validation changed the element"
    return None


# ---------------------------------------------------------------- reading
_K = '<kml xmlns="http://www.opengis.net/kml/2.2">%s</kml>'
MATRIX = {
    # text, satisfies the schema, values readable strictly
    "valid": (_K % "<Placemark id='a'><name>x</name><visibility>0</visibility></Placemark>", True, True),
    "unknown element": (_K % "<Placemark><name>x</name><bogus/></Placemark>", False, True),
    "wrong order": (_K % "<Placemark><visibility>1</visibility><name>x</name></Placemark>", False, True),
    "bad id": (_K % "<Placemark id='not an id'><name>x</name></Placemark>", False, True),
    "two features": (_K % "<Placemark/><Placemark/>", False, True),
    "bad value": (_K % "<Placemark><name>x</name><visibility>maybe</visibility></Placemark>", False, False),
    "bad number": (_K % "<GroundOverlay><altitude>high</altitude></GroundOverlay>", False, False),
    "valid but unreadable": (_K % "<Placemark><Region><LatLonAltBox><north>1</north><south>0</south><east>1</east><west>0</west></LatLonAltBox>"
                                  "<Lod><minLodPixels>1.5</minLodPixels></Lod></Region></Placemark>", True, False),
    "google namespace": ('<kml xmlns="http://earth.google.com/kml/2.1"><Placemark><name>x</name></Placemark></kml>', False, True),
}


def do_matrix(case, ctx):
    text, ok, readable = MATRIX[case["matrix"]]
    use(case["backend"])
    kw = {}
    if case["strict"] is not None:
        kw["strict"] = case["strict"]
    if case["validate"] != "unset":
        kw["validate"] = case["validate"]
    strict = case["strict"] is not False
    asked = kw.get("validate") if kw.get("validate") is not None else strict
    d = scratch()
    p = d / "x.kml"
    p.write_text(text, encoding="utf-8")
    m = case["manner"]
    f = {"path": lambda: p, "string path": lambda: str(p), "bytes": lambda: io.BytesIO(text.encode()), "text": lambda: io.StringIO(text),
         "binary file": lambda: p.open("rb"), "text file": lambda: p.open(encoding="utf-8")}[m]()
    ctx.op()
    try:
        o = CLS["KML"].parse(f, **kw)
        got = "read"
    except AssertionError:
        got = "invalid"
    except KMLParseError:
        got = "parse error"
    finally:
        if hasattr(f, "close"):
            f.close()
    want = "invalid" if asked and not ok and case["backend"] == "lxml" else "parse error" if strict and not readable else "read"
    if got != want:
        return "%s, %s: %s, expected %s" % (case, kw, got, want)
    if got == "read" and len(o.features) != text.count("<Placemark") + text.count("<GroundOverlay"):
        return "%s: read %d features" % (case, len(o.features))
    return None


def do_arguments(case, ctx):
    use(case["backend"])
    s, e, f = case["arguments"]
    d = scratch()
    p = d / "x.kml"
    p.write_text(MATRIX["valid"][0], encoding="utf-8")
    kw = {}
    if s:
        kw["schema"] = SCHEMA / "ogckml22.xsd"
    if e:
        kw["element"] = config.etree.fromstring(MATRIX["valid"][0])
    if f:
        kw["file_to_validate"] = p
    ctx.op()
    try:
        got = validator.validate(**kw)
    except ValueError:
        got = "ValueError"
    want = "ValueError" if e == f else True if case["backend"] == "lxml" else None
    return None if got == want and type(got) is type(want) else "validate(%s) gives %r, expected %r" % (sorted(kw), got, want)


# ---------------------------------------------------------------- histories
_XSD = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="http://www.opengis.net/kml/2.2"><xs:element name="%s"/></xs:schema>'
STEPS = [
    # what is validated, with which schema
    ("valid", None), ("unknown element", None), ("bad id", None), ("part", None), ("object valid", None), ("object invalid", None),
    ("valid", "onlykml"), ("part", "onlykml"), ("valid", "onlyplacemark"), ("part", "onlyplacemark"), ("clear", None), ("file valid", None), ("file invalid", None),
    ("parse valid", None), ("parse invalid", None),
]
_FIX = {}


def do_history(case, ctx):
    use("lxml")
    if not _FIX:
        d = pathlib.Path(tempfile.mkdtemp(prefix="mc15h-"))
        import atexit
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        (d / "k.xsd").write_text(_XSD % "kml")
        (d / "p.xsd").write_text(_XSD % "Placemark")
        (d / "good.kml").write_text(MATRIX["valid"][0])
        (d / "bad.kml").write_text(MATRIX["bad id"][0])
        _FIX["d"] = d
        for k in MATRIX:
            _FIX[k] = LX.fromstring(MATRIX[k][0])
        _FIX["part"] = LX.fromstring(MATRIX["valid"][0])[0]
        _FIX["object valid"] = build({"$": "KML", "features": [{"$": "Placemark", "id": "a", "name": "x"}]})
        _FIX["object invalid"] = build({"$": "KML", "features": [{"$": "Placemark", "id": "a b", "name": "x"}]})
    d = _FIX["d"]
    path = {None: None, "onlykml": d / "k.xsd", "onlyplacemark": d / "p.xsd"}
    validator.get_schema_parser.cache_clear() if hasattr(validator.get_schema_parser, "cache_clear") else None
    done = []
    for i in case["history"]:
        what, schema = STEPS[i]
        done.append(STEPS[i])
        ctx.op()
        if what == "clear":
            if hasattr(validator.get_schema_parser, "cache_clear"):
                validator.get_schema_parser.cache_clear()
            continue
        if what.startswith("object"):
            got, want = verdict(_FIX[what].validate), what == "object valid"
        elif what.startswith("file"):
            got, want = verdict(lambda: validator.validate(file_to_validate=d / ("good.kml" if what == "file valid" else "bad.kml"))), what == "file valid"
        elif what.startswith("parse"):
            want = what == "parse valid"
            try:
                CLS["KML"].parse(d / ("good.kml" if want else "bad.kml"))
                got = True
            except AssertionError:
                got = False
        else:
            e = _FIX[what]
            got, want = verdict(lambda: validator.validate(element=e, schema=path[schema])), oracle(path[schema]).validate(e)
        if got is not want:
            return "after %s: %r, expected %r" % (done, got, want)
    return None


SCHEMA_ELEMENTS = ["kml", "Placemark", "name"]


def do_schemas(case, ctx):
    """Many schemas of the caller: the verdict is always that of the schema named in the call."""
    use("lxml")
    d = scratch()
    root = LX.fromstring(MATRIX["valid"][0])
    els = {"kml": root, "Placemark": root[0], "name": root[0][0]}
    clear = getattr(validator.get_schema_parser, "cache_clear", lambda: None)
    clear()
    done = []
    try:
        for i in case["schemas"]:
            # files of the same name in different directories, and of different names in one
            p = d / ("d%d" % (i // 2)) / "a directory with a long name" / ("ogckml22%s.xsd" % ("" if i % 2 else "-own"))
            if not p.exists():
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(_XSD % SCHEMA_ELEMENTS[(i * 2 + i // 3) % 3])
            done.append(str(p.relative_to(d)))
            for n in SCHEMA_ELEMENTS:
                ctx.op()
                got, want = verdict(lambda: validator.validate(element=els[n], schema=p)), n == SCHEMA_ELEMENTS[(i * 2 + i // 3) % 3]
                if got is not want:
                    return "after %s: %s validated against %s gives %r, expected %r" % (done, n, done[-1], got, want)
            ctx.op()
            if verdict(lambda: validator.validate(element=root)) is not True:
                return "after %s: a valid document is rejected by the default schema" % done
    finally:
        clear()
    return None


FINDINGS = [{"key": "verbose-icon", "case": {"valid": {"$": "IconStyle", "icon": {"$": "Icon", "href": "http://e.example/x.png"}}, "finding": True}}]
