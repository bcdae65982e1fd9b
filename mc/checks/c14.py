"""C14: files - what is written is what is read, and a failed write loses nothing."""
import io
import itertools
import locale
import os
import pathlib
import shutil
import tempfile
import zipfile

from bind import BACKENDS, CLS, config, infoset
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from model import fill, render

BOUNDS = {
    "quick": "every type below the root, written to .kml and .kmz under both back ends and two locales, over 7 kinds of previous "
             "content, read in 6 manners; 16 stems x 11 suffixes x directories x 5 forms of path; all combinations of pretty-print, precision and verbosity; a failure injected at every "
             "call into the XML library (5 exception types) and at every value of every type (4 unserialisable values); every "
             "history of 4 writes, failing writes and edits over 3 paths",
    "thorough": "as quick with histories of 5 operations and injected failures in deep documents",
}
ASSUMPTIONS = [
    "the file system itself does not fail",
    "a .kmz is read by opening its doc.kml as a stream",
]
K = CLS["KML"]
SUFFIX = [".kml", ".kmz"]
PRIOR = {
    "none": None,
    "empty": b"",
    "short": b"<kml/>",
    "long": b"<old>" + b"x" * 300000 + b"</old>",
    "binary": bytes(range(256)) * 40,
    "zip": None,  # made below
    "unicode": "\u00e9\u6771".encode() * 5000,
}
_b = io.BytesIO()
with zipfile.ZipFile(_b, "w") as _z:
    for _n in ("a.txt", "doc.kml", "images/x.png", "doc.kml.bak"):
        _z.writestr(_n, "old content of " + _n)
PRIOR["zip"] = _b.getvalue()
LOCALES = ["C", "C.UTF-8"]
NONASCII = {"$": "KML", "features": [{"$": "Placemark", "id": "p", "name": "Z\u00fcrich \u6771\u4eac \U0001f5fa", "description": "line 1\nline 2\t<b>&amp;</b> ]]>"}]}
DOCS = [
    {"$": "KML", "features": [{"$": "Document", "id": "d", "name": "doc", "features": [dict(gen.mini("Placemark"), name="p")]}]},
    NONASCII,
    {"$": "KML", "features": [dict(gen.mini("Placemark"), name="n%d" % i) for i in range(60)]},
    {"$": "KML"},
]


def roots():
    for c in NAMES:
        for a in (gen.mini(c), gen.full(c, deep=1)):
            r = gen.to_root(a)
            if r is not None:
                yield r
    yield from DOCS


def groups(tier):
    return ["names", "round", "options", "prior", "faults", "values"] + ["history/%s" % b for b in BACK]


def shards(g, tier):
    return 16 if g.startswith("history") else 8


STEMS = ["a", "a.b", "x.kml", "x.kmz", "\u00e9\u6771", "with space", "a.b.c.d", "-x", "%41", "a'b&c", "#1", "~", "x" * 200, ".hidden", "KML", "doc"]
# names that do not end in .kmz are plain files, whatever else they end in
OTHER = ["", ".KML", ".xml", ".kml.bak", ".kmz.bak", ".zip", ".kml~", ".Kml", ".kmzx"]
DIRS = ["", "sub", "d.kmz", "d.kml", "deep/er", "sp ace", "\u00fc", "..x"]


def cases(group, tier):
    if group == "names":
        for stem in STEMS:
            for s in [*SUFFIX, *OTHER]:
                for d in DIRS if s in SUFFIX else DIRS[:3]:
                    for form in ("absolute", "relative", "dotted", "link", "dir link"):
                        yield {"name": stem + s, "dir": d, "form": form}
        return
    if group == "round":
        for r in roots():
            for s in SUFFIX:
                yield {"round": r, "suffix": s}
        for s in SUFFIX:
            yield {"round": {"huge": gen.HUGE[0]}, "suffix": s}
    elif group == "options":
        for r in DOCS + [gen.to_root(gen.full("Placemark", deep=2)), gen.to_root(gen.full("Document", deep=1)), gen.to_root(gen.full("PhotoOverlay", deep=1)),
                         gen.to_root(gen.full("Track"))]:
            for s in SUFFIX:
                for pp in (None, True, False):
                    for prec in (None, 0, 1, 5):
                        for v in (None, *VERB):
                            yield {"options": r, "suffix": s, "kw": {k: x for k, x in (("prettyprint", pp), ("precision", prec), ("verbosity", v)) if x is not None}}
    elif group == "prior":
        for i in range(len(DOCS)):
            for s in SUFFIX:
                for p in PRIOR:
                    for loc in LOCALES:
                        yield {"prior": p, "doc": i, "suffix": s, "locale": loc}
    elif group == "faults":
        docs = DOCS[:2] + [gen.to_root(gen.full("Placemark", deep=1 if tier == "quick" else 2)), gen.to_root(gen.full("Document", deep=0 if tier == "quick" else 1))]
        for d in docs:
            for s in SUFFIX:
                for p in ("none", "long", "zip"):
                    for exc in EXC:
                        yield {"fault": d, "suffix": s, "prior": p, "exc": exc}
    elif group == "values":
        for c in NAMES:
            a = gen.to_root(gen.full(c, deep=0))
            if a is None:
                continue
            path = next(p for p, x in gen.walk(a) if x["$"] == c)
            for f in SPEC[c].fields:
                for v in BADVALUES:
                    yield {"value": v, "at": [a, list(path), f.attr]}
    else:
        b = group.split("/")[1]
        for seq in itertools.product(HOPS, repeat=5 if tier == "thorough" else 4):
            if seq[-1] == "edit":
                continue
            yield {"backend": b, "history": list(seq)}


_DIR = []


def scratch():
    """An empty directory, removed after the case."""
    d = pathlib.Path(tempfile.mkdtemp(prefix="mc14-"))
    _DIR.append(d)
    return d


def check(case, ctx):
    try:
        for k in ("name", "round", "options", "prior", "fault", "value", "history"):
            if k in case and not (k == "prior" and "fault" in case):
                return globals()["do_" + k](case, ctx)
        raise KeyError(case)
    finally:
        locale.setlocale(locale.LC_CTYPE, "C.UTF-8")
        use("lxml")
        while _DIR:
            shutil.rmtree(_DIR.pop(), ignore_errors=True)


# ---------------------------------------------------------------- observing files
def raw(path):
    """The document text in the file, or a complaint."""
    data = path.read_bytes()
    if path.suffix == ".kmz":
        if not zipfile.is_zipfile(path):
            raise Wrong("the .kmz is not a zip archive")
        with zipfile.ZipFile(path) as z:
            if z.namelist() != ["doc.kml"]:
                raise Wrong("the archive holds %r" % z.namelist())
            if z.testzip() is not None:
                raise Wrong("the archive is damaged")
            data = z.read("doc.kml")
    return data


class Wrong(Exception):
    pass


def manners(path):
    """All ways to read the file; each is closed again."""
    if path.suffix == ".kmz":
        def member(**kw):
            with zipfile.ZipFile(path) as z, z.open("doc.kml") as f:
                return K.parse(f, **kw)

        def text_member(**kw):
            with zipfile.ZipFile(path) as z, z.open("doc.kml") as f, io.TextIOWrapper(f, encoding="utf-8") as t:
                return K.parse(t, **kw)
        yield "zip stream", member
        yield "zip text stream", text_member
        data = raw(path)
    else:
        yield "path", lambda **kw: K.parse(path, **kw)
        yield "string path", lambda **kw: K.parse(str(path), **kw)

        def binary(**kw):
            with path.open("rb") as f:
                return K.parse(f, **kw)

        def textual(**kw):
            with path.open(encoding="utf-8") as f:
                return K.parse(f, **kw)
        yield "binary stream", binary
        yield "text stream", textual
        data = path.read_bytes()
    yield "BytesIO", lambda **kw: K.parse(io.BytesIO(data), **kw)
    yield "StringIO", lambda **kw: K.parse(io.StringIO(data.decode("utf-8")), **kw)


def holds(path, a, full=True):
    """The file holds exactly the document."""
    d = match(infoset(raw(path)), expected(a))
    if d:
        return "%s holds something else: %s" % (path.suffix, d)
    want = expect_read(norm(a, group=True))
    for name, rd in list(manners(path)) if full else list(manners(path))[:1]:
        for kw in ({"validate": False}, {"strict": False}) if full else ({"validate": False},):
            d = diff(see(rd(**kw), group=True), want)
            if d:
                return "%s read by %s %s: %s" % (path.suffix, name, kw, d)
    return None


def put(path, prior):
    if PRIOR[prior] is not None:
        path.write_bytes(PRIOR[prior])


# ---------------------------------------------------------------- the parts of the space
def do_round(case, ctx):
    a = case["round"]
    if "huge" in a:
        a = gen.to_root(gen.large(a["huge"]))
    for b in BACK:
        use(b)
        d = scratch()
        p = d / ("out" + case["suffix"])
        put(p, "long")
        o = build(a)
        o.write(p)
        ctx.op(14)
        if os.listdir(d) != [p.name]:
            return "writing left other files: %s" % os.listdir(d)
        for rb in BACK:
            use(rb)
            msg = holds(p, a)
            if msg:
                return "written under %s, read under %s: %s" % (b, rb, msg)
        use(b)
        for name, rd in manners(p):
            r = rd(validate=False)
            msg = comparable(a) and not (r == o and o == r)
            if msg:
                return "%s: read by %s is not equal to what was written" % (b, name)
        if diff(see(o, True), norm(a, True)):
            return "writing changed the document"
    return None


def do_name(case, ctx):
    """Whatever the file is called and however it is named, it is that file that is written, in the format of its suffix."""
    b = BACK[len(case["name"] + case["dir"]) % len(BACK)]
    use(b)
    top = scratch()
    d = top / case["dir"]
    d.mkdir(parents=True, exist_ok=True)
    real = d / case["name"]
    given = real
    back = os.getcwd()
    try:
        if case["form"] == "relative":
            os.chdir(d)
            given = pathlib.Path(case["name"])
        elif case["form"] == "dotted":
            (d / "in").mkdir()
            os.chdir(d / "in")
            given = pathlib.Path("..") / case["name"]
        elif case["form"] == "link":
            real = d / ("target" + real.suffix)
            real.write_bytes(b"old")
            given.symlink_to(real)
        elif case["form"] == "dir link":
            (top / "ln").symlink_to(d)
            given = top / "ln" / case["name"]
        for doc in (NONASCII, DOCS[0]):
            build(doc).write(given)
            ctx.op(2)
            msg = holds(real, doc) or holds(given, doc, full=False)
            if msg:
                return "%s, %s path %s: %s" % (b, case["form"], given, msg)
            want = {real.name, case["name"]} | ({"in"} if case["form"] == "dotted" else set())
            got = set(os.listdir(d)) - ({"ln"} if d == top else set())
            if got != want:
                return "%s, %s path %s: the directory holds %s" % (b, case["form"], given, sorted(got))
    finally:
        os.chdir(back)
    return None


def comparable(a):
    from checks.c01 import comparable as c
    return c(a)


def do_options(case, ctx):
    a, kw = case["options"], dict(case["kw"])
    if "verbosity" in kw:
        kw["verbosity"] = VERB[kw["verbosity"]]
    for b in BACK:
        use(b)
        d = scratch()
        o = build(a)
        p = d / ("x" + case["suffix"])
        o.write(p, **kw)
        ctx.op(2)
        text = raw(p).decode("utf-8").replace(os.linesep, "\n")
        mem = o.to_string(**kw)
        if text.strip() != mem.strip():
            return "%s %s: the file differs from the in-memory output:\n%s\n%s" % (b, case["kw"], text[:400], mem[:400])
        e = expected(a, verbosity=case["kw"].get("verbosity", "normal"), precision=kw.get("precision"))
        msg = match(infoset(text), e)
        if msg:
            return "%s %s: %s" % (b, case["kw"], msg)
        if b == "lxml" and a.get("features"):
            if ("\n" in text.strip()[:-1] and "><" not in text) != (kw.get("prettyprint", True) is True) and "\n" not in "".join(texts(a)):
                return "%s: pretty printing is not as asked for" % case["kw"]
    return None


def texts(a):
    for _, x in gen.walk(a):
        for v in x.values():
            if isinstance(v, str):
                yield v


NEIGHBOURS = ["x", "x.tmp", "x.bak", "x.xml", "x.part", "x.new", "x.old", "x.zip", "x.swp", ".x", "x~", "doc.kml", "tmp", "temp", "x.kml.zip", "#x#"]
NEAR = ["x.tmp", "tmp", ".x", "_x", "x_", "x.bak", "x1", "X", "~x"]
_SUF = (".tmp", ".bak", "~", ".part", ".new", ".old", ".lock", ".swp", ".orig")
NEIGHBOURS += ["x" + s + t for s in SUFFIX for t in _SUF]


def do_prior(case, ctx):
    a = DOCS[case["doc"]]
    for b in BACK:
        use(b)
        d = scratch()
        p = d / ("x" + case["suffix"])
        other = d / ("other" + case["suffix"])
        near = [d / n for n in NEIGHBOURS + [x + case["suffix"] for x in NEAR]]
        for n in near:
            n.write_bytes(b"untouched")
        other.write_bytes(b"untouched")
        put(p, case["prior"])
        locale.setlocale(locale.LC_CTYPE, case["locale"])
        build(a).write(p)
        ctx.op(8)
        for rb in BACK:
            use(rb)
            msg = holds(p, a)
            if msg:
                return "over %s content, locale %s, written under %s and read under %s: %s" % (case["prior"], case["locale"], b, rb, msg)
        if sorted(os.listdir(d)) != sorted([p.name, other.name] + [n.name for n in near]) or any(n.read_bytes() != b"untouched" for n in [other] + near):
            return "other files were touched: %s" % os.listdir(d)
        use(b)
        build(a).write(file_path=p)  # over its own output
        build(DOCS[0]).write(p)
        msg = holds(p, DOCS[0], full=False)
        if msg:
            return "rewritten: " + msg
    return None


EXC = {"RuntimeError": RuntimeError, "ValueError": ValueError, "TypeError": TypeError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


class Faulty:
    """The XML library with a failure at the n-th call."""

    def __init__(self, real, at, exc):
        self.real, self.at, self.exc, self.n = real, at, exc, 0

    def __getattr__(self, name):
        v = getattr(self.real, name)
        if callable(v) and not isinstance(v, type) and name != "iselement":
            def call(*a, **k):
                self.n += 1
                if self.n == self.at:
                    raise self.exc("injected")
                return v(*a, **k)
            return call
        return v


def unchanged(d, p, prior):
    want = {} if PRIOR[prior] is None else {p.name: PRIOR[prior]}
    got = {n: (d / n).read_bytes() for n in os.listdir(d)}
    if got == want:
        return None
    return "left %s" % {k: v[:60] for k, v in got.items()}


def do_fault(case, ctx):
    a = case["fault"]
    for b in BACK:
        use(b)
        d = scratch()
        p = d / ("x" + case["suffix"])
        o = build(a)
        k = 0
        while True:
            k += 1
            put(p, case["prior"])
            if PRIOR[case["prior"]] is None and p.exists():
                p.unlink()
            lib = Faulty(BACKENDS[b], k, EXC[case["exc"]])
            config.set_etree_implementation(lib)
            failed = False
            try:
                o.write(p)
            except BaseException as e:  # noqa: BLE001
                if type(e) is not EXC[case["exc"]] or "injected" not in str(e):
                    raise
                failed = True
            finally:
                use(b)
            ctx.op()
            ctx.states(1)
            if failed:
                msg = unchanged(d, p, case["prior"])
                if msg:
                    return "%s: failure (%s) at call %d of the XML library %s" % (b, case["exc"], k, msg)
            else:
                msg = holds(p, a, full=False)
                if msg:
                    return "%s: write returned after a %s at call %d: %s" % (b, case["exc"], k, msg)
            if lib.n < k:
                break
    return None


class Odd:
    def __str__(self):
        raise RuntimeError("injected")

    __format__ = __repr__ = lambda self, *a: str(self)

    def __bool__(self):
        return True


BADVALUES = ["surrogate", "object", "odd", "nul"]


def bad(v):
    return {"surrogate": "bad \ud800 text", "object": object(), "odd": Odd(), "nul": "a\x00b"}[v]


def do_value(case, ctx):
    a, path, attr = case["at"]
    for b in BACK:
        for s in SUFFIX:
            for prior in ("none", "long"):
                use(b)
                d = scratch()
                p = d / ("x" + s)
                put(p, prior)
                o = build(a)
                x = o
                for q in path:
                    x = x[q] if isinstance(q, int) else getattr(x, q)
                f = SPEC[NAME_OF[type(x)]].by_attr[attr]
                val = bad(case["value"])
                if f.kind in ("list", "track", "coords"):
                    val = [val]
                setattr(x, attr, val)
                ctx.op()
                try:
                    o.write(p)
                except Exception:  # noqa: BLE001
                    ctx.outcome("failed")
                    msg = unchanged(d, p, prior)
                    if msg:
                        return "%s, %s: a %s value for %s.%s made the write fail, which %s" % (b, s, case["value"], NAME_OF[type(x)], attr, msg)
                else:
                    ctx.outcome("written")
                    raw(p)
    return None


NAME_OF = {v: k for k, v in CLS.items()}

# ---------------------------------------------------------------- histories
PATHS = ["a.kml", "b.kmz", "c.kml"]
HOPS = ["w%d%d" % (d, p) for d in (0, 1) for p in range(3)] + ["f%d" % p for p in range(3)] + ["edit"]


def do_history(case, ctx):
    b = case["backend"]
    use(b)
    d = scratch()
    abst = [dict(DOCS[0]), NONASCII]
    real = [build(x) for x in abst]
    files = {}
    bad = build({"$": "KML", "features": [{"$": "Placemark", "name": "x"}]})
    bad.features[0].name = "\ud800" if b == "std" else object()
    n = 0
    for i, op in enumerate(case["history"]):
        ctx.op()
        if op == "edit":
            n += 1
            for j in (0, 1):
                abst[j] = dict(abst[j], features=abst[j]["features"] + [{"$": "Placemark", "name": "e%d" % n}])
                real[j].append(build({"$": "Placemark", "name": "e%d" % n}))
            continue
        p = d / PATHS[int(op[-1])]
        if op[0] == "w":
            real[int(op[1])].write(p)
            files[p.name] = (p.read_bytes(), abst[int(op[1])])
            msg = holds(p, abst[int(op[1])], full=False)
            if msg:
                return "after %s: %s" % (case["history"][: i + 1], msg)
        else:
            try:
                bad.write(p)
            except (TypeError, UnicodeError):
                pass
            else:
                if b == "lxml":
                    return "after %s: an unserialisable document was written" % case["history"][: i + 1]
                files[p.name] = (p.read_bytes(), None)
        got = {x: (d / x).read_bytes() for x in os.listdir(d)}
        if got != {k: v[0] for k, v in files.items()}:
            return "after %s: files %s, expected %s" % (case["history"][: i + 1], sorted(got), sorted(files))
    for name, (_, a) in files.items():
        if a is None:
            continue
        msg = holds(d / name, a, full=False)
        if msg:
            return "after %s: %s" % (case["history"], msg)
    return None


_ = (fill, render)
