"""C18: concurrent use of separate documents (or reading a shared one) is safe."""
import io
import itertools
import json
import os
import pathlib
import shutil
import tempfile

import fastkml
from bind import CLS, REPO, config
from checks.common import *  # noqa: F403
from fastkml import geometry as kgeo
from fastkml import validator
from fastkml.times import KmlDateTime
from model import render
from sched import Sched

BOUNDS = {
    "quick": "2 threads, both orders. One preemption: at every line (first and last visit of each) of 16 kinds of work against the same kind, at "
             "every line reached by reading and by writing every element type, at every function entry and exit of 21 pairs of different kinds "
             "and of 28 pairs of uses of a shared document (lines for equal uses), and of the kinds of work after a first use; two preemptions: "
             "at every pair of lines for validation, of function entries and exits for 3 more kinds; 3 threads, one preemption, for 4 "
             "kinds. Every execution starts in a fresh process in which nothing of the library was used before (except the warm group)",
    "thorough": "as quick with every visit of every line, every opcode (first 2 and last visit) of the kinds of work, line granularity for all "
                "pairs of 16 kinds and of 12 uses of a shared document and for every element type, 2 preemptions at line granularity for 5 "
                "kinds, and 3 threads with 2 preemptions",
}
ASSUMPTIONS = [
    "interleavings inside one line (quick) or one bytecode operation (thorough) and inside C code of lxml and of the standard library are not explored",
    "log output is not part of the result",
]

PKG = os.path.join(os.path.realpath(REPO), "fastkml")
KML21 = "http://earth.google.com/kml/2.1"


# ---------------------------------------------------------------- documents (made by the model, not by the library)
def q(v):
    return gen.Seq(97 * v)


def small_doc(v):
    pm = {"$": "Placemark", "id": "pm%d" % v, "name": "place %d" % v, "style_url": {"$": "StyleUrl", "url": "#s%d" % v},
          "visibility": bool(v % 2), "snippet": {"$": "Snippet", "text": "snip %d" % v, "max_lines": 2 + v},
          "times": {"$": "TimeStamp", "timestamp": ["1999", "2001-02", "2003-04-05"][v]},
          "kml_geometry": {"$": "Point", "altitude_mode": ["absolute", "relativeToGround", "clampToGround"][v],
                           "kml_coordinates": {"$": "Coordinates", "coords": [[1.23456 + v, 2.5, 3.0 + v]]}}}
    return {"$": "KML", "features": [{"$": "Document", "id": "doc%d" % v, "name": "doc %d" % v,
                                      "styles": [{"$": "Style", "id": "s%d" % v, "styles": [{"$": "LineStyle", "width": 2.0 + v, "color": "0000000%d" % v}]}],
                                      "features": [pm] * 1 if v != 1 else [pm, {"$": "Folder", "id": "f", "name": "folder"}]}]}


def invalid_text(v):
    return render(expected(small_doc(v), keep=True)).replace("<visibility>", "<visibility>nonsense")


def broken(v):
    return render(expected(small_doc(v), keep=True)).replace("<visibility>%d" % (v % 2), "<visibility>nonsense%d" % v)


def full_of(c, v):
    return gen.full(c, q(v), deep=0)


VERBS = ["normal", "verbose", "terse"]
PREC = [None, 2, 0]


# ---------------------------------------------------------------- the kinds of work
def w_read(v):
    return see(CLS["KML"].from_string(render(expected(small_doc(v), keep=True)), strict=v != 1))


def w_parse(v):
    ns = None if v == 0 else {"kml": KML21}
    node = expected(small_doc(v), keep=True, ns=ns)
    from model import Style
    from spec import NS
    st = None if v == 0 else Style(prefixes={KML21: "k", NS["gx"]: "gx", NS["atom"]: "atom"})
    text = render(node, st)
    k = CLS["KML"].parse(io.BytesIO(text.encode()) if v == 2 else io.StringIO(text), validate=False)
    return [see(k), k.ns, k.to_string()]


def w_write(v):
    return build(small_doc(v)).to_string(precision=PREC[v], verbosity=VERB[VERBS[v]], prettyprint=v == 0)


def w_malformed(v):
    return see(CLS["KML"].from_string(broken(v), strict=v == 0))


def w_malformed_rev(v):
    return see(CLS["KML"].from_string(broken(v), strict=v == 1))


def w_search(v):
    d = build(small_doc(v))
    return [[see(x) for x in fastkml.find_all(d, of_type=(CLS["Placemark"], CLS["Style"]) if v else CLS["Placemark"])],
            see(fastkml.find(d, id="pm%d" % v))]


def w_validate(v):
    e = config.etree.fromstring(render(expected(small_doc(v), keep=True)) if v != 1 else broken(v))
    return validator.validate(element=e)


def w_validate_rev(v):
    e = config.etree.fromstring(render(expected(small_doc(v), keep=True)) if v == 1 else broken(v))
    return validator.validate(element=e)


def w_validate_obj(v):
    o = build({"$": "Folder", "id": "f%d" % v, "name": "x"})
    if v == 1:
        o.id = "not valid"
    return o.validate()


def w_parse_valid(v):
    text = render(expected({"$": "KML", "features": [{"$": "Folder", "name": "n%d" % v}]}, keep=True))
    if v == 1:
        text = text.replace("<name>", "<name a='b'>")
    return see(CLS["KML"].parse(io.BytesIO(text.encode())))


def w_geometry(v):
    import pygeoif.geometry as g
    shape = [g.Polygon([(0, 0), (1, 0), (1, 1), (0, 0)], [[(0.1, 0.1), (0.2, 0.1), (0.2, 0.2), (0.1, 0.1)]]),
             g.GeometryCollection([g.Point(1.25, 2, 3), g.LineString([(0, 0, 1), (2, 2, 2)])]),
             g.MultiPoint([(1, 2), (3, 4)])][v]
    o = kgeo.create_kml_geometry(shape, id="g%d" % v, extrude=bool(v), tessellate=not v)
    r = type(o).from_string(o.to_string(precision=PREC[v]))
    return [o.to_string(precision=PREC[v]), str(r.geometry), str(o.geometry)]


def w_time(v):
    texts = [["1999", "2001-02-03T04:05:06Z"], ["2002-03", "2001-02-03T04:05:06.5+02:00"], ["2003-04-05", "1997"]][v]
    return [str(KmlDateTime.parse(t)) for t in texts]


def w_files(v):
    d = tempfile.mkdtemp(dir=SCRATCH[0])
    p = pathlib.Path(d) / ("a.kml" if v != 1 else "b.kmz")
    k = build(small_doc(v))
    k.write(p, prettyprint=v == 0, precision=PREC[v])
    if v != 1:
        return see(CLS["KML"].parse(p, validate=False))
    import zipfile
    with zipfile.ZipFile(p) as z:
        return [z.namelist(), z.read("doc.kml").decode()]


def w_compare(v):
    a, b, c = build(small_doc(v)), build(small_doc(v)), build(small_doc((v + 1) % 3))
    return [a == b, a == c, repr(a)]


def w_styles(v):
    d = build(small_doc(v)).features[0]
    s = d.get_style_by_url("#s%d" % v)
    return [see(s), d.get_style_by_url("http://x#nope")]


def w_track(v):
    import datetime

    import pygeoif.geometry as g
    from fastkml.gx import Angle, Track, TrackItem
    t = Track(track_items=[TrackItem(when=KmlDateTime(datetime.datetime(2001 + v, 1, 1 + i, tzinfo=datetime.timezone.utc)), coord=g.Point(i, v, 3), angle=Angle(v, i, 0) if v else None) for i in range(2)])
    text = t.to_string(precision=PREC[v])
    return [text, see(Track.from_string(text)), str(t.geometry)]


WORK = {k[2:]: f for k, f in list(globals().items()) if k.startswith("w_")}


def work(name):
    if name in WORK:
        return WORK[name]
    kind, _, c = name.partition(":")
    if kind == "read":
        return lambda v: see(CLS[c].from_string(render(expected(full_of(c, v), keep=True)), strict=v == 0))
    if kind == "write":
        return lambda v: build(full_of(c, v)).to_string(precision=PREC[v], verbosity=VERB[VERBS[v]], prettyprint=v == 0)
    raise AssertionError(name)


# ---------------------------------------------------------------- uses of a shared document
def shared_doc():
    a = small_doc(1)
    d = a["features"][0]
    d["features"] = d["features"] + [
        {"$": "Placemark", "id": "poly", "kml_geometry": gen.full("Polygon", gen.Seq(5), deep=1)},
        {"$": "Placemark", "id": "track", "kml_geometry": gen.full("Track", gen.Seq(9), deep=0)},
    ]
    return a


SHARED = [None]
USES = {
    "text": lambda d: d.to_string(),
    "text2": lambda d: d.to_string(precision=1, verbosity=VERB["verbose"]),
    "terse": lambda d: d.to_string(prettyprint=False, verbosity=VERB["terse"], precision=4),
    "find": lambda d: [see(x) for x in fastkml.find_all(d, of_type=CLS["Placemark"])],
    "find2": lambda d: see(fastkml.find(d, id="track")),
    "repr": lambda d: repr(d),
    "eq": lambda d: [d == SHARED[1], SHARED[1] == d, d == SHARED[2], d != SHARED[1]],
    "geometry": lambda d: [str(p.geometry) for p in d.features[0].features if hasattr(p, "geometry")],
    "style": lambda d: see(d.features[0].get_style_by_url("#s1")),
    "see": lambda d: see(d),
    "validate": lambda d: d.validate(),
    "element": lambda d: config.etree.tostring(d.etree_element()).decode(),
}


# ---------------------------------------------------------------- executing
SCRATCH = [None]


def functions(case):
    if "shared" in case:
        SHARED[:] = [build(shared_doc()), build(shared_doc()), build(small_doc(0))]
        return [lambda u=u: USES[u](SHARED[0]) for u in case["shared"]]
    return [lambda f=work(n), v=v: f(v) for v, n in enumerate(case["work"])]


def in_child(fn):
    """JSON result of fn, run in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            SCRATCH[0] = tempfile.mkdtemp(prefix="mc-c18-")
            try:
                data = json.dumps(fn(), default=repr).encode()
            finally:
                shutil.rmtree(SCRATCH[0], ignore_errors=True)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while True:
            x = os.read(r, 1 << 16)
            if not x:
                break
            chunks.append(x)
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return json.loads(b"".join(chunks) or b"null")


def execute(case, only=None):
    def body():
        fns = functions(case)
        if case.get("warm"):
            for f in fns:
                try:
                    f()
                except Exception:  # noqa: BLE001, S110
                    pass
        if only is not None:
            fns = [fns[only]]
        s = Sched(PKG, len(fns), 0 if only is not None else case.get("first", 0), case.get("preempt", ()), case.get("grain", "line"), only is not None)
        res = s.run(fns)
        extra = {}
        if "shared" in case:
            extra = {"content": see(SHARED[0])}
        return {"results": res, "step": s.step, "where": s.where, "switches": s.switches, "extra": extra}
    return in_child(body)


ALONE = {}


def alone(case):
    """What each thread gets when it runs alone, and its number of steps."""
    key = json.dumps([case.get("work"), case.get("shared"), case.get("grain", "line"), case.get("warm", False)])
    if key not in ALONE:
        n = len(case.get("work") or case["shared"])
        c = {k: v for k, v in case.items() if k not in ("preempt", "first")}
        out = [execute(c, only=i) for i in range(n)]
        ALONE[key] = ([strip(o["results"][0]) for o in out], [o["where"] for o in out])
        if any(o is None for o in out):
            raise RuntimeError("%s failed alone" % key)
    return ALONE[key]


def strip(r):
    """Messages of exceptions are not compared."""
    return r[:2] if r[0] == "raised" else r


def check(case, ctx):
    use("lxml")
    want, _ = alone(case)
    out = execute(case)
    if out is None:
        return "the process died"
    ctx.op(out["step"])
    ctx.outcome("switches=%d" % out["switches"])
    if out["results"] is None:
        return "the threads block each other: %s" % json.dumps(case)
    for i, (g, w) in enumerate(zip(out["results"], want)):
        if strip(g) != w:
            return "thread %d got %s, alone it gets %s" % (i, str(g)[:700], str(w)[:700])
    if "shared" in case and out["extra"]["content"] != json.loads(json.dumps(norm_seen())):
        return "the shared document changed"
    return None


CONTENT = []


def norm_seen():
    if not CONTENT:
        CONTENT.append(in_child(lambda: see(build(shared_doc()))))
    return CONTENT[0]


# ---------------------------------------------------------------- the space of schedules
KINDS1 = list(WORK)
SOME = ["read", "write", "malformed", "search", "validate_obj", "time", "geometry"]
SOME_USES = ["text", "text2", "find", "repr", "eq", "geometry", "style"]
KINDS2 = ["validate", "validate_rev", "time", "parse_valid", "validate_obj"]


def points(where, visits, seen=None):
    """Steps at which to preempt: every step, or the first `visits` and the last visit of every code location."""
    if visits is None:
        return list(range(1, len(where) + 1))
    count, last = {}, {}
    for i, w in enumerate(where):
        last[w] = i
    out = []
    for i, w in enumerate(where):
        count[w] = count.get(w, 0) + 1
        if count[w] <= visits or (last[w] == i and seen is None):
            if seen is not None:
                if w in seen:
                    continue
                seen.add(w)
            out.append(i + 1)
    return out


def schedules(base, bound, n=2, visits=None, seen=None):
    use("lxml")
    _, where = alone(base)
    if seen is None:
        yield dict(base)
    pts = [points(w, visits, None if seen is None else seen.setdefault(i, set())) for i, w in enumerate(where)]
    for a in range(n):
        for i in pts[a]:
            for to in range(n):
                if to == a:
                    continue
                yield dict(base, first=a, preempt=[[i, to]])
                if bound > 1:
                    for j in pts[to]:
                        for back in range(n):
                            if back != to:
                                yield dict(base, first=a, preempt=[[i, to], [i + j, back]])


def groups(tier):
    g = ["two/" + k for k in KINDS2] + ["three/" + k for k in ("validate", "read", "write", "time")]
    g += ["same/" + k for k in KINDS1] + ["warm/" + k for k in KINDS1]
    g += ["types/read", "types/write"]
    g += ["shared/%s/%s" % p for p in itertools.combinations_with_replacement(USES if tier == "thorough" else SOME_USES, 2)]
    g += ["cross/%s/%s" % p for p in itertools.combinations(KINDS1 if tier == "thorough" else SOME, 2)]
    if tier == "thorough":
        g += ["op/" + k for k in KINDS1]
        g += ["read/" + c for c in NAMES] + ["write/" + c for c in NAMES]
    return g


def shards(g, tier):
    k = g.split("/")[0]
    if tier == "thorough":
        return {"types": 8, "same": 8, "op": 16, "two": 16, "three": 16}.get(k, 2)
    return {"types": 8, "same": 2, "two": 4, "three": 2}.get(k, 1)


def cases(group, tier):
    kind, *names = group.split("/")
    deep = tier == "thorough"
    if kind == "same":
        yield from schedules({"work": names * 2, "grain": "line"}, 1, visits=None if deep else 1)
    elif kind == "warm":
        yield from schedules({"work": names * 2, "grain": "line" if deep else "call", "warm": True}, 1, visits=1)
    elif kind == "op":
        yield from schedules({"work": names * 2, "grain": "opcode"}, 1, visits=2)
    elif kind == "types":
        seen = {}
        for c in NAMES:
            yield from schedules({"work": ["%s:%s" % (names[0], c)] * 2, "grain": "line"}, 1, visits=1, seen=seen)
    elif kind in ("read", "write"):
        yield from schedules({"work": ["%s:%s" % (kind, names[0])] * 2, "grain": "line"}, 1, visits=1)
    elif kind == "shared":
        yield from schedules({"shared": names, "grain": "line" if deep or names[0] == names[1] else "call"}, 1, visits=2 if deep else 1)
    elif kind == "cross":
        yield from schedules({"work": names, "grain": "line" if deep else "call"}, 1, visits=2 if deep else 1)
    elif kind == "two":
        coarse = names[0] in ("parse_valid", "validate_obj", "time") and not deep
        yield from schedules({"work": names * 2, "grain": "call" if coarse else "line"}, 2, visits=1)
    else:
        yield from schedules({"work": names * 3, "grain": "call"}, 2 if deep and names[0] in ("validate", "time") else 1, 3, visits=1)
