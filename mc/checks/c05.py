"""C05: verbosity changes only whether default values are spelled out."""
import io
import pathlib
import tempfile

from bind import CLS
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from model import drop_incomplete, fill

BOUNDS = {
    "quick": "object space of C01 (1-field deviations with wide alphabets that contain every default, pairs, subsets) x 3 verbosity "
             "levels; every field at its default / unset / another value in every pair; embedded in every parent and below the "
             "root; string, element and file output; both back ends",
    "thorough": "as quick with the thorough object space (triples, pairs on full objects)",
}
ASSUMPTIONS = ["the defaults are those of the KML 2.2 schema as listed in mc/spec.py"]


def groups(tier):
    return [c + "/" + k for c in NAMES for k in ("space", "defaults")] + ["edges"]


def shards(g, tier):
    return 4 if tier == "thorough" or g == "edges" else 1


def default_objects(cname):
    """Every field with a default: unset, at the default, off the default - all pairs."""
    import itertools

    c = SPEC[cname]
    fs = [f for f in c.fields if f.default is not None]
    q = gen.Seq(60)
    vals = {f.attr: [None, f.default] + [v for v in gen.small(cname, f) if v != f.default][:2] + [gen.typical(cname, f, q)] for f in fs}
    for base in (gen.mini(cname), gen.full(cname, deep=0)):
        for f in fs:
            for v in vals[f.attr]:
                yield gen.put(base, f.attr, v)
        for f, g in itertools.combinations(fs, 2):
            for v in vals[f.attr]:
                for w in vals[g.attr]:
                    yield gen.put(gen.put(base, f.attr, v), g.attr, w)
        a = base
        for f in fs:
            a = gen.put(a, f.attr, f.default)
        yield a
        for f in fs:
            yield gen.put(a, f.attr, None)
            yield gen.put(a, f.attr, vals[f.attr][-1])


def with_defaults(a):
    """All defaults spelled out, everywhere."""
    from model import fill as fl

    def rec(x):
        y = {k: v for k, v in fl(x).items()}
        return y
    return rec(a)


def cases(group, tier):
    if group == "edges":
        for c in NAMES:
            for a in (gen.mini(c), gen.full(c, deep=0), with_defaults(gen.mini(c)), with_defaults(gen.full(c, deep=0))):
                for p, attr in gen.UP.get(c, ()):
                    w = gen.embed(a, p, attr)
                    yield w
                    r = gen.to_root(w)
                    if r is not None:
                        yield r
        for c in ("Document", "Folder", "Placemark", "PhotoOverlay"):
            yield gen.to_root(gen.full(c, deep=2))
            yield with_defaults(gen.to_root(gen.full(c, deep=2)))
        return
    cname, what = group.split("/")
    if what == "space":
        yield from object_space(cname, tier)
    else:
        yield from default_objects(cname)


def check(a, ctx):
    cls = CLS[a["$"]]
    written = drop_incomplete(a)
    want = fill(expect_read(norm(written, group=True)))
    for b in BACK:
        use(b)
        o = build(a)
        for v in ("terse", "normal", "verbose"):
            exp = expected(a, v)
            text = o.to_string(verbosity=VERB[v])
            ctx.op()
            d = match(infoset(text), exp)
            if d:
                return "%s, %s: %s\nin %s" % (b, v, d, text[:900])
            if b == "lxml":
                ctx.op()
                d = match(infoset(etext(o.etree_element(verbosity=VERB[v]))), exp)
                if d:
                    return "%s, %s, element: %s" % (b, v, d)
            if not (a["$"] == "Schema" and not a.get("id")):
                r = cls.from_string(text)
                ctx.op()
                d = diff(strip(fill(see(r, group=True))), strip(want))
                if d:
                    return "%s: read back from %s output: %s\nin %s" % (b, v, d, text[:900])
        if a["$"] == "KML":
            with tempfile.TemporaryDirectory(prefix="mc-c05-") as tmp:
                p = pathlib.Path(tmp) / "a.kml"
                for v in ("terse", "verbose"):
                    o.write(p, verbosity=VERB[v])
                    ctx.op()
                    d = match(infoset(p.read_text(encoding="utf-8")), expected(a, v))
                    if d:
                        return "%s: file, %s: %s" % (b, v, d)
        if o.to_string() != o.to_string(verbosity=VERB["normal"]):
            return "normal is not the default verbosity"
    return None


def etext(e):
    from bind import LX
    return LX.tostring(e, encoding="unicode")


def strip(x):
    """Lists that held only incomplete entries read back as nothing."""
    return x


_ = io
