"""C17: user-registered extensions behave like built-in elements."""
import datetime
import io
import itertools
import json
import os
import traceback
from enum import Enum

import fastkml
from bind import CLS, N, config, infoset
from checks.c01 import expect_read
from checks.common import *  # noqa: F403
from explore import dumps
from fastkml import helpers as h
from fastkml.base import _XMLObject
from fastkml.enums import DateTimeResolution
from fastkml.exceptions import KMLParseError
from fastkml.kml_base import _BaseObject
from fastkml.registry import Registry, RegistryItem, registry
from fastkml.times import KmlDateTime
from model import esc, render

BOUNDS = {
    "quick": "every type and every one of its base classes x 12 kinds of values (attributes, elements, objects, lists) x several values, "
             "registered before or after the first use of the type, each in a process of its own: written, read, compared, searched, "
             "changed, malformed, terse and verbose, below the root, and without effect on unrelated types; every sequence of 2 (and, "
             "for fewer kinds, 3) registrations over 7 levels of the hierarchy; 6 and 17 registrations on each of 12 levels with others on a second one; every sequence of 4 and long sequences of registrations on private registries",
    "thorough": "as quick with every pair of kinds on the same type and sequences of 3 and 5 registrations",
}
ASSUMPTIONS = ["simple extension elements live in the namespace of the type they extend; nested objects in the one of their own type"]


class Colour(Enum):
    red = "red"
    dark_blue = "darkBlue"


class Ext(_BaseObject):
    """An application's own element."""

    _default_nsid = config.KML

    def __init__(self, ns=None, name_spaces=None, id=None, target_id=None, label=None, **kwargs):
        super().__init__(ns=ns, name_spaces=name_spaces, id=id, target_id=target_id, **kwargs)
        self.label = label

    def __repr__(self):
        return "Ext(ns=%r, name_spaces=%r, id=%r, label=%r)" % (self.ns, self.name_spaces, self.id, self.label)


class Mine(Ext):
    """One in the application's own namespace."""

    _default_nsid = "my"


MY = {"my": "{http://e.example/my}"}


def day(y):
    return KmlDateTime(datetime.date(y, 1, 1), DateTimeResolution.year)


# kind: (writer, reader, classes, values, default, malformed texts)
KINDS = {
    "text": (h.text_subelement, h.subelement_text_kwarg, (str,), ["a value", "0", "\u00e9 <&>"], "a value", []),
    "@text": (h.text_attribute, h.attribute_text_kwarg, (str,), ["a value", "0", "\u00e9 <&>"], "a value", []),
    "bool": (h.bool_subelement, h.subelement_bool_kwarg, (bool,), [True, False], True, ["maybe"]),
    "int": (h.int_subelement, h.subelement_int_kwarg, (int,), [5, 0, -7], 5, ["1.5", "x"]),
    "@int": (h.int_attribute, h.attribute_int_kwarg, (int,), [5, 0, -7], 5, ["1.5", "x"]),
    "float": (h.float_subelement, h.subelement_float_kwarg, (float,), [2.5, 0.0, -1e-7], 2.5, ["x"]),
    "@float": (h.float_attribute, h.attribute_float_kwarg, (float,), [2.5, 0.0, -1e-7], 2.5, ["x"]),
    "enum": (h.enum_subelement, h.subelement_enum_kwarg, (Colour,), [Colour.red, Colour.dark_blue], Colour.red, ["green"]),
    "@enum": (h.enum_attribute, h.attribute_enum_kwarg, (Colour,), [Colour.red, Colour.dark_blue], Colour.red, ["green"]),
    "date": (h.datetime_subelement, h.datetime_subelement_kwarg, (KmlDateTime,), ["1999", "2001"], None, ["x"]),
    "obj": (h.xml_subelement, h.xml_subelement_kwarg, None, ["one", "two"], None, []),
    "list": (h.xml_subelement_list, h.xml_subelement_list_kwarg, None, [["one"], ["two", "one", "two"]], None, []),
}
TEXT = {True: "1", False: "0", Colour.red: "red", Colour.dark_blue: "darkBlue"}


def value(kind, v, cls=Ext):
    if kind == "date":
        return day(int(v))
    if kind == "obj":
        return make(cls, v)
    if kind == "list":
        return [make(cls, x) for x in v]
    return v


def make(cls, label):
    return cls(label=label, id="x-" + label, name_spaces=MY if cls is Mine else None)


def register(level, kind, name, ns_id, cls=Ext, default=None):
    w, r, classes, _, _, _ = KINDS[kind]
    node = name if kind not in ("obj", "list") else cls.__name__
    if kind == "date":
        ns_id = "kml"  # dates are always KML elements
    registry.register(level, RegistryItem(
        ns_ids=("", ns_id) if kind[0] == "@" else (ns_id,) if kind not in ("obj", "list") else (cls._default_nsid,), classes=classes or (cls,), attr_name=name, node_name=node,
        get_kwarg=r, set_element=w, default=default))


LABELLED = []


def label_ext():
    """Ext itself has a registered value."""
    registry.register(Ext, RegistryItem(ns_ids=("kml", "my"), classes=(str,), attr_name="label", node_name="label",
                                        get_kwarg=h.subelement_text_kwarg, set_element=h.text_subelement))


def levels(c):
    return [k for k in CLS[c].__mro__ if issubclass(k, _XMLObject)]


def groups(tier):
    return ["single/" + c for c in NAMES] + ["many", "history2", "history3", "private", "subclass", "two"]


def shards(g, tier):
    return {"history2": 4, "history3": 16, "private": 8, "subclass": 4, "two": 8}.get(g, 2)


LEVELS = ["_XMLObject", "_BaseObject", "_Feature", "Placemark", "Folder", "KML", "Point"]


def cases(group, tier):
    kind, _, c = group.partition("/")
    if kind == "single":
        for i, lv in enumerate(levels(c)):
            for k in KINDS:
                if i and k not in ("text", "@int", "list"):
                    continue
                for late in (False, True):
                    yield {"single": c, "level": i, "kind": k, "late": late}
        yield {"single": c, "level": 0, "kind": "obj", "late": True, "mine": True}
        yield {"single": c, "level": 0, "kind": "list", "late": False, "mine": True}
    elif kind == "many":
        more = [*LEVELS, "Folder/base", "GroundOverlay/base", "Point/base", "TimeSpan/base", "Camera/base"]
        for lv, lw in itertools.product(more, repeat=2):
            for n in (6, 17) if tier == "quick" else (6, 17, 40):
                yield {"history": [[lv, "text"]] * n + [[lw, "text"]], "used": False}
                yield {"history": [[lw, "text"]] + [[lv, "@int"]] * n, "used": False}
                yield {"history": [[lv, "text"], [lw, "text"]] * (n // 2), "used": False}
    elif kind == "history2":
        menu = list(itertools.product(LEVELS, ("text", "@int", "list")))
        for seq in itertools.product(menu, repeat=2):
            for used in (False, True):
                yield {"history": [list(x) for x in seq], "used": used}
    elif kind == "history3":
        menu = list(itertools.product(LEVELS, ("text", "list") if tier == "quick" else ("text", "@int", "list")))
        for seq in itertools.product(menu, repeat=3):
            yield {"history": [list(x) for x in seq], "used": True}
    elif kind == "private":
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            for seq in itertools.product("ABCD", repeat=n):
                yield {"private": list(seq)}
                yield {"private": list(seq), "name": "same"}
        for unit in ("A", "D", "AB", "DCBA", "AABBCCDD"):
            for n in (17, 70, 140, 300):
                for name in (None, "same", "down"):
                    yield {"private": list((unit * n)[:n]), "name": name}
    elif kind == "subclass":
        for c in NAMES:
            for k in ("text", "int", "@enum", "obj", "list"):
                yield {"subclass": c, "kind": k}
    else:
        ks = list(KINDS) if tier == "thorough" else ["text", "@int", "bool", "enum", "list"]
        for c in NAMES if tier == "thorough" else ["Placemark", "Document", "KML", "Track", "Icon", "Style", "Polygon", "atom.Author", "Snippet", "Schema", "Lod"]:
            for k1, k2 in itertools.product(ks, repeat=2):
                yield {"two": [k1, k2], "cls": c}


def check(case, ctx):
    """Every case runs in a process of its own: registrations cannot be undone."""
    use("lxml")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                msg = inside(case)
            except BaseException as e:  # noqa: BLE001
                msg = "%s: %s\n%s" % (type(e).__name__, str(e)[:500], traceback.format_exc()[-2000:])
            data = json.dumps([msg, OPS[0]]).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            chunks.append(x)
    finally:
        os.close(r)
        try:
            os.kill(pid, 9) if not chunks else None
        except OSError:
            pass
        os.waitpid(pid, 0)
    msg, n = json.loads(b"".join(chunks) or b'["the process died", 0]')
    ctx.op(n)
    return msg


OPS = [0]


def inside(case):
    if "private" in case:
        return private(case["private"], case.get("name"))
    label_ext()
    if "single" in case:
        return single(case)
    if "subclass" in case:
        return subclass(case)
    if "two" in case:
        return two(case)
    return history(case)


# ---------------------------------------------------------------- one extension
def extra_nodes(root, name, cls=None):
    """(root without the extension, the extension's elements or attribute value)."""
    tag = name if cls is None else cls.__name__
    found = [k for k in root.kids if k.tag == tag]
    attrs = {k: v for k, v in root.attrs.items() if k != name}
    kids = [k for k in root.kids if k.tag != tag]
    text = root.text
    if not kids and found and text is not None and not text.strip():
        text = None
    return N(root.ns, root.tag, attrs, text, kids), found, root.attrs.get(name), [root.kids.index(f) for f in found]


def strip_text(n):
    """White space next to extension elements is layout."""
    return N(n.ns, n.tag, n.attrs, n.text.strip() or None if n.text else None, [strip_text(k) for k in n.kids])


def lexical(kind, v):
    if kind == "date":
        return v
    return TEXT[v] if isinstance(v, (bool, Enum)) else str(v)


def same_text(kind, got, v):
    if kind.lstrip("@") == "float":
        return float(got) == v
    if kind == "bool":
        return got in ("1", "true") if v else got in ("0", "false")
    return got == lexical(kind, v)


def single(case):
    c, kind = case["single"], case["kind"]
    lv = levels(c)[case["level"]]
    cls = CLS[c]
    ext = Mine if case.get("mine") else Ext
    ns_id = SPEC[c].ns
    nested = kind in ("obj", "list")
    kwns = {"name_spaces": MY} if ext is Mine else {}
    bases = [gen.mini(c), gen.full(c, deep=0), gen.full(c, deep=1)]
    others = [x for x in NAMES if not issubclass(CLS[x], lv)][:12]
    plain = {}
    if case["late"]:
        for i, a in enumerate(bases):
            plain[i] = repr(infoset(build(a).to_string()))
            cls.from_string(build(a).to_string())
        for x in others:
            plain[x] = build(gen.full(x, deep=0)).to_string()
            CLS[x].from_string(plain[x])
    register(lv, kind, "ext", ns_id, ext)
    vals = KINDS[kind][3]
    for i, a in enumerate(bases):
        want = expected(a)
        bare = build(a, **kwns)
        OPS[0] += 1
        d = match(infoset(bare.to_string()), want)
        if d:
            return "without a value the output of %s changed: %s" % (c, d)
        if case["late"] and repr(infoset(build(a).to_string())) != plain[i]:
            return "the output of %s without a value changed" % c
        for v in vals:
            o = build(a, ext=value(kind, v, ext), **kwns)
            OPS[0] += 6
            text = o.to_string()
            root = infoset(text)
            if a["$"] == "Style" and nested and 0:
                continue
            rest, found, attr, pos = extra_nodes(root, "ext", ext if nested else None)
            d = match(strip_text(rest), want) if SPEC[c].fields and not any(f.kind == "content" for f in SPEC[c].fields) else match(rest, want)
            if d:
                return "built-in content of %s changed by a %s extension at %s: %s\n%s" % (c, kind, lv.__name__, d, text[:600])
            if kind[0] == "@":
                if found or attr is None or not same_text(kind, attr, v):
                    return "%s extension of %s at %s: value %r written as %r" % (kind, c, lv.__name__, v, attr)
            elif nested:
                labels = [x for x in (v if kind == "list" else [v])]
                got = [(n.ns, [k.text for k in n.kids if k.tag == "label"], n.attrs.get("id")) for n in found]
                ns = (MY["my"] if ext is Mine else config.KMLNS)[1:-1]
                if got != [(ns, [x], "x-" + x) for x in labels]:
                    return "%s extension of %s at %s: %r written as %r" % (kind, c, lv.__name__, v, got)
            elif len(found) != 1 or found[0].kids or found[0].attrs or not same_text(kind, found[0].text, v) or found[0].ns != config.NAME_SPACES[ns_id if kind != "date" else "kml"][1:-1]:
                return "%s extension of %s at %s: value %r written as %r" % (kind, c, lv.__name__, v, found)
            if case["level"] == 0 and pos and pos != list(range(len(root.kids) - len(pos), len(root.kids))):
                return "the extension of %s is not written after its other content" % c
            # assigned later
            late = build(a, **kwns)
            late.ext = value(kind, v, ext)
            if repr(infoset(late.to_string())) != repr(root):
                return "an extension assigned later is written differently"
            # read
            for strict in (True, False):
                r = cls.from_string(text, strict=strict, **kwns)
                if not hasattr(r, "ext") or not equal(kind, r.ext, v, ext):
                    return "%s extension of %s at %s: %r read as %r" % (kind, c, lv.__name__, v, getattr(r, "ext", "missing"))
                if gen.parts_complete(a):
                    d = diff(see(r, True), expect_read(norm(a, True)))
                    if d:
                        return "with a %s extension %s reads %s" % (kind, c, d)
                    if i < 2 and kind != "list" and ext is Ext and comparable(a) and not (r == o and o == r):
                        return "with a %s extension %s read back is not equal" % (kind, c)
            # compare
            same, other = build(a, ext=value(kind, v, ext), **kwns), build(a, ext=value(kind, vals[0] if v != vals[0] else vals[1], ext), **kwns)
            if not (o == same and same == o) or o == other or other == o or o == bare or bare == o:
                return "comparing %s does not take the %s extension into account" % (c, kind)
            # search
            if nested:
                got = list(fastkml.find_all(o, of_type=ext))
                n = len(v) if kind == "list" else 1
                if len(got) != n or fastkml.find(o, of_type=ext, label="one" if kind == "list" else v) is None:
                    return "searching %s finds %d of %d extension objects" % (c, len(got), n)
            elif fastkml.find(o, ext=value(kind, v)) is not o or fastkml.find(o, of_type=cls, ext="no such value") is not None:
                return "searching %s by its extension fails" % c
            if "'ext'" not in repr(o):
                return "the representation of %s leaves out the extension" % c
            # removed again
            o.ext = None
            if match(infoset(o.to_string()), want):
                return "an extension removed again is still written"
        # below the root
        r = gen.to_root(a)
        if r is not None and r is not a and i == 1:
            path = next(p for p, x in gen.walk(r) if x == a)
            ro = build(r)
            x = ro
            for p in path:
                x = x[p] if isinstance(p, int) else getattr(x, p)
            x.ext = value(kind, vals[0], ext)
            if ext is Mine:
                continue
            back = CLS["KML"].parse(io.StringIO(ro.to_string()), validate=False)
            for p in path:
                back = back[p] if isinstance(p, int) else getattr(back, p)
            if not equal(kind, getattr(back, "ext", None), vals[0], ext):
                return "an extension of %s below the root is read as %r" % (c, getattr(back, "ext", "missing"))
        # white space around a value does not belong to it, and white space alone is none
        if kind[0] != "@":
            for v in vals[:2]:
                t = lexical(kind, v) if not nested else v if kind == "obj" else v[0]
                for spaced in ("\n   %s\t ", " %s", "%s\n"):
                    OPS[0] += 1
                    text = with_text(a, kind, t, ns_id, Ext if nested else None)
                    text = text.replace(">%s</ext>" % esc(t), ">%s</ext>" % (spaced % esc(t))).replace(">%s</label>" % esc(t), ">%s</label>" % (spaced % esc(t)))
                    for strict in (True, False):
                        r = cls.from_string(text, strict=strict)
                        want = v if kind != "list" else v[:1]
                        if ext is Ext and not equal(kind, getattr(r, "ext", None), want, Ext):
                            return "%s extension of %s: %r surrounded by white space is read as %r" % (kind, c, t, getattr(r, "ext", None))
            if kind in ("text", "date"):
                for strict in (True, False):
                    r = cls.from_string(with_text(a, kind, "\n  ", ns_id), strict=strict)
                    if getattr(r, "ext", None) is not None:
                        return "white space as %s extension of %s is read as %r" % (kind, c, getattr(r, "ext", "missing"))
        # malformed
        for t in KINDS[kind][5]:
            text = with_text(a, kind, t, ns_id)
            try:
                cls.from_string(text)
            except KMLParseError:
                pass
            else:
                return "malformed %s extension %r of %s is accepted" % (kind, t, c)
            r = cls.from_string(text, strict=False)
            if getattr(r, "ext", None) is not None or (gen.parts_complete(a) and diff(see(r, True), expect_read(norm(a, True)))):
                return "malformed %s extension %r of %s is read leniently as %r" % (kind, t, c, getattr(r, "ext", None))
    # subtypes have it, too
    for x in NAMES:
        if issubclass(CLS[x], lv) and x != c and SPEC[x].ns == ns_id:
            b = gen.mini(x)
            o = build(b, ext=value(kind, vals[0], ext), **kwns)
            r = CLS[x].from_string(o.to_string(), **kwns)
            OPS[0] += 2
            if not equal(kind, getattr(r, "ext", None), vals[0], ext):
                return "registered for %s, the extension of %s is lost" % (lv.__name__, x)
    # unrelated types do not
    for x in others:
        b = gen.full(x, deep=0)
        o = build(b)
        OPS[0] += 2
        if case["late"] and o.to_string() != plain[x]:
            return "registering for %s changed the output of %s" % (lv.__name__, x)
        text = with_text(b, kind, "one" if nested else lexical(kind, vals[0]), SPEC[x].ns, ext if nested else None)
        r = CLS[x].from_string(text, **kwns)
        if hasattr(r, "ext"):
            return "registered for %s, %s reads the extension" % (lv.__name__, x)
        o.ext = value(kind, vals[0], ext)
        if match(infoset(o.to_string()), expected(b)):
            return "registered for %s, %s writes the extension" % (lv.__name__, x)
    return None


def comparable(a):
    from checks.c01 import comparable as c
    return c(a)


def equal(kind, got, v, cls):
    if kind == "date":
        return got == day(int(v))
    if kind == "obj":
        return type(got) is cls and got.label == v and got.id == "x-" + v
    if kind == "list":
        return isinstance(got, list) and [(type(x), x.label, x.id) for x in got] == [(cls, x, "x-" + x) for x in v]
    return got == v and type(got) is type(v)


def with_text(a, kind, text, ns_id, cls=None):
    node = expected(a, keep=True)
    ns = config.NAME_SPACES["kml" if kind == "date" else ns_id][1:-1]
    if kind[0] == "@":
        node.attrs["ext"] = text
    elif cls is not None:
        node.kids.append(N(config.NAME_SPACES["kml"][1:-1], cls.__name__, {"id": "x-" + text}, None, [N(config.NAME_SPACES["kml"][1:-1], "label", None, text)]))
    else:
        node.kids.append(N(ns, "ext", None, text))
    return render(node)


# ---------------------------------------------------------------- two extensions and defaults
def two(case):
    k1, k2 = case["two"]
    c = case["cls"]
    cls, ns_id = CLS[c], SPEC[c].ns
    d1, d2 = KINDS[k1][4], KINDS[k2][4]
    register(cls, k1, "ext1", ns_id, Ext, d1)
    register(cls, k2, "ext2", ns_id, Ext2, d2)
    for a in (gen.mini(c), gen.full(c, deep=0)):
        for i1 in (None, 0, 1):
            for i2 in (None, 0, 1):
                v1 = None if i1 is None else KINDS[k1][3][i1]
                v2 = None if i2 is None else KINDS[k2][3][i2]
                kw = {}
                if v1 is not None:
                    kw["ext1"] = value(k1, v1, Ext)
                if v2 is not None:
                    kw["ext2"] = value(k2, v2, Ext2)
                o = build(a, **kw)
                OPS[0] += 4
                for verb in VERB:
                    root = infoset(o.to_string(verbosity=VERB[verb]))
                    names = []
                    for k, v, d, n, e in ((k1, v1, d1, "ext1", Ext), (k2, v2, d2, "ext2", Ext2)):
                        eff = v
                        if v is None and verb == "verbose":
                            eff = d
                        elif v is not None and verb == "terse" and v == d and type(v) is type(d):
                            eff = None
                        if k[0] == "@":
                            got = root.attrs.pop(n, None)
                            if (got is None) != (eff is None) or (got is not None and not same_text(k, got, eff)):
                                return "%s %s: %s extension with default %r and value %r is written as %r" % (c, verb, k, d, v, got)
                        elif eff is not None:
                            names += [(e.__name__, None)] * (len(eff) if k == "list" else 1) if k in ("obj", "list") else [(n, (k, eff))]
                    tail = [x for x in root.kids if x.tag in ("ext1", "ext2", "Ext", "Ext2")]
                    if [x.tag for x in tail] != [n for n, _ in names] or root.kids[len(root.kids) - len(tail):] != tail:
                        return "%s %s: extensions written as %s, expected %s at the end" % (c, verb, [x.tag for x in root.kids], names)
                    for x, (_, kv) in zip(tail, names):
                        if kv and not same_text(kv[0], x.text, kv[1]):
                            return "%s %s: extension %s written as %r" % (c, verb, kv, x.text)
                    root.kids = root.kids[: len(root.kids) - len(tail)]
                    root = strip_text(root) if not any(f.kind == "content" for f in SPEC[c].fields) else root
                    d = match(root, expected(a, verbosity=verb))
                    if d:
                        return "%s %s: built-in content changed: %s" % (c, verb, d)
                r = cls.from_string(o.to_string())
                for k, v, n, e in ((k1, v1, "ext1", Ext), (k2, v2, "ext2", Ext2)):
                    if v is None:
                        if getattr(r, n, None):
                            return "%s: absent extension read as %r" % (c, getattr(r, n))
                    elif not equal(k, getattr(r, n, None), v, e):
                        return "%s: %s extension %r read as %r" % (c, k, v, getattr(r, n, None))
    return None


class Ext2(Ext):
    pass


# ---------------------------------------------------------------- subclasses of the application
def subclass(case):
    c, kind = case["subclass"], case["kind"]
    base, ns_id = CLS[c], SPEC[c].ns

    class Sub(base):
        @classmethod
        def get_tag_name(cls):
            return base.get_tag_name()

    register(Sub, kind, "ext", ns_id)
    v = KINDS[kind][3][0]
    for a in (gen.mini(c), gen.full(c, deep=0)):
        kw = {k: getattr(build(a), k) for k in a if k[0] != "$"}
        o = Sub(ext=value(kind, v), **kw)
        OPS[0] += 4
        text = o.to_string()
        r = Sub.from_string(text)
        if type(r) is not Sub or not equal(kind, getattr(r, "ext", None), v, Ext):
            return "a subclass of %s reads its extension as %r" % (c, getattr(r, "ext", None))
        b = base.from_string(text)
        if hasattr(b, "ext"):
            return "%s reads the extension of its subclass" % c
        if gen.parts_complete(a) and diff(see(b, True), expect_read(norm(a, True))):
            return "%s reads the text of its subclass with differences" % c
        p = build(a)
        p.ext = value(kind, v)
        if match(infoset(p.to_string()), expected(a)):
            return "%s writes the extension of its subclass" % c
    return None


# ---------------------------------------------------------------- sequences of registrations
def level(name):
    if "/" in name:  # the direct base of a type
        return levels(name.split("/")[0])[1]
    return {"_XMLObject": _XMLObject, "_BaseObject": _BaseObject, "_Feature": levels("Placemark")[1]}.get(name) or CLS[name]


WATCHED = ["Placemark", "Folder", "Document", "KML", "Point", "LineString", "Style", "NetworkLink", "Icon", "GroundOverlay", "Camera", "TimeStamp"]


def history(case):
    regs = []
    for i, (lv, kind) in enumerate([("none", None)] + [tuple(x) for x in case["history"]]):
        if kind:
            regs.append((level(lv), kind, "e%d" % i))
            cls = EXTS.get(i)
            register(level(lv), kind, "e%d" % i, "kml", cls)
        if not case["used"] and i < len(case["history"]):
            continue
        for c in WATCHED:
            a = gen.mini(c)
            base = CLS[c]
            mine = [r for k in reversed(base.__mro__) for r in regs if r[0] is k]
            kw, names, attrs = {}, [], {}
            for j, (k, kd, n) in enumerate(regs):
                kw[n] = [make(EXTS[int(n[1:])], "one"), make(EXTS[int(n[1:])], "two")] if kd == "list" else {"text": "t" + n, "@int": 7}[kd]
            for k, kd, n in mine:
                if kd == "text":
                    names.append(n)
                elif kd == "list":
                    names += ["X%s" % n[1:]] * 2
                else:
                    attrs[n] = "7"
            o = build(a, **kw)
            OPS[0] += 2
            text = o.to_string()
            root = infoset(text)
            got = [k.tag for k in root.kids if k.tag[0] in "eX" and k.tag[1:].isdigit()]
            if got != names or {k: v for k, v in root.attrs.items() if k[0] == "e" and k[1:].isdigit()} != attrs:
                return "after %s: %s writes %s %s, expected %s %s" % (case["history"][:i], c, got, root.attrs, names, attrs)
            root.kids = [k for k in root.kids if not (k.tag[0] in "eX" and k.tag[1:].isdigit())]
            root.attrs = {k: v for k, v in root.attrs.items() if k not in attrs}
            d = match(strip_text(root), expected(a))
            if d:
                return "after %s: built-in content of %s changed: %s" % (case["history"][:i], c, d)
            r = base.from_string(text)
            for k, kd, n in regs:
                if (k, kd, n) in mine:
                    x = getattr(r, n, None)
                    if (kd == "list" and [y.label for y in x or ()] != ["one", "two"]) or (kd != "list" and x != kw[n]):
                        return "after %s: %s reads %s as %r" % (case["history"][:i], c, n, x)
                elif hasattr(r, n):
                    return "after %s: %s reads the extension %s of another type" % (case["history"][:i], c, n)
    return None


EXTS = {}
for _i in range(1, 6):
    EXTS[_i] = type("X%d" % _i, (Ext,), {})


# ---------------------------------------------------------------- private registries
def private(seq, name=None):
    class A(_XMLObject):
        pass

    class B(A):
        pass

    class C(A):
        pass

    class D(B, C):
        pass

    cl = {"A": A, "B": B, "C": C, "D": D}

    def item(n, node="s"):
        return RegistryItem(ns_ids=("kml",), classes=(str,), attr_name=n, node_name=node, get_kwarg=h.subelement_text_kwarg, set_element=h.text_subelement)

    r1, r2 = Registry(), Registry()
    glob = {k: list(registry.get(k)) for k in list(cl.values()) + [CLS["Placemark"]]}
    start = [item("s0")]
    given = {A: start}
    r3 = Registry(registry=given)
    done = []
    for i, s in enumerate(seq):
        it = item("z%03d" % (999 - i) if name == "down" else name or "i%d" % i, "n%d" % i)
        r1.register(cl[s], it)
        done.append((cl[s], it))
        OPS[0] += 4
        for k in cl.values():
            want = [x for m in reversed(k.__mro__) for c, x in done if c is m]
            for again in (0, 1):
                got = list(r1.get(k))
                if got != want:
                    return "after %s: the private registry gives %s for %s, expected %s" % (seq[: i + 1], [x.attr_name for x in got], k.__name__, [x.attr_name for x in want])
            lst = r1.get(k)
            if isinstance(lst, list):
                lst.append("rubbish")
                if list(r1.get(k)) != want:
                    return "changing the result of get changes the registry"
            if list(r2.get(k)):
                return "another private registry gained items"
            if list(registry.get(k)) != glob[k]:
                return "the global registry gained items"
            if [x.attr_name for x in r3.get(k)] != ["s0"]:
                return "a registry made from a mapping gives %s" % r3.get(k)
    if list(registry.get(CLS["Placemark"])) != glob[CLS["Placemark"]]:
        return "the global registry changed"
    return None


_ = dumps
