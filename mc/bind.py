"""Binding of the model to the implementation: build real objects, observe them."""
import datetime
import importlib
import json
import os
import sys
import xml.etree.ElementTree as ET

REPO = os.environ.get("MC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import lxml.etree as LX  # noqa: E402

import fastkml  # noqa: E402

assert os.path.realpath(fastkml.__file__).startswith(os.path.realpath(REPO) + os.sep), fastkml.__file__

import pygeoif.geometry as geo  # noqa: E402

from fastkml import config, enums  # noqa: E402
from fastkml.gx import Angle, TrackItem  # noqa: E402
from fastkml.times import KmlDateTime  # noqa: E402

from model import N, canon_time, norm  # noqa: E402
from spec import SPEC  # noqa: E402

CLS = {}
for _c in SPEC.values():
    CLS[_c.name] = getattr(importlib.import_module(_c.module), _c.name.split(".")[-1])
NAME = {v: k for k, v in CLS.items()}
ENUM = {}


def enum_member(enum_name, text):
    key = (enum_name, text)
    if key not in ENUM:
        ENUM[key] = [m for m in getattr(enums, enum_name) if m.value == text][0]
    return ENUM[key]


RES = {
    "gYear": enums.DateTimeResolution.year,
    "gYearMonth": enums.DateTimeResolution.year_month,
    "date": enums.DateTimeResolution.date,
    "dateTime": enums.DateTimeResolution.datetime,
}
RES_NAME = {v: k for k, v in RES.items()}
VERB = {"terse": enums.Verbosity.terse, "normal": enums.Verbosity.normal, "verbose": enums.Verbosity.verbose}


def make_time(text):
    """A real time value, made from datetime objects (not by the library's parser)."""
    t = canon_time(text)
    if t[0] == "dateTime":
        dt = datetime.datetime(*t[1:8], tzinfo=datetime.timezone(datetime.timedelta(minutes=t[8])))
        return KmlDateTime(dt)
    return KmlDateTime(datetime.date(*t[1:4]), RES[t[0]])


def see_time(k):
    """Canonical form of a real time value."""
    if k is None:
        return None
    dt, res = k.dt, RES_NAME.get(k.resolution, repr(k.resolution))
    if isinstance(dt, datetime.datetime):
        off = dt.utcoffset()
        mins = None if off is None else off.total_seconds() / 60
        return (res, dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond,
                int(mins) if mins is not None and mins == int(mins) else mins)
    return (res, dt.year, dt.month, dt.day)


def make_value(f, v):
    k = f.kind
    if v is None:
        return None
    if k in ("enum", "@enum"):
        return enum_member(f.arg, v)
    if k == "date":
        return make_time(v)
    if k == "obj":
        return build(v)
    if k == "list":
        return [build(x) for x in v]
    if k == "coords":
        return [tuple(p) for p in v]
    if k == "track":
        return [
            TrackItem(
                when=None if w is None else make_time(w),
                coord=None if p is None else geo.Point(*p),
                angle=None if g is None else Angle(*g),
            )
            for w, p, g in v
        ]
    return v


SHARED = None


def build_shared(a):
    """Like build, but equal parts are one and the same object."""
    global SHARED
    SHARED = {}
    try:
        return build(a)
    finally:
        SHARED = None


def build(a, **extra):
    """Construct the real object through its public constructor."""
    if SHARED is not None:
        key = json.dumps(a, sort_keys=True)
        if key not in SHARED:
            SHARED[key] = _build(a)
        return SHARED[key]
    return _build(a, **extra)


def _build(a, **extra):
    c = SPEC[a["$"]]
    kw = {}
    for k, v in a.items():
        if k[0] != "$":
            kw[k] = make_value(c.by_attr[k], v)
    kw.update(a.get("$extra", {}))
    kw.update(extra)
    return CLS[c.name](**kw)


class Bad(Exception):
    """The implementation shows something the vocabulary does not know."""


def see(o, group=False):
    """Canonical abstract form of a real object, read from its public attributes."""
    t = type(o)
    if t not in NAME:
        raise Bad("unexpected object %r" % (o,))
    c = SPEC[NAME[t]]
    out = {"$": c.name}
    for f in c.fields:
        v = getattr(o, f.attr)
        if v is None or (isinstance(v, str) and v == ""):
            continue
        k = f.kind
        if k in ("enum", "@enum"):
            if not isinstance(v, getattr(enums, f.arg)):
                raise Bad("%s.%s is %r, not a %s" % (c.name, f.attr, v, f.arg))
            v = v.value
        elif k == "date":
            v = see_time(v)
        elif k == "obj":
            v = see(v, group)
        elif k == "list":
            v = list(v)
            if group:
                v = sorted(v, key=lambda x: NAME.get(type(x), "?"))
            v = [see(x, group) for x in v]
            if not v:
                continue
        elif k == "coords":
            v = [tuple(float(x) for x in p) for p in v]
            if not v:
                continue
        elif k == "track":
            v = [
                (
                    see_time(i.when) if i.when is None or isinstance(i.when, KmlDateTime) else repr(i.when),
                    None if i.coord is None else (tuple(float(x) for x in i.coord.coords[0]) if i.coord else ()),
                    None if i.angle is None else tuple(float(x) for x in (i.angle.heading, i.angle.tilt, i.angle.roll)),
                )
                for i in v
            ]
            if not v:
                continue
        elif k in ("float", "@float"):
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Bad("%s.%s is %r, not a number" % (c.name, f.attr, v))
            v = float(v)
        elif k in ("int", "@int"):
            if isinstance(v, bool) or not isinstance(v, int):
                raise Bad("%s.%s is %r, not an integer" % (c.name, f.attr, v))
        elif k == "bool":
            if not isinstance(v, bool):
                raise Bad("%s.%s is %r, not a boolean" % (c.name, f.attr, v))
        elif not isinstance(v, str):
            raise Bad("%s.%s is %r, not text" % (c.name, f.attr, v))
        out[f.attr] = v
    return out


def split(tag):
    if tag[0] == "{":
        ns, _, t = tag[1:].partition("}")
        return ns, t
    return "", tag


def infoset(e):
    """Element content without insignificant white space, from text or an element."""
    if isinstance(e, (str, bytes)):
        e = ET.fromstring(e)
    ns, t = split(e.tag)
    kids = [infoset(k) for k in e if isinstance(k.tag, str)]
    text = e.text
    if kids:
        extra = "".join([text or ""] + [(k.tail or "") for k in e])
        text = extra if extra.strip() else None
    return N(ns, t, {k if k[0] != "{" else k: v for k, v in e.attrib.items()}, text, kids)


BACKENDS = {"lxml": LX, "std": ET}


def use(backend):
    config.set_etree_implementation(BACKENDS[backend])
    config.set_default_namespaces()
