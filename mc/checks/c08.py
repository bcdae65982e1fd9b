"""C08: dates and times keep their value and resolution."""
import datetime
import itertools
import re

from bind import CLS, RES, RES_NAME, make_time, see_time
from checks.common import *  # noqa: F403
from fastkml.exceptions import KMLParseError
from fastkml.times import KmlDateTime
from model import canon_time, render

BOUNDS = {
    "quick": "every year 0001..9999; every month and every day of 16 years (leap, century, extreme); every hour, minute and second; "
             "every millisecond and 60 microsecond fractions; every UTC offset of -14:00..+14:00 by the minute; each written and "
             "read in 6 positions; spellings (Z, zero and missing offsets, 1-6 fraction digits, white space); all begin/end pairs "
             "of 14 values; all constructor (value, resolution) pairs; pairwise equality of 120 values; 900 invalid calendar "
             "texts x 6 positions x 2 modes; both back ends",
    "thorough": "as quick with every day of 400 consecutive years (a whole Gregorian cycle), every minute of the day, "
                "and pairwise equality of 400 values",
}
ASSUMPTIONS = [
    "a date-time without UTC offset is taken as UTC when read",
    "only texts that are neither XML Schema nor ISO 8601 times are expected to be rejected (the date library also takes ISO 8601 week dates etc.)",
    "fractions have at most microsecond resolution",
]
YEARS = [1, 4, 99, 100, 400, 999, 1000, 1582, 1900, 1970, 1999, 2000, 2004, 2023, 2100, 9999]
XSD = {
    "gYear": re.compile(r"^\d{4}$"),
    "gYearMonth": re.compile(r"^\d{4}-\d\d$"),
    "date": re.compile(r"^\d{4}-\d\d-\d\d$"),
    "dateTime": re.compile(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$"),
}
POS = ["when", "begin", "end", "expires", "track", "nested"]


def doc(pos, text, other="2001-02-03T04:05:06Z"):
    """(abstract document holding the text at the position, getter of the real value)"""
    if pos == "when":
        return {"$": "TimeStamp", "id": "i", "timestamp": text}, lambda o: o.timestamp
    if pos == "begin":
        return {"$": "TimeSpan", "begin": text, "end": other}, lambda o: o.begin
    if pos == "end":
        return {"$": "TimeSpan", "begin": other, "end": text}, lambda o: o.end
    if pos == "expires":
        return {"$": "NetworkLinkControl", "expires": text, "cookie": "c"}, lambda o: o.expires
    if pos == "track":
        return (
            {"$": "Track", "track_items": [[other, [1.0, 2.0], [1.0, 2.0, 3.0]], [text, [3.0, 4.0], [4.0, 5.0, 6.0]], [other, [5.0, 6.0], [7.0, 8.0, 9.0]]]},
            lambda o: o.track_items[1].when if len(o.track_items) == 3 else None,
        )
    return (
        {"$": "KML", "features": [{"$": "Document", "features": [{"$": "Placemark", "name": "n", "times": {"$": "TimeStamp", "timestamp": text}}],
                                   "times": {"$": "TimeSpan", "begin": other}}]},
        lambda o: o.features[0].features[0].times.timestamp,
    )


def days(years):
    for y in years:
        d = datetime.date(y, 1, 1)
        while d.year == y:
            yield d.isoformat()
            if d == datetime.date.max:
                break
            d += datetime.timedelta(days=1)


def offset(m):
    return "%s%02d:%02d" % ("-" if m < 0 else "+", abs(m) // 60, abs(m) % 60)


PAIR = [None, "1997", "1998", "1997-07", "1997-08", "1997-07-16", "1997-07-17", "1997-07-16T00:00:00Z", "1997-07-16T07:30:15Z",
        "1997-07-16T07:30:15.250000Z", "1997-07-16T10:30:15+03:00", "1997-07-16T07:30:15-03:00", "0001-01-01", "9999-12-31T23:59:59Z"]
REPR = ["1997", "1997-07", "2000-02-29", "1997-07-16T07:30:15Z", "1997-07-16T10:30:15.000001+05:45", "0009-01-02T00:00:00-12:00"]


def equals(tier):
    out = ["1997", "1998", "0001", "1997-01", "1997-07", "1998-01", "1997-01-01", "1997-07-16", "1997-07-01", "1998-01-01"]
    for h in (0, 1, 7, 10, 12, 22, 23) if tier == "quick" else range(24):
        for o in (-570, -180, -60, 0, 60, 180, 345):
            out.append("1997-07-16T%02d:30:15%s" % (h, offset(o)))
    for us in (1, 2, 10, 500000, 999999, 250000):
        for o in (0, 180):
            out.append("1997-07-16T%02d:30:15.%06d%s" % (7 + o // 60, us, offset(o)))
    for y in (1996, 1997, 1998):
        for m in (1, 7):
            for d in (1, 16):
                for t in ("00:00:00", "07:30:15"):
                    out.append("%d-%02d-%02dT%sZ" % (y, m, d, t))
    return list(dict.fromkeys(out))


def invalid():
    out = ["x", "yesterday", "-", "T", "Z", "97", "199", "19970", "1997-", "1997-07-", "1997--16", "1997-7", "--07-16", "1997-07-16T",
           "1997-07-16T07:30:15Zx", "1997-07-16T07:30:15x", "x1997-07-16", "1997-07-16x", "1997x", "1997 07 16", "July 16, 1997",
           "true", "None", "nan", "1.5", "1e3", "1997-07-16T07:30:15+3", "1997-07-16T07:30:15+03:0", "1997-07-16T07:30:15.Z",
           "07:30:15", "1997-07-16 ,", "1997,07,16", "1997-07-16T07:30:15Z 1997-07-16T07:30:15Z", "#1997", "\u4e00", "1997-07-16T25:00:00Z",
           "9999-12-31T23:59:59.9999999Z", "9999-12-31T24:00:00Z", "0000-01-01T00:00:00Z", "1997-07-16T07:30:15+25:00", "1997-07-16T07:30:15-99:00"]
    out += ["0000", "0000-01", "0000-01-01"]
    for m in [0] + list(range(13, 100)):
        out.append("1997-%02d" % m)
        out.append("1997-%02d-01" % m)
        out.append("1997-%02d-01T00:00:00Z" % m)
    for y in (1996, 1900, 1997, 2000):
        for m in range(1, 13):
            last = (datetime.date(y + (m == 12), m % 12 + 1, 1) - datetime.timedelta(days=1)).day
            for d in (0, last + 1, 32, 33, 40, 99):
                out.append("%04d-%02d-%02d" % (y, m, d))
                out.append("%04d-%02d-%02dT07:30:15Z" % (y, m, d))
    for v in range(60, 100):
        out += ["1997-07-16T07:%02d:15Z" % v, "1997-07-16T07:30:%02dZ" % v]
    for h in range(25, 100):
        out.append("1997-07-16T%02d:30:15Z" % h)
    t = "1997-07-16T07:30:15Z"
    for i in range(len(t)):
        out.append(t[:i] + "x" + t[i + 1:])
    return list(dict.fromkeys(out))


def spellings():
    base = "2010-05-28T02:02:09"
    for off in ("Z", "+00:00", "-00:00", ""):
        yield base + off, base + "Z"
    for n in range(1, 7):
        for digits in ("1", "9", "12", "000001", "5", "10", "99", "123456", "050", "100000", "000", "999999"):
            f = digits[:n]
            for off in ("Z", "+02:00", "-09:30", ""):
                yield base + "." + f + off, base + "." + f.ljust(6, "0") + (off or "Z")
    for t in REPR + ["0001", "9999-12-31", "2000-01"]:
        yield t, t


def groups(tier):
    return ["years", "months", "days", "clock", "millis", "offsets", "spellings", "pairs", "ctor", "equal", "invalid", "positions"]


def shards(g, tier):
    n = {"years": 4, "days": 6, "invalid": 6, "offsets": 3, "millis": 2, "clock": 2}.get(g, 1)
    return n * 4 if tier == "thorough" else n


def cases(group, tier):
    if group == "years":
        for y in range(1, 10000):
            yield {"t": "%04d" % y, "pos": [POS[y % 6]] if tier == "quick" else POS}
    elif group == "months":
        for y in YEARS:
            for m in range(1, 13):
                yield {"t": "%04d-%02d" % (y, m), "pos": POS}
    elif group == "days":
        ys = YEARS if tier == "quick" else sorted(set(YEARS) | set(range(1700, 2100)))
        for i, d in enumerate(days(ys)):
            yield {"t": d, "pos": [POS[i % 6]]}
    elif group == "clock":
        mins = itertools.product(range(24), range(60))
        for i, (h, m) in enumerate(mins):
            if tier == "thorough" or h in (0, 9, 23) or m in (0, 7, 59):
                yield {"t": "2000-02-29T%02d:%02d:00Z" % (h, m), "pos": [POS[i % 6]]}
        for s in range(60):
            for o in ("Z", "+05:45", "-09:30"):
                yield {"t": "1999-12-31T23:59:%02d%s" % (s, o), "pos": POS[:3]}
    elif group == "millis":
        for ms in range(1, 1000):
            yield {"t": "2010-05-28T02:02:09.%03d000Z" % ms, "pos": [POS[ms % 6]]}
        for k in range(6):
            for d in range(1, 10):
                yield {"t": "2010-05-28T02:02:09.%06dZ" % (d * 10**k), "pos": POS}
        for us in (123456, 999999, 100001, 1, 10, 54321):
            yield {"t": "2010-05-28T02:02:59.%06d-03:30" % us, "pos": POS}
    elif group == "offsets":
        for m in range(-840, 841):
            yield {"t": "2000-01-01T00:00:00" + offset(m), "pos": [POS[m % 6]]}
            if m % 15 == 0:
                yield {"t": "1999-12-31T23:59:59.500000" + offset(m), "pos": POS}
    elif group == "spellings":
        for text, same in spellings():
            for ws in ("%s", " %s ", "\n\t%s\n"):
                yield {"read": ws % text, "as": same}
    elif group == "positions":
        for t in REPR:
            for u in REPR:
                yield {"t": t, "pos": POS, "other": u}
    elif group == "pairs":
        for b, e in itertools.product(PAIR, PAIR):
            yield {"begin": b, "end": e}
    elif group == "ctor":
        for t in gen.DATES + equals("quick")[:20]:
            for r in [None] + list(RES):
                yield {"ctor": t, "res": r}
    elif group == "equal":
        n = len(equals(tier))
        for i in range(n):
            yield {"equal": i, "of": n, "tier": tier}
    else:
        for t in invalid():
            yield {"invalid": t}


def expect(t):
    return canon_time(t)


def form(text, res):
    return XSD[res].match(text) is not None


def check(case, ctx):
    if "t" in case:
        return check_value(case, ctx)
    if "read" in case:
        return check_read(case, ctx)
    if "equal" in case:
        return check_equal(case, ctx)
    if "ctor" in case:
        return check_ctor(case, ctx)
    if "invalid" in case:
        return check_invalid(case["invalid"], ctx)
    return check_pair(case, ctx)


def leaves(node, tags=("when", "begin", "end", "expires")):
    out = [(node.tag, node.text)] if node.tag in tags else []
    for k in node.kids:
        out += leaves(k, tags)
    return out


def check_value(case, ctx):
    t = case["t"]
    want = expect(t)
    k = make_time(t)
    ctx.op(3)
    if see_time(k) != want:
        return "value made from %s shows %r" % (t, see_time(k))
    if not k:
        return "%s is falsy" % t
    p = KmlDateTime.parse(t)
    if see_time(p) != want:
        return "%s parsed as %r" % (t, see_time(p))
    if not (p == k) or p != k:
        return "%s: parsed value differs from the constructed one" % t
    if not form(str(k), want[0]) or canon_time(str(k)) != want:
        return "%s is printed as %r" % (t, str(k))
    for pos in case["pos"]:
        a, get = doc(pos, t, case.get("other", "2001-02-03T04:05:06Z"))
        for b in BACK:
            use(b)
            o = build(a)
            text = o.to_string()
            info = infoset(text)
            d = match(info, expected(a))
            ctx.op(2)
            if d:
                return "%s at %s, %s: %s" % (t, pos, b, d)
            for tag, txt in leaves(info):
                if not form(txt, canon_time(txt)[0]):
                    return "%s at %s: %s written as %r" % (t, pos, tag, txt)
            r = CLS[a["$"]].from_string(text)
            if see_time(get(r)) != want:
                return "%s at %s, %s: reads back as %r" % (t, pos, b, see_time(get(r)))
            d = diff(see(r), norm(a))
            if d:
                return "%s at %s, %s: read back: %s" % (t, pos, b, d)
            if r != o:
                return "%s at %s, %s: read back is not equal" % (t, pos, b)
    return None


def check_read(case, ctx):
    want = expect(case["as"])
    for pos in POS:
        a, get = doc(pos, "1999")
        text = render(expected(a)).replace(">1999<", ">%s<" % case["read"])
        for b in BACK:
            use(b)
            for strict in (True, False):
                o = CLS[a["$"]].from_string(text, strict=strict)
                ctx.op()
                if see_time(get(o)) != want:
                    return "%r at %s, %s, strict=%s: read as %r" % (case["read"], pos, b, strict, see_time(get(o)))
    return None


def check_pair(case, ctx):
    for cls in ("TimeSpan", "Placemark", "Folder"):
        span = {"$": "TimeSpan"}
        for k in ("begin", "end"):
            if case[k] is not None:
                span[k] = case[k]
        a = span if cls == "TimeSpan" else {"$": cls, "name": "n", "times": span}
        for b in BACK:
            use(b)
            o = build(a)
            text = o.to_string()
            ctx.op(2)
            d = match(infoset(text), expected(a))
            if d:
                return "%s: %s" % (cls, d)
            r = CLS[cls].from_string(text)
            for x in (o, r):
                if cls != "TimeSpan" and x is r and not (case["begin"] or case["end"]):
                    continue
                got = (see_time(x.begin), see_time(x.end))
                if got != tuple(None if case[k] is None else expect(case[k]) for k in ("begin", "end")):
                    return "%s: begin and end are %r, expected %r" % (cls, got, case)
                if cls != "TimeSpan" and x.time_stamp is not None:
                    return "%s: a time span is reported as time stamp" % cls
    return None


def check_ctor(case, ctx):
    t, r = case["ctor"], case["res"]
    c = canon_time(t)
    if c[0] == "dateTime":
        dt = datetime.datetime(*c[1:8], tzinfo=datetime.timezone(datetime.timedelta(minutes=c[8])))
    else:
        dt = datetime.date(*c[1:4])
    k = KmlDateTime(dt, RES[r]) if r else KmlDateTime(dt)
    ctx.op(2)
    if r is None:
        want = c if c[0] == "dateTime" else ("date",) + c[1:4]
    elif r == "gYear":
        want = ("gYear", c[1], 1, 1)
    elif r == "gYearMonth":
        want = ("gYearMonth", c[1], c[2], 1)
    elif r == "date" or c[0] != "dateTime":
        want = ("date",) + c[1:4]
    else:
        want = c
    if see_time(k) != want:
        return "KmlDateTime(%r, %s) is %r, expected %r" % (dt, r, see_time(k), want)
    if not form(str(k), want[0]) or canon_time(str(k)) != want:
        return "KmlDateTime(%r, %s) is printed as %s" % (dt, r, k)
    if KmlDateTime.parse(str(k)) != k:
        return "KmlDateTime(%r, %s) does not survive printing and parsing" % (dt, r)
    o = CLS["TimeStamp"](timestamp=k)
    if CLS["TimeStamp"].from_string(o.to_string()) != o:
        return "TimeStamp of KmlDateTime(%r, %s) does not survive a round trip" % (dt, r)
    return None


def instant(t):
    c = canon_time(t)
    if c[0] != "dateTime":
        return c
    d = datetime.datetime(*c[1:8]) - datetime.timedelta(minutes=c[8])
    return ("dateTime", d)


def check_equal(case, ctx):
    ts = equals(case["tier"])
    t = ts[case["equal"]]
    k = make_time(t)
    p = KmlDateTime.parse(t)
    s = CLS["TimeStamp"](timestamp=k)
    for u in ts:
        want = instant(t) == instant(u)
        ku = make_time(u)
        ctx.op(4)
        for x, y in ((k, ku), (ku, k), (p, ku), (s, CLS["TimeStamp"](timestamp=ku))):
            if (x == y) is not want or (x != y) is want:
                return "%s and %s: equal is %s, expected %s" % (t, u, x == y, want)
    for other in (None, t, 5, k.dt, s, object(), [k]):
        if k == other or not (k != other):
            return "%s equals %r" % (t, other)
    return None


def check_invalid(t, ctx):
    for pos in POS:
        a, get = doc(pos, "1999")
        text = render(expected(a)).replace(">1999<", ">%s<" % t)
        for b in BACK:
            use(b)
            ctx.op(2)
            try:
                o = CLS[a["$"]].from_string(text)
                return "%r at %s, %s: accepted as %r" % (t, pos, b, see_time(get(o)))
            except KMLParseError:
                pass
            o = CLS[a["$"]].from_string(text, strict=False)
            if pos == "track":
                d = None if len(o.track_items) == 2 and see_time(o.track_items[1].when) == canon_time("2001-02-03T04:05:06Z") else "track is %r" % (o.track_items,)
            else:
                gone = {"when": lambda: without(a, "timestamp"), "begin": lambda: without(a, "begin"), "end": lambda: without(a, "end"),
                        "expires": lambda: without(a, "expires"),
                        "nested": lambda: gen.replaced(a, ["features", 0, "features", 0, "times"], {"$": "TimeStamp"})}[pos]()
                d = diff(see(o), norm(gone))
            if d:
                return "%r at %s, %s, lenient: %s" % (t, pos, b, d)
    try:
        k = KmlDateTime.parse(t)
    except (ValueError, OverflowError):
        return None
    return "%r parsed as %r" % (t, see_time(k))


def without(a, k):
    return {x: v for x, v in a.items() if x != k}


_ = RES_NAME
