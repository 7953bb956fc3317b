"""ordering of timespans, events and todos"""
from datetime import datetime

from ics import Event, Todo
from ics.timespan import EventTimespan, Timespan, TodoTimespan

from hcommon import abs_us, zoned
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "pairs of arbitrary valid entries (absent, floating, fixed whole-minute offsets; any microsecond of the years 2..9990; whole-second durations up to "
    "2000 days; timed and all-day), summaries absent or up to 1 (thorough: 2) arbitrary characters; local zone: any fixed offset in "
    "quarter hours within +-14 h; zones with daylight saving time: any second of 2020"
)
OUTSIDE = "local zones with transitions, longer summaries, absent times against times before 1900-01-03 (the absent value sorts as 1900-01-01), times in hours that are repeated or skipped (within one zone Python compares wall clock times)"


def span(sx, name, cls):
    """an arbitrary valid timespan; -> (timespan, begin, effective end)"""
    k = sx.choice(name + "k", ("none", "naive", "aware", "day") if cls is not TodoTimespan else ("none", "naive", "aware"))
    if k == "none":
        if cls is EventTimespan or sx.choice(name + "e", (False, True)):
            return cls(), None, None
        e = sx.dt(name + "end", tz=None)
        return cls(None, e), None, e
    if k == "day":
        b = sx.dt(name + "b", midnight=True)
        d = sx.int(name + "days", 1, 400)
        from datetime import timedelta

        d = timedelta(days=1) * d
        return cls(b, None, d, "day"), b, b + d
    b = sx.dt(name + "b", tz=sx.tz(name + "o") if k == "aware" else None)
    rep = sx.choice(name + "r", ("none", "end", "duration"))
    if rep == "end":
        e = sx.dt(name + "end", tz=sx.tz(name + "eo") if k == "aware" else None)
        sx.assume(b <= e)
        return cls(b, e), b, e
    if rep == "duration":
        d = sx.td(name + "d", 0, 2000 * 86400)
        return cls(b, None, d), b, b + d
    return cls(b), b, (b if cls is EventTimespan else None)


def key(sx, x, local):
    return None if x is None else abs_us(sx, x, local)


def less(sx, x, y):
    """None first"""
    if x is None:
        return y is not None
    if y is None:
        return False
    return x < y


def equal(sx, x, y):
    if x is None or y is None:
        return x is None and y is None
    return x == y


def lex(sx, xs, ys):
    """xs < ys, component by component"""
    out = False
    for x, y in reversed(list(zip(xs, ys))):
        out = sx.or_(less(sx, x, y), sx.and_(equal(sx, x, y), out))
    return out


@case(dict(cls=EventTimespan), dict(cls=TodoTimespan))
def spans(sx, cls):
    local = sx.local()
    x, xb, xe = span(sx, "x", cls)
    y, yb, ye = span(sx, "y", cls)
    for t, other in ((xb, yb), (xe, ye), (yb, xb), (ye, xe)):
        if t is not None and other is None:
            sx.assume(sx.wall(t) >= sx.wall(datetime(1900, 1, 3)))
    kx, ky = [key(sx, xb, local), key(sx, xe, local)], [key(sx, yb, local), key(sx, ye, local)]
    if cls is TodoTimespan:
        kx.reverse()
        ky.reverse()
    lt, gt = lex(sx, kx, ky), lex(sx, ky, kx)
    sx.check(sx.iff(x < y, lt), "<")
    sx.check(sx.iff(x > y, gt), ">")
    sx.check(sx.iff(x <= y, sx.not_(gt)), "<=")
    sx.check(sx.iff(x >= y, sx.not_(lt)), ">=")


@case(*[dict(entry=c, op=o) for c in (Event, Todo) for o in ("<", ">", "<=", ">=")])
def entries(sx, entry, op):
    """begin and end of the two entries agree up to a choice, so that the summary decides"""
    local = sx.local()
    cls = entry._TIMESPAN_TYPE
    k = sx.choice("k", ("none", "naive", "aware", "mixed"))
    xb = yb = xe = ye = None
    if k != "none":
        xb = sx.dt("xb", tz=sx.tz("xo") if k != "naive" else None)
        yb = sx.dt("yb", tz=sx.tz("yo") if k == "aware" else None)
        if entry is Todo:
            xe = sx.dt("xe", tz=sx.tz("xeo") if xb.tzinfo is not None else None)
            ye = sx.dt("ye", tz=sx.tz("yeo") if yb.tzinfo is not None else None)
            sx.assume(xb <= xe)
            sx.assume(yb <= ye)
    n = sx.pick(1, 2)
    xs = sx.str("xs", (0, n)) if sx.choice("xs?", (False, True)) else None
    ys = sx.str("ys", (0, n)) if sx.choice("ys?", (False, True)) else None
    x = entry(timespan=cls(xb, xe), summary=xs, uid="x", dtstamp=(2020, 1, 1))
    y = entry(timespan=cls(yb, ye), summary=ys, uid="y", dtstamp=(2020, 1, 2))
    kx = [key(sx, xb, local), (xs or "")]
    ky = [key(sx, yb, local), (ys or "")]
    if entry is Todo:
        kx.insert(0, key(sx, xe, local))
        ky.insert(0, key(sx, ye, local))
    lt, gt = lex(sx, kx, ky), lex(sx, ky, kx)
    if op == "<":
        sx.check(sx.iff(x < y, lt), "<")
    elif op == ">":
        sx.check(sx.iff(x > y, gt), ">")
    elif op == "<=":
        sx.check(sx.iff(x <= y, sx.not_(gt)), "<=")
    else:
        sx.check(sx.iff(x >= y, sx.not_(lt)), ">=")


@case(*[dict(cls=c, kinds=k) for c in (EventTimespan, TodoTimespan) for k in (("dst", "dst"), ("dst", "aware"), ("naive", "dst"))])
def transitions(sx, cls, kinds):
    """zones with daylight saving time"""
    local = sx.local()
    k = []
    spans = []
    for n, kind in zip("xy", kinds):
        b = zoned(sx, n + "b", kind)
        e = None
        if kind == "dst" and n == "x":
            e = zoned(sx, n + "e", "dst")
            sx.assume(b <= e)
        spans.append(cls(b, e))
        if e is None and cls is EventTimespan:
            e = b
        k.append([key(sx, b, local), key(sx, e, local)])
    if cls is TodoTimespan:
        k = [x[::-1] for x in k]
    (x, y), (kx, ky) = spans, k
    lt, gt = lex(sx, kx, ky), lex(sx, ky, kx)
    sx.check(sx.iff(x < y, lt), "<")
    sx.check(sx.iff(x > y, gt), ">")
    sx.check(sx.iff(x <= y, sx.not_(gt)), "<=")
    sx.check(sx.iff(x >= y, sx.not_(lt)), ">=")


@case(*[dict(entry=c, n=n) for c in (Event, Todo) for n in (10, 100, 300)])
def long_summaries(sx, entry, n):
    """summaries that only differ late"""
    common = "x" * n
    b = sx.dt("b")
    xs, ys = common + sx.str("xs", (0, 1)), common + sx.str("ys", (0, 1))
    x = entry(begin=b, summary=xs, uid="x", dtstamp=(2020, 1, 1))
    y = entry(begin=b, summary=ys, uid="y", dtstamp=(2020, 1, 2))
    sx.check(sx.iff(x < y, xs < ys), "<")
    sx.check(sx.iff(x > y, xs > ys), ">")
    sx.check(sx.iff(x <= y, xs <= ys), "<=")
    sx.check(sx.iff(x >= y, xs >= ys), ">=")
