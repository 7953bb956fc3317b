"""interval relations between events, todos, timespans and instants"""
from ics import Event, Todo
from ics.timespan import EventTimespan, Timespan, TodoTimespan

from hcommon import DAY, abs_us, zoned
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "pairs of arbitrary valid spans (floating or any fixed whole-minute offset, all-day; begin, end or duration absent or present; "
    "any microsecond of the years 2..9990; durations up to 2000 days) given as timespan, event or todo; arbitrary instants; "
    "local zone: any fixed offset in quarter hours; zones with daylight saving time: any second of 2020, with begin and end"
)
OUTSIDE = "times in hours that are repeated or skipped (within one zone Python compares wall clock times)"


def span(sx, name, kind, full=False):
    """-> (object, begin, effective end)"""
    cls = kind._TIMESPAN_TYPE if kind in (Event, Todo) else kind
    k = sx.choice(name + "k", ("naive", "aware", "day") if full else ("none", "naive", "aware", "day"))
    e = d = None
    if k == "none":
        b = None
        if cls is not EventTimespan and sx.choice(name + "e", (False, True)):
            e = sx.dt(name + "end")
    elif k == "day":
        b = sx.dt(name + "b", midnight=True)
        d = DAY * sx.int(name + "days", 1, 400)
    else:
        b = sx.dt(name + "b", tz=sx.tz(name + "o") if k == "aware" else None)
        rep = sx.choice(name + "r", ("end", "duration") if full else ("none", "end", "duration"))
        if rep == "end":
            e = sx.dt(name + "end", tz=sx.tz(name + "eo") if k == "aware" else None)
            sx.assume(b <= e)
        elif rep == "duration":
            d = sx.td(name + "d", 0, 2000 * 86400, unit=1)
    ts = cls(b, e, d, "day" if k == "day" else "second")
    end = e if e is not None else b + d if d is not None else b if cls is EventTimespan else None
    obj = kind(timespan=ts, uid="u", dtstamp=(2020, 1, 1)) if kind in (Event, Todo) else ts
    return obj, b, end


def oracle(op, sx, xb, xe, yb, ye):
    if op == "starts_within":
        return sx.and_(yb <= xb, xb < ye)
    if op == "ends_within":
        return sx.and_(yb <= xe, xe < ye)
    if op == "includes":
        return sx.and_(xb <= yb, ye < xe)
    if op == "is_included_in":
        return sx.and_(yb <= xb, xe < ye)
    if op == "intersects":
        return sx.or_(sx.and_(yb <= xb, xb < ye), sx.and_(xb <= yb, yb < xe))


OPS = ("starts_within", "ends_within", "includes", "is_included_in", "intersects")


@case(*[dict(x=x, y=y, op=o) for x, y in ((Event, Event), (Todo, Todo), (Todo, Event), (Timespan, Event), (EventTimespan, EventTimespan),
                                          (TodoTimespan, TodoTimespan)) for o in OPS])
def relation(sx, x, y, op):
    local = sx.local()
    a, ab, ae = span(sx, "x", x)
    b, bb, be = span(sx, "y", y)
    if x not in (Event, Todo) and y in (Event, Todo):
        b = b.timespan
    exc, res = sx.raises(getattr(a, op), b)
    missing = bb is None or be is None or ab is None and op != "ends_within" or ae is None and op != "starts_within"
    if missing:
        sx.check(exc is not None and isinstance(exc, ValueError), "a missing begin or end is a ValueError")
        return
    sx.check(exc is None, "complete spans can be compared")
    if exc is not None:
        return
    k = [abs_us(sx, v, local) if v is not None else None for v in (ab, ae, bb, be)]
    sx.check(sx.iff(res, oracle(op, sx, *k)), op)


@case(*[dict(x=x, y=y) for x, y in ((Event, Event), (Todo, Todo), (Event, Todo))])
def consistency(sx, x, y):
    """relations between the relations"""
    sx.local()
    a, _, _ = span(sx, "x", x, full=True)
    b, _, _ = span(sx, "y", y, full=True)
    inc = a.includes(b)
    sx.check(sx.iff(inc, b.is_included_in(a)), "includes mirrors is_included_in")
    hit = a.intersects(b)
    sx.check(sx.iff(hit, b.intersects(a)), "intersects is symmetric")
    sx.check(sx.implies(sx.or_(inc, a.starts_within(b)), hit), "inclusion implies intersection")


@case(*[dict(x=x) for x in (Event, Todo, EventTimespan, TodoTimespan)])
def instants(sx, x):
    local = sx.local()
    a, ab, ae = span(sx, "x", x)
    k = sx.choice("k", ("naive", "aware"))
    v = sx.dt("v", tz=sx.tz("vo") if k == "aware" else None)
    exc, res = sx.raises(a.includes, v)
    if ab is None or ae is None:
        sx.check(exc is not None and isinstance(exc, ValueError), "a missing begin or end is a ValueError")
        return
    sx.check(exc is None, "instants can be tested")
    if exc is not None:
        return
    v, ab, ae = abs_us(sx, v, local), abs_us(sx, ab, local), abs_us(sx, ae, local)
    sx.check(sx.iff(res, sx.and_(ab <= v, v < ae)), "begin belongs to the span, end does not")


@case()
def operator(sx):
    """v in timespan"""
    local = sx.local()
    a, ab, ae = span(sx, "x", EventTimespan, full=True)
    v = sx.dt("v")
    v0, ab, ae = abs_us(sx, v, local), abs_us(sx, ab, local), abs_us(sx, ae, local)
    sx.check(sx.iff(v in a, sx.and_(ab <= v0, v0 < ae)), "in")


@case(*[dict(op=o, kinds=k) for o in OPS for k in (("dst", "dst"), ("dst", "aware"), ("naive", "dst"))])
def transitions(sx, op, kinds):
    """zones with daylight saving time"""
    local = sx.local()
    ends = []
    objs = []
    for n, kind in zip("xy", kinds):
        b, e = zoned(sx, n + "b", kind), zoned(sx, n + "e", kind)
        sx.assume(b <= e)
        objs.append(Event(begin=b, end=e, uid="u", dtstamp=(2020, 1, 1)))
        ends += [abs_us(sx, b, local), abs_us(sx, e, local)]
    sx.check(sx.iff(getattr(objs[0], op)(objs[1]), oracle(op, sx, *ends)), op)
