"""timeline queries select exactly the matching events, in chronological order"""
from datetime import datetime, timedelta

from ics import Calendar, Event
from ics.timeline import Timeline
from ics.timespan import EventTimespan, Normalization, NormalizationAction, Timespan

from hcommon import DAY, abs_us, zoned
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "calendars with two events (floating, all-day, any fixed whole-minute offset, without begin; any microsecond of the years 2..9990; "
    "durations up to 2000 days or absent); queries with arbitrary floating or aware instants, dates and timespans (instants of on() with microseconds); the clock at any second of "
    "2000..2050; local zone any fixed offset in quarter hours; zones with daylight saving time: any second of 2020, also days of 23 and 25 hours; arbitrary queries over nine fixed events"
)
OUTSIDE = "times in hours that are repeated or skipped, more than two events (selection is per event, order is decided in P06)"

KINDS = ("none", "naive", "aware", "day")


def event(sx, name, kinds=KINDS):
    k = sx.choice(name + "k", kinds)
    if k == "none":
        return Event(name, uid=name, dtstamp=(2020, 1, 1)), None, None
    d = None
    if k == "day":
        b = sx.dt(name + "b", midnight=True)
        d = DAY * sx.int(name + "days", 1, 400)
        ev = Event(name, timespan=EventTimespan(b, None, d, "day"), uid=name, dtstamp=(2020, 1, 1))
    else:
        b = sx.dt(name + "b", tz=sx.tz(name + "o") if k == "aware" else None)
        if sx.choice(name + "d?", (True, False)):
            d = sx.td(name + "d", 0, 2000 * 86400)
        ev = Event(name, b, duration=d, uid=name, dtstamp=(2020, 1, 1))
    return ev, b, (b if d is None else b + d)


def query_instant(sx, name, kinds=("naive", "aware"), unit=None):
    k = sx.choice(name + "k", kinds)
    if k == "date":
        return sx.date(name)
    return sx.dt(name, tz=sx.tz(name + "o") if k == "aware" else None, unit=unit)


def inst(sx, v, local):
    if not hasattr(v, "hour"):
        return v.toordinal() * 86400000000 - sx.us(local)
    return abs_us(sx, v, local)


def select(sx, evs, result, local, pred, label):
    got = list(result)
    for e, b, x in evs:
        n = sum(1 for g in got if g is e)
        sx.check(n <= 1, "an event is listed at most once")
        if b is None:
            sx.check(n == 0, "events without begin are never listed")
            continue
        want = pred(abs_us(sx, b, local), abs_us(sx, x, local))
        sx.check(sx.iff(n == 1, want), label)
    if len(got) == 2:
        k = [[abs_us(sx, b, local) for e, b, _ in evs if e is g][0] for g in got]
        sx.check(k[0] <= k[1], "in chronological order")


def setup(sx, n=1):
    local = sx.local()
    evs = [event(sx, "x")]
    if n == 2:
        evs.append(event(sx, "y", ("naive", "aware")))
    return local, evs, Calendar(events=[e for e, _, _ in evs]).timeline


@case(dict(n=1), dict(n=2))
def at(sx, n):
    local, evs, line = setup(sx, n)
    v = query_instant(sx, "v", ("naive", "aware", "date") if n == 1 else ("aware",))
    i = inst(sx, v, local)
    select(sx, evs, line.at(v), local, lambda b, e: sx.and_(b <= i, i < e), "at")


@case(dict(n=1), dict(n=2))
def start_after(sx, n):
    local, evs, line = setup(sx, n)
    v = query_instant(sx, "v", ("naive", "aware", "date") if n == 1 else ("aware",))
    i = inst(sx, v, local)
    select(sx, evs, line.start_after(v), local, lambda b, e: b > i, "start_after")


@case(*[dict(which=w, form=f, n=n) for w in ("included", "overlapping") for f, n in (("instants", 1), ("instants", 2), ("timespan", 1))])
def between(sx, which, form, n):
    local, evs, line = setup(sx, n)
    k = sx.choice("k", ("naive", "aware"))
    tz = sx.tz("o") if k == "aware" else None
    start, stop = sx.dt("start", tz=tz), sx.dt("stop", tz=tz)
    sx.assume(start <= stop)
    a, z = abs_us(sx, start, local), abs_us(sx, stop, local)
    f = getattr(line, which)
    res = f(start, stop) if form == "instants" else f(Timespan(start, stop))
    if which == "included":
        select(sx, evs, res, local, lambda b, e: sx.and_(a <= b, e < z), "included")
    else:
        select(sx, evs, res, local, lambda b, e: sx.or_(sx.and_(a <= b, b < z), sx.and_(b <= a, a < e)), "overlapping")


@case(dict(strict=False), dict(strict=True))
def on(sx, strict):
    local, evs, line = setup(sx)
    v = query_instant(sx, "v", ("naive", "aware", "date"), unit=1)
    day0 = v.toordinal() * 86400000000
    off = v.utcoffset() if hasattr(v, "hour") and v.tzinfo is not None else local
    a = day0 - sx.us(off)
    z = a + 86400000000
    res = line.on(v, strict=strict) if strict else line.on(v)
    if strict:
        select(sx, evs, res, local, lambda b, e: sx.and_(a <= b, e < z), "strictly on the day")
    else:
        select(sx, evs, res, local, lambda b, e: sx.or_(sx.and_(a <= b, b < z), sx.and_(b <= a, a < e)), "on the day")


@case(dict(strict=False), dict(strict=True))
def today(sx, strict):
    local, evs, line = setup(sx)
    now = sx.wall(sx.clock())
    day = (now + sx.us(local)) // 86400000000
    a = day * 86400000000 - sx.us(local)
    z = a + 86400000000
    res = line.today(strict)
    if strict:
        select(sx, evs, res, local, lambda b, e: sx.and_(a <= b, e < z), "strictly today")
    else:
        select(sx, evs, res, local, lambda b, e: sx.or_(sx.and_(a <= b, b < z), sx.and_(b <= a, a < e)), "today")


@case()
def now(sx):
    local, evs, line = setup(sx)
    i = sx.wall(sx.clock())
    select(sx, evs, line.now(), local, lambda b, e: sx.and_(b <= i, i < e), "now")


@case(*[dict(floating=f, with_tz=w, q=q) for f, w in ((NormalizationAction.REPLACE, NormalizationAction.CONVERT), (NormalizationAction.CONVERT, NormalizationAction.CONVERT))
        for q in ("at", "start_after", "overlapping")])
def normalised(sx, floating, with_tz, q):
    """with a normalization, floating events and floating queries are read in the replacement zone"""
    local = sx.local()
    tz = sx.tz("tz")
    ev, b, e = event(sx, "x", ("naive", "aware"))
    line = Timeline(Calendar(events=[ev]), Normalization(tz, floating, with_tz))
    ref = tz.utcoffset(None) if floating is NormalizationAction.REPLACE else local
    v = query_instant(sx, "v")
    i = abs_us(sx, v, ref)
    if q == "at":
        select(sx, [(ev, b, e)], line.at(v), ref, lambda b, e: sx.and_(b <= i, i < e), "at")
    elif q == "start_after":
        select(sx, [(ev, b, e)], line.start_after(v), ref, lambda b, e: b > i, "start_after")
    else:
        w = v + DAY
        j = i + 86400000000
        select(sx, [(ev, b, e)], line.overlapping(v, w), ref,
               lambda b, e: sx.or_(sx.and_(i <= b, b < j), sx.and_(b <= i, i < e)), "overlapping")


@case(*[dict(q=q, kind=k) for q in ("at", "start_after", "on", "strict", "overlapping", "included") for k in ("dst", "aware")])
def transitions(sx, q, kind):
    """zones with daylight saving time"""
    local = sx.local()
    b = zoned(sx, "b", kind)
    e = zoned(sx, "e", kind)
    sx.assume(b <= e)
    ev = Event("x", b, e, uid="x", dtstamp=(2020, 1, 1))
    line = Calendar(events=[ev]).timeline
    v = zoned(sx, "v", "dst")
    i = abs_us(sx, v, local)
    evs = [(ev, b, e)]
    if q == "at":
        select(sx, evs, line.at(v), local, lambda b, e: sx.and_(b <= i, i < e), q)
    elif q == "start_after":
        select(sx, evs, line.start_after(v), local, lambda b, e: b > i, q)
    elif q in ("on", "strict"):
        a = abs_us(sx, v.replace(hour=0, minute=0, second=0, microsecond=0), local)
        z = abs_us(sx, v.replace(hour=0, minute=0, second=0, microsecond=0) + DAY, local)
        if q == "strict":
            select(sx, evs, line.on(v, strict=True), local, lambda b, e: sx.and_(a <= b, e < z), q)
        else:
            select(sx, evs, line.on(v), local, lambda b, e: sx.or_(sx.and_(a <= b, b < z), sx.and_(b <= a, a < e)), q)
    else:
        w = zoned(sx, "w", "dst")
        sx.assume(v <= w)
        j = abs_us(sx, w, local)
        if q == "included":
            select(sx, evs, line.included(v, w), local, lambda b, e: sx.and_(i <= b, e < j), q)
        else:
            select(sx, evs, line.overlapping(v, w), local, lambda b, e: sx.or_(sx.and_(i <= b, b < j), sx.and_(b <= i, i < e)), q)


CROWD = [(2020, 5, 1), (2020, 1, 1), (2020, 9, 1), (2020, 1, 1, 12), (1999, 1, 1), (2020, 5, 1), (2030, 1, 1), (2020, 2, 29), (2019, 12, 31, 23, 59)]


@case(*[dict(q=q) for q in ("at", "start_after", "on", "strict", "overlapping", "included")])
def crowd(sx, q):
    """many events, an arbitrary query"""
    local = sx.local()
    evs = []
    for i, t in enumerate(CROWD):
        b = datetime(*t)
        d = [None, timedelta(hours=3), timedelta(days=40)][i % 3]
        evs.append((Event(f"c{i}", b, duration=d, uid=f"c{i}", dtstamp=(2020, 1, 1)), b, b if d is None else b + d))
    line = Calendar(events=[e for e, _, _ in evs]).timeline
    v = sx.dt("v", 1990, 2040)
    i = abs_us(sx, v, local)
    if q == "at":
        got, want = line.at(v), lambda b, e: sx.and_(b <= i, i < e)
    elif q == "start_after":
        got, want = line.start_after(v), lambda b, e: b > i
    else:
        if q in ("on", "strict"):
            i = v.toordinal() * 86400000000 - sx.us(local)
            j = i + 86400000000
            got = line.on(v, strict=q == "strict")
        else:
            w = sx.dt("w", 1990, 2040)
            sx.assume(v <= w)
            j = abs_us(sx, w, local)
            got = getattr(line, q)(v, w)
        if q in ("strict", "included"):
            want = lambda b, e: sx.and_(i <= b, e < j)  # noqa: E731
        else:
            want = lambda b, e: sx.or_(sx.and_(i <= b, b < j), sx.and_(b <= i, i < e))  # noqa: E731
    got = list(got)
    select(sx, evs, got, local, want, q)
    order = [[(b, e, x.summary) for x, b, e in evs if x is g][0] for g in got]
    sx.check(order == sorted(order), "in chronological order")
