"""iterating a timeline: complete and in order"""
from datetime import datetime, timedelta

from ics import Calendar, Event
from ics.timeline import Timeline
from ics.timespan import Normalization, NormalizationAction

from hcommon import DAY, abs_us
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "calendars with 0..3 events (thorough: 4); every event without begin, floating, all-day or with any fixed whole-minute "
    "offset; begin any microsecond of the years 2..9990, duration up to 2000 days or absent; local zone any fixed offset in quarter hours; "
    "without normalisation and with conversion to an arbitrary fixed offset; one arbitrary event among ten others"
)
OUTSIDE = "more events (the heap is exercised by permutations of up to 4), zones with transitions"


def event(sx, name, kinds=("none", "naive", "aware", "day")):
    """-> (event, begin, end)"""
    k = sx.choice(name + "k", kinds)
    if k == "none":
        return Event(name, uid=name, dtstamp=(2020, 1, 1)), None, None
    d = None
    if k == "day":
        b = sx.dt(name + "b", midnight=True)
        d = DAY
        ev = Event(name, b, duration=d, uid=name, dtstamp=(2020, 1, 1))
        ev.make_all_day()
    else:
        b = sx.dt(name + "b", tz=sx.tz(name + "o") if k == "aware" else None)
        if sx.choice(name + "d?", (True, False)):
            d = sx.td(name + "d", 0, 2000 * 86400, unit=1)
        ev = Event(name, b, duration=d, uid=name, dtstamp=(2020, 1, 1))
    return ev, b, (b if d is None else b + d)


def ordered(sx, evs, got, local):
    """got is a permutation of the events with a begin, in order"""
    want = [e for e, b, _ in evs if b is not None]
    sx.check(len(got) == len(want), "every event with a begin appears once")
    sx.check(all(any(x is e for x in got) for e in want), "no event is lost")
    info = [[(abs_us(sx, b, local), abs_us(sx, e, local)) for x, b, e in evs if x is g][0] for g in got]
    for (b1, e1), (b2, e2) in zip(info, info[1:]):
        sx.check(sx.or_(b1 < b2, sx.and_(b1 == b2, e1 <= e2)), "ordered by begin, then end")


@case(dict(n=0), dict(n=1), dict(n=2), dict(n=3))
def iterate(sx, n):
    local = sx.local()
    evs = [event(sx, f"e{i}") for i in range(n)]
    cal = Calendar(events=[e for e, _, _ in evs])
    ordered(sx, evs, list(cal.timeline), local)
    sx.check([e for e, _, _ in evs] == cal.events, "the calendar is not changed")


@case(dict(n=4), tier="thorough")
def iterate4(sx, n):
    local = sx.local()
    evs = [event(sx, f"e{i}", ("naive", "aware")) for i in range(n)]
    cal = Calendar(events=[e for e, _, _ in evs])
    ordered(sx, evs, list(cal.timeline), local)


@case(*[dict(n=n, floating=f, with_tz=w) for n in (1, 2) for f in (NormalizationAction.CONVERT, NormalizationAction.REPLACE)
        for w in (NormalizationAction.CONVERT, NormalizationAction.IGNORE)])
def normalised(sx, n, floating, with_tz):
    local = sx.local()
    tz = sx.tz("tz")
    evs = [event(sx, f"e{i}") for i in range(n)]
    line = Timeline(Calendar(events=[e for e, _, _ in evs]), Normalization(tz, floating, with_tz))
    got = list(line)
    # floating times are read in the replacement zone when they are replaced
    ref = tz.utcoffset(None) if floating is NormalizationAction.REPLACE else local
    timed = [(e, b, x) for e, b, x in evs if b is not None]

    def at(ev, d):
        return abs_us(sx, d, local if ev.all_day else ref)

    sx.check(len(got) == len(timed) and all(any(g is e for g in got) for e, _, _ in timed), "complete")
    keys = [[(at(g, b), at(g, x)) for e, b, x in timed if e is g][0] for g in got]
    for (b1, e1), (b2, e2) in zip(keys, keys[1:]):
        sx.check(sx.or_(b1 < b2, sx.and_(b1 == b2, e1 <= e2)), "ordered by begin, then end")


@case()
def growing(sx):
    """the timeline follows changes of the calendar"""
    local = sx.local()
    evs = [event(sx, "e0", ("naive",)), event(sx, "e1", ("naive", "aware"))]
    cal = Calendar()
    line = cal.timeline
    sx.check(list(line) == [], "empty")
    cal.events.append(evs[0][0])
    ordered(sx, evs[:1], list(line), local)
    cal.events.append(evs[1][0])
    ordered(sx, evs, list(line), local)
    ordered(sx, evs, list(line), local)


@case(dict(n=2), dict(n=3))
def ties(sx, n):
    """several events with the same times, which may even have the same UID"""
    local = sx.local()
    b = sx.dt("b", tz=sx.tz("o") if sx.choice("aware", (False, True)) else None)
    d = sx.td("d", 0, 2000 * 86400, unit=1)
    evs = []
    for i in range(n):
        uid = sx.choice(f"u{i}", ("same", f"other{i}"))
        summary = sx.choice(f"s{i}", ("a", "b", None))
        evs.append((Event(summary, b, duration=d, uid=uid, dtstamp=(2020, 1, 1)), b, b + d))
    got = list(Calendar(events=[e for e, _, _ in evs]).timeline)
    sx.check(len(got) == n and all(any(g is e for g in got) for e, _, _ in evs), "every event appears once")
    names = [g.summary or "" for g in got]
    sx.check(names == sorted(names), "ordered by summary")


@case()
def moved(sx):
    """events that are changed, replaced or removed between two iterations"""
    local = sx.local()
    x, xb, xe = event(sx, "x", ("naive", "aware"))
    y, yb, ye = event(sx, "y", ("naive",))
    cal = Calendar(events=[x, y])
    line = cal.timeline
    ordered(sx, [(x, xb, xe), (y, yb, ye)], list(line), local)
    what = sx.choice("what", ("begin", "unset", "remove", "replace", "equal"))
    if what == "begin":
        xe = x.duration
        xb = sx.dt("nb", tz=xb.tzinfo)
        x.begin = xb
        xe = xb if xe is None else xb + xe
        now = [(x, xb, xe), (y, yb, ye)]
    elif what == "unset":
        x.timespan = x.timespan.replace(begin_time=None, duration=None)
        now = [(y, yb, ye)]
    elif what == "remove":
        cal.events.remove(x)
        now = [(y, yb, ye)]
    elif what == "replace":
        z, zb, ze = event(sx, "z", ("naive",))
        cal.events[0] = z
        now = [(z, zb, ze), (y, yb, ye)]
    else:
        z = x.clone()
        cal.events.append(z)
        now = [(x, xb, xe), (y, yb, ye), (z, xb, xe)]
    ordered(sx, now, list(line), local)


CROWD = [(2020, 5, 1), (2020, 1, 1), (2020, 9, 1), (2020, 1, 1, 12), (1999, 1, 1), (2020, 5, 1), (2030, 1, 1), (2020, 2, 29), (2019, 12, 31, 23, 59)]


@case(*[dict(at=i, kind=k) for i in (0, 3, 9) for k in ("naive", "aware", "day", "none")])
def crowd(sx, at, kind):
    """an arbitrary event among many others"""
    local = sx.local()
    evs = []
    for i, t in enumerate(CROWD):
        b = datetime(*t)
        d = [None, timedelta(hours=3), timedelta(days=40)][i % 3]
        evs.append((Event(f"c{i}", b, duration=d, uid=f"c{i}", dtstamp=(2020, 1, 1)), b, b if d is None else b + d))
    evs.insert(at, event(sx, "x", (kind,)))
    evs.insert(2, (Event("absent", uid="absent", dtstamp=(2020, 1, 1)), None, None))
    cal = Calendar(events=[e for e, _, _ in evs])
    got = list(cal.timeline)
    ordered(sx, evs, got, local)
    sx.check([e for e, _, _ in evs] == cal.events, "the calendar is not changed")
    if at == 0:
        last = cal.events.pop()
        ordered(sx, evs[:-1], list(cal.timeline), local)
        cal.events.insert(0, last)
        ordered(sx, evs, list(cal.timeline), local)
    sx.check([x.uid for x in got if x.begin == datetime(2020, 5, 1)][:1] == ["c0"], "ordered by end, then summary") if kind == "none" else None
