"""make_all_day covers exactly the days touched by the entry"""
from ics import Event, Todo

from hcommon import DAY, ZERO, instant, dst, is_midnight, some_state, start_state
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "arbitrary valid timed entry (floating, or begin and end with the same fixed whole-minute offset; any microsecond "
    "of the years 2..9990; durations up to 2000 days; in a zone with daylight saving time: any microsecond of 2020); all three end representations; events and todos"
)
OUTSIDE = "begin and end in different zones (the wall clock dates are then not ordered)"


def timed(sx, entry, kinds=("none", "naive", "aware")):
    kb = sx.choice("kb", kinds)
    tz = None
    if kb == "aware":
        tz = sx.tz("tz")
    if kb == "dst":
        tz = dst()
    years = (2020, 2020) if kb == "dst" else ()
    b = e = d = None
    if kb != "none":
        b = sx.dt("b", *years, tz=tz)
    rep = sx.choice("rep", ("none", "end", "duration") if b is not None else ("none",) if entry is Event else ("none", "end"))
    if rep == "end":
        e = sx.dt("e", *years, tz=tz)
        if b is not None:
            sx.assume(b <= e)
    if rep == "duration":
        d = sx.td("d", 0, 2000 * 86400, unit=1)
    return entry(timespan=entry._TIMESPAN_TYPE(b, e, d), uid="u", dtstamp=(2020, 1, 1)), rep


@case(*[dict(entry=c, kinds=k) for c in (Event, Todo) for k in (("none", "naive", "aware"), ("dst",))])
def cover(sx, entry, kinds):
    ev, rep = timed(sx, entry, kinds)
    b, e = ev.begin, ev.end
    ev.make_all_day()
    sx.check(ev.all_day, "the entry is all-day")
    nb, ne = ev.begin, ev.end
    if b is None:
        sx.check(nb is None, "no begin appears")
    else:
        b = b.replace(tzinfo=None)
        sx.check(sx.and_(nb.tzinfo is None, is_midnight(nb)), "begin is a floating midnight")
        sx.check(sx.and_(nb <= b, b - nb < DAY), "begin is the day of the former begin")
    if e is None:
        sx.check(ne is None, "no end appears")
    else:
        e = e.replace(tzinfo=None)
        sx.check(sx.and_(ne.tzinfo is None, is_midnight(ne)), "end is a floating midnight")
        if b is None:
            sx.check(sx.and_(e <= ne, ne - e < DAY), "the due day is rounded up")
        elif rep == "none" and entry is Event:
            sx.check(ne == nb + DAY, "one day without an explicit end")
        else:
            sx.check(e <= ne, "the whole entry is covered")
            sx.check(sx.or_(ne - e < DAY, ne == nb + DAY), "no further day is covered")
            sx.check(ne >= nb + DAY, "at least one day")
    sx.check(ev.end_representation == {"none": ev.end_representation, "end": "end", "duration": "duration"}[rep],
             "the representation of the end is kept")


@case(dict(entry=Event), dict(entry=Todo))
def idempotent(sx, entry):
    ev, rep = timed(sx, entry)
    ev.make_all_day()
    first = ev.timespan
    ev.make_all_day()
    sx.check(ev.timespan is first or ev.timespan == first, "a second call changes nothing")


@case(dict(entry=Event), dict(entry=Todo))
def all_day_unchanged(sx, entry):
    ev = some_state(sx, entry, "day")
    ts = ev.timespan
    ev.make_all_day()
    sx.check(ev.timespan == ts, "an all-day entry is not changed")


@case(dict(entry=Event), dict(entry=Todo))
def back(sx, entry):
    """removing the flag keeps begin and end, the entry stays usable"""
    ev = some_state(sx, entry, "day")
    b, e, rep = ev.begin, ev.end, ev.end_representation
    ev.unset_all_day()
    sx.check(not ev.all_day, "the flag is removed")
    sx.check(b is None and ev.begin is None or ev.begin == b, "begin is kept")
    if rep is not None:
        sx.check(ev.end == e, "end is kept")
    v = sx.dt("v")
    exc, _ = sx.raises(setattr, ev, "begin", v)
    if exc is None:
        sx.check(ev.begin == v, "timed values can be set again")
    else:
        sx.check(rep == "end" and isinstance(exc, ValueError), "only an end before the begin is rejected")
        sx.check(e < v, "only an end before the begin is rejected (order)")


@case()
def day_setters(sx):
    """times that are not midnight, or carry a zone, never get into an all-day entry"""
    ev = some_state(sx, Event, "day")
    v = instant(sx, "v", sx.choice("kv", ("naive", "aware")))
    which = sx.choice("which", ("begin", "end"))
    exc, _ = sx.raises(setattr, ev, which, v)
    if exc is None:
        sx.check(sx.and_(v.tzinfo is None, is_midnight(v)), "only floating midnights are accepted")
    sx.check(ev.all_day, "still all-day")
