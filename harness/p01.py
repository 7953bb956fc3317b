"""timespans: exactly the valid combinations can exist, a rejected change leaves the entry as it was"""
from datetime import timedelta

from ics import Event, Todo
from ics.timespan import EventTimespan, Timespan, TodoTimespan
from ics.utils import ensure_datetime

from hcommon import DAY, SECOND, ZERO, instant, is_midnight, start_state, valid, zoned
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "begin and end: absent, floating or with any fixed UTC offset (whole minutes, +-14 h), any microsecond of the years 2..9990; "
    "duration: absent or any microsecond (all-day: whole second) in +-2000 days; precision second or day; all three timespan classes; "
    "one change from an arbitrary valid state (inductive step); in a zone with daylight saving time: any microsecond of 2020"
)
OUTSIDE = "the years 1 and after 9990 (Python has no times beyond 1..9999); lengths of all-day entries with a fraction of a second (the code tolerates up to half a second)"

KINDS = ("none", "naive", "aware")


def some_duration(sx, precision, name="d"):
    if sx.choice(name + "?", (False, True)):
        # all-day: fractions of a second are tolerated
        return sx.td(name, -2000 * 86400, 2000 * 86400, unit=1 if precision == "second" else 10**6)
    return None


@case(
    *[dict(cls=c, precision=p) for c in (Timespan, EventTimespan, TodoTimespan) for p in ("second", "day")],
    note="construction is accepted exactly for the valid combinations, everything else is a ValueError",
)
def construct(sx, cls, precision):
    b = instant(sx, "b", sx.choice("kb", KINDS))
    e = instant(sx, "e", sx.choice("ke", KINDS))
    d = some_duration(sx, precision)
    ok = valid(sx, cls, b, e, d, precision)
    exc, ts = sx.raises(cls, b, e, d, precision)
    if exc is None:
        sx.check(ok, "only valid timespans are accepted")
        sx.check(sx.and_(ts.begin_time == b, ts.end_time == e, ts.duration == d), "values are kept")
    else:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        sx.check(sx.not_(ok), "valid timespans are not rejected")


@case(*[dict(cls=c, kinds=k) for c in (EventTimespan, TodoTimespan) for k in (("dst", "dst"), ("dst", "aware"), ("aware", "dst"), ("dst", "naive"))])
def construct_dst(sx, cls, kinds):
    """a zone with daylight saving time"""
    b = zoned(sx, "b", kinds[0], steady=False)
    e = zoned(sx, "e", kinds[1], steady=False) if sx.choice("end?", (True, False)) else None
    d = sx.td("d", -86400, 2000 * 86400, unit=1) if sx.choice("d?", (False, True)) else None
    precision = sx.choice("precision", ("second", "day"))
    ok = valid(sx, cls, b, e, d, precision)
    exc, ts = sx.raises(cls, b, e, d, precision)
    if exc is None:
        sx.check(ok, "only valid timespans are accepted")
    else:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        sx.check(sx.not_(ok), "valid timespans are not rejected")


OPS = ("begin", "end", "duration", "convert_end", "convert_duration", "convert_none", "convert_bad", "make_all_day",
       "unset_all_day", "timespan", "replace_tz", "replace_naive", "convert_tz")


def same(sx, x, y):
    if x is None or y is None:
        return x is None and y is None
    if hasattr(x, "tzinfo"):
        return sx.and_((x.tzinfo is None) == (y.tzinfo is None), x == y)
    return x == y


@case(
    *[dict(entry=c, precision=p, op=o) for c in (Event, Todo) for p in ("second", "day") for o in OPS],
    note="one mutating operation on an entry in an arbitrary valid state",
)
def step(sx, entry, precision, op):
    cls = entry._TIMESPAN_TYPE
    ts = start_state(sx, cls, precision)
    ev = entry(timespan=ts, uid="u", dtstamp=(2020, 1, 1))
    if op == "begin":
        v = instant(sx, "v", sx.choice("kv", KINDS))
        exc, _ = sx.raises(setattr, ev, "begin", v)
    elif op == "end":
        v = instant(sx, "v", sx.choice("kv", KINDS))
        exc, _ = sx.raises(setattr, ev, "end" if entry is Event else "due", v)
    elif op == "duration":
        exc, _ = sx.raises(setattr, ev, "duration", some_duration(sx, precision, "v"))
    elif op == "convert_end":
        exc, _ = sx.raises(ev.convert_end, "end")
    elif op == "convert_duration":
        exc, _ = sx.raises(ev.convert_end, "duration")
    elif op == "convert_none":
        exc, _ = sx.raises(ev.convert_end, None)
    elif op == "convert_bad":
        exc, _ = sx.raises(ev.convert_end, "length")
        sx.check(exc is not None, "unknown representations are rejected")
    elif op == "make_all_day":
        exc, _ = sx.raises(ev.make_all_day)
    elif op == "unset_all_day":
        exc, _ = sx.raises(ev.unset_all_day)
        sx.check(exc is None and not ev.all_day, "the all-day flag can be removed")
    elif op == "timespan":
        other = Timespan() if sx.choice("wrong", (False, True)) else cls()
        exc, _ = sx.raises(setattr, ev, "timespan", other)
        if exc is not None:
            sx.check(isinstance(exc, TypeError) and type(other) is not cls, "a timespan of the right class is accepted")
            exc = ValueError()
        else:
            sx.check(type(other) is cls, "a timespan of the wrong class is rejected")
    elif op == "replace_tz":
        exc, _ = sx.raises(ev.replace_timezone, sx.tz("new"))
    elif op == "replace_naive":
        exc, _ = sx.raises(ev.replace_timezone, None)
    elif op == "convert_tz":
        sx.local()
        exc, _ = sx.raises(ev.convert_timezone, sx.tz("new"))
    new = ev.timespan
    sx.check(type(new) is cls, "the timespan keeps its class")
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        sx.check(
            sx.and_(same(sx, new.begin_time, ts.begin_time), same(sx, new.end_time, ts.end_time),
                    same(sx, new.duration, ts.duration), new.precision == ts.precision),
            "a rejected change leaves the entry unchanged",
        )
    else:
        sx.check(valid(sx, cls, new.begin_time, new.end_time, new.duration, new.precision), "the result is valid")
