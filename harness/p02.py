"""begin, end and duration of an entry stay consistent under every setter and conversion"""
from ics import Event, Todo

from hcommon import DAY, SECOND, ZERO, dst, instant, some_state
from sx.api import case

UNIT = 1  # microseconds
BOUNDS = (
    "arbitrary valid timespan (floating or any fixed whole-minute offset; any microsecond of the years 2..9990; durations up to 2000 days), "
    "precision second or day, events and todos; one setter or conversion, plus setter pairs; begin and end in one zone with daylight saving time: any microsecond of 2020"
)
OUTSIDE = "a begin in a zone with transitions together with an end in another zone (begin + duration is wall clock arithmetic, as everywhere in Python)"

VARIANTS = [dict(entry=c, precision=p) for c in (Event, Todo) for p in ("second", "day")]


def coherent(sx, ev, precision):
    """relations between the three views that hold in every state"""
    b, e, d = ev.begin, ev.end, ev.duration
    rep = ev.end_representation
    if b is not None and e is not None and d is not None:
        sx.check(e - b == d, "end - begin == duration")
        sx.check(d >= ZERO, "duration is not negative")
    sx.check(ev.has_explicit_end == (rep is not None), "has_explicit_end matches the representation")
    if rep is None:
        if type(ev) is Event:
            sx.check(d == (DAY if precision == "day" else ZERO), "implicit duration")
            sx.check((b is None) == (e is None), "implicit end")
        else:
            sx.check(e is None and d is None, "a todo without due and duration has neither")
    else:
        sx.check(e is not None, "explicit end is visible")


@case(*VARIANTS)
def views(sx, entry, precision):
    ev = some_state(sx, entry, precision)
    ts = ev.timespan
    coherent(sx, ev, precision)
    b, e, d = ts.begin_time, ts.end_time, ts.duration
    sx.check(ev.begin == b if b is not None else ev.begin is None, "begin is the begin time")
    if e is not None:
        sx.check(ev.end == e and ev.end_representation == "end", "explicit end is shown")
    if d is not None:
        sx.check(sx.and_(ev.duration == d, ev.end == b + d), "explicit duration is shown")
        sx.check(ev.end_representation == "duration", "duration representation")
    sx.check(ev.all_day == (precision == "day"), "all_day flag")
    ref = b if b is not None else e
    sx.check(ev.floating == (ref is None or ref.tzinfo is None), "floating flag")
    if entry is Todo:
        sx.check(ev.due == ev.end if e is not None or d is not None else ev.due is None, "due is end")
        sx.check(ev.due_representation == ev.end_representation, "due representation")
        sx.check(ev.has_explicit_due() if callable(ev.has_explicit_due) else ev.has_explicit_due == ev.has_explicit_end,
                 "explicit due")


@case(*VARIANTS)
def set_begin(sx, entry, precision):
    ev = some_state(sx, entry, precision)
    e, d, rep = ev.timespan.end_time, ev.timespan.duration, ev.end_representation
    v = instant(sx, "v", sx.choice("kv", ("naive", "aware", "midnight")))
    exc, _ = sx.raises(setattr, ev, "begin", v)
    if exc is None:
        sx.check(sx.and_(ev.begin == v, (ev.begin.tzinfo is None) == (v.tzinfo is None)), "begin reads back")
        sx.check(ev.end_representation == rep, "the representation of the end is kept")
        if e is not None:
            sx.check(ev.end == e, "a fixed end stays")
        if d is not None:
            sx.check(sx.and_(ev.duration == d, ev.end == v + d), "a fixed duration moves the end")
        coherent(sx, ev, precision)


@case(*VARIANTS)
def set_end(sx, entry, precision):
    ev = some_state(sx, entry, precision)
    b = ev.begin
    v = instant(sx, "v", sx.choice("kv", ("naive", "aware", "midnight")))
    exc, _ = sx.raises(setattr, ev, "end" if entry is Event else "due", v)
    if exc is None:
        sx.check(sx.and_(ev.end == v, ev.end_representation == "end"), "end reads back")
        sx.check(ev.timespan.duration is None, "an explicit duration is removed")
        sx.check(b is None and ev.begin is None or ev.begin == b, "begin stays")
        coherent(sx, ev, precision)


@case(*VARIANTS)
def set_duration(sx, entry, precision):
    ev = some_state(sx, entry, precision)
    b = ev.begin
    v = sx.td("v", -2000 * 86400, 2000 * 86400, unit=1)
    exc, _ = sx.raises(setattr, ev, "duration", v)
    if exc is None:
        sx.check(sx.and_(ev.duration == v, ev.end == b + v, ev.end_representation == "duration"), "duration reads back")
        sx.check(sx.and_(ev.begin == b, ev.timespan.end_time is None), "begin stays, an explicit end is removed")
        coherent(sx, ev, precision)
    elif b is not None and precision == "second":
        sx.check(v < ZERO, "only negative durations are rejected")


@case(*[dict(target=t, **v) for v in VARIANTS for t in ("end", "duration", None)])
def convert(sx, target, entry, precision):
    ev = some_state(sx, entry, precision)
    b, e, d, rep = ev.begin, ev.end, ev.duration, ev.end_representation
    if target == "end" and entry is Todo:
        target = sx.choice("name", ("end", "due"))
    exc, _ = sx.raises(ev.convert_end if entry is Event else ev.convert_due, target)
    if rep is None and target is not None or target == "duration" and b is None:
        sx.check(exc is not None or ev.end_representation == rep, "nothing to convert")
        return
    sx.check(exc is None, "conversion works")
    sx.check(b is None and ev.begin is None or ev.begin == b, "begin is kept")
    if target is None:
        sx.check(ev.end_representation is None, "the end is dropped")
    else:
        sx.check(ev.end_representation == ("duration" if target == "duration" else "end"), "new representation")
        sx.check(ev.end == e, "the end instant is kept")
        sx.check(d is None and ev.duration is None or ev.duration == d, "the duration is kept")
    coherent(sx, ev, precision)


@case(dict(entry=Event), dict(entry=Todo))
def constructor(sx, entry):
    """the constructor arguments mean the same as the setters; date and tuple arguments"""
    kind = sx.choice("k", ("date", "naive", "tuple"))
    dt = sx.date("b") if kind == "date" else sx.dt("b", rep="f")
    b = (dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond) if kind == "tuple" else dt
    d = sx.td("d", 0, 2000 * 86400, unit=1)
    x = entry(begin=b, duration=d, uid="u", dtstamp=(2020, 1, 1))
    y = entry(uid="u", dtstamp=(2020, 1, 1))
    y.begin = b
    y.duration = d
    sx.check(x == y, "constructor and setters agree")
    sx.check(sx.and_(x.begin.year == dt.year, x.begin.month == dt.month, x.begin.day == dt.day), "date is kept")
    if kind == "date":
        sx.check(sx.and_(x.begin.hour == 0, x.begin.minute == 0, x.begin.second == 0), "dates start at midnight")
    else:
        sx.check(x.begin == dt, "begin is kept")
    sx.check(x.end == x.begin + d, "end follows")


@case(*[dict(entry=c, op=o) for c in (Event, Todo) for o in ("begin", "end", "duration", "convert")])
def transitions(sx, entry, op):
    """in one zone with daylight saving time"""
    tz = dst()
    b = sx.dt("b", 2020, 2020, tz=tz)
    rep = sx.choice("rep", ("none", "end", "duration"))
    e = d = None
    if rep == "end":
        e = sx.dt("e", 2020, 2020, tz=tz)
        sx.assume(b <= e)
    if rep == "duration":
        d = sx.td("d", 0, 100 * 86400, unit=1)
    ev = entry(timespan=entry._TIMESPAN_TYPE(b, e, d), uid="u", dtstamp=(2020, 1, 1))
    coherent(sx, ev, "second")
    if op == "convert":
        old, length = ev.end, ev.duration
        if rep == "none":
            return
        ev.convert_end("duration" if rep == "end" else "end")
        sx.check(sx.and_(ev.begin == b, ev.end == old, ev.duration == length), "conversion keeps begin, end and duration")
        sx.check(ev.end_representation == ("duration" if rep == "end" else "end"), "new representation")
    elif op == "duration":
        v = sx.td("v", 0, 100 * 86400, unit=1)
        ev.duration = v
        sx.check(sx.and_(ev.begin == b, ev.duration == v, ev.end == b + v), "duration reads back")
    else:
        v = sx.dt("v", 2020, 2020, tz=tz)
        exc, _ = sx.raises(setattr, ev, op, v)
        if exc is None:
            sx.check(getattr(ev, op) == v, "the value reads back")
            if op == "begin" and rep == "duration":
                sx.check(ev.end == v + d, "a fixed duration moves the end")
            elif op == "begin" and rep == "end":
                sx.check(ev.end == e, "a fixed end stays")
        else:
            sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
    sx.check(ev.begin.tzinfo is tz, "the zone is kept")
    coherent(sx, ev, "second")
