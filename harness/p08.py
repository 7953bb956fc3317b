"""normalization of datetimes, timespans, entries and calendars"""
from datetime import datetime, timedelta

from ics import Calendar, Event, Todo
from ics.timespan import EventTimespan, Normalization, NormalizationAction, TodoTimespan

from hcommon import DAY, abs_us, dst, start_state, zoned
from sx.api import case

A = NormalizationAction
UNIT = 1  # microseconds
BOUNDS = (
    "every value of any microsecond of the years 2..9990, floating or with any fixed whole-minute offset; all nine action combinations; "
    "replacement: any fixed offset, given directly or as a factory, or none; timespans, events and todos in every valid state; calendars "
    "with two events and two todos; local zone any fixed offset in quarter hours; from and to a zone with daylight saving time: any second of 2020 outside the skipped and repeated hours"
)
OUTSIDE = "local zones with transitions; begin and end that fall into a repeated hour of the new zone (within one zone Python compares wall clock times)"

MODES = [dict(floating=f, with_tz=w) for f in (A.IGNORE, A.REPLACE, A.CONVERT) for w in (A.IGNORE, A.REPLACE, A.CONVERT)]


def off(d):
    return None if d.tzinfo is None else d.utcoffset()


def expected(sx, d, floating, with_tz, tz, local):
    """-> (wall clock us or None, absolute us or None, offset)"""
    action = floating if d.tzinfo is None else with_tz
    new = None if tz is None else tz.utcoffset(None)
    if action is A.IGNORE or action is False:
        return sx.wall(d), off(d)
    if action is A.REPLACE:
        return sx.wall(d), new
    if tz is None:
        new = local
    return abs_us(sx, d, local) + sx.us(new), new


def agree(sx, got, want, label):
    w, o = want
    sx.check(sx.wall(got) == w, label + ": wall clock")
    if o is None:
        sx.check(got.tzinfo is None, label + ": floating")
    else:
        sx.check(got.tzinfo is not None and got.utcoffset() == o, label + ": offset")


def replacement(sx):
    k = sx.choice("repl", ("tz", "factory", "none"))
    if k == "none":
        return None, None
    tz = sx.tz("tz")
    return tz, (tz if k == "tz" else lambda: tz)


@case(*MODES, dict(floating=True, with_tz=True), dict(floating=False, with_tz=False))
def value(sx, floating, with_tz):
    local = sx.local()
    tz, repl = replacement(sx)
    k = sx.choice("k", ("naive", "aware", "date"))
    n = Normalization(repl, floating, with_tz)
    if k == "date":
        v = sx.date("v")
        got = n.normalize(v)
        from datetime import datetime, time

        v = datetime.combine(v, time())
    else:
        v = sx.dt("v", tz=sx.tz("o") if k == "aware" else None)
        got = n.normalize(v)
    norm = {True: A.CONVERT, False: A.IGNORE}
    agree(sx, got, expected(sx, v, norm.get(floating) if isinstance(floating, bool) else floating,
                            norm.get(with_tz) if isinstance(with_tz, bool) else with_tz, tz, local), "value")
    sx.check(n.normalize(None) is None, "None stays None")


@case(dict(first=True), dict(first=False))
def defaults(sx, first):
    """by default floating and aware values are converted; the same value can be normalised twice"""
    local = sx.local()
    tz = sx.tz("tz")
    v = sx.dt("v", tz=sx.tz("o") if first else None)
    n = Normalization(tz)
    got = n.normalize(v)
    agree(sx, got, expected(sx, v, A.CONVERT, A.CONVERT, tz, local), "default")
    agree(sx, n.normalize(got), (sx.wall(got), got.utcoffset()), "idempotent")


def check_span(sx, old, new, floating, with_tz, tz, local, label):
    sx.check(type(new) is type(old) and new.precision == old.precision, label + ": class and precision are kept")
    sx.check(new.get_end_representation() == old.get_end_representation(), label + ": representation of the end is kept")
    if old.duration is not None:
        sx.check(new.duration == old.duration, label + ": duration is kept")
    # a timespan is floating as a whole
    if old.begin_time is not None:
        agree(sx, new.begin_time, expected(sx, old.begin_time, floating, with_tz, tz, local), label + ": begin")
    else:
        sx.check(new.begin_time is None, label + ": no begin")
    if old.end_time is not None:
        agree(sx, new.end_time, expected(sx, old.end_time, floating, with_tz, tz, local), label + ": end")
    else:
        sx.check(new.end_time is None, label + ": no end")


@case(*[dict(cls=c, **m) for c in (EventTimespan, TodoTimespan) for m in MODES])
def span(sx, cls, floating, with_tz):
    local = sx.local()
    tz = sx.tz("tz") if sx.choice("repl", (True, False)) else None
    ts = start_state(sx, cls, "second")
    exc, new = sx.raises(Normalization(tz, floating, with_tz).normalize, ts)
    if exc is not None:
        sx.check(isinstance(exc, ValueError) and with_tz is A.REPLACE, "a timed timespan can be normalised")
        sx.check(sx.wall(ts.begin_time) > sx.wall(ts.end_time), "rejected only if replacing the zones puts the end before the begin")
    else:
        check_span(sx, ts, new, floating, with_tz, tz, local, "span")


@case(*[dict(entry=c, **m) for c in (Event, Todo) for m in MODES])
def entry(sx, entry, floating, with_tz):
    local = sx.local()
    tz = sx.tz("tz")
    ts = start_state(sx, entry._TIMESPAN_TYPE, "second")
    if with_tz is A.REPLACE and ts.begin_time is not None and ts.end_time is not None:
        sx.assume(sx.wall(ts.begin_time) <= sx.wall(ts.end_time))
    ev = entry(timespan=ts, uid="u", dtstamp=(2020, 1, 1), summary="s")
    new = Normalization(tz, floating, with_tz).normalize(ev)
    check_span(sx, ts, new.timespan, floating, with_tz, tz, local, "entry")
    sx.check(new.summary == "s" and new.uid == "u", "everything else is kept")


@case(*MODES)
def calendar(sx, floating, with_tz):
    local = sx.local()
    tz = sx.tz("tz")
    b, c, d = sx.dt("b"), sx.dt("c", tz=sx.tz("co")), sx.dt("d", midnight=True)
    evs = [Event("b", b, duration=timedelta(hours=1), uid="b", dtstamp=(2020, 1, 1)), Event("d", d, uid="d", dtstamp=(2020, 1, 1))]
    tds = [Todo(due=c, uid="c", dtstamp=(2020, 1, 1)), Todo(begin=d, due=d + DAY, uid="e", dtstamp=(2020, 1, 1))]
    evs[1].make_all_day()
    tds[1].make_all_day()
    olds = [x.timespan for x in evs + tds]
    cal = Calendar(events=evs, todos=tds)
    form = sx.choice("form", ("object", "args", "both"))
    if form == "object":
        cal.normalize(Normalization(tz, floating, with_tz))
    elif form == "args":
        cal.normalize(tz, floating, normalize_with_tz=with_tz)
    else:
        exc, _ = sx.raises(cal.normalize, Normalization(tz, floating, with_tz), floating)
        sx.check(isinstance(exc, ValueError), "contradicting arguments are rejected")
        sx.check([x.timespan for x in cal.events + cal.todos] == olds, "nothing happens")
        return
    sx.check([e.uid for e in cal.events] == ["b", "d"] and [e.uid for e in cal.todos] == ["c", "e"], "entries and order are kept")
    check_span(sx, olds[0], cal.events[0].timespan, floating, with_tz, tz, local, "event")
    check_span(sx, olds[2], cal.todos[0].timespan, floating, with_tz, tz, local, "todo")
    sx.check(cal.events[1].timespan == olds[1] and cal.todos[1].timespan == olds[3], "all-day entries are not changed")


@case(dict(entry=Event), dict(entry=Todo))
def all_day(sx, entry):
    """all-day entries have no zone that could be changed"""
    sx.local()
    ev = entry(timespan=start_state(sx, entry._TIMESPAN_TYPE, "day"), uid="u", dtstamp=(2020, 1, 1))
    ts = ev.timespan
    exc, _ = sx.raises(getattr(ev, sx.choice("op", ("replace_timezone", "convert_timezone"))), sx.tz("tz"))
    sx.check(isinstance(exc, ValueError), "rejected")
    sx.check(ev.timespan is ts, "unchanged")


FROM = [dict(op=o, kind=k) for o in ("convert", "replace") for k in ("dst", "aware", "naive")]


@case(*[dict(entry=c, which=w, **f) for c, w in ((Event, "begin"), (Todo, "end")) for f in FROM])
@case(*[dict(entry=Event, which="both", **f) for f in FROM], name="transitions_both")
def transitions(sx, entry, which, op, kind):
    """from and to a zone with daylight saving time"""
    local = sx.local()
    # seconds are enough: microseconds are copied
    b = e = None
    if which != "end":
        b = zoned(sx, "b", kind, unit=10**6)
    if which != "begin":
        e = zoned(sx, "e", kind, unit=10**6)
    if which == "both":
        sx.assume(sx.and_(b <= e, sx.wall(b) <= sx.wall(e)))
        for x in (b, e):
            # not in the repeated hour afterwards: within one zone Python compares wall clock times
            t = abs_us(sx, x, local) - sx.wall(datetime(2020, 10, 25))
            sx.assume(sx.or_(t < 0, t >= 7200 * 10**6))
    to = dst() if kind != "dst" or sx.choice("to", ("dst", "tz")) == "dst" else sx.tz("tz")
    ev = entry(timespan=entry._TIMESPAN_TYPE(b, e), uid="u", dtstamp=(2020, 1, 1))
    action = A.CONVERT if op == "convert" else A.REPLACE
    if op == "convert" and sx.choice("direct", (False, True)):
        ev.convert_timezone(to)
    elif op == "replace" and sx.choice("direct", (False, True)):
        ev.replace_timezone(to)
    else:
        Normalization(to, action, action).normalize(ev)
    for old, new, n in ((b, ev.begin, "begin"), (e, ev.end if entry is Event else ev.due, "end")):
        if old is None:
            continue
        if op == "convert":
            sx.check(abs_us(sx, new, local) == abs_us(sx, old, local), n + ": same instant")
        else:
            sx.check(sx.wall(new) == sx.wall(old), n + ": same wall clock time")
        sx.check(new.tzinfo is to, n + ": new zone")
