"""times in a file: taken as they are, or refused"""
from collections import defaultdict
from datetime import timedelta
from itertools import permutations

from ics import Calendar, Event, Todo
from ics.contentline import Container, ContentLine
from ics.types import ContextDict
from ics.valuetype.datetime import DatetimeConverterMixin

from hcommon import UTCS, valid, zone
from sx.api import case

BOUNDS = (
    "events and todos with every combination of begin, end/due and duration lines, in every order, also repeated or with the name of the other kind of entry; begin and end: "
    "dates, floating, UTC or in a zone with any fixed offset, any whole second of the years 2000..2030; durations of any number of days, hours and seconds up to 400, positive and negative; times without seconds, minutes or hours"
)
OUTSIDE = "malformed values (P16, P17), zones with transitions (P09), other years (P16)"

KINDS = ("none", "date", "floating", "utc", "zone")
LINES = {"event": ("DTEND", "DUE"), "todo": ("DUE", "DTEND")}
ENTRIES = {"event": Event, "todo": Todo}


def time_line(sx, name, var, kind, tz):
    """-> (line, time)"""
    d = sx.dt(var, 2000, 2030, rep="f", midnight=kind == "date")
    if kind == "date":
        return ContentLine(name, {"VALUE": ["DATE"]}, d.strftime("%Y%m%d")), d
    text = d.strftime("%Y%m%dT%H%M%S")
    if kind == "floating":
        return ContentLine(name, {}, text), d
    if kind == "utc":
        return ContentLine(name, {}, text + "Z"), d.replace(tzinfo=UTCS["stdlib"])
    return ContentLine(name, {"TZID": ["Z"]}, text), d.replace(tzinfo=tz)


def duration_line(sx):
    form, unit = sx.choice("form", (("P%sD", timedelta(1)), ("PT%sH", timedelta(hours=1)), ("PT%sS", timedelta(seconds=1)), ("P1DT%sS", timedelta(seconds=1))))
    n = sx.int("n", 0, 400)
    neg = sx.choice("negative", (False, True))
    d = unit * n + (timedelta(1) if "DT" in form else timedelta(0))
    return ContentLine("DURATION", {}, ("-" if neg else "") + form.replace("%s", str(n))), (-d if neg else d)


def read(cls, lines, tz):
    c = ContextDict(defaultdict(lambda: None))
    c[DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ] = {"Z": tz}
    return cls.from_container(Container(cls.NAME, [ContentLine("UID", {}, "u"), ContentLine("DTSTAMP", {}, "20200101T000000Z")] + lines), c)


def wall(d):
    return None if d is None else d.replace(tzinfo=None)


def verdict(sx, exc, entry, ok, b, e, d):
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "refused with a ValueError")
        sx.check(sx.not_(ok), "a valid entry is not refused")
        return
    sx.check(ok, "contradicting lines are refused")
    ts = entry.timespan
    sx.check(wall(ts.get_begin()) == wall(b), "the begin of the file")
    sx.check(wall(ts.end_time) == wall(e), "the end of the file")
    sx.check(ts.duration == d, "the duration of the file")
    for got, want in ((ts.get_begin(), b), (ts.end_time, e)):
        if want is not None:
            sx.check((got.tzinfo is None) == (want.tzinfo is None), "floating or not")
            sx.check(got.utcoffset() == want.utcoffset(), "with its offset")


@case(*[dict(entry=n, kb=kb, ke=ke) for n in ENTRIES for kb in KINDS for ke in KINDS])
def lines(sx, entry, kb, ke):
    cls = ENTRIES[entry]
    tz = zone(sx, "Z")[0]
    ls = []
    b = e = d = None
    if kb != "none":
        line, b = time_line(sx, "DTSTART", "b", kb, tz)
        ls.append(line)
    ok = True
    if ke != "none":
        name = sx.choice("name", LINES[entry])
        ok = name == LINES[entry][0]
        line, e = time_line(sx, name, "e", ke, tz)
        ls.append(line)
    if sx.choice("duration", (False, True)):
        line, d = duration_line(sx)
        ls.append(line)
    if len(ls) > 1:
        ls = list(sx.choice("order", tuple(permutations(ls)) if len(ls) == 2 else (tuple(ls), tuple(reversed(ls)))))
    day = "date" in (kb, ke)
    if day and any(k not in ("none", "date") for k in (kb, ke)):
        ok = False
    exc, got = sx.raises(read, cls, ls, tz)
    if ok:
        ok = valid(sx, cls._TIMESPAN_TYPE, b, e, d, "day" if day else "second")
    verdict(sx, exc, got, ok, b, e, d)
    if exc is None and (b is not None or e is not None):
        sx.check(got.all_day == day, "all-day if and only if it has dates")


SHORT = {"%Y%m%d": timedelta(1), "%Y%m%dT%H": timedelta(hours=1), "%Y%m%dT%H%M": timedelta(minutes=1)}


@case(*[dict(entry=n, form=f, other=o) for n in ENTRIES for f in SHORT for o in ("none", "date", "floating", "utc")])
def short(sx, entry, form, other):
    """times without seconds, minutes or hours are times, never dates"""
    cls = ENTRIES[entry]
    t = sx.dt("t", 2000, 2030, rep="f", midnight=form == "%Y%m%d")
    if form != "%Y%m%d":
        sx.assume(t.second == 0)
        if form == "%Y%m%dT%H":
            sx.assume(t.minute == 0)
    utc = sx.choice("utc", (False, True)) if "T" in form else False
    name = sx.choice("name", ("DTSTART", LINES[entry][0]))
    explicit = sx.choice("explicit", (False, True))
    line = ContentLine(name, {"VALUE": ["DATE-TIME"]} if explicit else {}, t.strftime(form) + ("Z" if utc else ""))
    if utc:
        t = t.replace(tzinfo=UTCS["stdlib"])
    b, e = (t, None) if name == "DTSTART" else (None, t)
    ls = [line]
    if other != "none":
        second, o = time_line(sx, LINES[entry][0] if name == "DTSTART" else "DTSTART", "o", other, None)
        b, e = (b, o) if name == "DTSTART" else (o, e)
        ls.insert(sx.choice("at", (0, 1)), second)
    exc, got = sx.raises(read, cls, ls, None)
    ok = other != "date" and valid(sx, cls._TIMESPAN_TYPE, b, e, None, "second")
    verdict(sx, exc, got, ok, b, e, None)
    if exc is None:
        sx.check(not got.all_day, "not all-day")


@case(*[dict(entry=n, name=m, kind=k) for n in ENTRIES for m in ("DTSTART", "DTEND", "DUE", "DURATION", "both") for k in ("date", "floating", "utc")])
def repeated(sx, entry, name, kind):
    """lines that may occur only once"""
    cls = ENTRIES[entry]
    tz = zone(sx, "Z")[0]
    ls = []
    names = {"both": ("DTEND", "DUE")}.get(name, (name, name))
    if name == "DURATION":
        n = sx.int("n", 1, 9)
        ls += [ContentLine("DURATION", {}, "P1D"), ContentLine("DURATION", {}, "P" + str(n) + "D")]
    else:
        for i, nm in enumerate(names):
            ls.append(time_line(sx, nm, f"t{i}", kind, tz)[0])
    if name != "DTSTART" and sx.choice("begin", (True, False)):
        ls.insert(sx.choice("at", (0, 1, 2)), ContentLine("DTSTART", {"VALUE": ["DATE"]} if kind == "date" else {}, {"date": "19990101", "floating": "19990101T000000", "utc": "19990101T000000Z"}[kind]))
    exc, got = sx.raises(read, cls, ls, tz)
    sx.check(isinstance(exc, ValueError), "refused")


@case()
def isolated(sx):
    """an entry without times after one with times has none"""
    kind = sx.choice("kind", KINDS[1:4])
    tz = zone(sx, "Z")[0]
    line, b = time_line(sx, "DTSTART", "b", kind, tz)
    ls = [line]
    if sx.choice("duration", (False, True)):
        ls.append(ContentLine("DURATION", {}, "P" + str(sx.int("n", 1, 99)) + "D"))
    head = [ContentLine("UID", {}, "u"), ContentLine("DTSTAMP", {}, "20200101T000000Z")]
    text = Container("VCALENDAR", [ContentLine("VERSION", {}, "2.0"), ContentLine("PRODID", {}, "p"), Container("VEVENT", head + ls), Container("VEVENT", head), Container("VTODO", head)])
    cal = Calendar.from_container(text)
    sx.check(cal.events[0].begin == b, "begin")
    for x in (cal.events[1], cal.todos[0]):
        sx.check(x.begin is None and x.timespan.end_time is None and x.timespan.duration is None, "no times")
