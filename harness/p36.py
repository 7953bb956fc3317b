"""showing entries"""
from datetime import datetime, timedelta

from ics import Calendar, Event, Todo
from ics.contentline import Container, ContentLine, string_to_container
from ics.timespan import EventTimespan, Timespan, TodoTimespan
from ics.timezone import UTC

from hcommon import ZERO, zone
from sx.api import case

BOUNDS = (
    "events, todos and timespans with any valid begin, end and duration, floating, with any fixed offset, in a zone or all-day, any second of 2020, of any length (durations: up to two days, all-day: 99 days), with texts of up to 2 arbitrary characters; "
    "calendars with up to three events and todos; lines with up to 2 parameters and texts of up to 2 arbitrary characters, long texts; components with up to three items"
)
OUTSIDE = "repr() (generated by attrs), the order of the parts of the text, the form in which Python prints times"

NAMES = {Timespan: "end", EventTimespan: "end", TodoTimespan: "due"}


def shown(sx, text, ts, name, summary=None):
    """the text tells what is known about the times"""
    sx.check(text[:1] == "<" and text[-1:] == ">", "in angle brackets")
    sx.check(name in text, "the kind of entry")
    b, e, d = ts.begin_time, ts.end_time, ts.duration
    day = ts.precision == "day"

    def form(t):
        return t.strftime("%Y-%m-%d") if day else str(t)

    label = NAMES[type(ts)]
    parts = ["begin:", form(b)] if b is not None else []
    if e is not None:
        parts += ["fixed", label + ":", form(e)] + (["duration:", str(e - b)] if b is not None else [])
    elif d is not None:
        parts += [label + ":", form(b + d), "fixed", "duration:", str(d)]
    elif b is not None and ts.get_effective_end() is not None:
        parts += [label + ":", form(ts.get_effective_end())]
    prefix = ["all-day"] if day else ["floating"] if (b if b is not None else e) is not None and (b if b is not None else e).tzinfo is None else []
    # the usual form, which contains everything below
    if bool(text == "<" + " ".join(prefix + [name] + (["'" + summary + "'"] if summary else []) + parts) + ">"):
        sx.check(True, "everything is shown")
        return
    sx.check(("begin: " in text) is (b is not None), "the begin, if there is one")
    if b is not None:
        sx.check("begin: " + form(b) in text, "the begin")
    if e is not None:
        sx.check("fixed " + label + ": " + form(e) in text, "the end that was set")
        sx.check("fixed duration" not in text, "no other one")
        if b is not None:
            sx.check("duration: " + str(e - b) in text, "the length")
    elif d is not None:
        sx.check("fixed duration: " + str(d) in text, "the duration that was set")
        sx.check(label + ": " + form(b + d) in text, "the end")
        sx.check("fixed " + label not in text, "no other one")
    else:
        sx.check("fixed" not in text, "nothing else is set")
        end = ts.get_effective_end()
        sx.check(end is None or label + ": " + form(end) in text, "the end that follows")
    if day:
        sx.check(" 00:00" not in text, "without time of day")
    t = b if b is not None else e
    sx.check(("all-day" in text) is day, "all-day or not")
    sx.check(("floating" in text) is (not day and t is not None and t.tzinfo is None), "floating or not") if t is not None else None


def state(sx, cls, precision, longest=99):
    """a valid timespan of 2020"""
    zone_ = sx.choice("zone", ("floating", "offset") if precision == "second" else ("floating",))
    tz = sx.tz("off") if zone_ == "offset" else None

    def time(name):
        return sx.dt(name, 2020, 2020, tz=tz, rep="f", midnight=precision == "day")

    kind = sx.choice("kind", ("none", "begin", "end", "duration") + (() if cls is EventTimespan else ("due",)))
    b = time("b") if kind not in ("none", "due") else None
    e = time("e") if kind in ("end", "due") else None
    if kind == "end":
        sx.assume(b <= e if precision == "second" else e - b >= timedelta(1))
        sx.assume(e - b < timedelta(1) * (longest + 1))
    d = None
    if kind == "duration":
        d = timedelta(1) * sx.int("days", 1, longest) if precision == "day" else sx.td("d", 0, sx.pick(min(longest, 2), longest) * 86400)
    return cls(b, e, d, precision)


@case(*[dict(cls=c, precision=p) for c in NAMES for p in ("second", "day")])
def timespans(sx, cls, precision):
    ts = state(sx, cls, precision)
    exc, text = sx.raises(str, ts)
    sx.check(exc is None, "can be shown")
    if exc is None:
        shown(sx, text, ts, cls.__name__)


@case(*[dict(entry=e, precision=p) for e in (Event, Todo) for p in ("second", "day")])
def entries(sx, entry, precision):
    s = sx.choice("summary", (None, "", "text"))
    if s == "text":
        s = "'" + sx.str("s", 1, "letter") + '"'
    ts = state(sx, entry._TIMESPAN_TYPE, precision, sx.pick(2, 99))
    e = entry(timespan=ts, uid="u", dtstamp=(2020, 1, 1), summary=s)
    before = e.clone()
    exc, text = sx.raises(str, e)
    sx.check(exc is None, "can be shown")
    if exc is not None:
        return
    shown(sx, text, ts, entry.__name__, s)
    if s:
        sx.check("'" + s + "'" in text, "the summary")
    sx.check(e.timespan is ts and e == before, "nothing is changed")
    sx.check(text == str(e), "the same again")


@case(dict(entry=Event), dict(entry=Todo))
def any_text(sx, entry):
    """with any summary"""
    s = sx.str("s", (0, 2))
    e = entry(uid="u", dtstamp=(2020, 1, 1), summary=s)
    text = str(e)
    sx.check(text[:1] == "<" and text[-1:] == ">", "in angle brackets")
    if len(s):
        sx.check("'" + s + "'" in text, "the summary")
    sx.check(entry.__name__ in text, "the kind")


@case(dict(kind="zone"), dict(kind="utc"))
def zoned(sx, kind):
    z, off = zone(sx) if kind == "zone" else (UTC, ZERO)
    b = sx.dt("b", 2020, 2020, tz=z, rep="f")
    d = sx.td("d", 0, 9999)
    ev = Event(begin=b, duration=d)
    shown(sx, str(ev), ev.timespan, "Event")
    sx.check("floating" not in str(ev), "not floating")
    sx.check(str(z) == z.tzid, "zones are shown by their name")


@case(dict(n=0), dict(n=1), dict(n=2), dict(n=3))
def calendars(sx, n):
    m = sx.choice("todos", (0, 1, 2))
    cal = Calendar(events=[Event(summary=sx.str("s", (0, 1)))] * n, todos=[Todo()] * m)
    text = str(cal)
    sx.check(str(n) + " event" + ("s" if n != 1 else "") + " " in text, "the number of events")
    sx.check(str(m) + " todo" + ("s" if m != 1 else "") + ">" in text, "the number of todos")


@case(dict(n=0), dict(n=1), dict(n=2), dict(n=100), dict(n=200))
def lines(sx, n):
    s = sx.str("s", (0, 2))
    v = s if n < 100 else "x" * n + s
    line = ContentLine("NAME", {"P" + str(i): [sx.str(f"p{i}", (0, 1))] for i in range(n)} if n < 100 else {}, v)
    exc, text = sx.raises(str, line)
    sx.check(exc is None, "can be shown")
    if exc is not None:
        return
    sx.check(text[:4] == "NAME", "the name")
    if n < 100:
        sx.check("='" + s + "'" in text, "the value")
    else:
        sx.check(len(text) <= 120 or "x" * 50 in text, "part of the value")
    c = Container("C", [line] * min(n, 3))
    shown_ = str(c)
    sx.check(shown_[:2] == "C[" and shown_[-1:] == "]", "the name of the component")
    if n:
        sx.check(text in shown_, "its lines")


@case()
def parsed(sx):
    """what was read can be shown"""
    v = sx.str("v", (0, 2), "value")
    sx.assume(sx.not_(v == "\\"))
    c = string_to_container("BEGIN:VEVENT\r\nUID:u\r\nX-A;P=\"" + sx.str("p", 1, "letter") + "\":" + v + "\r\nEND:VEVENT")
    exc, text = sx.raises(str, c)
    sx.check(exc is None and "X-A" in text and "='" + v + "'" in text, "shown with its lines")
    ev = Event.from_container(c)
    sx.check("Event" in str(ev), "shown")
