"""equality is equality of content"""
import datetime
from datetime import timedelta
from urllib.parse import urlparse

import dateutil.rrule

from ics import Attendee, Calendar, Event, Organizer, Todo
from ics.alarm import AudioAlarm, BaseAlarm, CustomAlarm, DisplayAlarm, EmailAlarm, NoneAlarm
from ics.contentline import Container, ContentLine, QuotedParamValue, string_to_container
from ics.timespan import EventTimespan, Timespan, TodoTimespan
from ics.timezone import Timezone, TimezoneDaylightObservance, TimezoneStandardObservance

from hcommon import UTCS, start_state
from sx.api import case

BOUNDS = (
    "two events, todos, calendars, alarms of any kind, people, lines, components, timespans, recurrence rules or zones that differ at most in one attribute, unknown property or unknown parameter: "
    "texts of up to 2 arbitrary characters or none, any digits or none, any second of the years 2000..2030, floating or UTC, or none; two arbitrary timespans; rules with any interval, count, end, month, day and begin of the week"
)
OUTSIDE = "several differences at once; equality of times is the one of Python (the same instant); hash values of entries (they are not hashable)"

STAMP = datetime.datetime(2020, 1, 1, tzinfo=UTCS["stdlib"])


def text(sx, name):
    return sx.str(name, (0, 2))


def opt(sx, name, make):
    return make(sx, name) if sx.choice(name + "?", (True, False)) else None


def number(sx, name):
    return sx.int(name, 0, 9)


def utc(sx, name):
    return sx.dt(name, 2000, 2030, tz=UTCS["stdlib"])


def length(sx, name):
    return sx.td(name, 0, 9999)


def optional(make):
    return lambda sx, name: opt(sx, name, make)


def texts(sx, name):
    return [sx.str(f"{name}{i}", (0, 1)) for i in range(sx.choice(name + "n", (0, 1, 2)))]


def pick(*values):
    return lambda sx, name: sx.choice(name, values)


def span(cls):
    def make(sx, name):
        b = sx.dt(name + "b", 2000, 2030, tz=sx.choice(name + "z", (None, UTCS["stdlib"])))
        kind = sx.choice(name + "k", ("none", "begin", "end", "duration"))
        if kind == "none":
            return cls()
        if kind == "end":
            return cls(b, b + sx.td(name + "l", 0, 9999))
        return cls(b, None, sx.td(name + "l", 0, 9999) if kind == "duration" else None)

    return make


PEOPLE = (Attendee("mailto:a"), Attendee("mailto:b"), Attendee("mailto:a", common_name="A"), Organizer("mailto:a"))
ALARMS = (DisplayAlarm(trigger=timedelta(1)), DisplayAlarm(trigger=timedelta(2)), AudioAlarm(trigger=timedelta(1)), NoneAlarm(trigger=timedelta(1)))
T = optional(text)
ENTRY = {
    "summary": T, "description": T, "location": T, "uid": text, "url": T, "status": pick(None, "CONFIRMED"), "created": optional(utc), "last_modified": optional(utc), "dtstamp": utc,
    "alarms": pick((), (0,), (1,), (2,), (0, 2), (2, 0), (3,)), "attach": pick((), (b"x",), (b"y",), (b"x", b"y"), (b"y", b"x")),
}
KINDS = {
    "event": (Event, {
        **ENTRY, "timespan": span(EventTimespan), "classification": T, "transparent": pick(None, True, False), "organizer": pick(None, Organizer("mailto:a"), Organizer("mailto:b"), Organizer("mailto:a", common_name="A")),
        "geo": pick(None, (1.0, 2.0), (2.0, 1.0), (1.0, 2.5)), "attendees": pick((), (0,), (1,), (2,), (0, 1), (1, 0)), "categories": texts,
    }),
    "todo": (Todo, {**ENTRY, "status": pick(None, "COMPLETED", "NEEDS-ACTION", "CANCELLED"), "timespan": span(TodoTimespan), "percent": optional(number), "priority": optional(number), "completed": optional(utc)}),
    "calendar": (Calendar, {"version": text, "prodid": text, "scale": T, "method": T, "events": texts, "todos": texts}),
    "display": (DisplayAlarm, {"description": T}),
    "audio": (AudioAlarm, {"attach": pick(None, b"x", b"y", urlparse("http://a"))}),
    "email": (EmailAlarm, {"summary": T, "description": T, "attendees": pick((), (0,), (1,), (0, 1), (1, 0)), "attach": pick((), (b"x",), (b"y",), (b"x", b"y"), (b"y", b"x"))}),
    "custom": (CustomAlarm, {}),
    "none": (NoneAlarm, {}),
    "attendee": (Attendee, {"email": text, "common_name": T, "sent_by": pick(None, urlparse("mailto:a"), urlparse("mailto:b")), "directory": pick(None, urlparse("http:a"), urlparse("http:b")), "user_type": T, "status": T, "rsvp": pick(None, True, False), "role": T, "other": texts}),
    "organizer": (Organizer, {"email": text, "common_name": T, "other": texts}),
    "line": (ContentLine, {"name": lambda sx, name: sx.str(name, (1, 2), "name"), "value": text, "param": texts, "params": texts}),
    "container": (Container, {"name": lambda sx, name: sx.str(name, (1, 2), "name"), "lines": texts, "nested": texts}),
}
TRIGGER = {"trigger": optional(length), "repeat": optional(number), "duration": optional(length)}
for k in ("display", "audio", "email", "custom", "none"):
    KINDS[k][1].update(TRIGGER)
COMPONENTS = ("event", "todo", "calendar", "display", "audio", "email", "custom", "none")
for k in COMPONENTS:
    KINDS[k][1].update({"extra": texts, "extra_params": texts})
BASE = {
    "event": dict(uid="u", dtstamp=STAMP, summary="s", location="l", categories=["c"], priority=1), "todo": dict(uid="u", dtstamp=STAMP, summary="s", percent=5), "calendar": dict(prodid="p"),
    "display": dict(trigger=timedelta(1)), "audio": dict(trigger=timedelta(1)), "email": dict(trigger=timedelta(1), summary="s"), "custom": dict(trigger=timedelta(1)), "none": dict(trigger=timedelta(1)),
    "attendee": dict(email="mailto:a", common_name="n"), "organizer": dict(email="mailto:a", common_name="n"), "line": dict(name="X"), "container": dict(name="X"),
}
BASE["event"].pop("priority")


def build(kind, attr, v):
    cls = KINDS[kind][0]
    kw = dict(BASE[kind])
    if attr in ("alarms", "attendees"):
        v = [(ALARMS if attr == "alarms" else PEOPLE)[i].clone() if attr == "alarms" else PEOPLE[i] for i in v]
    elif attr in ("events", "todos"):
        v = [(Event if attr == "events" else Todo)(uid=x, dtstamp=STAMP) for x in v]
    elif attr == "attach" and isinstance(v, tuple) and kind != "audio":
        v = list(v)
    if kind == "container":
        items = [ContentLine("A")]
        if attr == "lines":
            items += [ContentLine("B", value=x) for x in v]
        elif attr == "nested":
            items.append(Container("C", [ContentLine("B", value=x) for x in v]))
        return Container(v if attr == "name" else "X", items)
    if kind == "line":
        params = {"P": ["a"]}
        if attr == "param":
            params["Q"] = list(v)
        elif attr == "params":
            params.update({"Q" + str(i): [x] for i, x in enumerate(v)})
        return ContentLine(v if attr == "name" else "X", params, v if attr == "value" else "v")
    if attr in ("extra", "extra_params"):
        x = cls(**kw)
        if attr == "extra":
            x.extra.extend(ContentLine("X-A", value=y) for y in v)
        elif v:
            x.extra_params["UID"] = {"P": list(v)}
        return x
    if attr == "other":
        x = cls(**kw)
        x.extra["X-A"] = list(v)
        return x
    if attr is not None and (v is not None or cls not in (Attendee, Organizer)):
        kw[attr] = v
    elif attr is not None:
        kw.pop(attr, None)
    return cls(**kw)


def same(kind, attr, v, w):
    if attr in ("alarms", "attendees"):
        return v == w
    if attr == "name":
        return v.upper() == w.upper()
    if kind == "line" and attr == "params" or attr in ("extra_params", "events", "todos"):
        return v == w
    if (v is None) != (w is None):
        return False
    return v == w


@case(*[dict(kind=k, attr=a) for k, (_, attrs) in KINDS.items() for a in attrs])
def one_attribute(sx, kind, attr):
    """equal if and only if the attribute is"""
    make = KINDS[kind][1][attr]
    v, w = make(sx, "v"), make(sx, "w")
    a, b = build(kind, attr, v), build(kind, attr, w)
    want = bool(same(kind, attr, v, w))
    sx.check(bool(a == b) is want, "equal if and only if the attribute is")
    sx.check(bool(b == a) is want, "in both directions")
    sx.check(bool(a != b) is not want, "the opposite of unequal")
    if kind not in ("line", "container") and attr not in ("extra", "extra_params", "other") and want is False and not isinstance(v, tuple):
        sx.check(bool(a == build(kind, attr, v)), "equal to another one with the same attribute")


@case(*[dict(kind=k) for k in KINDS])
def other_types(sx, kind):
    """never equal to something of another type"""
    a = build(kind, None, None)
    s = sx.str("s", (0, 1))
    for x in (None, 5, s, (), a.__class__, timedelta(0)):
        sx.check(bool(a == x) is False and bool(a != x) is True, "not equal")
        sx.check(bool(x == a) is False, "not equal")
    for k in KINDS:
        if k != kind:
            sx.check(bool(a == build(k, None, None)) is False, "not equal to " + k)


@case(dict(kind="organizer"), dict(kind="alarms"), dict(kind="spans"), dict(kind="observances"), dict(kind="lists"))
def same_content(sx, kind):
    """the same content in an object of another type is not equal"""
    s = sx.str("s", (0, 1), "letter")
    if kind == "organizer":
        a, b = Attendee(s), Organizer(s)
    elif kind == "alarms":
        a, b = AudioAlarm(repeat=sx.int("n", 0, 9)), NoneAlarm(repeat=sx.int("m", 0, 9))
    elif kind == "spans":
        b = sx.dt("b", 2000, 2030)
        a, b = EventTimespan(b), sx.choice("other", (TodoTimespan, Timespan))(b)
    elif kind == "observances":
        rule = dateutil.rrule.rrule(freq=0, dtstart=datetime.datetime(1970, 1, 1), count=1)
        a, b = TimezoneStandardObservance(timedelta(0), timedelta(0), rule, s), TimezoneDaylightObservance(timedelta(0), timedelta(0), rule, s)
    else:
        a, b = Container("A", [ContentLine("X", value=s)]), [ContentLine("X", value=s)]
    sx.check(bool(a == b) is False and bool(b == a) is False, "not equal")


@case(*[dict(cls=c, p=p, q=q) for c in (Timespan, EventTimespan, TodoTimespan) for p in ("second", "day") for q in ("second", "day")])
def spans(sx, cls, p, q):
    """arbitrary timespans are equal if and only if their parts are"""
    a = start_state(Renamed(sx, "a"), cls, p)
    b = start_state(Renamed(sx, "b"), cls, q)
    ta, tb = ((x.begin_time, x.end_time, x.duration, x.precision) for x in (a, b))
    want = True
    for x, y in zip(ta, tb):
        if (x is None) != (y is None) or x is not None and not bool(x == y):
            want = False
    sx.check(bool(a == b) is want and bool(b == a) is want, "equal if and only if all parts are")
    sx.check(bool(a != b) is not want, "the opposite of unequal")
    entry = {EventTimespan: Event, TodoTimespan: Todo}.get(cls)
    if entry is not None:
        sx.check(bool(entry(timespan=a, uid="u", dtstamp=STAMP) == entry(timespan=b, uid="u", dtstamp=STAMP)) is want, "entries as well")


class Renamed:
    """the same inputs under other names"""

    def __init__(self, sx, prefix):
        self._sx, self._prefix = sx, prefix

    def __getattr__(self, name):
        f = getattr(self._sx, name)
        if name in ("choice", "dt", "td", "int", "tz", "str"):
            return lambda n, *a, **k: f(self._prefix + n, *a, **k)
        return f


PARTS = {
    "INTERVAL": lambda sx, n: str(sx.int(n, 1, 12)), "COUNT": lambda sx, n: str(sx.int(n, 1, 99)), "BYMONTH": lambda sx, n: str(sx.int(n, 1, 12)), "BYMONTHDAY": lambda sx, n: str(sx.int(n, 1, 31)),
    "BYDAY": lambda sx, n: str(sx.int(n, 1, 4)) + sx.choice(n + "d", ("SU", "MO")), "WKST": lambda sx, n: sx.choice(n, ("MO", "SU", "TU")), "FREQ": lambda sx, n: sx.choice(n, ("YEARLY", "MONTHLY", "DAILY")),
    "UNTIL": lambda sx, n: sx.choice(n, ("20300101T000000", "20310101T000000", "20300101T000001")), "BYHOUR": lambda sx, n: str(sx.int(n, 0, 23)), "BYSETPOS": lambda sx, n: str(sx.int(n, 1, 5)),
}


def zone_with(rule, rdate=None, start="19700101T000000", tzid="Z", name="N", to="+0100"):
    rdates = "" if rdate is None else "RDATE:" + rdate + "\r\n"
    return Timezone.from_container(string_to_container(
        "BEGIN:VTIMEZONE\r\nTZID:" + tzid + "\r\nBEGIN:STANDARD\r\nDTSTART:" + start + "\r\nTZOFFSETFROM:+0000\r\nTZOFFSETTO:" + to + "\r\nTZNAME:" + name + "\r\nRRULE:" + rule + "\r\n" + rdates + "END:STANDARD\r\nEND:VTIMEZONE"
    ))


def rule_with(part, value):
    parts = {"FREQ": "YEARLY", "BYMONTH": "3", **({"BYDAY": "1SU"} if part in ("BYSETPOS", "BYDAY") else {}), part: value}
    return ";".join(k + "=" + v for k, v in parts.items())


@case(*[dict(part=p) for p in PARTS])
def rules(sx, part):
    """zones and their rules are equal if and only if all parts of the rules are"""
    v, w = PARTS[part](sx, "v"), PARTS[part](sx, "w")
    a, b = zone_with(rule_with(part, v)), zone_with(rule_with(part, w))
    want = bool(v == w)
    for x, y in ((a, b), (a.observances[0], b.observances[0]), (a.observances[0].rrule, b.observances[0].rrule), (a.observances[0].rrule._rrule[0], b.observances[0].rrule._rrule[0])):
        sx.check(bool(x == y) is want, "equal if and only if the rules are")
        sx.check(bool(x != y) is not want, "the opposite of unequal")
    for x in (None, 5, "", a, []):
        sx.check(bool(a.observances[0].rrule == x) is False and bool(a.observances[0].rrule._rrule[0] == x) is False, "not equal to other things")


@case(*[dict(part=p, known=k) for p in ("rdate", "start", "tzid", "name", "to", "exdate", "exrule") for k in (False, True)])
def zones(sx, part, known):
    """zones are equal if and only if everything is"""
    def value(n):
        if part == "start":
            return "1970010" + str(sx.int(n, 1, 9)) + "T000000"
        if part == "rdate":
            d = sx.dt(n, 1970, 2030, rep="f")
            return d.strftime("%Y%m%dT%H%M%S")
        if part == "to":
            h = sx.int(n, 0, 9)
            return "+0" + str(h) + "00"
        if part in ("exdate", "exrule"):
            return sx.int(n, 1, 9)
        return sx.str(n, 1, "letter")

    v, w = value("v"), value("w")
    want = bool(v == w)

    def make(x):
        if part not in ("exdate", "exrule"):
            return zone_with("FREQ=YEARLY", **{part: x})
        z = zone_with("FREQ=YEARLY")
        rules = z.observances[0].rrule
        if part == "exdate":
            rules.exdate(datetime.datetime(2020, 1, x))
        else:
            rules.exrule(dateutil.rrule.rrule(freq=0, interval=x, dtstart=datetime.datetime(1970, 1, 1)))
        return z

    a, b = make(v), make(w)
    if known:
        a.extra.append(ContentLine("X-A", value="1"))
        b.extra.append(ContentLine("X-A", value="1"))
    sx.check(bool(a == b) is want and bool(b == a) is want, "equal if and only if the part is")
    sx.check(bool(a != b) is not want, "the opposite of unequal")


@case()
def quoted(sx):
    """quotes do not matter for parameters"""
    s, t = sx.str("s", (0, 2)), sx.str("t", (0, 2))
    a, b = ContentLine("X", {"P": [s]}, "v"), ContentLine("X", {"P": [QuotedParamValue(t)]}, "v")
    want = bool(s == t)
    sx.check(bool(a == b) is want and bool(b == a) is want, "equal if and only if the values are")


@case()
def positions(sx):
    """the place in the file does not matter"""
    v, w = sx.str("v", (0, 1), "letter"), sx.str("w", (0, 1), "letter")
    n = sx.choice("n", (0, 1, 3))
    a = string_to_container("BEGIN:A\n" + "\n" * n + "X:" + v + "\nEND:A")
    b = string_to_container("BEGIN:A\nX:" + w + "\nEND:A")
    sx.check(bool(a == b) is bool(v == w), "equal if and only if the values are")
