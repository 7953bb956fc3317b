"""everything is read or refused, and what is read can be written and read again"""
from ics import Calendar, Event, Todo
from ics.alarm import BaseAlarm
from ics.contentline import ParseError, string_to_container
from ics.timezone import Timezone

from sx.api import case

BOUNDS = (
    "events, todos, alarms, calendars and time zones with one property of every known name and an arbitrary value of up to 3 characters, or one of up to 12 well-formed values of which one or two neighbouring characters "
    "are replaced by arbitrary ones, each with an arbitrary one of up to 14 parameters; every name as a property and as a component in every component; any two of 35 lines; raw texts of up to 4 arbitrary characters within components"
)
OUTSIDE = "recurrence rules and dates with replaced characters (parsed by dateutil), coordinates with replaced characters (floating point), longer arbitrary values, zones that are looked up by arbitrary names"

KINDS = {
    "event": (Event, "VEVENT", ["UID:u", "DTSTAMP:20200101T000000Z"]), "todo": (Todo, "VTODO", ["UID:u", "DTSTAMP:20200101T000000Z"]), "alarm": (BaseAlarm, "VALARM", ["ACTION:X-A"]),
    "calendar": (Calendar, "VCALENDAR", ["VERSION:2.0", "PRODID:p"]),
    "zone": (Timezone, "VTIMEZONE", ["TZID:x", "BEGIN:STANDARD", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200", "DTSTART:19700101T000000", "END:STANDARD"]),
}
REFUSALS = (ValueError, ParseError)
Z = {"T": "20200229T235959", "D": "20200229", "Z": "20200229T235959Z"}


def closed(sx, kind, text):
    """reading succeeds or is refused; what is read can be written, and reading that changes nothing any more"""
    cls = KINDS[kind][0]
    exc, comp = sx.raises(lambda: cls.from_container(string_to_container(text)))
    if exc is not None:
        sx.check(isinstance(exc, REFUSALS), "refused with a ValueError or ParseError")
        return None
    exc, out = sx.raises(comp.serialize)
    sx.check(exc is None, "what is read can be written")
    exc, again = sx.raises(lambda: cls.from_container(string_to_container(out)))
    sx.check(exc is None, "what is written can be read")
    exc, out2 = sx.raises(again.serialize)
    sx.check(exc is None, "and written again")
    sx.check(out2 == out, "the same as before")
    return comp


def component(kind, lines, first=False):
    name, known = KINDS[kind][1:]
    lines = lines + known if first else known + lines
    return "\r\n".join(["BEGIN:" + name, *lines, "END:" + name])


TEXTS = {
    "event": ("SUMMARY", "DESCRIPTION", "LOCATION", "STATUS", "CATEGORIES", "CLASSIFICATION", "TRANSPARENT", "ATTENDEE", "ORGANIZER", "URL", "ATTACH", "DTSTART", "DTEND", "DURATION", "CREATED", "LAST-MODIFIED", "X-A"),
    "todo": ("DUE", "PERCENT", "PRIORITY", "COMPLETED", "DTEND", "CATEGORIES"),
    "alarm": ("TRIGGER", "REPEAT", "DURATION", "ATTACH", "DESCRIPTION", "ATTENDEE"),
    "calendar": ("METHOD", "SCALE", "NAME", "X-WR-CALNAME", "VEVENT", "VTIMEZONE"),
    "zone": ("TZURL", "LAST-MODIFIED", "STANDARD"),
}
PARAMS = ("", ";VALUE=DATE", ";VALUE=BINARY;ENCODING=BASE64", ";VALUE=X", ";VALUE=DATE,DATE", ";TZID=Europe/Berlin", ";TZID=Nowhere", ";X-P=1,2", ";CN=a;RSVP=x")


@case(*[dict(kind=k, name=n) for k in TEXTS for n in TEXTS[k]])
def values(sx, kind, name):
    """arbitrary short values"""
    v = sx.str("v", (0, sx.pick(2, 3)), "value")
    closed(sx, kind, component(kind, [name + sx.choice("p", PARAMS) + ":" + v]))


TEMPLATES = {
    ("event", "DTSTART"): ("20200229", "20200229T235959", "20200229T235959Z"), ("event", "DTEND"): ("20200229T235959",), ("event", "CREATED"): ("20200229T235959Z",),
    ("event", "DURATION"): ("P1DT2H3M4S", "-P12W"), ("event", "CATEGORIES"): ("a\\,b,c\\nd",), ("event", "ATTACH"): ("AAAA", "http://[::1]:80/x"), ("event", "URL"): ("http://[::1]:80/x",),
    ("event", "ORGANIZER"): ("mailto:a@b.c",), ("todo", "DUE"): ("20200229T235959Z",), ("todo", "PERCENT"): ("-1_0",), ("todo", "COMPLETED"): ("20200229T235959Z",),
    ("alarm", "TRIGGER"): ("-PT15M", "20200229T235959Z"), ("alarm", "REPEAT"): ("12",), ("alarm", "DURATION"): ("PT15M",),
}


@case(*[dict(kind=k, name=n, template=t) for (k, n), ts in TEMPLATES.items() for t in ts])
def replaced(sx, kind, name, template):
    """well-formed values with one or two arbitrary characters in place of one"""
    at = sx.choice("at", tuple(range(len(template))))
    v = template[:at] + sx.str("v", (1, sx.pick(1, 2)), "value") + template[at + 1:]
    p = {"AAAA": ";VALUE=BINARY", "20200229": ";VALUE=DATE"}.get(template, sx.choice("p", ("", ";TZID=Europe/Berlin", ";VALUE=DATE-TIME")))
    start = ["DTSTART:20200101T000000"] if name in ("DTEND", "DURATION") and kind != "alarm" else []
    closed(sx, kind, component(kind, start + [name + p + ":" + v]))


OFFSETS = ("TZOFFSETFROM", "TZOFFSETTO", "TZNAME", "COMMENT")


@case(*[dict(name=n) for n in OFFSETS])
def observances(sx, name):
    """observances with an arbitrary character in one of their values"""
    lines = {"TZOFFSETFROM": "+0100", "TZOFFSETTO": "-023000", "DTSTART": "19700101T000000", "TZNAME": "CET", "COMMENT": "c", "RDATE": "19800101T000000"}
    t = lines[name]
    at = sx.choice("at", tuple(range(len(t))))
    lines[name] = t[:at] + sx.str("v", (0, 2), "value") + t[at + 1:]
    closed(sx, "zone", "\r\n".join(["BEGIN:VTIMEZONE", "TZID:x", "BEGIN:DAYLIGHT", *[f"{k}:" + v for k, v in lines.items()], "END:DAYLIGHT", "END:VTIMEZONE"]))


NAMES = (
    "ATTACH", "CREATED", "DESCRIPTION", "DTSTAMP", "LAST-MODIFIED", "LOCATION", "STATUS", "SUMMARY", "UID", "URL", "VALARM", "DTSTART", "DTEND", "DUE", "DURATION", "ATTENDEE", "CATEGORIES", "CLASSIFICATION",
    "GEO", "ORGANIZER", "TRANSPARENT", "COMPLETED", "PERCENT", "PRIORITY", "METHOD", "PRODID", "SCALE", "VERSION", "VEVENT", "VTIMEZONE", "VTODO", "ACTION", "REPEAT", "TRIGGER", "TZID", "TZURL", "STANDARD",
    "DAYLIGHT", "TZNAME", "COMMENT", "RRULE", "RDATE", "X-A",
)


@case(*[dict(kind=k, form=f) for k in KINDS for f in ("property", "component", "both")])
def names(sx, kind, form):
    """every name may turn up as a property and as a component"""
    name = sx.choice("name", NAMES)
    first = sx.choice("first", (False, True))
    v = sx.str("v", (0, 1), "letter")
    prop, comp = [name + ":" + v], ["BEGIN:" + name, "X-B:" + v, "END:" + name]
    closed(sx, kind, component(kind, {"property": prop, "component": comp, "both": prop + comp + prop}[form], first))


@case(*[dict(kind=k, inner=i) for k in KINDS for i in ("VEVENT", "VTODO", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "X-A")])
def nested(sx, kind, inner):
    """every name inside of an inner component"""
    name = sx.choice("name", NAMES)
    form = sx.choice("form", ("property", "component"))
    v = sx.str("v", (0, 1), "letter")
    base = {"VALARM": ["ACTION:AUDIO"], "VTIMEZONE": ["TZID:y"], "STANDARD": ["TZOFFSETFROM:+0100", "TZOFFSETTO:+0200"]}.get(inner, [])
    lines = [name + ":" + v] if form == "property" else ["BEGIN:" + name, "X-B:" + v, "END:" + name]
    closed(sx, kind, component(kind, ["BEGIN:" + inner, *base, *lines, "END:" + inner]))


POOL = {
    "event": (
        "DTSTART:20200101T000000", "DTSTART;VALUE=DATE:20200101", "DTSTART;TZID=Europe/Berlin:20200101T000000", "DTSTART:20200101T000000Z", "DTEND:20200102T000000", "DTEND;VALUE=DATE:20200102", "DTEND:20200102T000000Z",
        "DTEND:20190101T000000", "DURATION:P1D", "DURATION:PT1H", "DURATION:-PT1H", "DUE:20200102T000000", "GEO:1.5;-2.25", "GEO:nan;inf", "CATEGORIES:a,b", "CATEGORIES;X-P=1:c,d", "CATEGORIES:", "ATTACH:http://x",
        "ATTACH;VALUE=BINARY:AAAA", "ATTACH;X-P=1;VALUE=BINARY:AA==", "ATTENDEE:mailto:a", "ATTENDEE;CN=x;RSVP=TRUE:b", "ORGANIZER;SENT-BY=\"y\":z", "ORGANIZER:", "UID:other", "UID:", "STATUS:CONFIRMED", "STATUS:needs-action", "STATUS:other",
        "TRANSPARENT:TRUE", "TRANSPARENT:TRANSPARENT", "SUMMARY:a\\", "SUMMARY;LANGUAGE=de:b", "X-A:1", "X-A;P=1:2", "BEGIN:VALARM\r\nACTION:AUDIO\r\nEND:VALARM", "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER;VALUE=DATE-TIME:20200101T000000Z\r\nEND:VALARM",
        "BEGIN:X-C\r\nA:1\r\nEND:X-C", "CREATED:20200101T000000", "LAST-MODIFIED:20200101T000000Z", "DTSTAMP:20200101",
    ),
    "todo": (
        "DTSTART:20200101T000000", "DTSTART;VALUE=DATE:20200101", "DUE:20200102T000000", "DUE;VALUE=DATE:20200102", "DUE;TZID=Europe/Berlin:20200102T000000", "DTEND:20200102T000000", "DURATION:P1D", "DURATION:PT1H", "PERCENT:50", "PERCENT:500",
        "PRIORITY:1", "PRIORITY:-1", "COMPLETED:20200101T000000Z", "COMPLETED:20200101T000000", "CATEGORIES:a", "BEGIN:VALARM\r\nACTION:NONE\r\nTRIGGER:-PT1M\r\nEND:VALARM", "GEO:1;2",
    ),
    "alarm": (
        "ACTION:AUDIO", "ACTION:", "TRIGGER:PT1M", "TRIGGER;VALUE=DATE-TIME:20200101T000000Z", "TRIGGER;RELATED=END:PT1M", "TRIGGER:20200101T000000Z", "REPEAT:1", "REPEAT:0", "DURATION:PT1M", "SUMMARY:a", "DESCRIPTION:b",
        "ATTACH:x", "ATTACH;VALUE=BINARY:AAAA", "ATTENDEE:a", "X-A:1",
    ),
}


@case(*[dict(kind=k, at=i) for k in POOL for i in range(len(POOL[k]))])
def pairs(sx, kind, at):
    """any two lines"""
    other = sx.choice("other", POOL[kind])
    first = sx.choice("first", (False, True))
    extra = ["X-Z:" + sx.str("v", 1, "letter")]
    closed(sx, kind, component(kind, [POOL[kind][at]] + extra + [other], first))


@case(*[dict(kind=k) for k in KINDS])
def raw(sx, kind):
    """arbitrary characters in place of a line"""
    text = sx.str("text", (1, sx.pick(3, 4)), sx.pick("=A:;=,\"\r\n ", "any"))
    closed(sx, kind, component(kind, [text]))


@case()
def whole(sx):
    """arbitrary texts are calendars or refused"""
    text = sx.str("text", (0, sx.pick(3, 4)), "any")
    exc, got = sx.raises(Calendar, text)
    if exc is not None:
        sx.check(isinstance(exc, REFUSALS), "refused")
    exc, got = sx.raises(Calendar.parse_multiple, text)
    if exc is not None:
        sx.check(isinstance(exc, REFUSALS), "refused")
    else:
        sx.check(got == [] and text.strip() == "", "no calendars in an empty text")
