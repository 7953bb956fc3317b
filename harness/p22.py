"""events and todos: what is written is what is read"""
from collections import defaultdict
from datetime import datetime, timedelta
from urllib.parse import urlparse

from ics import Attendee, Event, Organizer, Todo
from ics.alarm import AudioAlarm, DisplayAlarm
from ics.contentline import ContentLine, string_to_container
from ics.timezone import UTC
from ics.types import ContextDict
from ics.valuetype.datetime import DatetimeConverterMixin

from hcommon import DAY, UTCS, zone
from sx.api import case

BOUNDS = (
    "events and todos with every combination of begin, end/due and duration: floating, UTC, in a zone with any fixed offset, all-day; every whole second "
    "of the years 1000..9990, durations up to 400 days; every text attribute with up to 2 arbitrary characters; all other attributes with arbitrary values; an arbitrary character within texts of 400, every attribute absent while all others are set, two groups of attributes at once"
)
OUTSIDE = "zones with transitions (P09, P24), GEO coordinates (floating point), longer texts (P11)"


def ctx():
    c = ContextDict(defaultdict(lambda: None))
    c[DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ] = {}  # zones that are written are known when reading again
    return c


def recode(entry, context=None):
    """-> (text, what is read from it)"""
    text = entry.to_container(context).serialize(wrap=None)
    return text, type(entry).from_container(string_to_container(text), context)


def naive(d):
    return None if d is None else d.replace(tzinfo=None)


KINDS = ("floating", "stdlib", "dateutil", "ics", "zone", "day")


REPS = [(Event, "begin", r) for r in ("none", "end", "duration")] + [(Todo, "begin", r) for r in ("none", "end", "duration")]
REPS += [(Todo, "nobegin", r) for r in ("none", "end")]


@case(*[dict(entry=e, kind=k, begin=b, rep=r) for e, b, r in REPS for k in KINDS])
def times(sx, entry, kind, begin, rep):
    context = ctx()
    tz = zone(sx)[0] if kind == "zone" else UTCS.get(kind)
    has_begin = begin == "begin"
    day = kind == "day"
    b = sx.dt("b", 1000, 9990, rep="f", midnight=day).replace(tzinfo=tz) if has_begin else None
    e = sx.dt("e", 1000, 9990, rep="f", midnight=day).replace(tzinfo=tz) if rep == "end" else None
    d = None
    if rep == "duration":
        d = DAY * sx.int("days", 1, 400) if day else sx.td("d", 0, 99)
    if b is not None and e is not None:
        sx.assume(naive(b) < naive(e) if day else naive(b) <= naive(e))
    ts = entry._TIMESPAN_TYPE(b, e, d, "day" if day else "second")
    ev = entry(timespan=ts, uid="u", dtstamp=(2020, 1, 1))
    text, back = recode(ev, context)
    got = back.timespan
    sx.check(got.get_end_representation() == ts.get_end_representation(), "same representation of the end")
    sx.check(naive(got.get_begin()) == naive(b), "same begin")
    if b is not None or e is not None:
        sx.check(back.all_day == day, "all-day entries stay all-day")
        sx.check(back.timespan.get_precision() == ts.get_precision(), "same precision")
    if b is not None:
        sx.check((back.begin.tzinfo is None) == (tz is None), "floating stays floating")
        if tz is not None:
            sx.check(back.begin.utcoffset() == b.utcoffset(), "same offset")
    if e is not None:
        sx.check(naive(back.timespan.end_time) == naive(e), "same end")
        if tz is not None:
            sx.check(back.timespan.end_time.utcoffset() == e.utcoffset(), "same offset at the end")
        sx.check((back.timespan.end_time.tzinfo is None) == (tz is None), "floating end stays floating")
    if d is not None:
        sx.check(back.timespan.duration == d, "same duration")
    again = back.to_container(context).serialize(wrap=None)
    sx.check(again == text, "written the same again")


@case(*[dict(entry=e, kind=k) for e in (Event, Todo) for k in ("floating", "stdlib")])
def durations(sx, entry, kind):
    """durations of any length"""
    if sx.tier == "thorough":
        d = DAY * sx.int("days", 0, 400) + sx.td("d", 0, 86399)
    else:
        which = sx.choice("which", ("days", "hours", "both", "all"))
        d = {"days": 0, "hours": 0, "both": 1, "all": 2}[which] * DAY
        d = timedelta(days=1) * sx.int("days", 0, 400) if which == "days" else d + timedelta(hours=sx.choice("hours", (1, 23)), minutes=sx.choice("minutes", (0, 59))) + sx.td("d", 0, 59)
    b = datetime(2020, 2, 28, 22, 33, 44).replace(tzinfo=UTCS.get(kind))
    ev = entry(timespan=entry._TIMESPAN_TYPE(b, None, d), uid="u", dtstamp=(2020, 1, 1))
    text, back = recode(ev)
    sx.check(back.timespan.duration == d, "same duration")
    sx.check(back.begin == b, "same begin")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


TEXTS = ("summary", "description", "location", "uid", "classification")


@case(*[dict(entry=e, field=f) for e in (Event, Todo) for f in TEXTS if e is Event or f != "classification"])
def texts(sx, entry, field):
    value = sx.str("value", (0, sx.pick(2, 3)))
    ev = entry(**{"uid": "u", "dtstamp": (2020, 1, 1), field: value})
    text, back = recode(ev)
    sx.check(getattr(back, field) == value, "same text")
    for other in TEXTS:
        if other != field and hasattr(ev, other):
            sx.check(getattr(back, other) == getattr(ev, other), "other attributes are not affected")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case(dict(entry=Event), dict(entry=Todo))
def together(sx, entry):
    """several attributes at once do not get mixed up"""
    vals = {f: sx.str(f, 1, "printable") for f in ("summary", "description", "location")}
    for v in vals.values():
        sx.assume(sx.and_(*[c != x for c in v for x in "\\;,"]))
    ev = entry(uid="u", dtstamp=(2020, 1, 1), **vals)
    text, back = recode(ev)
    for f, v in vals.items():
        sx.check(getattr(back, f) == v, "same text")
    sx.check(back == ev, "equal")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case(dict(entry=Event), dict(entry=Todo))
def stamps(sx, entry):
    """times of creation and modification are instants in UTC"""
    vals = {f: sx.dt(f, 1000, 9990, rep="f").replace(tzinfo=UTCS[k]) for f, k in (("dtstamp", "stdlib"), ("created", "dateutil"), ("last_modified", "ics"))}
    ev = entry(uid="u", **vals)
    text, back = recode(ev)
    for f, v in vals.items():
        got = getattr(back, f)
        sx.check(got.utcoffset() == timedelta(0), "UTC")
        sx.check(naive(got) == naive(v), "same instant")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case()
def stamp_offset(sx):
    """a time of creation given with another offset is written as the same instant"""
    d = sx.dt("d", 2, 9990, tz=sx.tz("off"))
    ev = Event(uid="u", dtstamp=(2020, 1, 1), created=d)
    sx.check(ev.created.utcoffset() == timedelta(0), "held in UTC")
    sx.check(ev.created == d, "same instant")


@case()
def event_rest(sx):
    status = sx.choice("status", (None, "TENTATIVE", "CONFIRMED", "CANCELLED"))
    transparent = sx.choice("transparent", (None, True, False))
    ev = Event(uid="u", dtstamp=(2020, 1, 1), status=status, transparent=transparent)
    text, back = recode(ev)
    sx.check(back.status == status, "status")
    sx.check(back.transparent is transparent, "transparency")
    sx.check(back == ev, "equal")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case()
def todo_rest(sx):
    percent = sx.int("percent", 0, 100) if sx.choice("has_percent", (False, True)) else None
    priority = sx.int("priority", 0, 9) if sx.choice("has_priority", (False, True)) else None
    completed = sx.dt("completed", 1000, 9990, rep="f") if sx.choice("done", (False, True)) else None
    if completed is not None and sx.choice("utc", (False, True)):
        completed = completed.replace(tzinfo=UTC)
    # all states that RFC 5545 has for todos
    status = sx.choice("status", (None, "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"))
    todo = Todo(uid="u", dtstamp=(2020, 1, 1), percent=percent, priority=priority, completed=completed, status=status)
    text, back = recode(todo)
    sx.check(back.status == status, "status")
    sx.check(back.percent == percent, "percent")
    sx.check(back.priority == priority, "priority")
    sx.check(naive(back.completed) == naive(completed), "time of completion")
    if completed is not None:
        sx.check((back.completed.tzinfo is None) == (completed.tzinfo is None), "floating stays floating")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case(dict(n=1), dict(n=2))
def attachments(sx, n):
    """binary attachments"""
    vals = [sx.bytes(f"a{i}", (0, 3) if n == 1 else (0, 1)) for i in range(n)]
    ev = Event(uid="u", dtstamp=(2020, 1, 1), attach=vals)
    text, back = recode(ev)
    sx.check(back.attach == vals, "same bytes")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case(*[dict(entry=e, kind=k) for e in (Event, Todo) for k in ("floating", "stdlib", "day")])
def later_changes(sx, entry, kind):
    """an entry without times that was read can be given times like a new one"""
    day = kind == "day"
    ev = entry(uid="u", dtstamp=(2020, 1, 1))
    text, back = recode(ev)
    b = sx.dt("b", 2, 9990).replace(tzinfo=UTCS.get(kind))
    exc, _ = sx.raises(setattr, back, "begin", b)
    sx.check(exc is None, "begin can be set")
    if exc is not None:
        return
    ev.begin = b
    sx.check(back.begin == b, "begin is set")
    if day:
        ev.make_all_day()
        exc, _ = sx.raises(back.make_all_day)
        sx.check(exc is None, "the entry can be made all-day")
    sx.check(back.timespan == ev.timespan, "same as for a new entry")


URL_CHARS = "=ab/?#&%:,;=\\"


@case(dict(n=1), dict(n=2))
def attached_urls(sx, n):
    """attachments given by their URL"""
    vals = [urlparse("http://x.org/" + sx.str(f"u{i}", (0, sx.pick(2 // n, 2)), URL_CHARS)) for i in range(n)]
    if sx.choice("binary", (False, True)):
        vals.insert(sx.choice("at", (0, 1)), sx.bytes("b", (0, 1)))
    ev = Event(uid="u", dtstamp=(2020, 1, 1), attach=vals)
    text, back = recode(ev)
    sx.check(len(back.attach) == len(vals), "all attachments")
    for g, w in zip(back.attach, vals):
        sx.check(g == w, "same attachment in the same place")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case(dict(kind="str"), dict(kind="parsed"))
def url(sx, kind):
    """the URL of an event"""
    u = "http://x.org/" + sx.str("u", (0, 2), URL_CHARS)
    value = urlparse(u) if kind == "parsed" else u
    ev = Event(uid="u", dtstamp=(2020, 1, 1), url=value)
    text, back = recode(ev)
    got = back.url
    sx.check((got if isinstance(got, str) else got.geturl()) == (u if kind == "str" else value.geturl()), "same URL")
    sx.check(back.to_container().serialize(wrap=None) == text, "written the same again")


@case()
def url_file(sx):
    """the URL of an event in a file of another program, URLs are not escaped there"""
    s = sx.str("s", 1, URL_CHARS)
    sx.known("url-unescaped", sx.or_(*[s == c for c in ",;\\"]))
    exc, back = sx.raises(Event.from_container, string_to_container("BEGIN:VEVENT\r\nURL:http://x.org/" + s + "b\r\nEND:VEVENT"))
    sx.check(exc is None and back.url == "http://x.org/" + s + "b", "same URL")


LONG = "a,b;c\\d\ne:f\"g  \\n\u2028\x85 " * 10


@case(*[dict(entry=e, field=f) for e in (Event, Todo) for f in TEXTS if e is Event or f != "classification"])
def long_texts(sx, entry, field):
    """long texts, folded as usual"""
    value = LONG + sx.str("value", 1) + LONG
    ev = entry(**{"uid": "u", "dtstamp": (2020, 1, 1), field: value})
    back = entry.from_container(string_to_container(ev.serialize()))
    sx.check(getattr(back, field) == value, "same text")
    sx.check(back.serialize() == ev.serialize(), "written the same again")


def letter(sx, name):
    return sx.str(name, 1, "letter")


def stamp(sx, name):
    return datetime(2020, 1, 2, 3, 4, sx.int(name, 10, 59), tzinfo=UTC)


GROUPS = {
    "summary": lambda sx: {"summary": letter(sx, "su")},
    "description": lambda sx: {"description": letter(sx, "de")},
    "location": lambda sx: {"location": letter(sx, "lo")},
    "url": lambda sx: {"url": "http://x.org/" + letter(sx, "ur")},
    "uid": lambda sx: {"uid": letter(sx, "id")},
    "status": lambda sx: {"status": "CONFIRMED"},
    "created": lambda sx: {"created": stamp(sx, "cr")},
    "modified": lambda sx: {"last_modified": stamp(sx, "mo")},
    "stamp": lambda sx: {"dtstamp": stamp(sx, "ds")},
    "attach": lambda sx: {"attach": [sx.bytes("at", 1), urlparse("http://x.org/au")]},
    "begin": lambda sx: {"begin": datetime(2020, 1, 2, 3, 4, sx.int("be", 10, 59))},
    "end": lambda sx: {"begin": datetime(2020, 1, 2, 3), "end": datetime(2020, 1, 2, 3, 4, sx.int("en", 10, 59))},
    "duration": lambda sx: {"begin": datetime(2020, 1, 2, 3), "duration": timedelta(seconds=1) * sx.int("du", 10, 59)},
    "day": lambda sx: {"begin": datetime(2020, 1, sx.int("da", 10, 31)), "day": True},
    "days": lambda sx: {"begin": datetime(2020, 1, sx.int("da", 10, 31)), "duration": timedelta(days=3), "day": True},
    "alarms": lambda sx: {"alarms": [AudioAlarm(trigger=timedelta(seconds=1) * sx.int("tr", 10, 59)), DisplayAlarm(trigger=timedelta(hours=1), description="d")]},
    "categories": lambda sx: {"categories": [letter(sx, "c0"), letter(sx, "c1")]},
    "transparent": lambda sx: {"transparent": False},
    "classification": lambda sx: {"classification": letter(sx, "cl")},
    "organizer": lambda sx: {"organizer": Organizer("mailto:o", common_name=letter(sx, "oc"))},
    "attendees": lambda sx: {"attendees": [Attendee("mailto:a", common_name=letter(sx, "ac")), Attendee("mailto:b")]},
    "percent": lambda sx: {"percent": sx.int("pe", 10, 99)},
    "priority": lambda sx: {"priority": sx.int("pr", 0, 9)},
    "completed": lambda sx: {"completed": stamp(sx, "co")},
    "extra": lambda sx: {"extra": "X-" + sx.str("ex", 1, "NAME")},
}
TIMES = ("begin", "end", "duration", "day", "days")
ONLY = {Event: ("categories", "transparent", "classification", "organizer", "attendees"), Todo: ("percent", "priority", "completed")}
VALUES = ("summary", "description", "location", "url", "uid", "status", "created", "last_modified", "dtstamp", "attach", "alarms", "categories", "transparent", "classification", "percent", "priority", "completed")


def applies(entry, group):
    return not any(group in ONLY[e] for e in ONLY if e is not entry)


def make(entry, given):
    given = dict(given)
    day = given.pop("day", False)
    extra = given.pop("extra", None)
    if entry is Todo and "end" in given:
        given["due"] = given.pop("end")
    ev = entry(**{"uid": "u", "dtstamp": datetime(2020, 1, 1, tzinfo=UTC), **given})
    if day:
        ev.make_all_day()
    if extra:
        ev.extra.append(ContentLine(extra, value="v"))
    return ev


def compare(sx, ev, back):
    for f in VALUES:
        if hasattr(ev, f):
            sx.check(getattr(back, f) == getattr(ev, f), f)
    sx.check(back.timespan == ev.timespan, "times")
    sx.check(back.timespan.get_end_representation() == ev.timespan.get_end_representation(), "representation of the end")
    sx.check(back.all_day == ev.all_day, "all-day")
    sx.check(back.extra == ev.extra, "unknown properties")
    if type(ev) is Event:
        people = [[x for x in (e.organizer, *e.attendees) if x is not None] for e in (ev, back)]
        sx.check(len(people[0]) == len(people[1]), "persons")
        for w, g in zip(*people):
            sx.check(type(g) is type(w) and g.common_name == w.common_name and g.email.geturl() == w.email, "persons")
    sx.check(back.serialize() == ev.serialize(), "written the same again")


@case(*[dict(entry=e, group=g) for e in (Event, Todo) for g in GROUPS if applies(e, g)])
def two_groups(sx, entry, group):
    """two attributes or groups of attributes do not get mixed up"""
    other = sx.choice("other", tuple(g for g in GROUPS if applies(entry, g) and g != group and not (group in TIMES and g in TIMES)))
    ev = make(entry, {**GROUPS[group](sx), **GROUPS[other](sx)})
    compare(sx, ev, entry.from_container(string_to_container(ev.serialize())))


@case(*[dict(entry=e, without=g, times=t) for e in (Event, Todo) for g in (None, *GROUPS) if g is None or applies(e, g) and g not in TIMES for t in (("end", "days", "duration", "day") if g is None else ("end",))])
def all_but_one(sx, entry, without, times):
    """all attributes at once, or all but one"""
    given = {}
    for g in GROUPS:
        if applies(entry, g) and g != without and (g not in TIMES or g == times):
            given.update(GROUPS[g](sx))
    ev = make(entry, given)
    compare(sx, ev, entry.from_container(string_to_container(ev.serialize())))
