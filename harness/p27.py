"""assignments are converted and validated like the arguments of the constructor"""
import datetime
from datetime import timedelta

import attr
from attr.validators import instance_of

from ics import Attendee, Calendar, Event, Organizer, Todo
from ics.alarm import AudioAlarm, DisplayAlarm
from ics.contentline import Container, ContentLine
from ics.geo import Geo
from ics.timespan import EventTimespan, Timespan, TodoTimespan

from hcommon import UTCS
from sx.api import case

BOUNDS = (
    "every attribute of calendars, events, todos, alarms and content lines, of the library's classes and of subclasses defined by a user (with and without own attributes, used before and after their base class), "
    "with values of every kind: any integer, texts of up to 2 arbitrary characters (status, names of lines: ASCII; status: also every text of 8 or 9 (thorough: also 10 or 12) letters of the status names), any time (floating, UTC, with any offset), durations, None, "
    "objects of wrong types; one assignment to a new object and to one that has all other attributes"
)
OUTSIDE = "longer texts (no attribute but status looks at them), coordinates (floating point)"


class MyEvent(Event):
    """a subclass without attributes of its own"""


@attr.s
class Sub(Todo):
    """a subclass with an own attribute"""

    rank: int = attr.ib(default=0, validator=instance_of(int), kw_only=True, metadata={"ics_ignore": True})


@attr.s
class MyAlarm(AudioAlarm):
    level: int = attr.ib(default=1, converter=lambda x: int(x), validator=instance_of(int), metadata={"ics_ignore": True})


KW = dict(uid="u", dtstamp=(2020, 1, 1))
CLASSES = {
    "event": (Event, KW), "myevent": (MyEvent, KW), "todo": (Todo, KW), "calendar": (Calendar, {}), "audio": (AudioAlarm, {}), "display": (DisplayAlarm, {}),
    "myalarm": (MyAlarm, {}), "line": (ContentLine, {"name": "N"}),
}
ENTRY = dict.fromkeys(("summary", "description", "location", "uid", "url"), ("none", "str")) | {
    "status": ("none", "str", "status", "int"), "created": ("none", "naive", "utc", "aware", "date", "tuple", "dict", "int"), "last_modified": ("none", "aware", "str"),
    "dtstamp": ("none", "naive", "utc", "aware", "date", "tuple", "dict", "int"), "alarms": ("list", "tuple", "int"), "attach": ("list", "tuple"), "timespan": ("none", "event-timespan", "todo-timespan", "timespan", "bad-timespan"),
}
EVENT = ENTRY | {
    "classification": ("none", "str", "int"), "transparent": ("none", "bool"), "organizer": ("none", "organizer", "attendee", "str"), "geo": ("none", "geo"), "attendees": ("list", "tuple", "int"),
    "categories": ("list", "tuple", "str", "int"),
}
ALARM = {"trigger": ("none", "delta", "naive", "utc", "aware", "int", "str", "date"), "repeat": ("none", "int"), "duration": ("none", "delta", "deltadict", "int", "str")}
FIELDS = {
    "event": EVENT, "myevent": EVENT,
    "todo": ENTRY | {"percent": ("none", "int", "str"), "priority": ("none", "int", "str"), "completed": ("none", "naive", "utc", "aware", "date", "tuple", "dict", "int")},
    "calendar": {"version": ("none", "str", "int"), "prodid": ("none", "str", "int"), "scale": ("none", "str"), "method": ("none", "str"), "events": ("list", "tuple", "int"), "todos": ("list", "tuple", "int")},
    "audio": ALARM, "display": ALARM, "myalarm": ALARM | {"level": ("none", "int", "str", "digit")},
    "line": {"name": ("str", "none"), "value": ("str",), "params": ("dict",)},
}


def some(sx, name, kind):
    if kind == "none":
        return None
    if kind == "str":
        return sx.str(name, (0, 2))
    if kind == "digit":
        return sx.str(name, (1, 2), "digit")
    if kind == "status":
        return sx.str(name, sx.choice(name + ".n", sx.pick((8, 9), (8, 9, 10, 12))), "=TENAIVCOFRMDLSPtenaivcofrmdlsp-")
    if kind == "int":
        return sx.int(name, -1000, 1000)
    if kind == "bool":
        return sx.choice(name, (True, False))
    if kind == "naive":
        return sx.dt(name, 2, 9990)
    if kind == "utc":
        return sx.dt(name, 2, 9990).replace(tzinfo=UTCS["dateutil"])
    if kind == "aware":
        return sx.dt(name, 2, 9990, tz=sx.tz(name + ".off"))
    if kind == "date":
        return sx.date(name, 2, 9990)
    if kind == "tuple":
        return (2020, sx.int(name + ".m", 0, 13), 1)
    if kind == "dict":
        return dict(year=2020, month=sx.int(name + ".m", 1, 12), day=sx.int(name + ".d", 0, 32))
    if kind == "delta":
        return sx.td(name, -10**6, 10**6)
    if kind == "deltadict":
        return dict(minutes=sx.int(name, -10**4, 10**4))
    if kind in ("event-timespan", "todo-timespan", "timespan", "bad-timespan"):
        b, d = sx.dt(name + ".b", 2000, 2030), sx.td(name + ".d", 0, 10**6)
        if kind == "bad-timespan":
            ts = EventTimespan(b, None, d)
            object.__setattr__(ts, "duration", -d - timedelta(1))
            return ts
        return {"event-timespan": EventTimespan, "todo-timespan": TodoTimespan, "timespan": Timespan}[kind](b, None, d)
    if kind == "organizer":
        return Organizer("mailto:" + sx.str(name, 1, "letter"))
    if kind == "attendee":
        return Attendee("mailto:x")
    if kind == "geo":
        return sx.choice(name, (Geo(1.0, 2.0), (1.0, 2.0), dict(latitude=1.0, longitude=2.0)))
    raise KeyError(kind)


def items(sx, field):
    """lists of what belongs there"""
    n = sx.choice("n", (0, 1, 2))
    if field == "categories":
        return [sx.str(f"c{i}", (0, 1)) for i in range(n)]
    if field == "alarms":
        return [AudioAlarm(trigger=timedelta(seconds=1) * sx.int(f"a{i}", 0, 9)) for i in range(n)]
    if field == "attendees":
        return [Attendee(f"mailto:{i}") for i in range(n)]
    if field == "attach":
        return [sx.bytes(f"b{i}", (0, 1)) for i in range(n)]
    return [(Event if field == "events" else Todo)(uid=str(i)) for i in range(n)]


def value_of(sx, field, kind):
    if kind in ("list", "tuple") and field in ("categories", "alarms", "attendees", "attach", "events", "todos"):
        v = items(sx, field)
        return tuple(v) if kind == "tuple" else v
    if field in ("name", "status") and kind == "str":
        return sx.str("v", (0, 2), "ascii")
    if field == "params":
        return {"P": [sx.str("p", (0, 1))]}
    return some(sx, "v", kind)


def expected(sx, cls, field, kind, v):
    """-> may the value be assigned?"""
    if field == "status":
        if kind == "none":
            return True
        return kind in ("str", "status") and sx.or_(*[v.upper() == s for s in ("TENTATIVE", "CONFIRMED", "CANCELLED", *(("NEEDS-ACTION", "IN-PROCESS", "COMPLETED") if issubclass(cls, Todo) else ()))])
    if field in ("percent", "priority"):
        return kind == "none" or kind == "int" and sx.and_(v >= 0, v <= (100 if field == "percent" else 9))
    if field == "dtstamp" and kind == "none":
        return False
    if field in ("created", "last_modified", "dtstamp", "completed"):
        if kind == "tuple":
            return sx.and_(v[1] >= 1, v[1] <= 12)
        if kind == "dict":
            m, d = v["month"], v["day"]
            last = sx.ite(m == 2, 29, sx.ite(sx.or_(m == 4, m == 6, m == 9, m == 11), 30, 31))
            return sx.and_(d >= 1, d <= last)
        return kind not in ("int", "str")
    if field == "timespan":
        return kind == ("event-timespan" if issubclass(cls, Event) else "todo-timespan")
    if field == "organizer":
        return kind in ("none", "organizer")
    if field in ("classification", "version", "prodid"):
        return kind == "str" or kind == "none" and field == "classification"
    if field == "trigger":
        return kind in ("none", "delta", "naive", "utc", "aware")
    if field == "duration":
        return kind in ("none", "delta", "deltadict")
    if field == "level":
        return kind in ("int", "digit") or kind == "str" and sx.raises(int, v)[0] is None
    if kind == "int" and field in ("alarms", "attendees", "categories", "events", "todos"):
        return False
    if field == "name":
        return kind == "str"
    return True


ALL = [(c, f, k) for c in CLASSES for f in FIELDS[c] for k in FIELDS[c][f]]


# values of all other attributes
ENTRY_SET = dict(
    summary="s", description="d", location="l", url="http://x.org/", status="CONFIRMED", created=(2020, 1, 2), last_modified=(2020, 1, 3),
    timespan=None, attach=[b"x"],
)
SET = {
    "event": dict(ENTRY_SET, timespan=EventTimespan(datetime.datetime(2020, 1, 1), None, timedelta(1)), classification="c", transparent=True, organizer=Organizer("mailto:o"), attendees=[Attendee("mailto:a")], categories=["c"]),
    "todo": dict(ENTRY_SET, timespan=TodoTimespan(datetime.datetime(2020, 1, 1), None, timedelta(1)), percent=5, priority=5, completed=(2020, 1, 2)),
    "calendar": dict(version="v", prodid="p", scale="s", method="m"),
    "audio": dict(trigger=timedelta(1), repeat=3, duration=timedelta(2)),
    "line": dict(value="v"),
}
SET |= {"myevent": SET["event"], "display": SET["audio"], "myalarm": SET["audio"]}


@case(*[dict(cls=c, field=f, kind=k, state=s) for s in ("new", "set") for c, f, k in ALL])
def assign(sx, cls, field, kind, state):
    """an assignment has the same outcome as the argument of the constructor"""
    full = SET[cls]
    cls, kw = CLASSES[cls]
    if state == "set":
        kw = {**kw, **full}
    v = value_of(sx, field, kind)
    old = cls(**kw)
    before = getattr(old, field)
    exc, new = sx.raises(cls, **{**kw, field: v})
    exc2, _ = sx.raises(setattr, old, field, v)
    sx.check((exc is None) == (exc2 is None), "accepted by the constructor and the assignment alike")
    ok = expected(sx, cls, field, kind, v)
    sx.check(sx.iff(exc2 is None, ok), "accepted if and only if it is valid")
    if exc2 is not None:
        sx.check(type(exc) is type(exc2), "the same error")
        sx.check(getattr(old, field) is before, "a rejected assignment changes nothing")
        return
    got = getattr(old, field)
    if exc is None:
        sx.check(got == getattr(new, field), "the same value")
        sx.check(type(got) is type(getattr(new, field)), "of the same type")
    if field in ("alarms", "attendees", "attach", "categories", "events", "todos"):
        sx.check(isinstance(got, list), "a list")
        sx.check(got == list(v), "with the same items")
        sx.check(got is not v, "of its own")
    elif field in ("created", "last_modified", "dtstamp"):
        if kind != "none":
            sx.check(got.utcoffset() == timedelta(0), "in UTC")
            if kind in ("utc", "aware"):
                sx.check(got == v, "the same instant")
    elif field == "status" and kind != "none":
        sx.check(got == v.upper(), "in upper case")
    elif field == "name":
        sx.check(got == v.upper(), "in upper case")
    elif kind in ("none", "str", "delta", "naive", "utc", "aware", "bool", "organizer", "event-timespan", "todo-timespan") and field != "level":
        sx.check(got == v, "what was assigned")
    elif kind == "int" and field != "level":
        sx.check(got == v, "what was assigned")
    elif field == "geo":
        sx.check(got == Geo(1.0, 2.0), "the coordinates")
    elif field == "level":
        sx.check(got == int(v), "converted")
    for other in FIELDS["line" if cls is ContentLine else "event" if issubclass(cls, Event) else "todo" if issubclass(cls, Todo) else "calendar" if cls is Calendar else "audio"]:
        if other != field:
            sx.check(getattr(old, other) == getattr(cls(**kw), other), "nothing else is changed")


@case(*[dict(first=f, kind=k) for f in ("base", "sub") for k in ("int", "str", "none")])
def own(sx, first, kind):
    """own attributes of a subclass are validated as well, whatever class was used first"""
    v = some(sx, "v", kind)
    todo, sub = Todo(**KW), Sub(TodoTimespan(), **KW, rank=3)
    p = sx.int("p", -20, 200)
    for obj in (todo, sub) if first == "base" else (sub, todo):
        exc, _ = sx.raises(setattr, obj, "percent", p)
        sx.check(sx.iff(exc is None, sx.and_(p >= 0, p <= 100)), "the attribute of the base class is validated")
    exc, _ = sx.raises(setattr, sub, "rank", v)
    sx.check((exc is None) == (kind == "int"), "the own attribute is validated")
    sx.check(sub.rank == (v if kind == "int" else 3), "a rejected value changes nothing")
    # the base class doesn't have the attribute
    todo.rank = v
    sx.check(todo.rank == v, "a free attribute of the base class")


@case()
def sequence(sx):
    """after any sequence of assignments the values are valid"""
    todo = Todo(**KW)
    want = None
    for i in range(sx.pick(3, 4)):
        v = sx.int(f"v{i}", -50, 150)
        exc, _ = sx.raises(setattr, todo, "percent", v)
        want = sx.ite(sx.and_(v >= 0, v <= 100), v, want if want is not None else -1)
    sx.check(sx.ite(want == -1, todo.percent is None, todo.percent == want), "the last valid value")


@case()
def parsing(sx):
    """values from a file are validated in the same way"""
    v = sx.int("v", -50, 150)
    cont = Container("VTODO", [ContentLine("UID", value="u"), ContentLine("DTSTAMP", value="20200101T000000Z"), ContentLine("PERCENT", value=str(v))])
    exc, todo = sx.raises(Todo.from_container, cont)
    sx.check(sx.iff(exc is None, sx.and_(v >= 0, v <= 100)), "accepted if and only if it is valid")
    if exc is None:
        sx.check(todo.percent == v, "the value")
    status = sx.choice("status", ("TENTATIVE", "cancelled", "DONE", ""))
    cont = Container("VEVENT", [ContentLine("UID", value="u"), ContentLine("DTSTAMP", value="20200101T000000Z"), ContentLine("STATUS", value=status)])
    exc, ev = sx.raises(Event.from_container, cont)
    sx.check((exc is None) == (status in ("TENTATIVE", "cancelled")), "only known states")
