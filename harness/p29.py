"""copies"""
import datetime
from datetime import timedelta

from ics import Attendee, Calendar, Event, Organizer, Todo
from ics.alarm import AudioAlarm, BaseAlarm, CustomAlarm, DisplayAlarm, EmailAlarm, NoneAlarm
from ics.component import Component
from ics.contentline import Container, ContentLine, QuotedParamValue, string_to_container
from ics.timezone import Timezone

from hcommon import some_state, zone
from sx.api import case

BOUNDS = (
    "copies of calendars, events, todos, all kinds of alarms and time zones with arbitrary texts (1 character), numbers and times, with or without each group of attributes, with up to 2 unknown properties or components and with unknown "
    "parameters, made by the user or read from a file; copies of lines with up to 2 parameters and of nested containers"
)
OUTSIDE = "items of lists are shared, as documented (shallow copies)"


def text_of(comp):
    return comp.to_container().serialize(wrap=None)


def make(sx, kind):
    s = sx.str("s", 1, "letter")
    n = sx.int("n", 0, 9)
    full = sx.choice("full", (False, True))
    if kind in ("event", "todo"):
        kw = dict(uid=s, dtstamp=(2020, 1, 1))
        if full:
            kw.update(summary=s, description=s + "d", location="l", url="u", status="CONFIRMED", created=(2020, 1, 2), last_modified=(2020, 1, 3), alarms=[AudioAlarm(repeat=n)], attach=[b"x"])
            kw["begin"] = datetime.datetime(2020, 1, 1, n)
            if kind == "event":
                kw.update(end=datetime.datetime(2020, 1, 2), classification="c", transparent=True, organizer=Organizer("mailto:o"), geo=(1.0, 2.0), attendees=[Attendee("mailto:a", common_name=s)], categories=[s, "c"])
            else:
                kw.update(due=datetime.datetime(2020, 1, 2), percent=n, priority=n, completed=(2020, 1, 4))
        return (Event if kind == "event" else Todo)(**kw)
    if kind == "calendar":
        cal = Calendar(prodid=s)
        if full:
            cal = Calendar(prodid=s, version="1", scale="x", method="m", events=[Event(uid=s)], todos=[Todo(uid=s, percent=n)])
        return cal
    if kind == "zone":
        return zone(sx)[0]
    kw = dict(trigger=timedelta(minutes=1) * n, repeat=n, duration=timedelta(minutes=5)) if full else {}
    if kind == "email":
        return EmailAlarm(summary=s, description="d", attendees=[Attendee("mailto:a")], attach=[b"x"], **kw)
    if kind == "display":
        return DisplayAlarm(description=s, **kw)
    if kind == "audio":
        return AudioAlarm(attach=b"y", **kw)
    if kind == "custom":
        a = CustomAlarm(**kw)
        a._action = s
        return a
    return NoneAlarm(**kw)


ENTRIES = ("event", "todo", "calendar")
ALARMS = ("email", "display", "audio", "custom", "none")
KINDS = (*ENTRIES, *ALARMS, "zone")
ATTR = {"event": "summary", "todo": "summary", "calendar": "method", "email": "summary", "display": "description", "audio": "repeat", "custom": "repeat", "none": "repeat"}


def decorate(sx, comp):
    """unknown properties and parameters"""
    for i in range(sx.choice("extras", (0, 1, 2))):
        if i == 0:
            comp.extra.append(ContentLine("X-" + sx.str("xn", 1, "letter"), {"P": [sx.str("xp", 1, "letter")]}, "v"))
        else:
            comp.extra.append(Container("X-C", [ContentLine("X-A", value="v")]))
    if sx.choice("params", (False, True)):
        comp.extra_params["SUMMARY"] = {"X-P": [sx.str("pp", 1, "letter")]}


@case(*[dict(kind=k) for k in KINDS])
def equal(sx, kind):
    """a copy is of the same type, has the same attributes and is written the same"""
    a = make(sx, kind)
    decorate(sx, a)
    exc, b = sx.raises(a.clone)
    sx.check(exc is None, "can be copied")
    if exc is not None:
        return
    sx.check(b is not a, "another object")
    sx.check(type(b) is type(a), "the same type")
    sx.check(a == b, "equal")
    sx.check(a.extra == b.extra, "the same unknown properties")
    sx.check(a.extra_params == b.extra_params, "the same unknown parameters")
    if kind == "custom":
        sx.check(a.action == b.action, "the same action")
    if kind in ("event", "todo"):
        sx.check(a.timespan == b.timespan, "the same times")
    sx.check(text_of(a) == text_of(b), "written the same")


@case(*[dict(kind=k, change=c) for k in (*ENTRIES, *ALARMS) for c in ("original", "copy")])
def independent(sx, kind, change):
    """changing one of them does not change the other"""
    a = make(sx, kind)
    decorate(sx, a)
    b = a.clone()
    changed, other = (a, b) if change == "original" else (b, a)
    before = text_of(other)
    nr_extra, params = len(other.extra), dict(other.extra_params)
    how = sx.choice("how", ("attr", "append", "delete", "params", "strip", "lists"))
    if how == "attr":
        old = getattr(other, ATTR[kind])
        setattr(changed, ATTR[kind], sx.int("new", 10, 99) if ATTR[kind] == "repeat" else sx.str("new", 1, "letter"))
        sx.check(getattr(other, ATTR[kind]) == old, "the attribute of the other one")
    elif how == "append":
        changed.extra.append(ContentLine("X-NEW", value="v"))
    elif how == "delete":
        changed.extra.clear()
    elif how == "params":
        changed.extra_params["SUMMARY"] = {"NEW": ["v"]}
        changed.extra_params["UID"] = {"NEW": ["v"]}
    elif how == "strip":
        changed.strip_extras(all_extras=True)
        sx.check(len(changed.extra) == 0 and changed.extra_params == {}, "everything unknown is removed")
    elif kind in ("event", "todo"):
        changed.alarms.append(AudioAlarm(trigger=timedelta(0)))
        changed.attach.append(b"z")
        if kind == "event":
            changed.categories.append("new")
            changed.attendees.append(Attendee("mailto:z"))
    elif kind == "calendar":
        changed.events.append(Event(uid="new"))
        changed.todos.append(Todo(uid="new"))
    sx.check(len(other.extra) == nr_extra, "the unknown properties of the other one")
    sx.check(other.extra_params == params, "the unknown parameters of the other one")
    sx.check(text_of(other) == before, "the other one is written as before")


@case(*[dict(kind=k) for k in ("event", "todo")])
def times(sx, kind):
    """copies of entries with arbitrary times"""
    cls = Event if kind == "event" else Todo
    a = some_state(sx, cls, sx.choice("precision", ("second", "day")))
    b = a.clone()
    sx.check(a.timespan == b.timespan, "the same times")
    sx.check(a.all_day == b.all_day, "all-day as well")
    old = a.timespan
    exc, _ = sx.raises(setattr, b, "begin", sx.dt("new", 2, 9990))
    sx.check(a.timespan is old, "the times of the original")


@case(*[dict(kind=k) for k in ("event", "todo", "alarm", "calendar")])
def parsed(sx, kind):
    """copies of what was read from a file"""
    s = sx.str("s", 1, "letter")
    lines = {
        "event": ["BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "SUMMARY;X-P=" + s + ":s", "CATEGORIES;LANGUAGE=" + s + ":a,b", "CATEGORIES:c", "DTSTART;X-P=1:20200101T000000", "X-N:" + s, "END:VEVENT"],
        "todo": ["BEGIN:VTODO", "UID:u", "DTSTAMP:20200101T000000Z", "DUE;X-P=" + s + ":20200101T000000", "X-N:" + s, "END:VTODO"],
        "alarm": ["BEGIN:VALARM", "ACTION;X-P=" + s + ":X-A", "TRIGGER;RELATED=END:PT1M", "X-N:" + s, "END:VALARM"],
        "calendar": ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID;X-P=" + s + ":p", "X-N:" + s, "BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", "X-N:" + s, "END:VEVENT", "END:VCALENDAR"],
    }[kind]
    cls = {"event": Event, "todo": Todo, "alarm": BaseAlarm, "calendar": Calendar}[kind]
    cont = string_to_container("\r\n".join(lines))
    a = cls.from_container(cont)
    before = text_of(a)
    b = a.clone()
    sx.check(a == b, "equal")
    sx.check(text_of(b) == before, "written the same")
    how = sx.choice("how", ("all", "merging", "inside"))
    if how == "merging":
        b.strip_extras(property_merging=True)
        sx.check(text_of(a) == before, "the original is written as before")
    elif how == "inside":
        for params in b.extra_params.values():
            for p in params if isinstance(params, list) else [params]:
                p["NEW"] = ["v"]
                for v in p.values():
                    v.append("w")
        sx.check(text_of(a) == before, "the original is written as before")
    b.strip_extras(extra_properties=True, extra_params=True)
    sx.check(text_of(a) == before, "the original is written as before")
    sx.check(len(a.extra) == 1, "the original keeps its unknown property")
    sx.check("X-N" not in [x.name for x in b.to_container()], "the copy does not")
    # a container that was read is not changed by reading
    sx.check(cont.serialize(wrap=None) == "\r\n".join(lines), "reading does not change the container")


@case(dict(source="made"), dict(source="read"), dict(source="builtin"))
def frozen(sx, source):
    """zones and their observances, which cannot be changed otherwise"""
    s = sx.str("s", 1, "letter")
    if source == "read":
        text = "BEGIN:VTIMEZONE\r\nTZID;X-P=" + s + ":x\r\nX-N:" + s + "\r\nBEGIN:STANDARD\r\nDTSTART:19700101T000000\r\nTZOFFSETFROM;X-P=" + s + ":+0100\r\nTZOFFSETTO:+0100\r\nX-N:" + s + "\r\nEND:STANDARD\r\nEND:VTIMEZONE"
        z = Timezone.from_container(string_to_container(text))
    else:
        z = Timezone.from_tzid("Asia/Tokyo").clone() if source == "builtin" else zone(sx)[0]
    of = sx.choice("of", ("zone", "observance"))
    a = z if of == "zone" else z.observances[0].clone()
    if source != "read":
        decorate(sx, a)
    before, nr, params = text_of(a), len(a.extra), dict(a.extra_params)
    b = a.clone()
    sx.check(type(b) is type(a) and a == b and text_of(b) == before, "equal and written the same")
    sx.check(b.extra == a.extra and b.extra_params == a.extra_params, "with everything unknown")
    how = sx.choice("how", ("all", "properties", "params", "merging", "both"))
    kw = {
        "all": dict(all_extras=True), "properties": dict(extra_properties=True), "params": dict(extra_params=True), "merging": dict(property_merging=True),
        "both": dict(extra_params=True, property_merging=True),
    }[how]
    exc, _ = sx.raises(lambda: b.strip_extras(**kw))
    sx.check(exc is None, "can be stripped")
    sx.check(len(b.extra) == (0 if how in ("all", "properties") else nr), "unknown properties")
    sx.check(b.extra_params == ({} if how in ("all", "params", "both") else params), "unknown parameters")
    sx.check(a == b or how != "merging", "nothing else")
    sx.check(text_of(a) == before and len(a.extra) == nr and a.extra_params == params, "the original keeps everything")
    if of == "zone":
        v = sx.dt("v", 1971, 2030)
        sx.check(a.utcoffset(v) == b.utcoffset(v), "the same offsets")


@case()
def nothing_to_strip(sx):
    ev = make(sx, "event")
    decorate(sx, ev)
    n = len(ev.extra)
    exc, _ = sx.raises(ev.strip_extras)
    sx.check(isinstance(exc, ValueError), "something has to be selected")
    ev.strip_extras(extra_params=True)
    sx.check(ev.extra_params == {} and len(ev.extra) == n, "only parameters")
    ev.strip_extras(extra_properties=True)
    sx.check(len(ev.extra) == 0, "properties")


@case(dict(n=0), dict(n=1), dict(n=2))
def lines(sx, n):
    """copies of lines"""
    names = ("P", "Q")[:n]
    params = {p: [sx.str(p.lower(), (0, 1)), QuotedParamValue("q")] for p in names}
    a = ContentLine(sx.str("name", 1, "NAME"), params, sx.str("v", (0, 1)))
    b = a.clone()
    sx.check(a == b, "equal")
    sx.check(a.serialize(wrap=None) == b.serialize(wrap=None), "written the same")
    before = a.serialize(wrap=None)
    b.value = "other"
    b["R"] = ["1"]
    for p in names:
        b.params[p].append("new")
    if names:
        del b.params[names[0]]
    sx.check(a.serialize(wrap=None) == before, "the original is unchanged")


@case()
def timeline(sx):
    """the timeline of a copy is the one of the copy"""
    begins = [sx.dt(f"b{i}", 2000, 2030) for i in range(2)]
    a = Calendar(events=[Event(uid="0", begin=begins[0])])
    b = a.clone()
    b.events.append(Event(uid="1", begin=begins[1]))
    sx.check([e.uid for e in a.timeline] == ["0"], "of the original")
    got = [e.uid for e in b.timeline]
    sx.check(sorted(got) == ["0", "1"], "of the copy")


@case(dict(change="original"), dict(change="copy"))
def trees(sx, change):
    """deep copies of containers, with nested containers and lines"""
    s = sx.str("s", 1, "letter")

    def leaf(n):
        return ContentLine("X-" + n, {"P": [s]}, s)

    mid = Container("B", [leaf("1"), Container("C", [leaf("2")])])
    a = Container("A", [leaf("3"), mid, Container("D")])
    b = a.clone(deep=True)
    sx.check(a == b and type(b) is Container, "equal")
    before = a.serialize(wrap=None)
    sx.check(b.serialize(wrap=None) == before, "written the same")
    changed, other = (a, b) if change == "original" else (b, a)
    at = sx.choice("at", ("top", "mid", "low", "empty"))
    target = {"top": changed, "mid": changed[1], "low": changed[1][1], "empty": changed[2]}[at]
    how = sx.choice("how", ("append", "clear", "value", "param", "name", "replace", "remove"))
    if how == "append":
        target.append(leaf("new"))
    elif how == "clear":
        target.data.clear()
    elif how == "name":
        target.name = "NEW"
    elif at != "empty":
        line = target[0]
        if how == "value":
            line.value = "other"
        elif how == "param":
            line.params["P"].append("other")
        elif how == "replace":
            target[0] = leaf("new")
        else:
            del target["X-2" if at == "low" else "X-1" if at == "mid" else "X-3"]
    sx.check(other.serialize(wrap=None) == before, "the other one is unchanged")
    if how in ("append", "name") or at != "empty":
        sx.check(changed.serialize(wrap=None) != before, "this one is changed")


@case()
def shallow(sx):
    """other copies of containers share their items, but not their list"""
    line, sub = ContentLine("X-1", value=sx.str("s", (0, 1))), Container("B", [ContentLine("X-2")])
    a = Container("A", [line, sub])
    b = a.clone()
    sx.check(a == b and b[0] is line and b[1] is sub, "the same items")
    a.append(ContentLine("X-3"))
    sx.check(len(b) == 2, "the list is not shared")
    c = a.clone([line])
    sx.check(len(c) == 1 and c[0] is line and c.name == "A" and len(a) == 3, "other items")
