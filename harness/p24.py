"""calendars: several entries and their time zones"""
import datetime
from datetime import timedelta

from ics import Calendar, Event, Todo
from ics.alarm import DisplayAlarm
from ics.contentline import Container, ContentLine, ParseError, string_to_container, string_to_containers
from ics.timezone import Timezone

from hcommon import UTCS, fixed, zone
from sx.api import case

BOUNDS = (
    "calendars with up to three entries, every entry with its own combination of times, texts, categories and alarms, times of any whole second of 2020 (the second entry: of any hour of a day; thorough: of any second of the years 1000..9990); "
    "times in up to two zones with arbitrary fixed offsets, given as calendar zones or as fixed offsets of the standard library; texts of up to 2 arbitrary "
    "characters; files with up to three calendars; an arbitrary entry among nine others; up to six zones"
)
OUTSIDE = "more entries; zones with transitions (their offsets are decided in P09)"


def naive(d):
    return None if d is None else d.replace(tzinfo=None)


def text_of(comp):
    return comp.to_container().serialize(wrap=None)


def read(text):
    return Calendar(text)


def entry(sx, name, cls):
    """an entry in which every group of attributes is there or not"""
    kw = dict(uid=name, dtstamp=(2020, 1, 1))
    more = sx.choice(name + ".more", sx.pick(("", "text", "alarm+extra"), ("", "text", "alarm", "extra", "text+alarm+extra")))
    if "text" in more:
        kw["summary"] = sx.str(name + ".summary", 1, "letter")
        if cls is Event:
            kw["categories"] = ["a", sx.str(name + ".cat", 1, "letter")]
        else:
            kw["percent"] = sx.int(name + ".percent", 0, 100)
    times = sx.choice(name + ".times", ("none", "begin", "end", "duration", "day", "days") + (("due",) if cls is Todo else ()))
    if times != "none" and times != "due":
        kw["begin"] = datetime.datetime(2020, 1, 2)
    if times == "end":
        kw["due" if cls is Todo else "end"] = datetime.datetime(2020, 1, 3, 4)
    elif times == "due":
        kw["due"] = datetime.datetime(2020, 1, 3, 4)
    elif times == "duration":
        kw["duration"] = timedelta(hours=1)
    elif times == "days":
        kw["duration"] = timedelta(days=2)
    if "alarm" in more:
        kw["alarms"] = [DisplayAlarm(trigger=timedelta(hours=-1), description="d")]
    e = cls(**kw)
    if "extra" in more:
        e.extra.append(ContentLine("X-" + sx.str(name + ".x", 1, "NAME"), {}, "v"))
    if times in ("day", "days"):
        e.make_all_day()
    return e


@case(*[dict(kinds=k) for k in ("EE", "TT", "ET")])
def independent(sx, kinds):
    """every entry is written and read as if it was alone"""
    es = [entry(sx, f"e{i}", Event if k == "E" else Todo) for i, k in enumerate(kinds)]
    cal = Calendar(events=[e for e in es if isinstance(e, Event)], todos=[e for e in es if isinstance(e, Todo)])
    back = read(text_of(cal))
    sx.check(len(back.events) == len(cal.events), "all events")
    sx.check(len(back.todos) == len(cal.todos), "all todos")
    for g, w in zip([*back.events, *back.todos], [*cal.events, *cal.todos]):
        alone = type(w).from_container(string_to_container(text_of(w)))
        sx.check(g == alone, "like an entry alone")
        sx.check(g.uid == w.uid, "in the same order")
        sx.check(g.summary == w.summary, "summary")
        if isinstance(w, Event):
            sx.check(g.categories == w.categories, "categories")
        else:
            sx.check(g.percent == w.percent, "percent")
        sx.check(g.timespan == w.timespan, "times")
        sx.check(g.timespan.get_end_representation() == w.timespan.get_end_representation(), "representation of the end")
        sx.check(g.alarms == w.alarms, "alarms")
        sx.check(g.extra == w.extra, "unknown properties")
    sx.check(text_of(back) == text_of(cal), "written the same again")


@case(dict(kinds="EEE"), tier="thorough")
def independent3(sx, kinds):
    independent(sx, kinds)


def some_zone(sx, name, kind):
    if kind in UTCS:
        return UTCS[kind]
    if kind == "offset":
        off = timedelta(minutes=1) * sx.int(name + ".off", -14 * 60, 14 * 60)
        return datetime.timezone(off)
    return zone(sx, "Z/" + name, name + ".off")[0]


@case(*[dict(a=a, b=b) for a, b in (("zone", "zone"), ("zone", "offset"), ("offset", "offset"), ("zone", "dateutil"), ("stdlib", "ics"), ("zone", None), (None, "offset"))])
def zones(sx, a, b):
    """times in zones: the zones are part of the calendar, and the moments are the same after reading"""
    za, zb = (None if k is None else some_zone(sx, n, k) for n, k in (("a", a), ("b", b)))
    if a == b == "offset":
        za = sx.tz("za")
        zb = sx.tz("zb")
    if sx.tier == "thorough":
        begins = [sx.dt(f"b{i}", 1000, 9990, rep="f") for i in range(2)]
    else:
        begins = [sx.dt("b0", 2020, 2020, rep="f"), datetime.datetime(2020, 1, 1, sx.int("h", 0, 23), 5)]
    evs = [Event(begin=t.replace(tzinfo=z), uid=str(i), dtstamp=(2020, 1, 1)) for i, (t, z) in enumerate(zip(begins, (za, zb)))]
    evs.append(Event(begin=begins[0].replace(tzinfo=zb), uid="2", dtstamp=(2020, 1, 1)))
    cal = Calendar(events=evs)
    cont = cal.to_container()
    names = [i["TZID"][0].value for i in cont["VTIMEZONE"]]
    for n, m in ((0, 1),):
        if len(names) > 1:
            sx.check(names[n] != names[m], "every zone is written once")
    used = set()
    for e in cont["VEVENT"]:
        for cl in e["DTSTART"]:
            for p in cl.params.get("TZID", ()):
                sx.check(any(p == n for n in names), "every used zone is defined")
                used.add("x")
    sx.check(bool(used) == bool(names), "no zone without use")
    kinds = [x.name for x in cont]
    if names:
        sx.check(kinds.index("VTIMEZONE") < kinds.index("VEVENT"), "zones are defined before they are used")
    text = cont.serialize(wrap=None)
    back = read(text)
    sx.check(len(back.events) == 3, "all events")
    for g, w in zip(back.events, evs):
        sx.check(naive(g.begin) == naive(w.begin), "same wall clock time")
        sx.check((g.begin.tzinfo is None) == (w.begin.tzinfo is None), "floating stays floating")
        if w.begin.tzinfo is not None:
            sx.check(g.begin.utcoffset() == w.begin.utcoffset(), "same offset")
    again = text_of(back)
    sx.check(text_of(read(again)) == again, "written the same again")  # reading may add the start of a zone as a date


@case(dict(where="before"), dict(where="after"))
def zone_position(sx, where):
    """zones may be defined anywhere in the calendar"""
    z, off = zone(sx, "Z")
    ev = "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20200101T000000Z\r\nDTSTART;TZID=Z:20200101T000000\r\nEND:VEVENT\r\n"
    zt = text_of(z) + "\r\n"
    text = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\n" + (zt + ev if where == "before" else ev + zt) + "END:VCALENDAR"
    cal = read(text)
    sx.check(cal.events[0].begin.utcoffset() == off, "the definition of the calendar is used")
    sx.check(naive(cal.events[0].begin) == datetime.datetime(2020, 1, 1), "same wall clock time")


@case()
def zone_shadow(sx):
    """the definition in the file has priority over the built-in zone of the same name"""
    z, off = zone(sx, "Europe/Berlin")
    ev = Event(begin=datetime.datetime(2020, 7, 1, tzinfo=z), uid="u", dtstamp=(2020, 1, 1))
    back = read(text_of(Calendar(events=[ev])))
    sx.check(back.events[0].begin.utcoffset() == off, "the definition of the calendar is used")


@case()
def separate(sx):
    """the zones of one calendar do not matter for another one"""
    offs = []
    texts = []
    for i in range(2):
        z, off = zone(sx, "Z", f"off{i}")
        offs.append(off)
        texts.append(text_of(Calendar(events=[Event(begin=datetime.datetime(2020, 7, 1, tzinfo=z), uid="u", dtstamp=(2020, 1, 1))])))
    cals = Calendar.parse_multiple(texts[0] + "\r\n" + texts[1])
    sx.check(len(cals) == 2, "two calendars")
    for c, o in zip(cals, offs):
        sx.check(c.events[0].begin.utcoffset() == o, "each with its own zone")


@case()
def same_name(sx):
    """zones of the same name, for example from merged calendars"""
    za, a = zone(sx, "Z", "a")
    zb, b = zone(sx, "Z", "b")
    sx.known("same-tzid", a != b)
    evs = [Event(begin=datetime.datetime(2020, 7, 1, tzinfo=z), uid="u", dtstamp=(2020, 1, 1)) for z in (za, zb)]
    exc, text = sx.raises(text_of, Calendar(events=evs))
    if exc is None:
        back = read(text)
        sx.check(back.events[0].begin.utcoffset() == a, "same offset of the first event")
        sx.check(back.events[1].begin.utcoffset() == b, "same offset of the second event")


@case(dict(field="prodid"), dict(field="scale"), dict(field="method"), dict(field="version"))
def header(sx, field):
    value = sx.str("v", (0, sx.pick(2, 3)))
    cal = Calendar(**{field: value})
    back = read(text_of(cal))
    sx.check(getattr(back, field) == value, "same value")
    sx.check(back == cal, "equal")
    if field == "prodid":
        sx.check(Calendar(creator=value).prodid == value, "creator is the product id")
        cal.creator = "x" + value
        sx.check(read(text_of(cal)).creator == "x" + value, "creator can be changed")


@case()
def lines(sx):
    """iterating a calendar gives the lines of its text"""
    cal = Calendar(events=[Event(summary=sx.str("s", (0, 2)), uid="u", dtstamp=(2020, 1, 1))])
    got = list(cal)
    text = cal.serialize()
    sx.check("".join(got) == text, "together the whole text")
    for i, l in enumerate(got):
        sx.check("\n" not in l[:-1], "one line each")
        if i < len(got) - 1:
            sx.check(l[-2:] == "\r\n", "with its line break")
    sx.check(Calendar("".join(got)) == Calendar(text), "readable")
    sx.check(Calendar(got) == Calendar(text), "readable line by line")


@case(*[dict(n=n, sep=s) for n in (0, 1, 2, 3) for s in ("\r\n", "\n", "\r\n\r\n")])
def multiple(sx, n, sep):
    ids = [sx.str(f"p{i}", 1, "letter") for i in range(n)]
    text = sep.join(text_of(Calendar(prodid=p)) for p in ids)
    got = Calendar.parse_multiple(text)
    sx.check([c.prodid for c in got] == ids, "every calendar once, in order")
    exc, cal = sx.raises(Calendar, text)
    if n == 1:
        sx.check(exc is None and cal.prodid == ids[0], "a single one can be read directly")
    else:
        sx.check(isinstance(exc, ValueError), "anything else is refused by the constructor")


@case(dict(at="none"), dict(at="first"), dict(at="second"))
def refused(sx, at):
    """only calendars are read as calendars"""
    name = sx.str("name", 1, "NAME")
    other = "BEGIN:V" + name + "\r\nEND:V" + name
    if at == "none":
        exc, _ = sx.raises(Calendar, other)
        sx.check(isinstance(exc, ValueError), "other components are refused")
        exc, _ = sx.raises(Calendar, "X-" + name + ":v")
        sx.check(isinstance(exc, ValueError), "lines outside of a component are refused")
        return
    good = text_of(Calendar())
    exc, _ = sx.raises(Calendar.parse_multiple, other + "\r\n" + good if at == "first" else good + "\r\n" + other)
    sx.check(isinstance(exc, ValueError), "refused among calendars")


@case(dict(cls=Event, at=0), dict(cls=Todo, at=4), dict(cls=Event, at=9))
def many(sx, cls, at):
    """an arbitrary entry among many others"""
    z, off = zone(sx, "Z")
    es = []
    for i in range(10):
        kw = dict(uid="u%d" % (i % 7), dtstamp=(2020, 1, 1), summary="s%d" % i)
        if i % 2:
            kw["begin"] = datetime.datetime(2020, 1, i + 1, tzinfo=z if i % 4 == 1 else None)
            if i % 3:
                kw["duration"] = timedelta(hours=i)
        if i % 5 == 2:
            kw["alarms"] = [DisplayAlarm(trigger=timedelta(hours=-i), description="d")]
        es.append((Todo if i in (3, 8) else Event)(**kw))
    es[at] = entry(sx, "x", cls)
    cal = Calendar(events=[e for e in es if isinstance(e, Event)], todos=[e for e in es if isinstance(e, Todo)], prodid="p")
    text = cal.serialize()
    back = read(text)
    sx.check(len(back.events) == len(cal.events) and len(back.todos) == len(cal.todos), "all entries")
    for g, w in zip([*back.events, *back.todos], [*cal.events, *cal.todos]):
        sx.check(g.uid == w.uid and g.summary == w.summary, "in the same order")
        sx.check(naive(g.begin) == naive(w.begin), "begin")
        sx.check(naive(g.end) == naive(w.end), "end")
        sx.check(g.duration == w.duration, "duration")
        sx.check(g.all_day == w.all_day, "all-day")
        if w.begin is not None:
            sx.check(g.begin.utcoffset() == w.begin.utcoffset(), "offset")
        sx.check(g.timespan.get_end_representation() == w.timespan.get_end_representation(), "representation of the end")
        sx.check(g.alarms == w.alarms, "alarms")
        sx.check(g.extra == w.extra, "unknown properties")
        if isinstance(w, Event):
            sx.check(g.categories == w.categories, "categories")
        else:
            sx.check(g.percent == w.percent, "percent")
    sx.check(len(string_to_container(text)["VTIMEZONE"]) == 1, "the zone is defined once")
    again = back.serialize()
    sx.check(read(again).serialize() == again, "stable")


@case(dict(n=3), dict(n=6))
def many_zones(sx, n):
    """several zones: every entry keeps its own"""
    zs = [zone(sx, "Z/%d" % i, "off%d" % i) if i in (0, n - 1) else (fixed("Z/%d" % i, timedelta(hours=i)), timedelta(hours=i)) for i in range(n)]
    evs = [Event(begin=datetime.datetime(2020, 1, 1 + i, tzinfo=zs[j][0]), uid=str(i), dtstamp=(2020, 1, 1)) for i, j in enumerate([*range(n), 0, 0, n - 1])]
    todo = Todo(due=datetime.datetime(2020, 2, 1, tzinfo=zs[1][0]), uid="t", dtstamp=(2020, 1, 1))
    cal = Calendar(events=evs, todos=[todo])
    cont = cal.to_container()
    names = [i["TZID"][0].value for i in cont["VTIMEZONE"]]
    sx.check(sorted(names) == ["Z/%d" % i for i in range(n)], "every zone is written once")
    kinds = [x.name for x in cont]
    sx.check("VTIMEZONE" not in kinds[kinds.index("VEVENT"):], "zones are defined before they are used")
    back = read(cont.serialize())
    for g, w in zip([*back.events, *back.todos], [*evs, todo]):
        a, b = (x.begin or x.end for x in (g, w))
        sx.check(naive(a) == naive(b), "same wall clock time")
        sx.check(a.utcoffset() == b.utcoffset(), "same offset")
    one = sx.choice("one", tuple(range(n)) if n < 4 else (0,))
    alone = Calendar(events=[back.events[one]]).to_container()
    sx.check([i["TZID"][0].value for i in alone["VTIMEZONE"]] == [evs[one].begin.tzinfo.tzid], "only the zones in use")


@case(*[dict(where=w, container=c) for w in ("before", "after") for c in (False, True)])
def stray(sx, where, container):
    """what is not a calendar beside the calendar is refused, not dropped"""
    name = "X-" + sx.str("name", 1, "NAME")
    value = sx.str("value", (0, 2), "value")
    text = text_of(Calendar(events=[Event(summary="s", uid="u", dtstamp=(2020, 1, 1))]))
    more = f"BEGIN:{name}\r\nX-A:{value}\r\nEND:{name}" if container else f"{name}:{value}"
    exc, back = sx.raises(Calendar, more + "\r\n" + text if where == "before" else text + "\r\n" + more)
    sx.check(isinstance(exc, ValueError), "refused")
