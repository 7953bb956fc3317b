"""unknown properties, components and parameters are kept"""
from collections import defaultdict

from ics import Calendar, Event, Todo
from ics.alarm import AudioAlarm, BaseAlarm, CustomAlarm, DisplayAlarm, EmailAlarm
from ics.contentline import Container, ContentLine, string_to_container
from ics.timezone import Timezone
from ics.types import ContextDict

from sx.api import case

BOUNDS = (
    "calendars, events, todos, alarms and time zones with up to two unknown properties with arbitrary names, an arbitrary parameter value and arbitrary values of up to 2 "
    "characters before, between and after the known properties, with every unknown name of up to 12 characters, and with an unknown component; every known property with an unknown "
    "parameter of up to two values of up to 2 arbitrary characters, ten properties with a parameter of every name of up to 10 (thorough: 16) characters but VALUE and TZID; lists with parameters on several lines; an unknown property among eleven others, or among 39 equal ones, components nested 6 deep, any two properties with parameters at once"
)
OUTSIDE = "longer values, parameters of attendees (P26)"

EVENT = ["UID:u", "DTSTAMP:20200101T000000Z"]
KINDS = {
    "event": (Event, "VEVENT", EVENT + ["SUMMARY:s"]),
    "todo": (Todo, "VTODO", EVENT + ["DUE:20200101T000000"]),
    "calendar": (Calendar, "VCALENDAR", ["VERSION:2.0", "PRODID:p"]),
    "audio": (AudioAlarm, "VALARM", ["ACTION:AUDIO", "TRIGGER:PT1M"]),
    "custom": (CustomAlarm, "VALARM", ["ACTION:X-A", "TRIGGER:PT1M"]),
}


def read(lines, cls, name):
    cont = string_to_container("\r\n".join(["BEGIN:" + name] + lines + ["END:" + name]))
    return cls.from_container(cont)


def same_line(sx, a, b):
    return (
        isinstance(a, ContentLine) and isinstance(b, ContentLine) and sx.and_(a.name == b.name, a.value == b.value)
        and list(a.params) == list(b.params)
        and all(len(a.params[k]) == len(b.params[k]) and all(str(x) == str(y) for x, y in zip(a.params[k], b.params[k])) for k in a.params)
    )


def count(items, name):
    return [x for x in items if x.name == name]


@case(*[dict(kind=k, at=at) for k in KINDS for at in ("front", "back")])
def properties(sx, kind, at):
    """unknown properties keep name, parameters, value and order"""
    cls, name, known = KINDS[kind]
    a = ContentLine("X-" + sx.str("an", 1, "NAME"), {"P": [sx.str("ap", 1, "safe")]}, sx.str("av", (0, sx.pick(1, 2)), "value"))
    b = ContentLine("X-" + sx.str("bn", 1, "NAME"), {}, sx.str("bv", (0, 1), "value"))
    raw = [x.serialize(wrap=None) for x in (a, b)]
    lines = raw + known if at == "front" else [known[0], raw[0]] + known[1:] + [raw[1]]
    comp = read(lines, cls, name)
    sx.check(len(comp.extra) == 2, "kept as unknown properties")
    sx.check(same_line(sx, comp.extra[0], a), "first property")
    sx.check(same_line(sx, comp.extra[1], b), "second property")
    out = string_to_container(comp.to_container().serialize(wrap=None))
    got = [x for x in out if x.name.startswith("X-")]
    sx.check(len(got) == 2, "written once each")
    sx.check(same_line(sx, got[0], a), "first property is written")
    sx.check(same_line(sx, got[1], b), "second property is written")
    rest = [x.serialize(wrap=None) for x in out if not x.name.startswith("X-")]
    sx.check(sorted(rest) == sorted(known), "the known properties are not affected")
    if kind == "audio" or kind == "custom":
        again = BaseAlarm.from_container(out)
    else:
        again = cls.from_container(out)
    sx.check(again == comp, "equal after another reading")


@case(*[dict(kind=k) for k in ("event", "todo", "calendar")])
def components(sx, kind):
    """unknown components"""
    cls, name, known = KINDS[kind]
    sub = Container("X-" + sx.str("cn", 1, "NAME"), [ContentLine("SUMMARY", value=sx.str("v", (0, 2), "value")), Container("VEVENT", [ContentLine("UID", value="inner")])])
    comp = read(known[:1] + [sub.serialize(wrap=None)] + known[1:], cls, name)
    sx.check(len(comp.extra) == 1, "kept")
    sx.check(comp.extra[0] == sub, "same component")
    out = string_to_container(comp.to_container().serialize(wrap=None))
    got = [x for x in out if isinstance(x, Container)]
    sx.check(len(got) == 1, "written once")
    sx.check(got[0] == sub, "written as it was")


@case(*[dict(kind=k) for k in KINDS])
def repeats(sx, kind):
    """unknown properties and components may be repeated, with equal or different values"""
    cls, name, known = KINDS[kind]
    n = "X-" + sx.str("n", 1, "=AB")
    lines = [ContentLine(n, {}, sx.str(f"v{i}", (0, 1), "=ab")) for i in range(3)]
    m = ContentLine("X-A", {}, "a")
    lines.append(m)
    raw = [x.serialize(wrap=None) for x in lines]
    if kind in ("event", "todo", "calendar"):
        sub = Container("X-C", [ContentLine("X-D", {}, "d")]).serialize(wrap=None)
        raw.insert(1, sub)
        raw.append(sub)
    comp = read(known[:1] + raw + known[1:], cls, name)
    sx.check(len(comp.extra) == len(raw), "all of them are kept")
    out = string_to_container(comp.to_container().serialize(wrap=None))
    got = [x.serialize(wrap=None) for x in out if x.name.startswith("X-")]
    sx.check(sorted(got) == sorted(raw), "all of them are written")
    sx.check([x for x in got if x.startswith("X-")] == [x for x in raw if x.startswith("X-")], "properties in the same order")


TIMES = ["DTSTART", "DTEND", "DUE", "DURATION"]
COMMON = ["ATTACH", "CREATED", "DESCRIPTION", "DTSTAMP", "LAST-MODIFIED", "LOCATION", "STATUS", "SUMMARY", "UID", "URL", "VALARM"] + TIMES
ALARM = ["ACTION", "ATTACH", "DURATION", "REPEAT", "TRIGGER"]
KNOWN = {
    "event": COMMON + ["ATTENDEE", "CATEGORIES", "CLASSIFICATION", "GEO", "ORGANIZER", "TRANSPARENT"], "todo": COMMON + ["COMPLETED", "PERCENT", "PRIORITY"],
    "calendar": ["METHOD", "PRODID", "SCALE", "VERSION", "VEVENT", "VTIMEZONE", "VTODO"], "audio": ALARM, "custom": ALARM,
}


@case(*[dict(kind=k, n=n) for k in KINDS for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)])
def names(sx, kind, n):
    """every name that is not known is unknown, whatever it means elsewhere"""
    cls, name, known = KINDS[kind]
    nm = sx.str("name", n, "NAME")
    sx.assume(sx.and_(*[nm != k for k in KNOWN[kind] + ["BEGIN", "END"]]))
    lines = [ContentLine(nm, {}, "1"), Container("X-C", [ContentLine("X-D", {}, "d")]), ContentLine(nm, {}, "2"), ContentLine("X-B", {}, "b"), ContentLine(nm, {}, "1")]
    if kind in ("audio", "custom"):
        del lines[1]
    raw = [x.serialize(wrap=None) for x in lines]
    comp = read(raw[:1] + known[:1] + raw[1:-1] + known[1:] + raw[-1:], cls, name)
    sx.check(len(comp.extra) == len(lines), "all are kept")
    for g, w in zip(comp.extra, lines):
        sx.check(g == w, "in the same order")
    out = list(string_to_container(comp.to_container().serialize(wrap=None)))
    sx.check(len(out) == len(lines) + len(known), "everything is written")
    names = [x.split(":")[0] for x in known]
    rest = [x for x in out if sx.and_(*[x.name != k for k in names])]
    for g, w in zip(rest, lines):
        sx.check(g == w, "in the same order")
    sx.check(len(rest) == len(lines), "once each")


# parameters with a meaning elsewhere
PARAMS = ("X-P", "LANGUAGE", "ALTREP", "FMTTYPE", "CN", "RANGE")
# known properties of each kind of component
PROPS = {
    "event": [
        "SUMMARY:s", "DESCRIPTION:d", "LOCATION:l", "UID:u2", "URL:http://x.org/", "STATUS:TENTATIVE", "CREATED:20200102T000000Z", "LAST-MODIFIED:20200102T000000Z",
        "DTSTAMP:20200102T000000Z", "DTSTART:20200102T000000", "DTSTART;VALUE=DATE:20200102", "TRANSPARENT:TRUE", "GEO:1.000000;2.000000", "CATEGORIES:a,b",
        "CLASSIFICATION:c", "ATTACH:http://x.org/",
        "ATTACH;VALUE=BINARY:AAAA",
    ],
    "event2": ["DTEND:20200102T000000", "DURATION:PT1H"],
    "todo": ["SUMMARY:s", "DUE:20200102T000000", "PERCENT:5", "PRIORITY:5", "COMPLETED:20200102T000000Z"],
    "calendar": ["VERSION:2.0", "PRODID:p", "SCALE:GREGORIAN", "METHOD:PUBLISH"],
    "audio": ["ACTION:AUDIO", "TRIGGER:-PT1M", "REPEAT:2", "DURATION:PT1M", "ATTACH:http://x.org/"],
    "custom": ["ACTION:X-A"],
    "display": ["ACTION:DISPLAY", "DESCRIPTION:d"],
    "email": ["ACTION:EMAIL", "SUMMARY:s", "DESCRIPTION:d"],
}
BASES = {
    "event": (Event, "VEVENT", EVENT),
    "event2": (Event, "VEVENT", EVENT + ["DTSTART:20200101T000000"]),
    "todo": (Todo, "VTODO", EVENT),
    "calendar": KINDS["calendar"],
    "audio": (AudioAlarm, "VALARM", ["ACTION:AUDIO", "TRIGGER:PT1M"]),
    "custom": (CustomAlarm, "VALARM", ["ACTION:X-A", "TRIGGER:PT1M"]),
    "display": (DisplayAlarm, "VALARM", ["ACTION:DISPLAY", "TRIGGER:PT1M"]),
    "email": (EmailAlarm, "VALARM", ["ACTION:EMAIL", "TRIGGER:PT1M"]),
}


@case(*[dict(kind=k, prop=p) for k in PROPS for p in PROPS[k]])
def parameters(sx, kind, prop):
    """unknown parameters of known properties"""
    cls, name, base = BASES[kind]
    cl = list(string_to_container("BEGIN:X\r\n" + prop + "\r\nEND:X"))[0]
    vals = [sx.str("p0", (0, sx.pick(1, 2)), "qsafe")]
    if sx.choice("two", (False, True)):
        vals.append(sx.str("p1", 1, "safe"))
    par = sx.choice("param", PARAMS[:sx.pick(4, 6)])
    cl.params[par] = vals
    lines = [x for x in base if x.split(":")[0] != cl.name] + [cl.serialize(wrap=None)]
    comp = read(lines, cls, name)
    sx.check(len(comp.extra) == 0, "the property is known")
    out = string_to_container(comp.to_container().serialize(wrap=None))
    got = count(out, cl.name)
    sx.check(len(got) == 1, "written once")
    sx.check(got[0].value == cl.value, "same value")
    sx.check(sorted(got[0].params) == sorted(cl.params), "same parameters")
    sx.check([str(x) for x in got[0].params[par]] == vals, "same parameter values")
    others = [x for x in out if x.name != cl.name]
    sx.check(all(par not in x.params for x in others), "no other property has it")
    comp.strip_extras(extra_params=True)
    out = string_to_container(comp.to_container().serialize(wrap=None))
    sx.check(all(par not in x.params for x in out), "it can be removed")
    sx.check(",".join(x.value for x in count(out, cl.name)) == cl.value, "removing it keeps the value")


SOME = [("event", "SUMMARY:s"), ("event", "DTSTART:20200102T000000"), ("event", "CATEGORIES:a,b"), ("event", "ATTACH:http://x.org/"), ("event2", "DTEND:20200102T000000"), ("event2", "DURATION:PT1H"),
        ("todo", "PERCENT:5"), ("calendar", "VERSION:2.0"), ("audio", "TRIGGER:-PT1M"), ("audio", "ACTION:AUDIO")]


@case(*[dict(kind=k, prop=p) for k, p in SOME])
def parameter_names(sx, kind, prop):
    """every parameter that says nothing about the type of the value is kept"""
    cls, name, base = BASES[kind]
    cl = list(string_to_container("BEGIN:X\r\n" + prop + "\r\nEND:X"))[0]
    par = sx.str("par", (1, sx.pick(10, 16)), "NAME")
    sx.assume(sx.and_(par != "VALUE", par != "TZID"))
    cl.params[par] = [sx.str("p", 1, "safe")]
    lines = [x for x in base if x.split(":")[0] != cl.name] + [cl.serialize(wrap=None)]
    comp = read(lines, cls, name)
    out = string_to_container(comp.to_container().serialize(wrap=None))
    got = count(out, cl.name)
    sx.check(len(got) == 1, "written once")
    sx.check(same_line(sx, got[0], cl), "as it was read")


@case(dict(first=1, second=1), dict(first=2, second=1), dict(first=1, second=2))
def lists(sx, first, second):
    """lists on several lines keep their lines and parameters"""
    texts = [sx.str(f"t{i}", 1, "=ab") for i in range(first + second)]
    par = sx.choice("param", PARAMS)
    p = [sx.str(f"p{i}", 1, "safe") for i in range(2)]
    lines = [ContentLine("CATEGORIES", {par: [p[0]]}, ",".join(texts[:first])), ContentLine("CATEGORIES", {par: [p[1]]}, ",".join(texts[first:]))]
    ev = read(EVENT + [x.serialize(wrap=None) for x in lines], Event, "VEVENT")
    sx.check(ev.categories == texts, "all items in order")
    out = string_to_container(ev.to_container().serialize(wrap=None))
    got = count(out, "CATEGORIES")
    sx.check(len(got) == 2, "two lines")
    for g, w in zip(got, lines):
        sx.check(same_line(sx, g, w), "same line")


@case(*[dict(change=c) for c in ("append", "remove", "replace")])
def changed_lists(sx, change):
    """lists that were read can be changed"""
    texts = [sx.str(f"t{i}", 1, "=ab") for i in range(2)]
    new = sx.str("new", (0, 1))
    params = sx.choice("params", (False, True))
    line = ContentLine("CATEGORIES", {"LANGUAGE": ["x"]} if params else {}, ",".join(texts))
    ev = read(EVENT + [line.serialize(wrap=None)], Event, "VEVENT")
    if change == "append":
        ev.categories.append(new)
    elif change == "remove":
        del ev.categories[sx.choice("which", (0, 1))]
    else:
        ev.categories[1] = new
    want = list(ev.categories)
    exc, out = sx.raises(ev.to_container)
    if params and change != "replace":
        # which item do the parameters belong to? refused until they are removed
        sx.check(isinstance(exc, ValueError), "refused instead of guessing")
        ev.strip_extras(extra_params=True)
        out = ev.to_container()
    else:
        sx.check(exc is None, "can be written")
        if exc is not None:
            return
    back = Event.from_container(string_to_container(out.serialize(wrap=None)))
    sx.check(back.categories == want, "the changed list is written")


@case()
def zones(sx):
    """time zones"""
    x = ContentLine("X-" + sx.str("n", 1, "NAME"), {}, sx.str("v", (0, 1), "value"))
    y = ContentLine("X-" + sx.str("m", 1, "NAME"), {}, sx.str("w", (0, 1), "value"))
    lines = ["TZID:Z", x.serialize(wrap=None), "BEGIN:STANDARD", "DTSTART:19700101T000000", "RDATE:19700101T000000", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0100", y.serialize(wrap=None), "END:STANDARD"]
    tz = read(lines, Timezone, "VTIMEZONE")
    sx.check(same_line(sx, tz.extra[0], x), "property of the zone")
    out = string_to_container(tz.to_container().serialize(wrap=None))
    sx.check(any(same_line(sx, z, x) for z in out), "written")
    ob = [z for z in out if isinstance(z, Container)]
    sx.check(len(ob) == 1, "one observance")
    sx.check(any(same_line(sx, z, y) for z in ob[0]), "property of the observance is written")


@case(*[dict(kind=k, at=i) for k in KINDS for i in (0, 6, 11)])
def many(sx, kind, at):
    """an arbitrary unknown property among many others, between the known ones"""
    cls, name, known = KINDS[kind]
    lines = [ContentLine("X-%d" % (i % 5), {"P%d" % j: ["v%d" % j, "a,b"] for j in range(i % 3)}, "v" * i + ",;:\\") for i in range(12)]
    lines[at] = ContentLine("X-" + sx.str("n", sx.pick(1, (1, 2)), "NAME"), {sx.str("p", 1, "NAME"): [sx.str("pv", 1, "qsafe")]}, sx.str("v", 1, "value") + "x" * 100)
    raw = [x.serialize() for x in lines]
    mixed = known[:1] + raw[:5] + known[1:2] + raw[5:] + known[2:]
    comp = read(mixed, cls, name)
    sx.check(len(comp.extra) == 12, "all are kept")
    for g, w in zip(comp.extra, lines):
        sx.check(same_line(sx, g, w), "as they were, in the same order")
    out = string_to_container(comp.serialize())
    got = [x for x in out if sx.and_(x.name[:2] == "X-")]
    sx.check(len(got) == 12 and len(out) == 12 + len(known), "all are written once")
    for g, w in zip(got, lines):
        sx.check(same_line(sx, g, w), "as they were, in the same order")


@case(*[dict(kind=k, depth=d) for k in ("event", "todo", "calendar") for d in (1, 3, 6)])
def deep(sx, kind, depth):
    """unknown components with components inside, several of them"""
    cls, name, known = KINDS[kind]

    def sub(n, v):
        return Container("X-C%d" % n, [ContentLine("A", {"P": [v]}, v), *([sub(n - 1, v), sub(n - 1, "k")] if n else []), ContentLine("SUMMARY", value="s")])

    v = sx.str("v", 1, "safe")
    subs = [sub(depth, v), sub(0, "first"), sub(depth, v)]
    comp = read(known[:1] + [x.serialize() for x in subs] + known[1:], cls, name)
    sx.check(len(comp.extra) == 3, "kept")
    for g, w in zip(comp.extra, subs):
        sx.check(g == w, "same component in the same order")
    out = string_to_container(comp.serialize())
    got = [x for x in out if isinstance(x, Container)]
    sx.check(len(got) == 3, "written once each")
    for g, w in zip(got, subs):
        sx.check(g == w, "written as it was")


KNOWN_LINES = {
    "event": ["DESCRIPTION:d", "LOCATION:l", "STATUS:TENTATIVE", "DTSTART:20200101T000000", "DTEND:20200102T000000", "CREATED:20200101T000000Z", "TRANSPARENT:TRUE", "CATEGORIES:a,b", "CLASSIFICATION:c", "ATTACH:http://x.org/"],
    "todo": ["DESCRIPTION:d", "STATUS:TENTATIVE", "PERCENT:5", "PRIORITY:3", "COMPLETED:20200102T000000Z", "LOCATION:l"],
    "calendar": ["SCALE:GREGORIAN", "METHOD:PUBLISH"],
    "audio": ["REPEAT:2", "DURATION:PT1M", "ATTACH:http://x.org/"],
    "custom": ["REPEAT:2", "DURATION:PT1M"],
}


@case(*[dict(kind=k) for k in KINDS])
def all_parameters(sx, kind):
    """several properties have unknown parameters of their own at the same time"""
    cls, name, known = KINDS[kind]
    lines = [list(string_to_container("BEGIN:X\r\n" + x + "\r\nEND:X"))[0] for x in known + KNOWN_LINES[kind]]
    which = sx.choice("which", tuple(range(len(lines))))
    other = (which + sx.pick(1, sx.choice("other", (0, 1, 2, 3, 4)))) % len(lines)
    lines[other].params["X-Q"] = ["q,", sx.str("q", 1, "letter")]
    lines[which].params["X-P"] = [sx.str("p", 1, "letter")]
    if which != other:
        lines[which].params["X-Q"] = ["second"]
    comp = read([x.serialize() for x in lines], cls, name)
    sx.check(len(comp.extra) == 0, "all properties are known")
    out = string_to_container(comp.serialize())
    sx.check(len(out) == len(lines), "all are written")
    for w in lines:
        got = count(out, w.name)
        sx.check(len(got) == 1, "once each")
        sx.check(same_line(sx, got[0], w), "with its own parameters")


@case(*[dict(kind=k, n=n) for k in KINDS for n in (40,)])
def repeated(sx, kind, n):
    """many equal properties, and one that may be equal to the others"""
    cls, name, known = KINDS[kind]
    at = sx.choice("at", (0, 1, n // 2, n - 1))
    v = sx.str("v", (0, 1), "value")
    raw = ["X-A:" + v if i == at else "X-A:b" for i in range(n)]
    comp = read(known + raw, cls, name)
    sx.check(len(comp.extra) == n, "all are kept")
    for i, line in enumerate(comp.extra):
        sx.check(line.value == (v if i == at else "b"), "in the same order")
    got = [x.value for x in comp.to_container() if x.name == "X-A"]
    sx.check(len(got) == n, "all are written")
    sx.check(got[at] == v, "at the same place")
