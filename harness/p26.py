"""attendees and organizers"""
from urllib.parse import urlparse

from ics import Attendee, Calendar, Event, Organizer
from ics.contentline import ContentLine, string_to_container

from sx.api import case

BOUNDS = (
    "organizers and up to two attendees (thorough: three) with every combination of one or two of their attributes; names and other texts of up to 2 arbitrary characters that parameters can hold (all but "
    "quotation marks and control characters), addresses with up to 2 arbitrary letters; unknown parameters with up to 2 values; an arbitrary attendee among seven others, an arbitrary character within names of 300"
)
OUTSIDE = "longer texts (P13), texts with quotation marks (the format cannot hold them, P13), addresses with characters that URIs have to escape"

PERSONS = {"organizer": Organizer, "attendee": Attendee}
TEXTS = {"common_name": "CN"}
URIS = {"sent_by": "SENT-BY", "directory": "DIR"}
ATT_TEXTS = {"user_type": "CUTYPE", "role": "ROLE", "status": "PARTSTAT"}
ATT_MULTI = {"member": "MEMBER", "delegated_to": "DELEGATED-TO", "delegated_from": "DELEGATED-FROM"}
DEFAULTS = {"user_type": "INDIVIDUAL", "role": "REQ-PARTICIPANT", "status": "NEEDS-ACTION", "rsvp": False}


def text_of(comp):
    return comp.to_container().serialize(wrap=None)


def event(kind, *persons):
    kw = {"organizer": persons[0]} if kind == "organizer" else {"attendees": list(persons)}
    return Event(uid="u", dtstamp=(2020, 1, 1), **kw)


def recode(sx, kind, *persons):
    text = text_of(event(kind, *persons))
    ev = Event.from_container(string_to_container(text))
    sx.check(text_of(ev) == text, "written the same again")
    if kind == "organizer":
        sx.check(ev.attendees == [], "no attendees")
        return string_to_container(text), [ev.organizer]
    sx.check(ev.organizer is None, "no organizer")
    return string_to_container(text), ev.attendees


def address(sx, name):
    return "mailto:" + sx.str(name, (1, 2), "letter") + "@x.org"


@case(*[dict(kind=k, parsed=p) for k in PERSONS for p in (False, True)])
def addresses(sx, kind, parsed):
    """the address may be given as a text or a parsed URI"""
    addr = address(sx, "a")
    p = PERSONS[kind](urlparse(addr) if parsed else addr)
    lines, (back,) = recode(sx, kind, p)
    sx.check(type(back) is PERSONS[kind], "same kind")
    sx.check(back.email.geturl() == addr, "same address")
    sx.check(back.extra == {}, "nothing else is set")
    sx.check([x.value for x in lines[p.NAME]] == [addr], "written as it is")


ONE = [("organizer", f) for f in (*TEXTS, *URIS)] + [("attendee", f) for f in (*TEXTS, *URIS, *ATT_TEXTS, *ATT_MULTI, "rsvp")]


def some_value(sx, name, field):
    if field == "rsvp":
        return sx.choice(name, (True, False))
    if field in URIS:
        return urlparse(address(sx, name))
    if field in ATT_MULTI:
        return [urlparse(address(sx, f"{name}{i}")) for i in range(sx.choice(name + ".n", (1, 2)))]
    return sx.str(name, (0, sx.pick(1, 2)), "qsafe")


ALL = {**TEXTS, **URIS, **ATT_TEXTS, **ATT_MULTI, "rsvp": "RSVP"}


@case(*[dict(kind=k, field=f, how=h) for k, f in ONE for h in ("init", "set")])
def one(sx, kind, field, how):
    """one attribute"""
    value = some_value(sx, "v", field)
    if how == "init":
        p = PERSONS[kind]("mailto:x@x.org", **{field: value})
    else:
        p = PERSONS[kind]("mailto:x@x.org")
        setattr(p, field, value)
    sx.check(getattr(p, field) == value, "what was set")
    sx.check(list(p.extra) == [ALL[field]], "kept as the parameter of the standard")
    lines, (back,) = recode(sx, kind, p)
    got = getattr(back, field)
    sx.check(got == value, "same value")
    sx.check(isinstance(got, type(value)), "same kind of value")
    sx.check(back.email.geturl() == "mailto:x@x.org", "same address")
    for other in [f for k, f in ONE if k == kind and f != field]:
        sx.check(getattr(back, other) == DEFAULTS.get(other), "nothing else is set")
    delattr(p, field)
    sx.check(getattr(p, field) == DEFAULTS.get(field), "can be removed")
    sx.check(p.extra == {}, "removed from the parameters")
    delattr(p, field)
    lines, (back,) = recode(sx, kind, p)
    sx.check(getattr(back, field) == DEFAULTS.get(field), "not written")


PAIRS = [(a, b) for i, a in enumerate(ALL) for b in list(ALL)[i + 1:]]


@case(*[dict(a=a, b=b) for a, b in PAIRS])
def pairs(sx, a, b):
    """two attributes do not get mixed up"""
    va, vb = (some_value(sx, n, f) for n, f in (("va", a), ("vb", b)))
    p = Attendee("mailto:x@x.org", **{a: va, b: vb})
    _, (back,) = recode(sx, "attendee", p)
    sx.check(getattr(back, a) == va, "same first value")
    sx.check(getattr(back, b) == vb, "same second value")
    back2 = Attendee("mailto:x@x.org", **{b: vb, a: va})
    sx.check(back2.extra == p.extra, "the order does not matter")


@case(*[dict(kind=k) for k in PERSONS])
def unknown(sx, kind):
    """unknown parameters, from a file or given by the user"""
    name = "X-" + sx.str("n", 1, "NAME")
    vals = [sx.str(f"p{i}", (0, 1), "qsafe") for i in range(sx.choice("n.vals", (1, 2)))]
    cls = PERSONS[kind]
    p = cls("mailto:x@x.org", {name: list(vals)}, common_name="cn")
    lines, (back,) = recode(sx, kind, p)
    sx.check(sorted(back.extra) == sorted(["CN", name]), "same parameters")
    sx.check([str(x) for x in back.extra[name]] == vals, "same values")
    line = lines[cls.NAME][0]
    sx.check([str(x) for x in line.params[name]] == vals, "written")
    # change it after reading
    back.common_name = "other"
    _, (again,) = recode(sx, kind, back)
    sx.check([str(x) for x in again.extra[name]] == vals, "still there after a change of another one")
    sx.check(again.common_name == "other", "the changed one")


@case(dict(kind="organizer"), dict(kind="attendee"))
def repeated(sx, kind):
    """a parameter that may have one value only has several"""
    vals = [sx.str(f"p{i}", 1, "safe") for i in range(2)]
    cls = PERSONS[kind]
    line = ContentLine(cls.NAME, {"CN": vals}, "mailto:x@x.org")
    text = "\r\n".join(["BEGIN:VEVENT", "UID:u", "DTSTAMP:20200101T000000Z", line.serialize(wrap=None), "END:VEVENT"])
    ev = Event.from_container(string_to_container(text))
    p = ev.organizer if kind == "organizer" else ev.attendees[0]
    exc, _ = sx.raises(getattr, p, "common_name")
    sx.check(isinstance(exc, ValueError), "refused instead of guessing")
    out = string_to_container(text_of(ev))
    sx.check([str(x) for x in out[cls.NAME][0].params["CN"]] == vals, "kept")


def several_(sx, n):
    people = []
    for i in range(n):
        kw = {}
        f = sx.choice(f"f{i}", ("none", "common_name", "rsvp", "member"))
        if f == "common_name":
            kw[f] = sx.str(f"cn{i}", 1, "qsafe")
        elif f == "rsvp":
            kw[f] = True
        elif f == "member":
            kw[f] = [urlparse(address(sx, f"m{i}"))]
        people.append(Attendee(f"mailto:{i}@x.org", **kw))
    _, back = recode(sx, "attendee", *people)
    sx.check(len(back) == n, "all attendees")
    for i, (g, w) in enumerate(zip(back, people)):
        sx.check(g.email.geturl() == f"mailto:{i}@x.org", "in the same order")
        sx.check(g.extra == w.extra, "each with its own parameters")


@case(dict(n=2))
def several(sx, n):
    several_(sx, n)


@case(dict(n=3), tier="thorough")
def several3(sx, n):
    several_(sx, n)


@case()
def independent(sx):
    """two persons never share their parameters"""
    s = sx.str("s", 1, "qsafe")
    a, b = Attendee("mailto:a"), Attendee("mailto:b")
    a.common_name = s
    sx.check(b.common_name is None, "of another person")
    o = Organizer("mailto:a")
    sx.check(o.extra == {}, "of the organizer")
    # writing does not change the person
    extra = {k: list(v) for k, v in a.extra.items()}
    text_of(event("attendee", a))
    sx.check(a.extra == extra, "writing changes nothing")
    # both in an event
    o.common_name = "boss"
    ev = Event(uid="u", dtstamp=(2020, 1, 1), organizer=o, attendees=[a, b])
    back = Calendar(Calendar(events=[ev]).serialize()).events[0]
    sx.check(back.organizer.common_name == "boss", "name of the organizer")
    sx.check([x.common_name for x in back.attendees] == [s, None], "names of the attendees")
    back.attendees[1].common_name = "new"
    sx.check(back.attendees[0].common_name == s, "changing one attendee changes no other")
    sx.check(back.organizer.common_name == "boss", "nor the organizer")
    again = Event.from_container(string_to_container(text_of(back)))
    sx.check([x.common_name for x in again.attendees] == [s, "new"], "changed names")


@case()
def comma(sx):
    """an address is one value"""
    s = sx.str("s", 1, "=a,;")
    addr = "mailto:a" + s + "b@x.org"
    _, back = recode(sx, "attendee", Attendee(addr))
    sx.check(len(back) == 1, "one attendee")
    sx.check(back[0].email.geturl() == addr, "same address")


@case(dict(kind="organizer"), dict(kind="attendee"))
def extra_type(sx, kind):
    exc, _ = sx.raises(PERSONS[kind], "mailto:x", sx.choice("bad", ([], "x", 5)))
    sx.check(isinstance(exc, TypeError), "parameters have to be a dict")
    exc, _ = sx.raises(setattr, Event(), "organizer", Attendee("mailto:x"))
    sx.check(isinstance(exc, TypeError), "only organizers can be the organizer")


@case(*[dict(at=i) for i in (0, 4, 7)])
def many(sx, at):
    """an arbitrary attendee among many others"""
    people = [Attendee(f"mailto:{i}@x.org", **{f: v for f, v in (("common_name", f"n{i}"), ("rsvp", i % 4 == 0), ("role", "CHAIR")) if (i + len(f)) % 3}) for i in range(8)]
    f = sx.choice("f", ("none", "common_name", "rsvp", "member", "delegated_to", "status"))
    kw = {} if f == "none" else {f: some_value(sx, "v", f)}
    people[at] = Attendee("mailto:" + sx.str("a", 1, "letter") + "@x.org", **kw)
    _, back = recode(sx, "attendee", *people)
    sx.check(len(back) == 8, "all attendees")
    for g, w in zip(back, people):
        sx.check(g.email.geturl() == w.email, "in the same order")
        for field in ALL:
            sx.check(getattr(g, field) == getattr(w, field), "each with its own attributes")


@case(dict(kind="organizer"), dict(kind="attendee"))
def everything(sx, kind):
    """all attributes at once, or all but one"""
    fields = [f for k, f in ONE if k == kind]
    without = sx.choice("without", (None, *fields))
    kw = {f: some_value(sx, f, f) if f in ("common_name", without) else {"rsvp": True}.get(f, [urlparse(f"mailto:{f}@x.org"), urlparse("mailto:2")] if f in ATT_MULTI else urlparse(f"mailto:{f}@x.org") if f in URIS else f.upper())
          for f in fields if f != without}
    p = PERSONS[kind]("mailto:x@x.org", {"X-P": ["a", "b,c"]}, **kw)
    _, (back,) = recode(sx, kind, p)
    for f in fields:
        sx.check(getattr(back, f) == (kw[f] if f in kw else DEFAULTS.get(f)), f)
    sx.check([str(x) for x in back.extra["X-P"]] == ["a", "b,c"], "unknown parameters")
    sx.check(list(back.extra) == list(p.extra), "in the same order")
    for f in kw:
        delattr(back, f)
    sx.check(list(back.extra) == ["X-P"], "all of them can be removed")


@case(dict(n=60), dict(n=300))
def long_names(sx, n):
    """long names, folded as usual"""
    name = "a, b:c;" * (n // 7) + sx.str("cn", 1, "qsafe") + "\u00e4 " * 5 + "z"
    p = Attendee("mailto:x@x.org", common_name=name, member=[urlparse("mailto:" + "m" * n + "@x.org")] * 3)
    ev = event("attendee", p, Attendee("mailto:y"))
    back = Event.from_container(string_to_container(ev.serialize())).attendees
    sx.check(len(back) == 2, "both")
    sx.check(back[0].common_name == name, "same name")
    sx.check(back[0].member == p.member, "same members")
    sx.check(back[1].common_name is None, "only its own")
