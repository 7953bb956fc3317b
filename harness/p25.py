"""alarms"""
import datetime
from collections import defaultdict
from datetime import timedelta
from urllib.parse import urlparse

from ics import Attendee, Calendar, Event, Todo
from ics.alarm import AudioAlarm, BaseAlarm, CustomAlarm, DisplayAlarm, EmailAlarm, NoneAlarm
from ics.contentline import Container, ContentLine, string_to_container
from ics.types import ContextDict
from ics.valuetype.datetime import DatetimeConverterMixin

from hcommon import UTCS, zone
from sx.api import case

BOUNDS = (
    "all kinds of alarms, alone and inside of events and todos; triggers: any whole second within +-200 days (quick: of audio alarms, otherwise within 99 seconds), any floating or UTC time of the years 1000..9990, any time in a zone of a fixed offset; "
    "0..99 repetitions, durations up to 99 seconds (thorough: 0..99999, up to 200 days); action names and texts of up to 5 and 2 arbitrary characters, up to 2 attendees and 2 attachments; up to 3 alarms per entry; an arbitrary alarm among six others, an arbitrary character within texts of 300"
)
OUTSIDE = "longer texts (P11), more alarms per entry, parameters of attendees (P26)"

KINDS = {"audio": AudioAlarm, "display": DisplayAlarm, "email": EmailAlarm, "none": NoneAlarm, "custom": CustomAlarm}


def text_of(comp):
    return comp.to_container().serialize(wrap=None)


def recode(alarm):
    text = text_of(alarm)
    return text, BaseAlarm.from_container(string_to_container(text))


def new(kind, **kw):
    a = KINDS[kind](**kw)
    if kind == "custom":
        a._action = "X-A"
    return a


def naive(d):
    return d.replace(tzinfo=None)


LONG = 200 * 86400


def some_trigger(sx, name, kind, longest):
    if kind == "before":
        return -sx.td(name, 1, longest)
    if kind == "after":
        return sx.td(name, 0, longest)
    d = sx.dt(name, 1000, 9990, rep="f")
    return d.replace(tzinfo=UTCS.get(kind))


@case(*[dict(kind=k, trigger=t) for k in KINDS for t in ("before", "after", "floating", "stdlib", "dateutil", "ics")])
def triggers(sx, kind, trigger):
    t = some_trigger(sx, "t", trigger, LONG if kind == "audio" else sx.pick(99, LONG))
    alarm = new(kind, trigger=t)
    text, back = recode(alarm)
    sx.check(type(back) is type(alarm), "same kind")
    sx.check(back.action == alarm.action, "same action")
    if trigger in ("before", "after"):
        sx.check(isinstance(back.trigger, timedelta), "still relative")
        sx.check(back.trigger == t, "same trigger")
    else:
        sx.check(isinstance(back.trigger, datetime.datetime), "still absolute")
        sx.check(naive(back.trigger) == naive(t), "same time of the trigger")
        sx.check((back.trigger.tzinfo is None) == (t.tzinfo is None), "floating stays floating")
        if t.tzinfo is not None:
            sx.check(back.trigger.utcoffset() == timedelta(0), "in UTC")
    sx.check(back.repeat is None and back.duration is None, "nothing else is set")
    sx.check(text_of(back) == text, "written the same again")


@case(*[dict(kind=k) for k in KINDS])
def repetition(sx, kind):
    r = sx.int("r", 0, sx.pick(99, 99999)) if sx.choice("has_r", (False, True)) else None
    d = sx.td("d", 0, sx.pick(99, LONG)) if sx.choice("has_d", (False, True)) else None
    alarm = new(kind, trigger=timedelta(minutes=-5), repeat=r, duration=d)
    text, back = recode(alarm)
    sx.check(back.repeat == r, "same number of repetitions")
    sx.check(back.duration == d, "same interval")
    sx.check(back.trigger == timedelta(minutes=-5), "same trigger")
    sx.check(back == alarm, "equal")
    sx.check(text_of(back) == text, "written the same again")


@case(dict(n=1), dict(n=2), dict(n=4), dict(n=5))
def actions(sx, n):
    """any action is kept, the well-known ones decide about the kind"""
    name = sx.str("name", n, "NAME")
    cont = Container("VALARM", [ContentLine("ACTION", value=name), ContentLine("TRIGGER", value="-PT5M")])
    back = BaseAlarm.from_container(string_to_container(cont.serialize(wrap=None)))
    sx.check(back.action == name, "same action")
    want = CustomAlarm
    for k in ("AUDIO", "EMAIL", "NONE"):
        if name == k:
            want = KINDS[k.lower()]
    sx.check(type(back) is want, "the kind that belongs to the action")
    sx.check(back.trigger == timedelta(minutes=-5), "same trigger")
    out = string_to_container(text_of(back))
    sx.check([x.value for x in out["ACTION"]] == [name], "written once")
    sx.check(BaseAlarm.from_container(out) == back, "equal after another reading")


@case(dict(n=4), dict(n=5), dict(n=7))
def mixed_actions(sx, n):
    """actions in any letters are kept as they are"""
    name = sx.str("name", n, "letter")
    text = "BEGIN:VALARM\r\nACTION:" + name + "\r\nTRIGGER:-PT5M\r\nDESCRIPTION:d\r\nEND:VALARM"
    back = BaseAlarm.from_container(string_to_container(text))
    sx.check(back.action == name, "same action")
    for k in ("DISPLAY", "AUDIO", "EMAIL", "NONE"):
        if name == k:
            sx.check(type(back) is KINDS[k.lower()], "the kind that belongs to the action")
    out = text_of(back)
    sx.check([x.value for x in string_to_container(out)["ACTION"]] == [name], "written as it was")
    sx.check([x.value for x in string_to_container(out)["DESCRIPTION"]] == ["d"], "with its text")
    sx.check(back.trigger == timedelta(minutes=-5), "same trigger")


@case(dict(n=0), dict(n=2))
def one_action(sx, n):
    """an alarm needs exactly one action"""
    lines = [ContentLine("ACTION", value=sx.str(f"a{i}", 1, "NAME")) for i in range(n)]
    cont = Container("VALARM", [*lines[:1], ContentLine("TRIGGER", value="PT5M"), *lines[1:]])
    exc, _ = sx.raises(BaseAlarm.from_container, string_to_container(cont.serialize(wrap=None)))
    sx.check(isinstance(exc, ValueError), "refused")


@case(dict(kind="display"), dict(kind="email"), dict(kind="both"))
def texts(sx, kind):
    s = sx.str("s", (0, sx.pick(1, 2)))
    if kind == "display":
        alarm = DisplayAlarm(description=s)
        text, back = recode(alarm)
        sx.check(back.description == s, "same text")
    else:
        d = sx.str("d", (0, 1)) if kind == "both" else None
        alarm = EmailAlarm(summary=s, description=d)
        text, back = recode(alarm)
        sx.check(back.summary == s, "same subject")
        sx.check(back.description == d, "same body")
    sx.check(back == alarm, "equal")
    sx.check(text_of(back) == text, "written the same again")


@case()
def audio_attachment(sx):
    if sx.choice("binary", (False, True)):
        value = sx.bytes("b", (0, 3))
    else:
        value = urlparse("http://x.org/" + sx.str("s", (0, 1), "=ab%?#:,;\\"))
    alarm = AudioAlarm(trigger=timedelta(0), attach=value)
    text, back = recode(alarm)
    sx.check(back.attach == value, "same attachment")
    sx.check(type(back.attach) is type(value), "same kind of attachment")
    sx.check(text_of(back) == text, "written the same again")


@case(dict(binary=0), dict(binary=1), dict(binary=2))
def email_attachments(sx, binary):
    vals = [sx.bytes("b0", (0, 2)), sx.bytes("b1", (0, 1)), b"x"][:binary] + [urlparse("http://x.org/" + sx.str(f"u{i}", 1, "=ab#")) for i in range(2 - binary)]
    if sx.choice("swap", (False, True)):
        vals = vals[::-1]
    alarm = EmailAlarm(trigger=timedelta(0), attach=vals)
    text, back = recode(alarm)
    sx.check(len(back.attach) == len(vals), "all attachments")
    for g, w in zip(back.attach, vals):
        sx.check(g == w, "same attachment in the same place")
    sx.check(text_of(back) == text, "written the same again")


@case(dict(n=1), dict(n=2))
def recipients(sx, n):
    people = [Attendee("mailto:" + sx.str(f"m{i}", 1, "letter") + "@x.org") for i in range(n)]
    if sx.choice("named", (False, True)):
        people[0].common_name = sx.str("cn", 1, "qsafe")
    alarm = EmailAlarm(trigger=timedelta(0), summary="s")
    for p in people:
        alarm.add_attendee(p)
    text, back = recode(alarm)
    sx.check(len(back.attendees) == n, "all recipients")
    for g, w in zip(back.attendees, people):
        sx.check(g.email.geturl() == w.email, "same address")
        sx.check(g.common_name == w.common_name, "same name")
    sx.check(text_of(back) == text, "written the same again")
    exc, _ = sx.raises(alarm.add_attendee, "mailto:x")
    sx.check(isinstance(exc, TypeError), "only attendees can be added")
    sx.check(len(alarm.attendees) == n, "nothing is added")


@case(dict(rel="START"), dict(rel="END"))
def related(sx, rel):
    """a trigger relative to the end stays relative to the end, also if it is changed"""
    t = sx.td("t", 0, 99)
    cont = DisplayAlarm(trigger=t, description="d").to_container()
    for cl in cont:
        if cl.name == "TRIGGER":
            cl.params["RELATED"] = [rel]
    back = BaseAlarm.from_container(string_to_container(cont.serialize(wrap=None)))
    sx.check(back.trigger == t, "same trigger")
    out = string_to_container(text_of(back))
    sx.check([str(x) for x in out["TRIGGER"][0].params["RELATED"]] == [rel], "still relative to the same")
    back.trigger = t2 = sx.td("t2", 0, sx.pick(59, 86400))
    out = string_to_container(text_of(back))
    sx.check([str(x) for x in out["TRIGGER"][0].params["RELATED"]] == [rel], "still relative to the same after a change")
    sx.check(BaseAlarm.from_container(out).trigger == t2, "changed trigger")


@case(*[dict(entry=e, where=w) for e in (Event, Todo) for w in ("alone", "calendar")])
def inside(sx, entry, where):
    """the alarms of an entry: all of them, in order, nothing of the entry gets mixed up with them"""
    t = sx.td("t", 1, sx.pick(59, 3600))
    text = sx.str("text", 1, "letter")
    all_ = [DisplayAlarm(trigger=-t, description=text), AudioAlarm(trigger=t, repeat=sx.int("r", 1, 9)), new("custom", trigger=timedelta(minutes=1))]
    alarms = [all_[i] for i in sx.choice("which", ((), (0,), (1, 0), (0, 1, 2), (2, 2)))]
    times = sx.choice("times", ("none", "duration", "end"))
    kw = dict(uid="u", dtstamp=(2020, 1, 1), summary="s", description="d", alarms=alarms)
    if times != "none":
        kw["begin"] = datetime.datetime(2020, 1, 1)
        if times == "duration":
            kw["duration"] = timedelta(hours=1)
        else:
            kw["due" if entry is Todo else "end"] = datetime.datetime(2020, 1, 2)
    e = entry(**kw)
    if where == "alone":
        written = text_of(e)
        back = entry.from_container(string_to_container(written))
    else:
        cal = Calendar(**{"events" if entry is Event else "todos": [e, entry(uid="other", dtstamp=(2020, 1, 1))]})
        written = text_of(cal)
        got = Calendar(written)
        sx.check(text_of(got) == written, "the calendar is written the same again")
        back, other = got.events if entry is Event else got.todos
        sx.check(other.alarms == [], "the other entry has no alarms")
    sx.check(len(back.alarms) == len(alarms), "all alarms")
    for g, w in zip(back.alarms, alarms):
        sx.check(type(g) is type(w), "same kind")
        sx.check(g == w, "same alarm")
    sx.check(back.summary == "s" and back.description == "d", "the texts of the entry")
    sx.check(back.timespan == e.timespan, "the times of the entry")
    sx.check(back == e, "equal")
    if where == "alone":
        sx.check(text_of(back) == written, "written the same again")


@case()
def zoned(sx):
    """a trigger in a zone: the calendar defines it"""
    z, off = zone(sx)
    t = sx.dt("t", 2020, 2020, rep="f").replace(tzinfo=z)
    cal = Calendar(events=[Event(uid="u", dtstamp=(2020, 1, 1), alarms=[AudioAlarm(trigger=t)])])
    back = Calendar(text_of(cal))
    got = back.events[0].alarms[0].trigger
    sx.check(naive(got) == naive(t), "same wall clock time")
    sx.check(got.utcoffset() == off, "same offset")


@case()
def at_time(sx):
    """the kinds of trigger are checked when they are set"""
    alarm = AudioAlarm(trigger=timedelta(0))
    exc, _ = sx.raises(setattr, alarm, "trigger", sx.choice("bad", (5, "PT5M", datetime.date(2020, 1, 1))))
    sx.check(isinstance(exc, TypeError), "refused")
    sx.check(alarm.trigger == timedelta(0), "unchanged")
    alarm.duration = dict(seconds=sx.int("s", 0, 10**6))
    sx.check(isinstance(alarm.duration, timedelta), "durations are converted")


@case(*[dict(entry=e, at=i) for e in (Event, Todo) for i in (0, 3, 6)])
def many(sx, entry, at):
    """an arbitrary alarm among many others"""
    alarms = [
        DisplayAlarm(trigger=timedelta(minutes=-5), description="a"), AudioAlarm(trigger=timedelta(hours=1), repeat=3), new("custom", trigger=timedelta(0)),
        EmailAlarm(trigger=datetime.datetime(2020, 1, 1), summary="s", description="d"), NoneAlarm(), DisplayAlarm(trigger=timedelta(minutes=-5), description="a"), DisplayAlarm(description="b", duration=timedelta(1)),
    ]
    kind = sx.choice("kind", ("display", "audio", "custom", "email", "same"))
    t = sx.td("t", 10, 59)
    if kind == "same":
        alarms[at] = alarms[1]
    else:
        alarms[at] = new(kind, trigger=-t, repeat=sx.int("r", 1, 9), duration=timedelta(minutes=1), **({"description": sx.str("d", 1, "letter")} if kind == "display" else {}))
    e = entry(uid="u", dtstamp=(2020, 1, 1), alarms=alarms)
    text = e.serialize()
    back = entry.from_container(string_to_container(text))
    sx.check(len(back.alarms) == len(alarms), "all alarms")
    for g, w in zip(back.alarms, alarms):
        sx.check(type(g) is type(w) and g.action == w.action, "same kind")
        sx.check(g == w, "same alarm")
        sx.check(g.trigger == w.trigger and g.repeat == w.repeat and g.duration == w.duration, "same trigger and repetition")
    sx.check(back.serialize() == text, "written the same again")


@case(dict(n=60), dict(n=300))
def long_text(sx, n):
    """long texts, folded as usual"""
    s = "a,b;c\\d\n" * (n // 8) + sx.str("s", 1) + "z" * n
    alarm = EmailAlarm(trigger=timedelta(0), summary=s, description="x" + s)
    ev = Event(uid="u", dtstamp=(2020, 1, 1), alarms=[alarm, DisplayAlarm(description=s)])
    back = Event.from_container(string_to_container(ev.serialize()))
    sx.check(back.alarms[0].summary == s and back.alarms[0].description == "x" + s, "same texts")
    sx.check(back.alarms[1].description == s, "same text")
    sx.check(back.serialize() == ev.serialize(), "written the same again")


ATTRS = ("trigger", "repeat", "duration", "text", "attach", "attendees", "extra")


@case(*[dict(kind=k, without=a) for k in KINDS for a in (None, *ATTRS)])
def everything(sx, kind, without):
    """all attributes at once, or all but one"""
    kw = {"trigger": -sx.td("t", 10, 59), "repeat": sx.int("r", 1, 9), "duration": sx.td("d", 10, 59)}
    if kind == "display":
        kw["description"] = sx.str("text", 1, "letter")
    if kind == "email":
        kw.update(summary=sx.str("text", 1, "letter"), description="body", attach=[sx.bytes("b", 1), urlparse("http://x.org/a")], attendees=[Attendee("mailto:a"), Attendee("mailto:b", common_name="b")])
    if kind == "audio":
        kw["attach"] = sx.bytes("b", 1)
    for k in {"text": ("summary", "description")}.get(without, (without,)):
        kw.pop(k, None)
    alarm = new(kind, **kw)
    if without != "extra":
        alarm.extra.append(ContentLine("X-A", {"P": ["v"]}, sx.str("x", 1, "letter")))
    text, back = recode(alarm)
    sx.check(type(back) is type(alarm) and back.action == alarm.action, "same kind")
    for k in ("trigger", "repeat", "duration", "summary", "description", "attach"):
        if hasattr(alarm, k):
            sx.check(getattr(back, k) == getattr(alarm, k), k)
    if kind == "email":
        sx.check([(x.email.geturl(), x.common_name) for x in back.attendees] == [(x.email, x.common_name) for x in alarm.attendees], "attendees")
    sx.check(back.extra == alarm.extra, "unknown properties")
    sx.check(text_of(back) == text, "written the same again")
