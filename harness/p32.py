"""zones of other libraries keep their meaning"""
import datetime
import os
import zoneinfo
from collections import defaultdict
from datetime import timedelta

import dateutil.tz

from hcommon import UTCS, fixed
from ics import Calendar, Event, Todo
from ics.alarm import DisplayAlarm
from ics.timezone import UTC, Timezone, is_utc
from ics.types import ContextDict

from sx.api import case

BOUNDS = (
    "fixed offsets of the standard library of every whole minute within +-24 hours with names of up to 3 arbitrary letters or without a name; "
    "eight named zones, given as ZoneInfo, as files of dateutil in any directory, by name, by file name and by their names on Windows, at every second of 2016..2019 that they hold once; "
    "all notations of UTC; the local zone; zones that cannot be expressed; two or three conversions with one context"
)
OUTSIDE = "pytz (not installed), zones of Windows (tzwin), other named zones (their definitions come from the package ics_vtimezones, their evaluation is decided in P09 and P21)"

STD = datetime.timezone.utc
NAMES = {
    "Europe/Berlin": "W. Europe Standard Time", "America/New_York": "Eastern Standard Time", "Australia/Sydney": "AUS Eastern Standard Time", "Asia/Kolkata": "India Standard Time",
    "Europe/London": "GMT Standard Time", "Asia/Tokyo": "Tokyo Standard Time", "Pacific/Auckland": "New Zealand Standard Time", "America/St_Johns": "Newfoundland Standard Time",
}
Y0 = 2016
Y1 = 2019


def transitions(key):
    """the offsets of a zone according to the standard library: [(instant, offset)], microseconds"""
    z = zoneinfo.ZoneInfo(key)

    def at(t):
        return t.astimezone(z).utcoffset()

    t, end = datetime.datetime(Y0, 1, 1, tzinfo=STD) - timedelta(days=3), datetime.datetime(Y1 + 1, 1, 4, tzinfo=STD)
    out = [(None, at(t) // timedelta(microseconds=1))]
    while t < end:
        n = t + timedelta(days=1)
        if at(n) != at(t):
            lo, hi = t, n
            while hi - lo > timedelta(seconds=1):
                mid = lo + timedelta(seconds=(hi - lo) // timedelta(seconds=2))
                lo, hi = (mid, hi) if at(mid) == at(lo) else (lo, mid)
            out.append(((hi.replace(tzinfo=None) - datetime.datetime(1, 1, 1)) // timedelta(microseconds=1) + 86400 * 10**6, at(hi) // timedelta(microseconds=1)))
        t = n
    return out


TRANS = {k: transitions(k) for k in NAMES}


def foreign(key, form):
    if form == "zoneinfo":
        return zoneinfo.ZoneInfo(key)
    if form == "dateutil":
        return dateutil.tz.gettz(key)
    if form == "file":
        return dateutil.tz.tzfile(os.path.join("/usr/share/zoneinfo", key))
    raise KeyError(form)


def offset_at(sx, key, u):
    """offset at an instant, microseconds"""
    want = TRANS[key][0][1]
    for t, off in TRANS[key][1:]:
        want = sx.ite(sx.wall(u) >= t, off, want)
    return want


def local_offset(sx, key, wall):
    """offset of a wall clock time, assumed to exist exactly once"""
    want = TRANS[key][0][1]
    for (_, before), (t, after) in zip(TRANS[key], TRANS[key][1:]):
        sx.assume(sx.or_(wall < t + min(before, after), wall >= t + max(before, after)))
        want = sx.ite(wall >= t + max(before, after), after, want)
    return want


def read(text):
    return Calendar(text)


@case(*[dict(key=k, form=f) for k in NAMES for f in ("zoneinfo", "dateutil", "file", "name", "path", "windows")])
def named(sx, key, form):
    """the zone that is found has the same offset at every instant"""
    if form == "name":
        z = Timezone.from_tzid(key)
    elif form == "path":
        z = Timezone.from_tzid("/example.org/2020/" + key)
    elif form == "windows":
        z = Timezone.from_tzid(NAMES[key])
    else:
        z = Timezone.from_tzinfo(foreign(key, form))
    sx.check(isinstance(z, Timezone), "a zone")
    sx.check(z.tzid.endswith("/" + key) and z.is_builtin and z.to_builtin() is z, "of this name")
    u = sx.dt("u", Y0, Y1, tz=STD)
    got = u.astimezone(z)
    sx.check(sx.us(got.utcoffset()) == offset_at(sx, key, u), "same offset")
    sx.check(sx.wall(got) == sx.wall(u) + offset_at(sx, key, u), "same wall clock time")


@case(*[dict(key=k, form=f) for k in NAMES for f in ("zoneinfo", "dateutil")])
def entries(sx, key, form):
    """times in such zones denote the same instant after writing and reading"""
    wall = sx.dt("v", Y0, Y1)
    off = local_offset(sx, key, sx.wall(wall))
    ev = Event(begin=wall.replace(tzinfo=foreign(key, form)), uid="u", dtstamp=(2020, 1, 1))
    cont = Calendar(events=[ev]).to_container()
    sx.check(len(cont["VTIMEZONE"]) == 1, "the zone is defined")
    (back,) = read(cont.serialize()).events
    sx.check(sx.wall(back.begin) == sx.wall(wall), "same wall clock time")
    sx.check(sx.us(back.begin.utcoffset()) == off, "same offset")


@case(dict(name=None), dict(name="letters"))
def fixed_offset(sx, name):
    """fixed offsets of the standard library, also with the names of other zones"""
    off = timedelta(minutes=1) * sx.int("off", -24 * 60 + 1, 24 * 60 - 1)
    sx.assume(off != timedelta(0))
    if name is None:
        z = datetime.timezone(off)
    else:
        n = sx.str("name", (1, 3), "letter")
        z = datetime.timezone(off, n)
    got = Timezone.from_tzinfo(z)
    if name is not None:
        sx.check(got.tzid == n, "same name")
    wall = sx.dt("v", 1971, 9990)
    sx.check(wall.replace(tzinfo=got).utcoffset() == off, "same offset")
    sx.check(got.utcoffset(wall) == off, "same offset")
    ev = Event(begin=wall.replace(tzinfo=z), uid="u", dtstamp=(2020, 1, 1))
    (back,) = read(Calendar(events=[ev]).serialize()).events
    sx.check(sx.wall(back.begin) == sx.wall(wall), "same wall clock time")
    sx.check(back.begin.utcoffset() == off, "same offset")
    (again,) = read(Calendar(events=[back]).serialize()).events
    sx.check(sx.wall(again.begin) == sx.wall(wall) and again.begin.utcoffset() == off, "also after another round trip")


@case(dict(name="Etc/UTC"), dict(name="etc/utc"), dict(name="GMT"), dict(name="Europe/Berlin"), dict(name="Z"), dict(name="Local"), dict(name="UTC+01:00"))
def misleading(sx, name):
    """fixed offsets whose name means something else"""
    off = timedelta(minutes=1) * sx.int("off", -24 * 60 + 1, 24 * 60 - 1)
    z = Timezone.from_tzinfo(datetime.timezone(off, name))
    wall = sx.dt("v", 1971, 9990)
    ev = Event(begin=wall.replace(tzinfo=datetime.timezone(off, name)), uid="u", dtstamp=(2020, 1, 1))
    for _ in range(2):
        (ev,) = read(Calendar(events=[ev]).serialize()).events
        sx.check(ev.begin.utcoffset() == off, "same offset")
        sx.check(sx.wall(ev.begin) == sx.wall(wall), "same wall clock time")
    if off == timedelta(0):
        sx.check(z is UTC, "the offset of UTC is UTC")
    else:
        sx.check(z.tzid == name and not is_utc(z), "named as before")


ALL_UTC = {
    **UTCS, "tzutc": dateutil.tz.tzutc(), "zoneinfo": zoneinfo.ZoneInfo("UTC"), "zoneinfo etc": zoneinfo.ZoneInfo("Etc/UTC"),
    "named": datetime.timezone(timedelta(0), "X"), "gmt": datetime.timezone(timedelta(0), "GMT"), "ics etc": Timezone("Etc/UTC", UTC.observances), "ics lower": Timezone("utc", UTC.observances),
}


@case(*[dict(form=f) for f in ALL_UTC])
def utc(sx, form):
    """every notation of UTC is UTC"""
    z = ALL_UTC[form]
    sx.check(is_utc(z), "recognised")
    got = Timezone.from_tzinfo(z)
    sx.check(is_utc(got) and got.is_builtin, "UTC or the zone itself")
    v = sx.dt("v", 2, 9990)
    sx.check(got.utcoffset(v) == timedelta(0), "no offset")
    sx.check(is_utc(v.replace(tzinfo=z)) and not is_utc(v), "times as well")
    ev = Event(begin=v.replace(tzinfo=z), created=v.replace(tzinfo=z), uid="u", dtstamp=(2020, 1, 1))
    cont = Calendar(events=[ev]).to_container()
    sx.check(len(cont["VTIMEZONE"]) == 0, "needs no definition")
    line = cont["VEVENT"][0]["DTSTART"][0]
    sx.check(line.value[-1:] == "Z" and not line.params, "written in UTC")
    (back,) = read(cont.serialize()).events
    sx.check(is_utc(back.begin) and sx.wall(back.begin) == sx.wall(v), "same instant")
    sx.check(is_utc(back.created) and sx.wall(back.created) == sx.wall(v), "same instant")


@case(dict(form="gettz"), dict(form="name"), dict(form="own"))
def equal_to_utc(sx, form):
    """files with the definition of UTC may be named, but mean the same"""
    z = {"gettz": dateutil.tz.gettz("UTC"), "name": Timezone.from_tzid("UTC"), "own": Timezone("/X/Etc/UTC", UTC.observances)}[form]
    v = sx.dt("v", 1971, 9990)
    sx.check(Timezone.from_tzinfo(z).utcoffset(v) == timedelta(0), "no offset")
    ev = Event(begin=v.replace(tzinfo=z), uid="u", dtstamp=(2020, 1, 1))
    (back,) = read(Calendar(events=[ev]).serialize()).events
    sx.check(back.begin.utcoffset() == timedelta(0), "no offset")
    sx.check(sx.wall(back.begin) == sx.wall(v), "same time")


def local_zone(sx, form):
    return dateutil.tz.tzlocal() if form == "tzlocal" else dateutil.tz.tzfile(open("/usr/share/zoneinfo/Asia/Tokyo", "rb"), filename="/etc/localtime")


@case(*[dict(form=f, field=k) for f in ("tzlocal", "file") for k in ("begin", "end", "due", "trigger")])
def local(sx, form, field):
    """times of the local zone are floating times"""
    sx.local()
    z = local_zone(sx, form)
    sx.check(Timezone.from_tzinfo(z) is None, "no zone of its own")
    v = sx.dt("v", 1971, 2036)
    t = v.replace(tzinfo=z)
    if field == "trigger":
        e = Event(uid="u", dtstamp=(2020, 1, 1), alarms=[DisplayAlarm(trigger=t)])
    elif field == "end":
        e = Event(begin=datetime.datetime(1970, 1, 1, tzinfo=z), end=t, uid="u", dtstamp=(2020, 1, 1))
    else:
        e = (Event if field == "begin" else Todo)(uid="u", dtstamp=(2020, 1, 1), **{field: t})
    text = Calendar(**{"todos" if field == "due" else "events": [e]}).serialize()
    sx.check("TZID" not in text and "VTIMEZONE" not in text, "no zone is named")
    cal = read(text)
    (back,) = cal.todos if field == "due" else cal.events
    got = back.alarms[0].trigger if field == "trigger" else getattr(back, field)
    sx.check(got.tzinfo is None, "floating")
    sx.check(sx.wall(got) == sx.wall(v), "same wall clock time")


PREFIXES = ("/usr/local/share/zoneinfo/", "/opt/localtime/", "/var/lib/local/", "zoneinfo/", "/etc/localtime/", "/srv/UTC/", "./", "/usr/share/zoneinfo/right/")


@case(*[dict(key=k) for k in ("Europe/Berlin", "America/New_York", "Asia/Kolkata")])
def elsewhere(sx, key):
    """files of dateutil in any directory are known by their name"""
    path = sx.choice("prefix", PREFIXES) + key
    z = dateutil.tz.tzfile(open("/usr/share/zoneinfo/" + key, "rb"), filename=path)
    got = Timezone.from_tzinfo(z)
    sx.check(isinstance(got, Timezone) and got.tzid.endswith("/" + key), "the zone of this name")
    u = sx.dt("u", Y0, Y1, tz=STD)
    sx.check(sx.us(u.astimezone(got).utcoffset()) == offset_at(sx, key, u), "same offset")


class Own(datetime.tzinfo):
    """a zone of the user's program"""

    def utcoffset(self, dt):
        return timedelta(hours=1)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return "Own"


ICAL = """BEGIN:VTIMEZONE
TZID:X
BEGIN:STANDARD
TZOFFSETFROM:+0100
TZOFFSETTO:+0100
DTSTART:19700101T000000
END:STANDARD
END:VTIMEZONE
"""
REFUSED = {
    "tzstr": dateutil.tz.tzstr("EST5EDT"), "tzrange": dateutil.tz.tzrange("EST", -18000, "EDT"), "tzoffset": dateutil.tz.tzoffset("X", 3600), "own": Own(),
    "tzical": dateutil.tz.tzical(__import__("io").StringIO(ICAL)).get("X"), "nameless": zoneinfo.ZoneInfo.from_file(open("/usr/share/zoneinfo/Europe/Berlin", "rb")),
}
HOURS = {"tzoffset": 1, "own": 1, "tzical": 1}


@case(*[dict(form=f, context=c) for f in REFUSED for c in (False, True)])
def refused(sx, form, context):
    """zones that cannot be expressed are refused, times are never given another meaning"""
    z = REFUSED[form]
    ctx = ContextDict(defaultdict(lambda: None)) if context else None
    v = sx.dt("v", 1971, 2036)
    exc, got = sx.raises(Timezone.from_tzinfo, z, ctx)
    if exc is None:
        sx.check(form in HOURS and got.utcoffset(v) == timedelta(hours=HOURS[form]), "or have the same offset")
        return
    sx.check(isinstance(exc, ValueError), "refused")
    exc, got = sx.raises(Timezone.from_tzinfo, z, ctx)
    sx.check(isinstance(exc, ValueError), "again")
    ev = Event(begin=v.replace(tzinfo=z), uid="u", dtstamp=(2020, 1, 1))
    exc, _ = sx.raises(ev.serialize)
    sx.check(isinstance(exc, ValueError), "cannot be written")


@case(*[dict(name=n) for n in ("", "Nowhere", "Europe", "Europe/Nowhere", "/usr/share/zoneinfo", "X Standard Time", "../Europe/Berlin.", "Europe/Berlin.ics", "CEST2")])
def unknown(sx, name):
    """names that are not known are refused"""
    exc, _ = sx.raises(Timezone.from_tzid, name)
    sx.check(isinstance(exc, ValueError), "refused")


ZONES = {
    "berlin": (zoneinfo.ZoneInfo("Europe/Berlin"), 2), "berlin2": (dateutil.tz.gettz("Europe/Berlin"), 2), "tokyo": (zoneinfo.ZoneInfo("Asia/Tokyo"), 9), "utc": (STD, 0),
    "local": (None, None), "a": (datetime.timezone(timedelta(hours=1), "A"), 1), "b": (datetime.timezone(timedelta(hours=1), "B"), 1), "c": (datetime.timezone(timedelta(hours=2), "A"), 2),
    "own": (Own(), False),
}
KEYS = {"berlin": "/Europe/Berlin", "berlin2": "/Europe/Berlin", "tokyo": "/Asia/Tokyo", "utc": "UTC", "a": "A", "b": "B", "c": "A"}


@case(dict(n=2), dict(n=3), name="shared")
def shared_context(sx, n):
    """conversions that share a context do not influence each other"""
    ctx = ContextDict(defaultdict(lambda: None))
    sx.local()
    names = tuple(ZONES) if n == 2 else ("berlin", "a", "b", "local", "own")
    v = sx.dt("v", 2019, 2019)
    sx.assume(sx.and_(sx.wall(v) >= sx.wall(datetime.datetime(2019, 5, 1)), sx.wall(v) < sx.wall(datetime.datetime(2019, 9, 1))))
    for i in range(n):
        which = sx.choice(f"z{i}", names)
        z, hours = ZONES[which]
        if which == "local":
            z = local_zone(sx, "tzlocal")
        exc, got = sx.raises(Timezone.from_tzinfo, z, ctx)
        if hours is False:
            sx.check(isinstance(exc, ValueError), "refused")
        elif hours is None:
            sx.check(exc is None and got is None, "local")
        else:
            sx.check(exc is None and got.tzid.endswith(KEYS[which]), "same name")
            sx.check(got.utcoffset(v) == timedelta(hours=hours), "same offset")


@case(*[dict(key=k) for k in NAMES])
def builtin(sx, key):
    """own definitions of well-known zones can be replaced by the built-in ones"""
    off = timedelta(minutes=1) * sx.int("off", -14 * 60, 14 * 60)
    z = fixed(key, off)
    sx.check(not z.is_builtin, "not built-in")
    sx.check(Timezone.from_tzinfo(z) is z, "zones of this library stay as they are")
    got = z.to_builtin()
    sx.check(got.is_builtin and got.to_builtin() is got, "built-in")
    u = sx.dt("u", Y0, Y1, tz=STD)
    sx.check(sx.us(u.astimezone(got).utcoffset()) == offset_at(sx, key, u), "offsets of the well-known zone")
    sx.check(u.astimezone(z).utcoffset() == off, "the definition itself is not changed")
