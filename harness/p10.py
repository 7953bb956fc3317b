"""conversion to UTC and UTC-only attributes"""
import datetime

import dateutil.tz

from ics import Calendar, Event, Todo
from ics.event import deterministic_event_data
from ics.timezone import UTC, Timezone, ensure_utc, is_utc, now_in_utc, validate_utc

from hcommon import abs_us, zone
from sx.api import case

BOUNDS = (
    "any whole second of the years 2..9990, floating, date, or with any fixed whole-minute offset; clock at any second of 2000..2050; local zone any "
    "fixed offset in quarter hours"
)
OUTSIDE = "zones with transitions (P09)"


def some_value(sx, name="v", kinds=("naive", "aware", "date", "tuple")):
    k = sx.choice(name + "k", kinds)
    if k == "date":
        d = sx.date(name)
        return d, datetime.datetime.combine(d, datetime.time())
    d = sx.dt(name, tz=sx.tz(name + "o") if k == "aware" else None, rep="f" if k == "tuple" else "w")
    return ((d.year, d.month, d.day, d.hour, d.minute, d.second) if k == "tuple" else d), d


@case()
def convert(sx):
    local = sx.local()
    v, d = some_value(sx)
    got = ensure_utc(v)
    sx.check(is_utc(got) and got.tzinfo == UTC, "the result is in UTC")
    sx.check(abs_us(sx, got, local) == abs_us(sx, d, local), "the instant is kept")
    sx.check(sx.wall(got) == abs_us(sx, d, local), "the wall clock is UTC")
    sx.check(ensure_utc(None) is None, "None stays None")
    again = ensure_utc(got)
    sx.check(sx.wall(again) == sx.wall(got) and is_utc(again), "idempotent")


@case(*[dict(entry=e, field=f) for e in (Event, Todo) for f in ("created", "last_modified", "dtstamp")])
def attributes(sx, entry, field):
    """UTC attributes are converted by the constructor and by assignment"""
    local = sx.local()
    v, d = some_value(sx, kinds=("naive", "aware", "date"))
    how = sx.choice("how", ("init", "set"))
    if how == "init":
        ev = entry(**{field: v})
    else:
        ev = entry(dtstamp=(2020, 1, 1))
        setattr(ev, field, v)
    got = getattr(ev, field)
    sx.check(is_utc(got), "stored in UTC")
    sx.check(sx.wall(got) == abs_us(sx, d, local), "the instant is kept")
    line = [x for x in ev.to_container() if x.name == {"created": "CREATED", "last_modified": "LAST-MODIFIED", "dtstamp": "DTSTAMP"}[field]]
    sx.check(len(line) == 1 and line[0].value.endswith("Z") and "TZID" not in line[0].params, "written as UTC value")


@case(dict(entry=Event), dict(entry=Todo))
def timestamp(sx, entry):
    """the creation stamp is the current time in UTC"""
    sx.local()
    now = sx.wall(sx.clock())
    ev = entry()
    sx.check(sx.and_(is_utc(ev.dtstamp), sx.wall(ev.dtstamp) == now), "dtstamp is now")
    exc, _ = sx.raises(setattr, ev, "dtstamp", None)
    sx.check(isinstance(exc, ValueError), "dtstamp can not be removed")
    sx.check(sx.wall(ev.dtstamp) == now, "dtstamp is unchanged")


@case()
def recognise(sx):
    """is_utc holds for the UTC implementations and no other zone"""
    k = sx.choice("k", ("none", "UTC", "timezone", "dateutil", "fixed", "zone"))
    tz = None
    want = k not in ("none", "fixed", "zone")
    if k == "UTC":
        tz = UTC
    elif k == "timezone":
        tz = datetime.timezone.utc
    elif k == "dateutil":
        tz = dateutil.tz.tzutc()
    elif k == "zone":
        tz = Timezone("Etc/GMT-2", UTC.observances)
    elif k == "fixed":
        off = sx.int("off", -14 * 60, 14 * 60)
        sx.assume(off != 0)
        tz = datetime.timezone(datetime.timedelta(minutes=off), *sx.choice("name", ((), ("UTC",), ("X",))))
    v = sx.dt("v", tz=tz)
    sx.check(is_utc(v) == want, "of a datetime")
    if k != "none":
        sx.check(is_utc(tz) == want, "of a zone")


@case()
def validator(sx):
    """the validator accepts exactly the datetimes in UTC"""
    k = sx.choice("k", ("UTC", "timezone", "fixed", "naive", "date"))

    class attribute:
        name = "stamp"

    off = sx.int("off", 1, 14 * 60)
    tz = {"UTC": UTC, "timezone": datetime.timezone.utc}.get(k)
    if k == "fixed":
        tz = datetime.timezone(datetime.timedelta(minutes=off))
    v = sx.date("v") if k == "date" else sx.dt("v", tz=tz)
    exc, _ = sx.raises(validate_utc, None, attribute, v)
    if k == "date":
        sx.check(isinstance(exc, TypeError), "no datetime")
    elif k in ("UTC", "timezone"):
        sx.check(exc is None, "UTC is accepted")
    else:
        sx.check(isinstance(exc, ValueError), "everything else is rejected")


NAMES = ("GMT", "Custom/GMT", "Etc/GMT-2", "Europe/London", "UTC+1", "X/UTC", "MyUTC", "UTC/X", "ETC/UTC1", "Zulu", "Z", "")


@case(dict(kind="listed"), dict(kind="any"))
def custom(sx, kind):
    """a zone with an offset is not taken for UTC, whatever else it is called, and its times are converted"""
    local = sx.local()
    if kind == "listed":
        name = sx.choice("name", NAMES)
    else:
        name = sx.choice("prefix", ("", "Etc/", "UT")) + sx.str("name", (0, sx.pick(3, 4)), "ascii")
        sx.assume(sx.and_(name.upper() != "UTC", name.upper() != "ETC/UTC"))
    tz, off = zone(sx, name)
    sx.assume(off != datetime.timedelta(0))
    v = sx.dt("v", tz=tz, rep="f")
    sx.check(not is_utc(v), "a time in the zone is no UTC time")
    sx.check(not is_utc(tz), "the zone isn't UTC")
    got = ensure_utc(v)
    sx.check(is_utc(got), "the result is in UTC")
    sx.check(sx.wall(got) == sx.wall(v) - sx.us(off), "the instant is kept")
    ev = Event(begin=v, dtstamp=(2020, 1, 1))
    lines = [x for x in ev.to_container() if x.name == "DTSTART"]
    sx.check(len(lines) == 1 and not lines[0].value.endswith("Z"), "not written as UTC")


class Own(datetime.tzinfo):
    """a zone of the user's program"""

    def __init__(self, name, off):
        self.name = name
        self.off = off

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return self.name

    def __str__(self):
        return self.name


@case(dict(kind="listed"), dict(kind="any"))
def own(sx, kind):
    """neither is a zone of the user's program, whatever it is called"""
    if kind == "listed":
        name = sx.choice("name", NAMES)
    else:
        name = sx.choice("prefix", ("", "Etc/", "UT")) + sx.str("name", (0, sx.pick(3, 4)), "ascii")
        sx.assume(sx.and_(name.upper() != "UTC", name.upper() != "ETC/UTC"))
    off = datetime.timedelta(minutes=1) * sx.int("off", -14 * 60, 14 * 60)
    sx.assume(off != datetime.timedelta(0))
    tz = Own(name, off)
    v = sx.dt("v", tz=tz, rep="f")
    sx.check(not is_utc(v), "a time in the zone is no UTC time")
    sx.check(not is_utc(tz), "the zone isn't UTC")
    got = ensure_utc(v)
    sx.check(is_utc(got), "the result is in UTC")
    sx.check(sx.wall(got) == sx.wall(v) - sx.us(off), "the instant is kept")
    ev = Event(created=v, dtstamp=(2020, 1, 1))
    sx.check(sx.wall(ev.created) == sx.wall(got), "also in attributes")
