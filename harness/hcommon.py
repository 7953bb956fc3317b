"""helpers shared by the harnesses (run symbolically and concretely)"""
import datetime
from datetime import timedelta

import dateutil.rrule
import dateutil.tz

from ics.timespan import EventTimespan
from ics.timezone import UTC, Timezone, TimezoneDaylightObservance, TimezoneStandardObservance

DAY = timedelta(days=1)
SECOND = timedelta(seconds=1)
ZERO = timedelta(0)


def instant(sx, name, kind, y0=2, y1=9990, unit=None, rep="w"):
    """kind: none | naive | midnight | aware (symbolic fixed offset) | local"""
    if kind == "none":
        return None
    if kind == "naive":
        return sx.dt(name, y0, y1, unit=unit, rep=rep)
    if kind == "midnight":
        return sx.dt(name, y0, y1, unit=unit, midnight=True, rep=rep)
    if kind == "aware":
        return sx.dt(name, y0, y1, tz=sx.tz(name + ".off"), unit=unit, rep=rep)
    raise KeyError(kind)


def is_midnight(d):
    return d == d.replace(hour=0, minute=0, second=0, microsecond=0)


def abs_us(sx, d, local):
    """microseconds on the absolute (UTC) scale; naive values are local times"""
    w = sx.wall(d)
    off = d.utcoffset() if d.tzinfo is not None else local
    return w - sx.us(off)


def valid(sx, cls, b, e, d, precision):
    """the documented rules, written independently of the implementation"""
    if b is None:
        if d is not None:
            return False
        if e is None:
            return True
        if cls is EventTimespan:
            return False
        if precision == "day":
            return e.tzinfo is None and is_midnight(e)
        return True
    ok = True
    if precision == "day":
        if b.tzinfo is not None:
            return False
        ok = sx.and_(ok, is_midnight(b))
    if e is not None:
        if d is not None:
            return False
        if (b.tzinfo is None) != (e.tzinfo is None):
            return False
        ok = sx.and_(ok, b <= e)
        if precision == "day":
            ok = sx.and_(ok, is_midnight(e), e - b >= DAY)
    if d is not None:
        ok = sx.and_(ok, d >= ZERO)
        if precision == "day":
            ok = sx.and_(ok, d >= DAY, d % DAY == ZERO)
    return ok


def start_state(sx, cls, precision):
    """an arbitrary valid timespan"""
    kb = sx.choice("kb", ("none", "naive", "aware") if precision == "second" else ("none", "midnight"))
    if kb == "none":
        ends = ("none",) if cls is EventTimespan else ("none", "end")
    else:
        ends = ("none", "end", "duration")
    rep = sx.choice("rep", ends)
    b = instant(sx, "b", kb)
    e = d = None
    if rep == "end":
        ke = kb if kb != "none" else sx.choice("ke", ("naive", "aware") if precision == "second" else ("midnight",))
        e = instant(sx, "e", ke)
        if b is not None:
            sx.assume(b <= e if precision == "second" else e - b >= DAY)
    elif rep == "duration":
        if precision == "day":
            d = DAY * sx.int("days", 1, 2000)
        else:
            d = sx.td("d", 0, 2000 * 86400, unit=1)
    return cls(b, e, d, precision)


def some_state(sx, entry, precision):
    """an event or todo with an arbitrary valid timespan"""
    return entry(timespan=start_state(sx, entry._TIMESPAN_TYPE, precision), uid="u", dtstamp=(2020, 1, 1))


def _observance(cls, before, after, *onsets):
    rules = dateutil.rrule.rruleset()
    for d in onsets:
        rules.rdate(datetime.datetime(*d))
    return cls(timedelta(hours=before), timedelta(hours=after), rules, "N%d" % after)


def dst():
    """a zone with daylight saving time from 2020-03-29 until 2020-10-25"""
    return Timezone(
        "X/DST",
        [
            _observance(TimezoneStandardObservance, 2, 1, (2019, 10, 27, 3), (2020, 10, 25, 3)),
            _observance(TimezoneDaylightObservance, 1, 2, (2020, 3, 29, 2)),
        ],
    )


def zoned(sx, name, kind, unit=None, steady=True):
    """kind: dst (in the zone above, in 2020), aware or naive; steady: not in an hour that is skipped or repeated"""
    if kind == "dst":
        d = sx.dt(name, 2020, 2020, tz=dst(), unit=unit)
        if steady:
            for day in ((2020, 3, 29), (2020, 10, 25)):
                t = datetime.datetime(*day, 2)
                sx.assume(sx.or_(sx.wall(d) < sx.wall(t), sx.wall(d) >= sx.wall(t + timedelta(hours=1))))
        return d
    return sx.dt(name, 2020, 2020, tz=sx.tz(name + ".off") if kind == "aware" else None, unit=unit)


UTCS = {"stdlib": datetime.timezone.utc, "dateutil": dateutil.tz.UTC, "ics": UTC}


def fixed(tzid, off):
    """a zone with this offset"""
    rules = dateutil.rrule.rruleset()
    rules.rdate(datetime.datetime(1970, 1, 1))
    return Timezone(tzid, [TimezoneStandardObservance(off, off, rules, "Z")])


def zone(sx, tzid="X/Zone", name="off"):
    off = timedelta(minutes=1) * sx.int(name, -14 * 60, 14 * 60)
    return fixed(tzid, off), off
