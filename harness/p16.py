"""DATE-TIME, DATE and TIME values"""
import datetime
from datetime import timedelta

from ics.valuetype.datetime import DateConverter, DatetimeConverter, TimeConverter

from hcommon import UTCS, zone
from sx.api import case

BOUNDS = (
    "every date of the years 1..9999, every whole second of those days; floating, UTC in every representation the library knows, and in zones "
    "with an arbitrary fixed offset that are defined in the calendar; every combination of the short forms; every text of digits of the right length"
)
OUTSIDE = "fractions of a second (the format has none), the second pass of a repeated hour in a named zone (the format cannot tell)"


def new_context():
    from collections import defaultdict

    return defaultdict(lambda: None)


@case(*[dict(y0=a, y1=b) for a, b in ((1, 9), (10, 99), (100, 999), (1000, 1899), (1900, 1999), (2000, 2099), (2100, 9998))])
def floating(sx, y0, y1):
    d = sx.dt("d", y0, y1, rep="f")
    params = {}
    raw = DatetimeConverter.serialize(d, params, new_context())
    sx.observe("raw", raw)
    sx.check(not params, "no parameters")
    sx.check(len(raw) == 15, "YYYYMMDDTHHMMSS")
    sx.check(raw[8] == "T", "T separates date and time")
    sx.check(sx.and_(*[sx.and_(c >= "0", c <= "9") for c in raw[:8] + raw[9:]]), "digits")
    back = DatetimeConverter.parse(raw, {}, new_context())
    sx.check(back.tzinfo is None, "floating")
    sx.check(back == d, "the same time is read")


@case(*[dict(kind=k) for k in UTCS])
def utc(sx, kind):
    d = sx.dt("d", 1000, 9998, rep="f").replace(tzinfo=UTCS[kind])
    params = {}
    raw = DatetimeConverter.serialize(d, params, new_context())
    sx.check(not params, "no parameters")
    sx.check(raw[-1] == "Z", "marked as UTC")
    back = DatetimeConverter.parse(raw, {}, new_context())
    sx.check(back.utcoffset() == timedelta(0), "UTC is read")
    sx.check(back.replace(tzinfo=None) == d.replace(tzinfo=None), "the same instant is read")


@case()
def zoned(sx):
    z, off = zone(sx)
    d = sx.dt("d", 1000, 9998, rep="f").replace(tzinfo=z)
    params = {}
    context = new_context()
    raw = DatetimeConverter.serialize(d, params, context)
    sx.check(params == {"TZID": ["X/Zone"]}, "the zone is named")
    sx.check(context[DatetimeConverter.CONTEXT_KEY_AVAILABLE_TZ] == {"X/Zone": z}, "the zone is recorded for the calendar")
    sx.check(len(raw) == 15, "no UTC mark")
    back = DatetimeConverter.parse(raw, params, context)
    sx.check(back.tzinfo is z, "the same zone is read")
    sx.check(back.replace(tzinfo=None) == d.replace(tzinfo=None), "the same wall clock time is read")
    sx.check(back.utcoffset() == off, "with the same offset")
    sx.check(not params, "the parameter is used up")


@case(*[dict(y0=a, y1=b) for a, b in ((1, 9), (10, 99), (100, 999), (1000, 9998))])
def dates(sx, y0, y1):
    d = sx.date("d", y0, y1, rep="f")
    raw = DateConverter.serialize(d)
    sx.observe("raw", raw)
    sx.check(len(raw) == 8, "YYYYMMDD")
    back = DateConverter.parse(raw, {}, new_context())
    sx.check(back == d, "the same date is read")


@case(dict(kind="naive"), dict(kind="stdlib"), dict(kind="dateutil"))
def times(sx, kind):
    t = sx.time("t", tz=UTCS.get(kind))
    params = {}
    raw = TimeConverter.serialize(t, params, new_context())
    sx.observe("raw", raw)
    sx.check(raw[-1] == "Z" if kind != "naive" else len(raw) == 6, "marked as UTC")
    sx.check(not params, "no parameters")
    back = TimeConverter.parse(raw, params, new_context())
    sx.check((back.hour, back.minute, back.second) == (t.hour, t.minute, t.second), "the same time is read")
    sx.check((back.tzinfo is None) == (t.tzinfo is None), "floating stays floating")


DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def month_days(sx, y, m):
    n = 31
    for i, k in enumerate(DAYS):
        n = sx.ite(m == i + 1, k, n)
    leap = sx.and_(y % 4 == 0, sx.or_(y % 100 != 0, y % 400 == 0))
    return sx.ite(sx.and_(m == 2, leap), 29, n)


def num(s):
    n = 0
    for c in s:
        n = n * 10 + (ord(c) - 48)
    return n


@case(dict(form="YYYYMMDDTHHMMSS"), dict(form="YYYYMMDDTHHMMSSZ"), dict(form="YYYYMMDDTHHMM"), dict(form="YYYYMMDDTHH"), dict(form="YYYYMMDD"))
def read(sx, form):
    """a well-formed text is read as exactly the time it denotes, or rejected when there is no such time"""
    digits = sx.str("digits", sum(c not in "TZ" for c in form), "digit")
    text = digits[:8] + ("T" if "T" in form else "") + digits[8:] + ("Z" if form.endswith("Z") else "")
    y, m, d = num(digits[:4]), num(digits[4:6]), num(digits[6:8])
    hms = [num(digits[i:i + 2]) for i in range(8, len(digits), 2)]
    ok = sx.and_(y >= 1, m >= 1, m <= 12, d >= 1, d <= month_days(sx, y, m), *[v <= hi for v, hi in zip(hms, (23, 59, 61))])
    exc, got = sx.raises(DatetimeConverter.parse, text, {}, new_context())
    if exc is None:
        sx.check(ok, "there is such a time")
        sx.check(sx.and_(got.year == y, got.month == m, got.day == d), "date")
        h = hms + [0] * (3 - len(hms))
        sx.check(sx.and_(got.hour == h[0], got.minute == h[1], got.second == h[2]), "time")
        sx.check(got.microsecond == 0, "whole seconds")
        sx.check((got.tzinfo is not None) == form.endswith("Z"), "UTC mark")
    else:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        if len(hms) == 3:
            # leap seconds cannot be represented
            ok = sx.and_(ok, hms[2] <= 59)
        sx.check(sx.not_(ok), "there is no such time")


@case()
def read_zone(sx):
    """the mark for UTC contradicts a named zone; unknown zones are rejected"""
    z, off = zone(sx)
    digits = sx.str("h", 2, "=01")
    context = new_context()
    context[DatetimeConverter.CONTEXT_KEY_AVAILABLE_TZ] = {"X/Zone": z}
    exc, got = sx.raises(DatetimeConverter.parse, "20200101T" + digits + "0000Z", {"TZID": ["X/Zone"]}, context)
    sx.check(isinstance(exc, ValueError), "UTC mark and zone at the same time")
    exc, got = sx.raises(DatetimeConverter.parse, "20200101T" + digits + "0000", {"TZID": ["X/Other"]}, context)
    sx.check(isinstance(exc, ValueError), "unknown zone")
    exc, got = sx.raises(DatetimeConverter.parse, "20200101T" + digits + "0000", {"TZID": ["X/Zone", "X/Zone"]}, context)
    sx.check(isinstance(exc, ValueError), "two zones")
