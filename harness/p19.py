"""PERIOD values"""
import datetime
from collections import defaultdict
from datetime import timedelta

from ics.timespan import Timespan
from ics.valuetype.datetime import DatetimeConverter, PeriodConverter

from hcommon import UTCS, zone
from sx.api import case

BOUNDS = "periods given by begin and end or begin and duration (up to 400 days), every whole second of the years 1000..9990; floating, UTC and in a zone with any fixed offset"
OUTSIDE = "fractions of a second, all-day periods (the format has none)"


def ctx():
    return defaultdict(lambda: None)


@case(*[dict(rep=r, kind=k) for r in ("end", "duration") for k in ("floating", "stdlib", "dateutil", "ics", "zone")])
def roundtrip(sx, rep, kind):
    b = sx.dt("b", 1000, 9990, rep="f")
    e = sx.dt("e", 1000, 9990, rep="f") if rep == "end" else None
    d = sx.td("d", 0, 400 * 86400) if rep == "duration" else None
    tz = zone(sx)[0] if kind == "zone" else UTCS.get(kind)
    if e is not None:
        sx.assume(b <= e)
        e = e.replace(tzinfo=tz)
    b = b.replace(tzinfo=tz)
    ts = Timespan(b, e, d)
    params = {}
    context = ctx()
    raw = PeriodConverter.serialize(ts, params, context)
    sx.check(params == ({"TZID": ["X/Zone"]} if kind == "zone" else {}), "parameters name the zone, if there is one")
    sx.check(raw.count("/") == 1, "two parts")
    back = PeriodConverter.parse(raw, params, context)
    sx.check(back.get_end_representation() == rep, "same representation of the end")
    sx.check(back.get_begin().replace(tzinfo=None) == b.replace(tzinfo=None), "same begin")
    sx.check((back.get_begin().tzinfo is None) == (tz is None), "floating stays floating")
    if tz is not None:
        sx.check(back.get_begin().utcoffset() == b.utcoffset(), "same offset")
        sx.check(back.get_effective_end().utcoffset() == b.utcoffset(), "same offset at the end")
    sx.check(back.get_effective_end().replace(tzinfo=None) == ts.get_effective_end().replace(tzinfo=None), "same end")
    if rep == "duration":
        sx.check(back.get_effective_duration() == d, "same duration")


@case()
def partial(sx):
    """a period needs both parts"""
    b = sx.dt("b", 2000, 2030, rep="f")
    kind = sx.choice("kind", ("none", "end", "begin"))
    ts = Timespan() if kind == "none" else Timespan(end_time=b) if kind == "end" else Timespan(b)
    exc, raw = sx.raises(PeriodConverter.serialize, ts, {}, ctx())
    sx.check(isinstance(exc, ValueError), "incomplete periods are rejected")


@case()
def malformed(sx):
    """texts that are no period are rejected"""
    text = sx.str("text", (0, sx.pick(4, 5)), "=/PT1SZ-")
    exc, got = sx.raises(PeriodConverter.parse, "20200101T000000" + text, {}, ctx())
    sx.observe("exc", None if exc is None else type(exc))
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
    else:
        sx.check("/" in text, "there is a separator")


@case()
def mixed(sx):
    """begin and end must be of the same kind"""
    b = sx.dt("b", 2000, 2030, rep="f")
    n = sx.int("n", 0, 86399)
    raw = DatetimeConverter.serialize(b, {}, ctx())
    exc, got = sx.raises(PeriodConverter.parse, raw + "Z/" + "20310101T000000", {}, ctx())
    sx.check(isinstance(exc, ValueError), "UTC begin with floating end")
    exc, got = sx.raises(PeriodConverter.parse, "20310101T000001/" + raw, {}, ctx())
    sx.check(isinstance(exc, ValueError), "end before begin")


@case(*[dict(kind=k) for k in ("zone", "named", "ics", "stdlib")])
def zones(sx, kind):
    """a period has one zone: begin and end in different zones are rejected or read with the same instants"""
    first, off1 = zone(sx, "A/First", "off1")
    if kind == "zone":
        other, off2 = zone(sx, "B/Second", "off2")
    elif kind == "named":
        other, off2 = zone(sx, sx.choice("id", ("a/first", "A/Firs", "A/First2", "")), "off2")
    else:
        other, off2 = UTCS.get(kind), timedelta(0)
    b = sx.dt("b", 2001, 2001, rep="f")
    e = sx.dt("e", 2003, 2003, rep="f")
    swap = sx.choice("swap", (False, True))
    tb, te, ob, oe = (other, first, off2, off1) if swap else (first, other, off1, off2)
    ts = Timespan(b.replace(tzinfo=tb), e.replace(tzinfo=te))
    params, context = {}, ctx()
    exc, raw = sx.raises(PeriodConverter.serialize, ts, params, context)
    sx.observe("exc", None if exc is None else type(exc))
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        return
    back = PeriodConverter.parse(raw, params, context)
    for got, want, off in ((back.get_begin(), b, ob), (back.get_effective_end(), e, oe)):
        sx.check(got.tzinfo is not None, "zone kept")
        sx.check(sx.wall(got) - sx.us(got.utcoffset()) == sx.wall(want) - sx.us(off), "same instant")
