"""offsets of time zones defined by observances"""
import datetime
from datetime import timedelta

import dateutil.rrule

from ics.timezone import (
    Timezone,
    TimezoneDaylightObservance,
    TimezoneStandardObservance,
)

from sx.api import case

BOUNDS = (
    "zones with one to three observances (standard or daylight, in any order), each with up to two onsets at arbitrary whole "
    "seconds of 1990..2060 and arbitrary offsets (whole minutes, +-14 h, shifts of less than a day); queries at any whole second with either fold value; histories of "
    "two queries; instants around alternating standard/daylight onsets; the built-in zone Europe/Berlin over 2000..2030 (recurrence rules)"
)
OUTSIDE = "more observances or onsets, other recurrence rules than those of the built-in zone"

HOUR = 3600


def obs(sx, name, cls, n, rising=None):
    """an observance with n onsets; -> (observance, [onset us], from, to)"""
    f = timedelta(minutes=1) * sx.int(name + ".from", -14 * 60, 14 * 60)
    t = timedelta(minutes=1) * sx.int(name + ".to", -14 * 60, 14 * 60)
    sx.assume(sx.and_(t - f < timedelta(hours=24), f - t < timedelta(hours=24)))
    rules = dateutil.rrule.rruleset()
    onsets = []
    for i in range(n):
        d = sx.dt(f"{name}.on{i}", 1990, 2060)
        if onsets:
            sx.assume(onsets[-1] < sx.wall(d))
        rules.rdate(d)
        onsets.append(sx.wall(d))
    return cls(f, t, rules, name), onsets, f, t


def last_onset(sx, onsets, at):
    """latest onset not after the given wall clock time; -1: none"""
    out = -1
    for o in onsets:
        out = sx.ite(o <= at, o, out)
    return out


def check_query(sx, zone, info, dt, fold):
    """utcoffset, dst and tzname of one query against the definition"""
    w = sx.wall(dt)
    dt = dt.replace(tzinfo=zone, fold=fold)
    got = dt.utcoffset()
    shifted = []
    for o, onsets, f, t in info:
        at = w
        if fold:
            # the repeated hour belongs to the new observance when it is the second pass
            at = sx.ite(t < f, w + sx.us(f) - sx.us(t), w)
        shifted.append(last_onset(sx, onsets, at))
    latest = -1
    for s in shifted:
        latest = sx.ite(s > latest, s, latest)
    # expected: first observance with the latest onset; before all onsets the first standard observance
    want = None
    default = next((i for i in info if not i[0].is_dst), info[0])
    none = latest == -1
    off = sx.us(default[3])
    dst = sx.us(default[3]) - sx.us(default[2]) if default[0].is_dst else 0
    first = True
    for i in reversed(range(len(info))):
        o, onsets, f, t = info[i]
        hit = sx.and_(sx.not_(none), shifted[i] == latest)
        off = sx.ite(hit, sx.us(t), off)
        dst = sx.ite(hit, sx.us(t) - sx.us(f) if o.is_dst else 0, dst)
    sx.check(sx.us(got) == off, "utcoffset is the offset of the observance in effect")
    sx.check(sx.us(dt.dst()) == dst, "dst is the shift of a daylight observance")
    name = dt.tzname()
    sx.check(name in [o.tzname for o, _, _, _ in info], "tzname belongs to the zone")
    for i, s in zip(info, shifted):
        if i[0].tzname == name:
            sx.check(sx.or_(sx.and_(sx.not_(none), s == latest),
                            sx.and_(none, i is default)), "tzname is the name of an observance in effect")
    return got


CLS = dict(S=TimezoneStandardObservance, D=TimezoneDaylightObservance)


def make(sx, shape):
    """shape: e.g. 'S1 D2'"""
    info = [obs(sx, f"{k[0]}{i}", CLS[k[0]], int(k[1])) for i, k in enumerate(shape.split())]
    return Timezone("X/Test", [i[0] for i in info]), info


@case(*[dict(shape=s, fold=f) for s in ("S1", "S1 D1", "D1 S1", "S1 S1", "D1 D1", "S2 D2", "S1 D1 S1") for f in (0, 1)])
def offset(sx, shape, fold):
    zone, info = make(sx, shape)
    dt = sx.dt("v", 1985, 2065, fold=fold)
    if len(info) == 1:
        dt = dt.replace(tzinfo=zone, fold=fold)
        sx.check(dt.utcoffset() == info[0][3], "a single observance is always in effect")
        return
    check_query(sx, zone, info, dt, fold)


@case(*[dict(shape=s, folds=f) for s in ("S1 D1",) for f in ((0, 1), (1, 0), (0, 0), (1, 1))])
def history(sx, shape, folds):
    """the answer does not depend on earlier queries"""
    zone, info = make(sx, shape)
    a = sx.dt("v", 1985, 2065, fold=folds[0])
    same = sx.choice("same", (True, False))
    b = a.replace(fold=folds[1]) if same else sx.dt("w", 1985, 2065, fold=folds[1])
    a.replace(tzinfo=zone, fold=folds[0]).utcoffset()
    check_query(sx, zone, info, b, folds[1])


@case(dict(shape="S1"), dict(shape="S1 D1"))
def dateless(sx, shape):
    """time objects ask without a date"""
    zone, info = make(sx, shape)
    sx.check(zone.utcoffset(None) is None, "no offset without a date")
    exc, d = sx.raises(zone.dst, None)
    sx.check(exc is None and (d is None or len(info) == 1), "no dst")
    exc, n = sx.raises(zone.tzname, None)
    sx.check(exc is None and (n is None or len(info) == 1), "no name")


def alternating(sx, n):
    """a well-formed zone: onsets alternate, at least a day apart, and shift by a positive amount"""
    std = timedelta(minutes=1) * sx.int("std", -12 * 60, 12 * 60)
    save = timedelta(minutes=1) * sx.int("save", 30, 120)
    dst = std + save
    rs, rd = dateutil.rrule.rruleset(), dateutil.rrule.rruleset()
    prev = None
    trans = []
    for i in range(n):
        d = sx.dt(f"on{i}", 2000, 2030)
        if prev is not None:
            sx.assume(sx.wall(d) - prev > 24 * HOUR * 10**6)
        prev = sx.wall(d)
        # onsets are given in the wall clock of the preceding observance
        if i % 2 == 0:
            rd.rdate(d)
            trans.append((prev - sx.us(std), sx.us(dst)))
        else:
            rs.rdate(d)
            trans.append((prev - sx.us(dst), sx.us(std)))
    rs.rdate(datetime.datetime(1990, 1, 1))
    zone = Timezone("X/Alt", [TimezoneStandardObservance(dst, std, rs, "S"), TimezoneDaylightObservance(std, dst, rd, "D")])
    return zone, trans, sx.us(std)


@case(dict(n=1), dict(n=2), dict(n=3))
def instants(sx, n):
    """UTC -> zone -> UTC keeps every instant, also in the repeated hour"""
    zone, trans, std = alternating(sx, n)
    u = sx.dt("u", 1999, 2031, tz=datetime.timezone.utc)
    local = u.astimezone(zone)
    want = std
    for t, off in trans:
        want = sx.ite(sx.wall(u) >= t, off, want)
    sx.check(sx.us(local.utcoffset()) == want, "offset in effect at the instant")
    sx.check(sx.wall(local) == sx.wall(u) + want, "wall clock of the instant")
    back = local.astimezone(datetime.timezone.utc)
    sx.check(sx.wall(back) == sx.wall(u), "the way back yields the same instant")


def eu_transitions(y0, y1):
    """last Sundays of March and October, 01:00 UTC"""
    out = []
    for y in range(y0, y1):
        for m, off in ((3, 2), (10, 1)):
            d = datetime.date(y, m, 31)
            d -= timedelta(days=(d.weekday() + 1) % 7)
            out.append((d.toordinal() * 86400000000 + HOUR * 10**6, off * HOUR * 10**6))
    return out


@case(dict(y0=2010, y1=2013), dict(y0=2019, y1=2022))
def builtin(sx, y0, y1):
    zone = Timezone.from_tzid("Europe/Berlin")
    u = sx.dt("u", y0, y1 - 1, tz=datetime.timezone.utc)
    local = u.astimezone(zone)
    want = HOUR * 10**6
    for t, off in eu_transitions(y0, y1):
        want = sx.ite(sx.wall(u) >= t, off, want)
    sx.check(sx.us(local.utcoffset()) == want, "offset in effect at the instant")
    sx.check(sx.wall(local) == sx.wall(u) + want, "wall clock of the instant")
    sx.check(sx.wall(local.astimezone(datetime.timezone.utc)) == sx.wall(u), "the way back yields the same instant")
