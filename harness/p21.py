"""definitions of time zones"""
import datetime
from datetime import timedelta

import dateutil.rrule

from ics import Calendar, Event
from ics.contentline import Container, ContentLine, string_to_container
from ics.timezone import (
    Timezone,
    TimezoneDaylightObservance,
    TimezoneStandardObservance,
)

from sx.api import case

BOUNDS = (
    "zones with up to three observances with arbitrary offsets in whole minutes (within +-14 h); up to two onsets each at any second of 2000..2030, given as start, dates or lists of dates, up to two "
    "of them excluded; yearly rules for the first to last weekday of a month with any number of occurrences or any end within 2000..2004 (local) or 2000..2003 (UTC), every or every second year, queried at any second of 1999..2003; "
    "identifiers, names, comments and addresses of up to 2 arbitrary characters; any time of the last modification"
)
OUTSIDE = "other kinds of rules (they are read, written and evaluated by dateutil), rules over more years, more observances"

CLS = dict(S=TimezoneStandardObservance, D=TimezoneDaylightObservance)
HOUR = timedelta(hours=1)


def offset(sx, name):
    return timedelta(minutes=1) * sx.int(name, -14 * 60, 14 * 60)


def text_of(comp):
    return comp.to_container().serialize(wrap=None)


def recode(zone):
    return Timezone.from_container(string_to_container(text_of(zone)))


def same(sx, got, want):
    """the observances, but for their onsets"""
    sx.check(got.tzid == want.tzid, "same identifier")
    sx.check(len(got.observances) == len(want.observances), "every observance")
    for g, w in zip(got.observances, want.observances):
        sx.check(type(g) is type(w), "same kind")
        sx.check(g.tzoffsetfrom == w.tzoffsetfrom, "same offset before")
        sx.check(g.tzoffsetto == w.tzoffsetto, "same offset after")
        sx.check(g.tzname == w.tzname, "same name of the observance")
        sx.check(g.comment == w.comment, "same comment")


def onsets(sx, obs, want):
    """the onsets of an observance that has only dates"""
    got = [d for d in obs.rrule._rdate if not any(d == x for x in obs.rrule._exdate)]
    sx.check(obs.rrule._rrule == [], "no rule")
    for d in want:
        sx.check(sx.or_(*[x == d for x in got]), "onset kept")
    for x in got:
        sx.check(sx.or_(*[x == d for d in want]), "no other onset")


@case(*[dict(shape=s) for s in ("S1", "D1", "S1 D1", "D1 S1", "S2", "S1 D1 S1")])
def dates(sx, shape):
    """observances that begin at given times"""
    offs = [offset(sx, "a"), offset(sx, "b") if " " not in shape else HOUR]
    info = []
    for i, k in enumerate(shape.split()):
        rules = dateutil.rrule.rruleset()
        on = [sx.dt(f"on{i}{j}", 2000 + j, 2030 if j else 2010, rep="f") for j in range(int(k[1]))]
        for d in on:
            rules.rdate(d)
        kw = [None, f"N{i}"][i % 2]
        info.append((CLS[k[0]](offs[i % 2], offs[1 - i % 2], rules, kw), on))
    zone = Timezone("X/Test", [o for o, _ in info])
    back = recode(zone)
    same(sx, back, zone)
    for g, (o, on) in zip(back.observances, info):
        onsets(sx, g, on)
    sx.check(text_of(recode(back)) == text_of(back), "written the same again")


@case()
def excluded(sx):
    """excluded dates"""
    on = [sx.dt(f"on{j}", 2000, 2000, rep="f") for j in range(2)]
    rules = dateutil.rrule.rruleset()
    for d in on:
        rules.rdate(d)
    which = sx.choice("which", (0, 1, "other"))
    ex = on[which] if which != "other" else datetime.datetime(1999, 1, 1)
    rules.exdate(ex)
    more = dateutil.rrule.rruleset()
    more.rdate(on[0])
    zone = Timezone("X", [TimezoneStandardObservance(HOUR, HOUR, rules), TimezoneDaylightObservance(HOUR, 2 * HOUR, more)])
    back = recode(zone)
    same(sx, back, zone)
    sx.check(len(back.observances[0].rrule._exdate) == 1 and back.observances[0].rrule._exdate[0] == ex, "the excluded date")
    onsets(sx, back.observances[0], [d for d in on if d != ex])
    onsets(sx, back.observances[1], on[:1])
    sx.check(back.observances[1].rrule._exdate == [], "no excluded dates of the other one")


def stamp(d):
    return "%04d%02d%02dT%02d%02d%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)


@case(*[dict(how=h) for h in ("start", "dates", "list", "all", "lines")])
def from_file(sx, how):
    """onsets as they are found in files"""
    d = [sx.dt(f"on{i}", 2000 + i, 2000 + i, rep="f") for i in range(2)]
    a, b = stamp(d[0]), stamp(d[1])
    lines, want = {
        "start": (["DTSTART:" + a], d[:1]),
        "dates": (["RDATE:" + a, "RDATE:" + b], d),
        "list": (["RDATE:" + b + "," + a], d),
        "all": (["DTSTART:" + a, "RDATE:" + b], d),
        "lines": (["DTSTART:" + a, "RDATE:" + a, "EXDATE:" + b, "RDATE:" + b], d[:1]),
    }[how]
    text = ["BEGIN:VTIMEZONE", "TZID:Z", "BEGIN:STANDARD", *lines, "TZOFFSETFROM:+0200", "TZOFFSETTO:+0100", "END:STANDARD", "END:VTIMEZONE"]
    zone = Timezone.from_container(string_to_container("\r\n".join(text)))
    (o,) = zone.observances
    sx.check(o.tzoffsetto == HOUR and o.tzoffsetfrom == 2 * HOUR, "offsets")
    onsets(sx, o, want)
    onsets(sx, recode(zone).observances[0], want)


WEEKDAYS = ("MO", "TU", "WE", "TH", "FR", "SA", "SU")


def nth(year, month, n, weekday, hour):
    """the n-th weekday of a month, n < 0: from its end"""
    days = [d for d in range(1, 32) if d <= 28 or datetime.date(year, month, 28) + timedelta(days=d - 28) < datetime.date(year + month // 12, month % 12 + 1, 1)]
    days = [d for d in days if datetime.date(year, month, d).weekday() == weekday]
    return datetime.datetime(year, month, days[n - 1 if n > 0 else n], hour)


SAMPLES = [(3, -1, 6), (4, 1, 6), (10, 2, 5), (11, -2, 0), (1, 3, 3)]


@case(
    *[dict(rule=r, end=e) for r in SAMPLES[:3] for e in ("none", "count", "until", "utc", "interval")],
    *[dict(rule=r, end="none") for r in SAMPLES[3:]],
    *[dict(rule=r, end="none", minutes=None) for r in SAMPLES[:1]],
)
def rules(sx, rule, end, minutes=-210):
    """yearly rules as in files, alternating with another observance"""
    month, n, wd = rule
    std = offset(sx, "std") if minutes is None else timedelta(minutes=minutes)
    years = [2000, 2001, 2002, 2003]
    on = [nth(y, month, n, wd, 2) for y in years]
    off = [datetime.datetime(y, month % 12 + 1, 15, 3) + timedelta(days=365 if month == 12 else 0) for y in years]
    line = "RRULE:FREQ=YEARLY"
    keep = [True] * 4
    if end == "count":
        k = sx.int("count", 1, 4)
        line += ";COUNT=" + str(k)
        keep = [i < k for i in range(4)]
    elif end == "until":
        u = sx.dt("until", 2000, 2004, rep="f")
        sx.assume(u >= on[0])
        line += ";UNTIL=" + stamp(u)
        keep = [d <= u for d in on]
    elif end == "utc":
        # this is how RFC 5545, 3.3.10, wants it
        u = sx.dt("until", 2000, 2003, rep="f")
        sx.assume(u >= on[0] - std)
        line += ";UNTIL=" + stamp(u) + "Z"
        keep = [d - std <= u for d in on]
    elif end == "interval":
        line += ";INTERVAL=2"
        keep = [True, False, True, False]
    line += f";BYDAY={n}{WEEKDAYS[wd]};BYMONTH={month}"
    s = timedelta_text(sx, std)
    t = timedelta_text(sx, std + HOUR)
    text = ["BEGIN:VTIMEZONE", "TZID:Z", "BEGIN:DAYLIGHT", "TZNAME:D", "DTSTART:" + stamp(on[0]), "TZOFFSETFROM:" + s, "TZOFFSETTO:" + t, line, "END:DAYLIGHT"]
    text += ["BEGIN:STANDARD", "TZNAME:S", "DTSTART:" + stamp(off[0]), "TZOFFSETFROM:" + t, "TZOFFSETTO:" + s, *["RDATE:" + stamp(d) for d in off[1:]], "END:STANDARD", "END:VTIMEZONE"]
    zone = Timezone.from_container(string_to_container("\r\n".join(text)))
    back = recode(zone)
    same(sx, back, zone)
    q = sx.dt("q", 1999, 2003)
    w = sx.wall(q)
    # the kind of the last onset
    day = 0
    for o, k, f in zip(on, keep, off):
        day = sx.ite(sx.and_(k, w >= sx.wall(o)), 1, day)
        day = sx.ite(w >= sx.wall(f), 0, day)
    day = day == 1
    for z, label in ((zone, "read"), (back, "written and read again")):
        at = q.replace(tzinfo=z)
        sx.check(sx.us(at.utcoffset()) == sx.us(std) + sx.ite(day, 3600000000, 0), "offset: " + label)
        sx.check(sx.iff(at.dst() == HOUR, day), "daylight saving time: " + label)
        sx.check(sx.iff(at.tzname() == "D", day), "name: " + label)
    sx.check(text_of(recode(back)) == text_of(back), "written the same again")


@case(*[dict(freq=f) for f in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY")])
def intervals(sx, freq):
    """the interval and the number of repetitions are written as they are, whatever their length"""
    n = sx.choice("interval", (1, 2, 9, 10, 11, 19, 100))
    count = sx.choice("count", (1, 2, 10, 12, 100))
    start = datetime.datetime(1990, 1, 1, 2)
    text = ["BEGIN:VTIMEZONE", "TZID:Z", "BEGIN:STANDARD", "TZNAME:S", "DTSTART:" + stamp(start), "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200"]
    text += [f"RRULE:FREQ={freq};INTERVAL={n};COUNT={count}", "END:STANDARD", "END:VTIMEZONE"]
    zone = Timezone.from_container(string_to_container("\r\n".join(text)))
    line = [x.value for x in zone.to_container()[1] if x.name == "RRULE"]
    sx.check(len(line) == 1, "one rule")
    parts = dict(p.split("=") for p in line[0].split(";"))
    sx.check(parts.get("FREQ") == freq, "frequency")
    sx.check(int(parts.get("INTERVAL", "1")) == n, "interval")
    sx.check(int(parts.get("COUNT", "0")) == count, "count")


def timedelta_text(sx, t):
    """UTC offset in the form of the standard"""
    m = sx.us(t) // 60000000
    sign = "+" if m >= 0 else "-"
    if m < 0:
        m = -m
    return sign + "%02d%02d" % (m // 60, m % 60)


@case()
def address(sx):
    value = "http://" + sx.str("v", (1, 2), "letter") + "/x"
    text = ["BEGIN:VTIMEZONE", "TZID:Z", "TZURL:" + value, "BEGIN:STANDARD", *list(PARTS.values())[1:], "END:STANDARD", "END:VTIMEZONE"]
    zone = Timezone.from_container(string_to_container("\r\n".join(text)))
    sx.check(zone.tzurl.geturl() == value, "address as in the file")
    sx.check(recode(zone).tzurl.geturl() == value, "same address")


@case(*[dict(field=f) for f in ("tzid", "tzname", "comment")])
def texts(sx, field):
    value = sx.str("v", (1, 2))
    rules = dateutil.rrule.rruleset()
    rules.rdate(datetime.datetime(1970, 1, 1))
    kw = {field: value} if field in ("tzname", "comment") else {}
    o = TimezoneStandardObservance(HOUR, HOUR, rules, **kw)
    zone = Timezone(value if field == "tzid" else "Z", [o])
    same(sx, recode(zone), zone)


@case()
def modified(sx):
    at = sx.dt("at", 1970, 2100, rep="f", tz=datetime.timezone.utc)
    rules = dateutil.rrule.rruleset()
    rules.rdate(datetime.datetime(1970, 1, 1))
    zone = Timezone("Z", [TimezoneStandardObservance(HOUR, HOUR, rules)], last_modified=at)
    back = recode(zone)
    sx.check(back.last_modified == at, "same time of the last modification")


PARTS = {"TZID": "TZID:Z", "TZOFFSETFROM": "TZOFFSETFROM:+0100", "TZOFFSETTO": "TZOFFSETTO:+0200", "DTSTART": "DTSTART:19700101T000000"}


@case(*[dict(missing=m) for m in PARTS], *[dict(missing=m, how="twice") for m in PARTS if m != "DTSTART"])
def incomplete(sx, missing, how="missing"):
    """required properties are given exactly once"""
    value = PARTS[missing]
    lines = ["BEGIN:VTIMEZONE", PARTS["TZID"], "BEGIN:STANDARD", PARTS["DTSTART"], PARTS["TZOFFSETFROM"], PARTS["TZOFFSETTO"], "END:STANDARD", "END:VTIMEZONE"]
    at = lines.index(value)
    if how == "twice":
        lines.insert(at + 1, value)
    else:
        del lines[at]
    exc, zone = sx.raises(lambda: Timezone.from_container(string_to_container("\r\n".join(lines))))
    sx.observe("exc", None if exc is None else type(exc))
    sx.check(isinstance(exc, ValueError), "refused with a ValueError")
