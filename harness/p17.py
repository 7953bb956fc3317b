"""DURATION values"""
from datetime import timedelta

from ics.valuetype.datetime import DurationConverter

from sx.api import case

BOUNDS = (
    "every whole-second duration of at most 100000 days magnitude; every text of up to 4 (thorough: 5) characters over the characters of the format; "
    "every length with microseconds within +-1000 days; every text that repeats a unit; every well-formed text with arbitrary numbers of up to three digits in every combination of units"
)
OUTSIDE = "longer texts and numbers"

UNITS = {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}


@case()
def roundtrip(sx):
    v = sx.td("value", -100000 * 86400, 100000 * 86400)
    txt = DurationConverter.serialize(v)
    sx.observe("txt", txt)
    back = DurationConverter.parse(txt)
    sx.check(back == v, "parse(serialize(v)) == v")
    sx.check(txt.lstrip("+-").startswith("P"), "starts with P")
    check_grammar(sx, txt)


def check_grammar(sx, txt):
    """the form of RFC 5545: [+-]P(nW | nD[T...] | T(nH[nM[nS]] | nM[nS] | nS))"""
    i = 0
    if txt[0] == "-" or txt[0] == "+":
        i = 1
    sx.check(txt[i] == "P", "starts with P")
    i += 1
    seen = ""
    while i < len(txt):
        if txt[i] == "T":
            sx.check("T" not in seen, "a single T")
            seen += "T"
            i += 1
            continue
        n = 0
        while i < len(txt) and sx.and_("0" <= txt[i], txt[i] <= "9"):
            i += 1
            n += 1
        sx.check(n > 0, "every unit has a number")
        sx.check(i < len(txt), "every number has a unit")
        sx.check(txt[i] in "DHMS", "known units")
        seen += txt[i]
        i += 1
    sx.check(seen in ("D", "DTH", "DTHM", "DTHMS", "DTHS", "DTM", "DTMS", "DTS", "TH", "THM", "THMS", "THS", "TM", "TMS", "TS"), "units in order, T before the time")


@case(*[dict(units=u) for u in ("W", "D", "TH", "TM", "TS", "DTHMS", "DTS", "THM", "TMS")], *[dict(units=u, digits=3) for u in ("W", "D", "TS", "DTHM")])
def read(sx, units, digits=2):
    """every well-formed text is read as the duration it denotes"""
    sign = sx.choice("sign", ("", "+", "-"))
    text = sign + "P"
    total = 0
    for i, u in enumerate(units):
        if u == "T":
            text += "T"
            continue
        n = sx.str(f"n{i}", (1, digits), "digit")
        text += n + u
        v = 0
        for c in n:
            v = v * 10 + ord(c) - 48
        total = total + v * UNITS[u]
    got = DurationConverter.parse(text)
    want = timedelta(seconds=1) * total
    sx.check(got == (-want if sign == "-" else want), "the denoted duration is read")


@case()
def fractions(sx):
    """fractions of a second can not be expressed; the rest of the value is kept"""
    v = sx.td("value", -1000 * 86400, 1000 * 86400, unit=1)
    back = DurationConverter.parse(DurationConverter.serialize(v))
    us = sx.us(v)
    whole = sx.us(back)
    sx.check(whole % 10**6 == 0, "whole seconds are written")
    if us >= 0:
        sx.check(sx.and_(whole <= us, us - whole < 10**6), "only the fraction is lost")
    else:
        sx.check(sx.and_(us <= whole, whole - us < 10**6), "only the fraction is lost")


@case()
def repeated(sx):
    """a unit can be given once"""
    n = sx.pick(2, 3)
    text = sx.choice("sign", ("", "-")) + "P"
    units = []
    total = 0
    for i in range(n):
        if "T" not in text and sx.choice(f"t{i}", (False, True)):
            text += "T"
        u = sx.choice(f"u{i}", "WDHMS")
        v = sx.str(f"n{i}", (1, 2), "digit")
        units.append(u)
        text += v + u
    exc, got = sx.raises(DurationConverter.parse, text)
    sx.observe("got", got if exc is None else type(exc))
    if len(set(units)) < n:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")


@case()
def any_text(sx):
    """every text is read as a duration or rejected with a ValueError"""
    text = sx.str("text", (0, sx.pick(4, 5)), "=+-PTDS1")
    exc, got = sx.raises(DurationConverter.parse, text)
    sx.observe("got", got if exc is None else type(exc))
    if exc is None:
        sx.check(text.lstrip("+-").startswith("P"), "starts with P")
        sx.check(DurationConverter.parse(DurationConverter.serialize(got)) == got, "kept when written and read again")
    else:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
