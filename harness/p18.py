"""UTC-OFFSET values"""
from datetime import timedelta

from ics.valuetype.datetime import UTCOffsetConverter

from sx.api import case

BOUNDS = "every whole-second offset of less than 100 hours in either direction; every text of up to 5 (thorough: 7) characters over signs, digits and a letter"
OUTSIDE = "fractions of a second"


@case()
def roundtrip(sx):
    v = sx.td("v", -(100 * 3600 - 1), 100 * 3600 - 1)
    raw = UTCOffsetConverter.serialize(v)
    sx.observe("raw", raw)
    sx.check(UTCOffsetConverter.parse(raw) == v, "the same offset is read")
    sx.check(raw[0] in "+-", "there always is a sign")
    sx.check(len(raw) == 5 or len(raw) == 7, "HHMM or HHMMSS")
    sx.check(raw != "-0000", "no negative zero")


@case(*[dict(n=n) for n in range(0, 8)])
def any_text(sx, n):
    """exactly the well-formed texts are read, as the offset they denote"""
    text = sx.str("text", n, "=+-012345678a" if n < 6 else "=+-05a")
    exc, got = sx.raises(UTCOffsetConverter.parse, text)
    sign = n > 0 and (text[0] == "+" or text[0] == "-")
    digits = text[1:] if sign else text
    ok = len(digits) in (4, 6)
    if ok:
        ok = sx.and_(*[sx.and_("0" <= c, c <= "9") for c in digits])
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "malformed texts are rejected with a ValueError")
        sx.check(sx.not_(ok), "only malformed texts are rejected")
        return
    sx.check(ok, "only well-formed texts are accepted")
    if len(digits) not in (4, 6):
        return
    v = 0
    for i, f in zip(range(0, len(digits), 2), (3600, 60, 1)):
        v = v + (ord(digits[i]) * 10 + ord(digits[i + 1]) - 48 * 11) * f
    want = timedelta(seconds=1) * v
    if sign and text[0] == "-":
        want = -want
    sx.check(got == want, "the denoted offset is read")
