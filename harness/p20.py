"""INTEGER, BOOLEAN and BINARY values"""
from ics.valuetype.generic import BinaryConverter, BooleanConverter, IntegerConverter

from sx.api import case

BOUNDS = "every integer of up to 60 digits; every text of up to 5 letters and digits as a boolean; every sequence of up to 5 (thorough: 9) bytes, two arbitrary bytes within 57 to 1000 others"
OUTSIDE = "FLOAT and GEO values (conversion of binary floating point numbers is not encoded)"


@case()
def integers(sx):
    v = sx.int("v", -10**12, 10**12)
    raw = IntegerConverter.serialize(v)
    sx.observe("raw", raw)
    sx.check(IntegerConverter.parse(raw) == v, "the same number is read")


@case(*[dict(lo=a, hi=b) for a, b in ((10**12, 10**18), (-(10**18), -(10**12)), (10**18, 10**30), (10**30, 10**60))])
def large_integers(sx, lo, hi):
    """integers are not limited to any size"""
    v = sx.int("v", lo, hi)
    sx.check(IntegerConverter.parse(IntegerConverter.serialize(v)) == v, "the same number is read")


@case(*[dict(n=n, at=i) for n in (57, 58, 100, 1000) for i in (0, 55, -1)])
def long_binary(sx, n, at):
    """arbitrary bytes within a long sequence"""
    v = [i % 256 for i in range(n)]
    at %= n
    v = bytes(v[:at]) + sx.bytes("v", 2) + bytes(v[at:])
    raw = BinaryConverter.serialize(v)
    sx.check(BinaryConverter.parse(raw) == v, "the same bytes are read")
    sx.check(sx.and_("\n" not in raw, " " not in raw, len(raw) == (n + 4) // 3 * 4), "one word")


@case()
def integer_text(sx):
    """digits with an optional sign are read as the number they denote"""
    digits = sx.str("digits", (1, 6), "digit")
    sign = sx.choice("sign", ("", "+", "-"))
    v = 0
    for c in digits:
        v = v * 10 + ord(c) - 48
    sx.check(IntegerConverter.parse(sign + digits) == (-v if sign == "-" else v), "the denoted number is read")


@case()
def integer_any(sx):
    text = sx.str("text", (0, 3), "=+-1a.")
    exc, got = sx.raises(IntegerConverter.parse, text)
    ok = len(text) > 0 and (text[0] == "1" or (len(text) > 1 and (text[0] == "+" or text[0] == "-")))
    if ok:
        for c in text[1:]:
            if c != "1":
                ok = False
    sx.check((exc is None) == ok, "only numbers are accepted")
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")


@case()
def booleans(sx):
    v = sx.bool("v")
    raw = BooleanConverter.serialize(v)
    sx.check(raw == "TRUE" if v else raw == "FALSE", "the keywords of the format")
    sx.check(BooleanConverter.parse(raw) == v, "the same truth value is read")


@case(*[dict(n=n) for n in range(1, 6)], *[dict(n=n, dom="printable") for n in range(1, 4)])
def boolean_text(sx, n, dom="=TtRrUuEeFfAaLlSsYyOoNn10x"):
    """the keywords are read in any case, nothing is guessed"""
    text = sx.str("text", n, dom)
    exc, got = sx.raises(BooleanConverter.parse, text)
    if exc is not None:
        sx.check(isinstance(exc, ValueError), "rejected with a ValueError")
        sx.check(sx.and_(text.upper() != "TRUE", text.upper() != "FALSE"), "the keywords are accepted in any case")
        return
    sx.check(got is True or got is False, "a truth value")
    if got:
        sx.check(sx.or_(*[text.upper() == w for w in ("TRUE", "T", "Y", "YES", "ON", "1")]), "read as true")
    else:
        sx.check(sx.or_(*[text.upper() == w for w in ("FALSE", "F", "N", "NO", "OFF", "0")]), "read as false")


@case(*[dict(n=n) for n in range(0, 6)])
def binary(sx, n):
    v = sx.bytes("v", n)
    raw = BinaryConverter.serialize(v)
    sx.observe("raw", raw)
    sx.check(len(raw) == (n + 2) // 3 * 4, "padded to groups of four")
    sx.check(BinaryConverter.parse(raw) == v, "the same bytes are read")
    for c in raw:
        sx.check(sx.or_(sx.and_("A" <= c, c <= "Z"), sx.and_("a" <= c, c <= "z"), sx.and_("0" <= c, c <= "9"), c == "+", c == "/", c == "="), "base64 alphabet")


@case(*[dict(n=n) for n in range(6, 10)], tier="thorough")
def more_binary(sx, n):
    binary(sx, n)


@case(*[dict(n=n) for n in (1, 2, 3, 4)])
def encoding(sx, n):
    """the characters are the groups of six bits, as defined by RFC 4648"""
    v = sx.bytes("v", n)
    raw = BinaryConverter.serialize(v)
    octets = list(v) + [0] * (-n % 3)
    for i, c in enumerate(raw):
        a, b, d = octets[i // 4 * 3 : i // 4 * 3 + 3]
        six = (a // 4, a % 4 * 16 + b // 16, b % 16 * 4 + d // 64, d % 64)[i % 4]
        k = ord(c)
        if i >= (n * 8 + 5) // 6:
            sx.check(c == "=", "padding")
        else:
            want = sx.ite(six < 26, six + 65, sx.ite(six < 52, six + 71, sx.ite(six < 62, six - 4, sx.ite(six == 62, 43, 47))))
            sx.check(k == want, "the character of these bits")
