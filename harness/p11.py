"""TEXT values: escaping"""
from ics.contentline import ContentLine
from ics.valuetype.text import TextConverter

from sx.api import case

BOUNDS = "every text of up to 4 (thorough: 7) arbitrary Unicode characters; every raw value text of up to 4 (thorough: 7) characters; up to 3 arbitrary characters anywhere in texts of 100"
OUTSIDE = "longer texts (the converter works character by character)"


@case()
def roundtrip(sx):
    """what was written is what is read"""
    s = sx.str("text", (0, sx.pick(4, 7)))
    raw = TextConverter.serialize(s)
    sx.observe("raw", raw)
    sx.check(TextConverter.parse(raw) == s, "parse(serialize(text)) == text")
    sx.check(sx.and_("\n" not in raw, "\r" not in raw), "no line break is left in the serialized text")


@case()
def list_safe(sx):
    """an escaped text does not contain an unescaped separator and does not end within an escape"""
    s = sx.str("text", (0, sx.pick(4, 6)))
    raw = TextConverter.serialize(s)
    escaped = False
    for c in raw:
        if escaped:
            sx.check(c in "\\;,nr", "only known escapes are produced")
            escaped = False
        elif c == "\\":
            escaped = True
        else:
            sx.check(c not in ";,", "separators are escaped")
    sx.check(not escaped, "complete escapes")


@case()
def parse_any(sx):
    """any raw text is either rejected or read as exactly the text it denotes"""
    raw = sx.str("raw", (0, sx.pick(4, 6)))
    exc, got = sx.raises(TextConverter.parse, raw)
    sx.observe("got", got if exc is None else type(exc))
    want = ""
    bad = False
    escaped = False
    for c in raw:
        if escaped:
            escaped = False
            if c in ";,\\":
                want += c
            elif c in "nN":
                want += "\n"
            elif c in "rR":
                want += "\r"
            else:
                bad = True
                break
        elif c == "\\":
            escaped = True
        elif c in ";,\r\n":
            bad = True
            break
        else:
            want += c
    bad = bad or escaped
    if bad:
        sx.check(isinstance(exc, ValueError), "malformed text is rejected with a ValueError")
    else:
        sx.check(exc is None, "well-formed text is accepted")
        if exc is None:
            sx.check(got == want, "text is unescaped")


LONG = "a,b;c\\d\ne:f\"g  \\n\u2028\x85\r\n" * 12


@case(dict(before=LONG, after=""), dict(before="", after=LONG), dict(before=LONG, after=LONG), dict(before="x" * 1200, after="y" * 80), name="long")
def long_text(sx, before, after):
    """two arbitrary characters anywhere in a long text"""
    s = before + sx.str("text", (0, 2)) + after
    raw = TextConverter.serialize(s)
    sx.check(TextConverter.parse(raw) == s, "parse(serialize(text)) == text")
    sx.check(sx.and_("\n" not in raw, "\r" not in raw), "no line break is left in the serialized text")
    sx.check(list(TextConverter.split_value_list(raw)) == [raw], "one value of a list")
