"""folding and unfolding of long lines, splitting text into lines"""
from textwrap import TextWrapper

from ics.contentline import Container, ContentLine, Parser
from ics.contentline.container import DEFAULT_LINE_WRAP, contentline_set_wrap

from sx.api import case

BOUNDS = (
    "content lines with values of up to 4 (thorough: 5) arbitrary characters except line breaks, folded at widths 3..5; "
    "values up to 80 arbitrary letters at the default width of 75; arbitrary folds of up to 5 characters; texts of "
    "up to 5 (thorough: 6) characters over line breaks, blanks and other characters, split into lines; two arbitrary characters (thorough: three) around every fold of the default width, lines of up to 1000 characters, a line with 29 folds"
)
OUTSIDE = "longer arbitrary texts with white space and hyphens at the default width; width is counted in characters, as the library does"


def unfold(text):
    return [line for _, line in Parser.unfold_lines(Parser.string_to_lines(text))]


@case(*[dict(width=w) for w in (3, 4, 5)])
def fold(sx, width):
    value = sx.str("value", (0, sx.pick(4, 5) if width > 3 else 3), "value")
    raw = "A:" + value
    with contentline_set_wrap(width):
        text = ContentLine("A", value=value).serialize()
        sx.observe("text", text)
        parts = Parser.string_to_lines(text)
        for part in parts:
            sx.check(len(part) <= width, "no line is longer than the width")
        sx.check(unfold(text) == [raw], "unfolding gives the line back")
        for part in parts[1:]:
            sx.check(part.startswith(" "), "continuation lines start with a blank")


@case(*[dict(n=n) for n in (72, 73, 74, 75, 80)])
def fold_default(sx, n):
    """at the default width"""
    value = sx.str("value", n, "letter")
    text = ContentLine("A", value=value).serialize()
    for part in Parser.string_to_lines(text):
        sx.check(len(part) <= 75, "no line is longer than 75 characters")
    sx.check(unfold(text) == ["A:" + value], "unfolding gives the line back")


@case(dict(fold="\r\n "), dict(fold="\n "), dict(fold="\r "), dict(fold="\r\n\t"))
def unfold_anywhere(sx, fold):
    """a line may be folded at any place"""
    value = sx.str("value", sx.pick(4, 5), "value")
    at = sx.choice("at", range(0, sx.pick(4, 5) + 1))
    text = "A:" + value[:at] + fold + value[at:]
    sx.check(unfold(text) == ["A:" + value], "the fold disappears, nothing else does")


@case(dict(alpha="\r\nA"), dict(alpha="\n \x85A"), dict(alpha="\n\t\x0b\u2028"))
def split(sx, alpha):
    """only CR LF, LF and CR separate lines"""
    body = sx.str("body", (0, sx.pick(4, 6)), "=" + alpha)
    text = "x" + body
    exc, got = sx.raises(unfold, text)
    sx.check(exc is None, "every text that starts with a line can be split")
    if exc is not None:
        return
    want = []
    cur = ""
    i = 0
    lines = []
    while i < len(text):
        c = text[i]
        if c == "\r" or c == "\n":
            if c == "\r" and i + 1 < len(text) and text[i + 1] == "\n":
                i += 1
            lines.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    lines.append(cur)
    for line in lines:
        if not line:
            continue
        if line[0] == " " or line[0] == "\t":
            want[-1] += line[1:]
        else:
            want.append(line)
    sx.check(got == want, "lines are separated by line breaks only and folded lines are joined")


@case(dict(wrap=True), dict(wrap=False))
def iterated(sx, wrap):
    """serialize_iter yields what serialize returns"""
    value = sx.str("value", (0, 3), "value")
    newline = sx.choice("newline", (False, True))
    cl = ContentLine("AB", value=value)
    w = TextWrapper(
        width=4, initial_indent="", subsequent_indent=" ", break_long_words=True, break_on_hyphens=True, expand_tabs=False,
        replace_whitespace=False, fix_sentence_endings=False, drop_whitespace=False,
    ) if wrap else None
    text = "".join(cl.serialize_iter(newline=newline, wrap=w))
    want = cl.serialize(newline=False, wrap=w) + ("\r\n" if newline else "")
    sx.check(text == want, "same text")
    cont = Container("C", [cl])
    sx.check(
        cont.serialize(newline=newline, wrap=w) == "BEGIN:C\r\n" + cl.serialize(wrap=w) + "\r\nEND:C" + ("\r\n" if newline else ""),
        "containers write their lines between BEGIN and END",
    )


@case(*[dict(pre=p, post=q) for p, q in ((70, 80), (71, 2), (72, 0), (145, 10), (74, 300))])
def fold_long(sx, pre, post):
    """arbitrary characters around the folds of the default width"""
    value = "x" * pre + sx.str("value", (1, sx.pick(2, 3)), "value") + "y" * post
    text = ContentLine("A", value=value).serialize()
    parts = Parser.string_to_lines(text)
    for part in parts:
        sx.check(len(part) <= DEFAULT_LINE_WRAP.width, "no line is longer than the width")
    for part in parts[1:]:
        sx.check(part.startswith(" "), "continuation lines start with a blank")
    sx.check(unfold(text) == ["A:" + value], "unfolding gives the line back")


@case(*[dict(n=n) for n in (149, 150, 151, 400, 1000)])
def fold_many(sx, n):
    """lines that are folded several times"""
    value = sx.str("value", 2, "letter") + "z" * n
    text = ContentLine("A", {"P": ["q" * 90]}, value).serialize()
    for part in Parser.string_to_lines(text):
        sx.check(len(part) <= DEFAULT_LINE_WRAP.width, "no line is longer than the width")
    sx.check(unfold(text) == ["A;P=" + "q" * 90 + ":" + value], "unfolding gives the line back")


@case(dict(fold="\r\n "), dict(fold="\n\t"))
def many_folds(sx, fold):
    """a line that is folded after every character or so"""
    value = sx.str("value", 3, "value")
    at = sx.choice("at", range(0, 30))
    letters = list("abcdefghijklmnopqrstuvwxyz1234")
    letters[at] = value
    sx.check(unfold("A:" + fold.join(letters)) == ["A:" + "".join(letters)], "the folds disappear, nothing else does")


@case(*[dict(width=w, depth=d) for w in (None, 20, 75, 200) for d in (1, 2, 3)])
def inner_components(sx, width, depth):
    """the width counts for the lines of all components"""
    n = 300
    at = sx.choice("at", (0, 150, n - 1))
    value = "x" * at + sx.str("value", (1, 2), "value") + "x" * (n - 1 - at)
    cont = Container("X", [ContentLine("A", {}, value), ContentLine("B", {}, "c")])
    for _ in range(depth - 1):
        cont = Container("Y", [ContentLine("D", {}, value), cont])
    wrap = None if width is None else TextWrapper(
        width=width, subsequent_indent=" ", break_long_words=True, break_on_hyphens=True, expand_tabs=False, replace_whitespace=False, drop_whitespace=False
    )
    text = cont.serialize(wrap=wrap)
    sx.check("".join(cont.serialize_iter(wrap=wrap)) == text, "in pieces it is the same")
    parts = text.split("\r\n")
    for part in parts:
        sx.check(not part.startswith(" ") if width is None else len(part) <= width, "no line is longer than the width, nothing is folded without one")
    want = ["D:" + value] * (depth - 1)
    sx.check([x for x in unfold(text) if x.startswith(("A:", "D:"))] == want + ["A:" + value], "unfolding gives the lines back")
