"""lines and errors know their place in the file"""
from ics.contentline import Container, ContentLine, ParseError, Parser, lines_to_container, lines_to_containers, string_to_container, string_to_containers

from sx.api import case

BOUNDS = (
    "files of up to five physical lines, each a line, a continuation, an empty line, a malformed line or a beginning or end of a component in any order, with an arbitrary character inside and any mix of line ends, "
    "given as one text, as a list of lines with or without their line ends, or as an iterator; malformed lines with up to 3 arbitrary characters at each position"
)
OUTSIDE = "errors about the nesting of components, which name the components and not the line, and about escapes in parameters, which name the value"

KINDS = ("line", "continuation", "empty", "malformed")
BREAKS = ("\r\n", "\n", "\r")


def physical(sx, i, kind):
    c = sx.str(f"c{i}", 1, "letter")
    return {"line": "X-" + c + ":v" + c, "continuation": " " + c, "empty": "", "malformed": "X" + c}[kind]


def logical(kinds, lines):
    """independently: [(number, text)] until the first continuation without a line"""
    out = []
    for nr, (k, l) in enumerate(zip(kinds, lines)):
        if k == "empty":
            continue
        if k == "continuation":
            if not out:
                return out, nr
            out[-1] = (out[-1][0], out[-1][1] + l[1:])
        else:
            out.append((nr, l))
    return out, None


def source(sx, lines, form, ends):
    if form == "text":
        return string_to_containers(ends[0].join(lines) + sx.choice("last", ("", ends[0])))
    if form == "mixed":
        return string_to_containers("".join(l + e for l, e in zip(lines, ends)))
    if form == "list":
        return lines_to_containers(list(lines))
    return lines_to_containers(l + e for l, e in zip(lines, ends))


@case(*[dict(n=n, form=f) for n in (1, 2, 3, 4) for f in ("text", "list", "file", "crlf")], dict(n=2, form="mixed"), dict(n=3, form="mixed"))
def numbers(sx, n, form):
    kinds = [sx.choice(f"k{i}", KINDS) for i in range(n)]
    lines = [physical(sx, i, k) for i, k in enumerate(kinds)]
    ends = ["\n"] * n
    if form == "mixed":
        ends = [sx.choice(f"break{i}", BREAKS) for i in range(n)]
        # a carriage return and a newline of two lines would be one line end
        for i in range(n - 1):
            if ends[i] == "\r" and kinds[i + 1] == "empty" and ends[i + 1] == "\n":
                return
    elif form in ("text", "crlf"):
        ends = [sx.choice("break", BREAKS)] * n
    want, orphan = logical(kinds, lines)
    src = source(sx, lines, form, ends)
    got = []
    exc = None
    try:
        for x in src:
            got.append(x)
    except ParseError as e:
        exc = e
    for w, g in zip(want, got):
        sx.check(isinstance(g, ContentLine), "a line")
        sx.check(g.line_nr == w[0], "the number of its first line")
        sx.check(g.name + ":" + g.value == w[1], "with all of its text") if len(w[1]) == 5 else None
    bad = [w for w in want if ":" not in w[1]]
    if orphan is not None:
        sx.check(exc is not None and len(got) == 0, "refused")
        sx.check("Line " + str(orphan) + " " in str(exc), "the message names the line")
    elif bad:
        nr, text = bad[0]
        sx.check(exc is not None, "refused")
        sx.check(exc.line_nr == nr, "the error has the number of the line")
        sx.check(exc.line == text, "and its text")
        sx.check(str(exc)[: 6 + len(str(nr))] == "Line " + str(nr) + " ", "the message as well")
        sx.check(text in str(exc), "with the text")
        sx.check(len(got) == want.index(bad[0]), "all lines before are read")
    else:
        sx.check(exc is None and len(got) == len(want), "all lines are read")


PLACES = ("X;P=a:v", 'X;P="a",b:v', "X;P=a;Q=b:v")


@case(*[dict(line=l, n=n) for l in PLACES for n in (1, 2)], *[dict(line=l, n=3) for l in PLACES])
def columns(sx, line, n):
    """the place in a malformed line"""
    at = sx.choice("at", range(0, len(line), 1 if n == 1 else sx.pick(2, 1)))
    v = sx.str("v", n, '=a;:,="' if n > 1 else "=a;:,=\"' ")
    text = line[:at] + v + line[at + sx.choice("cut", (0, 1)) :]
    sx.assume(text[0] != " ")  # a continuation
    nr = sx.choice("nr", (0, 2))
    lines = ["A:b"] * nr + [text, "C:d"]
    got = []
    exc = None
    try:
        for x in lines_to_containers(lines):
            got.append(x)
    except ParseError as e:
        exc = e
    if exc is None:
        sx.check(len(got) == nr + 2, "all lines")
        sx.check([x.line_nr for x in got] == list(range(nr + 2)), "with their numbers")
        return
    sx.check(exc.line_nr == nr, "the number of the line")
    sx.check(exc.line == text, "the line")
    col = exc.col
    for c in col if isinstance(col, tuple) else (col,):
        sx.check(-1 <= c <= len(text), "a place in the line")
    shown = str(exc)
    sx.check(shown[: 6] == "Line " + str(nr), "the message names the line")
    if col != -1:
        place = str(col) if isinstance(col, int) else str(col[0]) + "-" + str(col[1])
        sx.check(shown[6 : 8 + len(place)] == ":" + place + " ", "and the place")
    sx.check(exc.msg in shown and text in shown, "what is wrong, and the line")


NEST = ("begin", "end", "line", "empty", "malformed")


@case(dict(n=2), dict(n=3), dict(n=4))
def nested(sx, n):
    """lines inside of components"""
    kinds = [sx.choice(f"k{i}", NEST) for i in range(n)]
    lines = ["BEGIN:A"]
    want = []
    depth, ok, bad = 1, True, None
    for i, k in enumerate(kinds):
        c = sx.str(f"c{i}", 1, "letter")
        lines.append({"begin": "BEGIN:A", "end": "END:A", "line": "X-A:" + c, "empty": "", "malformed": c}[k])
        if bad is not None or not ok:
            continue
        if k == "begin":
            depth += 1
        elif k == "end":
            depth -= 1
            ok = depth >= 1
        elif k == "line":
            want.append((i + 1, c))
        elif k == "malformed":
            bad = i + 1
    for _ in range(depth):
        lines.append("END:A")
    if not ok:
        return
    text = "\r\n".join(lines)
    try:
        got = string_to_container(text)
    except ParseError as e:
        sx.check(bad is not None and e.line_nr == bad, "the malformed line is named")
        return
    sx.check(bad is None, "malformed lines are refused")
    flat = []

    def walk(c):
        if len(c):
            sx.check(c.line_nr == c[0].line_nr, "components begin with their first line")
        else:
            sx.check(c.line_nr == -1, "empty components have no number")
        for x in c:
            if isinstance(x, Container):
                walk(x)
            else:
                flat.append((x.line_nr, x.value))

    walk(got)
    sx.check(flat == want, "every line with its number")
    sx.check(lines_to_container(lines) == got, "the same from a list of lines")
    sx.check(Parser.lines_to_containers(l + "\r\n" for l in lines).__next__() == got, "the same from an iterator")


@case(dict(n=0), dict(n=2))
def exactly_one(sx, n):
    """functions for one item need exactly one"""
    lines = ["X:" + sx.str(f"v{i}", (0, 1), "letter") for i in range(n)]
    for f, x in ((string_to_container, "\n".join(lines)), (lines_to_container, lines)):
        exc, _ = sx.raises(f, x)
        sx.check(isinstance(exc, ValueError), "refused")
    one = "X:" + sx.str("w", (0, 1), "letter")
    sx.check(string_to_container(one) == lines_to_container([one]), "one line")


@case(dict(at=0), dict(at=1), dict(at=2))
def unsplit(sx, at):
    """lines with line ends inside are refused"""
    lines = ["A:a", "B:b", "C:c"]
    lines[at] = lines[at][:2] + sx.str("s", 1, "=ax") + sx.choice("nl", ("\r", "\n", "\r\n")) + "y" + sx.choice("end", ("", "\n", "\r\n"))
    got = []
    exc = None
    try:
        for x in lines_to_containers(lines):
            got.append(x.line_nr)
    except ParseError as e:
        exc = e
    sx.check(exc is not None, "refused")
    sx.check("Line " + str(at) + ":" in str(exc), "the message names the line")
    sx.check(got == list(range(max(at - 1, 0))), "what was complete before is read")
