"""content lines: name, parameters and value"""
from ics.contentline import ContentLine, ParseError, Parser, QuotedParamValue

from sx.api import case

BOUNDS = (
    "names of up to 2 characters; up to two parameters with up to two values each; parameter values of up to 2 (thorough: 3) "
    "arbitrary characters except control characters (line feed allowed); values of up to 3 characters other than "
    "line breaks; arbitrary raw lines of up to 5 (thorough: 7) characters over the structural characters and two letters; one arbitrary parameter among seven others with several values, names of up to 12 characters, up to 40 values of a parameter and 20 parameters; four lines with parameters in which up to two arbitrary characters stand in place of any one, against an independent reading of the grammar"
)
OUTSIDE = "carriage returns and control characters in parameter values (dropped or not representable), longer texts and more parameters"

PVAL = "pval"


def one_line(line):
    return list(Parser.lines_to_contentlines([line]))


def same_params(sx, got, want):
    if list(got) != list(want):
        return False
    for k in want:
        if len(got[k]) != len(want[k]):
            return False
        for a, b in zip(got[k], want[k]):
            if not (str(a) == str(b)):
                return False
    return True


def pval(sx, name, n):
    # every character that can be represented: no control characters but tab and line feed
    v = sx.str(name, n, "any")
    for c in v:
        sx.assume(sx.or_(c == "\n", c == "\t", sx.and_(c >= " ", c != "\x7f")))
    return v


def check_roundtrip(sx, cl):
    raw = cl.serialize(wrap=None)
    sx.observe("raw", raw)
    sx.check(sx.and_("\n" not in raw, "\r" not in raw), "a single line")
    back = one_line(raw)
    sx.check(len(back) == 1, "one line is read")
    back = back[0]
    sx.check(back.name == cl.name, "name is kept")
    sx.check(back.value == cl.value, "value is kept")
    sx.check(same_params(sx, back.params, cl.params), "parameters are kept")
    sx.check(back.serialize(wrap=None) == raw, "serialized the same again")


@case()
def name_value(sx):
    check_roundtrip(sx, ContentLine(sx.str("name", (1, 2), "name"), value=sx.str("value", (0, 3), "value")))


@case(dict(quoted=False), dict(quoted=True))
def one_param(sx, quoted):
    v = pval(sx, "pv", (0, sx.pick(2, 3)))
    if quoted:
        v = QuotedParamValue(v)
    cl = ContentLine("TEST", {sx.str("pname", (1, 2), "name"): [v]}, sx.str("value", (0, 1), "value"))
    check_roundtrip(sx, cl)


@case()
def two_values(sx):
    a = pval(sx, "a", (0, 1))
    b = pval(sx, "b", (0, sx.pick(1, 2)))
    if sx.choice("qa", (False, True)):
        a = QuotedParamValue(a)
    if sx.choice("qb", (False, True)):
        b = QuotedParamValue(b)
    check_roundtrip(sx, ContentLine("TEST", {"P": [a, b]}, sx.str("value", (0, 1), "value")))


@case()
def two_params(sx):
    a = pval(sx, "a", (0, 1))
    b = pval(sx, "b", (0, sx.pick(1, 2)))
    check_roundtrip(sx, ContentLine("TEST", {"P": [a], "Q": [b]}, sx.str("value", (0, 1), "value")))


@case(dict(alpha='a=;:,"^n'), dict(alpha='A;=:"^\''))
def any_line(sx, alpha):
    """every raw line is rejected with an error, or what was read means the same line"""
    raw = sx.str("line", (0, sx.pick(5, 6)), "=" + alpha)
    exc, got = sx.raises(one_line, raw)
    sx.observe("got", (got[0].name, got[0].value) if exc is None else type(exc))
    if exc is not None:
        sx.check(isinstance(exc, (ParseError, ValueError)), "malformed lines are rejected with a parse error")
        return
    cl = got[0]
    exc, again = sx.raises(one_line, cl.serialize(wrap=None))
    sx.check(exc is None, "an accepted line is serialized to an acceptable line")
    if exc is None:
        again = again[0]
        sx.check(again.name == cl.name, "same name")
        sx.check(again.value == cl.value, "same value")
        sx.check(same_params(sx, again.params, cl.params), "same parameters")


@case()
def first_colon(sx):
    """without parameters the value is everything behind the first colon"""
    name = sx.str("name", (1, 2), "name")
    value = sx.str("value", (0, sx.pick(4, 6)), "value")
    cl = one_line(name + ":" + value)[0]
    sx.check(cl.value == value, "value is everything behind the first colon")
    sx.check(cl.name == name.upper(), "names are upper case")
    sx.check(not cl.params, "no parameters")


@case()
def quoted_delims(sx):
    """inside of quotes, colons, semicolons and commas do not separate anything"""
    q = sx.str("q", (0, sx.pick(4, 5)), "qsafe")
    for c in q:
        sx.assume(c != "^")
    r = sx.str("r", (1, 2), "safe")
    for c in r:
        sx.assume(c != "^")
    value = sx.str("value", (0, 1), "value")
    cl = one_line('N;P="' + q + '",' + r + ";R=" + r + ":" + value)[0]
    sx.check([str(v) for v in cl.params["P"]] == [q, r], "both values of the first parameter")
    sx.check([str(v) for v in cl.params["R"]] == [r], "value of the second parameter")
    sx.check(cl.value == value, "value")


@case()
def caret(sx):
    """RFC 6868 escapes in parameter values"""
    v = sx.str("v", (0, sx.pick(4, 5)), '=^n\'aN"')
    v = v
    line = 'N;P="x' + v + '":y'
    exc, got = sx.raises(one_line, line)
    # independent reading
    if '"' in v:
        return  # the quote ends the value; decided by any_line
    want = "x"
    bad = False
    esc = False
    for c in v:
        if esc:
            esc = False
            if c == "n":
                want += "\n"
            elif c == "^":
                want += "^"
            elif c == "'":
                want += '"'
            else:
                bad = True
                break
        elif c == "^":
            esc = True
        else:
            want += c
    if bad or esc:
        sx.check(isinstance(exc, ParseError), "invalid escapes are rejected")
    else:
        sx.check(exc is None, "valid escapes are accepted")
        if exc is None:
            sx.check(str(got[0].params["P"][0]) == want, "escapes are decoded")


@case(*[dict(at=i) for i in range(4)])
def many_params(sx, at):
    """an arbitrary value among many parameters with many values"""
    params = {
        "A": ["1", "2", "3", "4", "5", "6"],
        "LONG-NAME-OF-A-PARAMETER": ["x" * 200],
        "Q": [QuotedParamValue("quoted"), "a,b", "c:d", "", "e;f", "^", "\n"],
        "Z": ["z"],
    }
    key = list(params)[at]
    v = pval(sx, "v", (0, 2))
    params[key] = params[key][:at] + [v] + params[key][at:]
    check_roundtrip(sx, ContentLine("A-RATHER-LONG-NAME", params, "v" * 300 + sx.str("value", (0, 1), "value")))


@case(*[dict(n=n) for n in (1, 2, 9, 10, 16, 30)])
def long_names(sx, n):
    """names of any length, of lines and of parameters"""
    name = sx.str("name", n, "name") if n <= 10 else sx.str("name", 2, "name") + "A" * (n - 2)
    pname = sx.str("pname", n, "name") if n <= 10 else "A" * (n - 2) + sx.str("pname", 2, "name")
    check_roundtrip(sx, ContentLine(name, {pname: ["a", "b,c"]}, "v;w=x:y"))


def reading(line):
    """the grammar of RFC 5545, 3.1, read independently: (name, [(parameter, [values])], value), or None for malformed lines; also whether a parameter ends with an empty value"""
    i, n = 0, len(line)
    empty = False

    def until(i, stops):
        while i < n and line[i] not in stops:
            i += 1
        return i

    j = until(0, ":;")
    name = line[:j]
    params = {}
    while j < n and line[j] == ";":
        i = until(j + 1, "=:;")
        if i == n or line[i] != "=":
            return None, empty
        values = params[line[j + 1:i]] = []
        j = i
        while True:
            i = j + 1
            if i < n and line[i] == '"':
                j = until(i + 1, '"')
                if j == n:
                    return None, empty
                values.append(line[i + 1:j])
                j += 1
            else:
                j = until(i, ",:;")
                values.append(line[i:j])
                if i == j and (j == n or line[j] != ","):
                    empty = True
            if j == n or line[j] not in ",:;":
                return None, empty
            if line[j] != ",":
                break
    if j == n:
        return None, empty
    return (name, params, line[j + 1:]), empty


LINES = ('A;P="x":y', 'A;P=x,y:z', 'A;P="x",y;Q=w:v', 'A;P=w;Q="a:b;c,d":e')


@case(*[dict(line=t) for t in LINES])
def damaged(sx, line):
    """lines with up to two arbitrary characters in place of one are read according to the grammar or refused"""
    at = sx.choice("at", tuple(range(len(line))))
    v = sx.str("v", (0, 2), "value")
    for c in v:
        sx.assume(c != "^")
    text = line[:at] + v + line[at + 1:]
    want, empty = reading(text)
    exc, got = sx.raises(one_line, text)
    if want is None or (empty and exc is not None):
        sx.check(isinstance(exc, ParseError), "malformed lines are refused with a parse error")
        return
    sx.check(exc is None and len(got) == 1, "well-formed lines are accepted")
    name, params, value = want
    sx.check(got[0].name == name.upper(), "name")
    sx.check(got[0].value == value, "value")
    sx.check(same_params(sx, got[0].params, params), "parameters")


@case(*[dict(params=p, values=v) for p, v in ((1, 40), (20, 1), (12, 12))])
def numerous(sx, params, values):
    """many parameters with many values, one of them arbitrary"""
    at = sx.choice("at", (0, 1, params * values // 2, params * values - 1))
    v = pval(sx, "pv", 1)
    it = iter(range(params * values))
    ps = {f"P{i}": [v if next(it) == at else "v" + str(j) for j in range(values)] for i in range(params)}
    check_roundtrip(sx, ContentLine("TEST", ps, sx.str("value", (0, 1), "value")))
