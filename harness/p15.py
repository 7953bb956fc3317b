"""nesting of containers"""
from ics.contentline import Container, ContentLine, ParseError, string_to_container, string_to_containers

from sx.api import case

BOUNDS = (
    "every sequence of up to 5 (thorough: 6) lines that begin or end a component or hold a property, with arbitrary one letter names in "
    "either case; trees of up to four components with arbitrary property values of up to 2 characters; one arbitrary name among 15 components nested in each other and among 20 in a row"
)
OUTSIDE = "longer sequences and longer names"


@case(*[dict(n=n) for n in range(1, 6)])
def sequence(sx, n):
    """a text is accepted exactly if its components are properly nested, and the tree is the nesting"""
    kinds = [sx.choice(f"k{i}", ("BEGIN", "END", "X")) for i in range(n)]
    names = [sx.str(f"n{i}", 1, "=aAB") for i in range(n)]
    text = "\r\n".join(k + ":" + v for k, v in zip(kinds, names))
    exc, got = sx.raises(lambda: list(string_to_containers(text)))
    # independent reading
    top = []
    stack = []
    bad = False
    for k, v in zip(kinds, names):
        here = stack[-1][1] if stack else top
        if k == "BEGIN":
            node = (v, [])
            here.append(node)
            stack.append(node)
        elif k == "END" and stack:
            if v.upper() == stack[-1][0].upper():
                stack.pop()
            else:
                bad = True
                break
        else:
            here.append((k, v))
    bad = bad or bool(stack)
    sx.observe("exc", None if exc is None else type(exc))
    if bad:
        sx.check(isinstance(exc, ParseError), "improper nesting is rejected")
        return
    sx.check(exc is None, "properly nested components are accepted")
    if exc is None:
        compare(sx, got, top)


def compare(sx, got, want):
    sx.check(len(got) == len(want), "as many entries as written")
    for g, (name, v) in zip(got, want):
        if isinstance(v, list):
            sx.check(isinstance(g, Container), "a component is read as such")
            sx.check(g.name == name.upper(), "name of the component")
            compare(sx, list(g), v)
        else:
            sx.check(isinstance(g, ContentLine), "a property is read as such")
            sx.check(sx.and_(g.name == name, g.value == v), "name and value of the property")


SHAPES = {
    "flat": ["v", "v"],
    "nested": ["v", ["v"], "v"],
    "deep": [[["v"]], "v"],
    "siblings": [["v"], [], ["v", "v"]],
}


@case(*[dict(shape=s) for s in SHAPES])
def tree(sx, shape):
    """what was written is what is read"""
    count = [0]

    def build(items):
        out = []
        for it in items:
            count[0] += 1
            i = count[0]
            if it == "v":
                out.append(ContentLine("P" + str(i), {"Q": [sx.str(f"q{i}", 1, "qsafe")]} if i == 2 else {}, sx.str(f"v{i}", (0, sx.pick(1, 2)), "value")))
            else:
                out.append(Container("C" + str(i), build(it)))
        return out

    cont = Container(sx.str("name", 1, "NAME"), build(SHAPES[shape]))
    text = cont.serialize(wrap=None)
    back = string_to_container(text)
    sx.check(back == cont, "the same tree is read")
    sx.check(back.serialize(wrap=None) == text, "and the same text is written again")


@case()
def selection(sx):
    """properties are found by name, in order, and removed by name"""
    names = [sx.str(f"n{i}", 1, "=ABC") for i in range(3)]
    cont = Container("C", [ContentLine(n, value=str(i)) for i, n in enumerate(names)])
    found = [cl.value for cl in cont["A"]]
    want = [str(i) for i, n in enumerate(names) if n == "A"]
    sx.check(found == want, "selection by name")
    del cont["A"]
    sx.check([cl.value for cl in cont] == [str(i) for i, n in enumerate(names) if n != "A"], "removal by name")


@case(dict(n=6), tier="thorough", name="sequence6")
def sequence6(sx, n):
    sequence(sx, n)


@case(dict(dom="=ABab-"), dict(dom="NAME"), dict(dom='=ABCDxyz.-:;, "\\='))
def closing(sx, dom):
    """a component is only closed by its own name"""
    a = sx.str("a", (1, sx.pick(2, 3)), dom if dom[-2:] != '\\=' else "name")
    b = sx.str("b", (0, sx.pick(3, 4)), dom)
    exc, got = sx.raises(lambda: list(string_to_containers("BEGIN:" + a + "\r\nX:1\r\nEND:" + b)))
    sx.observe("exc", None if exc is None else type(exc))
    if a.upper() == b.upper():
        sx.check(exc is None and len(got) == 1 and got[0].name == a.upper() and len(got[0]) == 1, "closed by its name")
    else:
        sx.check(isinstance(exc, ParseError), "not closed by another name")


@case()
def crossing(sx):
    """components that overlap instead of being nested are rejected"""
    a = sx.str("a", (1, 2), "=AB")
    b = sx.str("b", (1, 2), "=AB")
    c = sx.str("c", (1, 2), "=AB")
    d = sx.str("d", (1, 2), "=AB")
    exc, got = sx.raises(lambda: list(string_to_containers("\r\n".join(("BEGIN:" + a, "BEGIN:" + b, "END:" + c, "END:" + d)))))
    sx.observe("exc", None if exc is None else type(exc))
    if sx.and_(b == c, a == d):
        sx.check(exc is None and got[0].name == a and got[0][0].name == b, "nested")
    else:
        sx.check(isinstance(exc, ParseError), "not nested")


@case(*[dict(at=i, kind=k) for i in (0, 1, 7, 14) for k in ("BEGIN", "END")])
def deep(sx, at, kind):
    """an arbitrary name somewhere within deeply nested components"""
    n = 15
    names = ["C%d" % i for i in range(n)]
    name = sx.str("name", (1, 3 if at == 14 else 2), "=cC147")
    lines = []
    for i, c in enumerate(names):
        lines += ["BEGIN:" + (name if kind == "BEGIN" and i == at else c), "A:%d" % i]
    for i, c in reversed(list(enumerate(names))):
        lines += ["B:%d" % i, "END:" + (name if kind == "END" and i == at else c)]
    exc, got = sx.raises(lambda: list(string_to_containers("\r\n".join(lines))))
    if name.upper() != names[at]:
        sx.check(isinstance(exc, ParseError), "improper nesting is rejected")
        return
    sx.check(exc is None and len(got) == 1, "properly nested")
    if exc is None:
        node = got[0]
        for i, c in enumerate(names):
            last = i == n - 1
            sx.check(node.name == c and len(node) == (2 if last else 3), "name and number of items")
            sx.check(node[0].name == "A" and node[0].value == str(i) and node[-1].name == "B" and node[-1].value == str(i), "first and last item")
            if not last:
                node = node[1]


@case(*[dict(at=i) for i in (0, 9, 19)])
def wide(sx, at):
    """many components, one of which has an arbitrary name, and lines between them"""
    names = ["C%d" % (i % 3) for i in range(20)]
    names[at] = sx.str("name", (1, 2), "NAME")
    cont = Container("TOP", [x for i, c in enumerate(names) for x in (ContentLine("A", value=str(i)), Container(c, [ContentLine("B", value=str(i))] * (i % 3)))])
    back = string_to_container(cont.serialize())
    sx.check(back == cont, "the same tree is read")
    sx.check([c.name for c in back if isinstance(c, Container)] == names, "all components in order")
