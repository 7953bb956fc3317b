"""containers of lines"""
from ics import Event
from ics.contentline import Container, ContentLine, string_to_container

from sx.api import case

BOUNDS = (
    "containers of up to 3 items (lines with any name of one of three letters, and containers), every operation of a mutable sequence with every index of -5..5, every slice with bounds in -4..4 or open and steps of 1, 2, -1, "
    "and up to 2 new items of which every one is a line, a container or an object of another type; two operations in a row on a container of 1 item (thorough: 2); slices of 9 items with steps of 3, -2, -3, names of up to 3 characters, a container in itself"
)
OUTSIDE = "longer containers, other steps"


def line(sx, name):
    return ContentLine(sx.str(name, 1, "=ABC"), value=name)


def some_items(sx, prefix, n, simple=False):
    if simple:  # one line, one container, ...
        return [[ContentLine("A", value=prefix), Container("X"), ContentLine("B", value=prefix)][i] for i in range(n)]
    return [Container("X", [ContentLine("A", value=f"{prefix}{i}")]) if sx.choice(f"{prefix}{i}.container", (False, True)) else line(sx, f"{prefix}{i}") for i in range(n)]


def bad(sx, name):
    return sx.choice(name, ("A:text", None, 5, [ContentLine("A")], Event(uid="u", dtstamp=(2020, 1, 1)).timespan))


def new_items(sx, n, simple=False):
    """-> (items, do all of them belong into a container?)"""
    which = sx.choice("bad", (-1, *range(n)))
    items = some_items(sx, "new", n, simple)
    if which >= 0:
        items[which] = "A:text" if simple else bad(sx, "what")
    return items, which < 0


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def some_slice(sx):
    lo = sx.int("lo", -4, 4) if sx.choice("has_lo", (False, True)) else None
    hi = sx.int("hi", -4, 4) if sx.choice("has_hi", (False, True)) else None
    return slice(lo, hi, sx.choice("step", (None, 2, -1)))


def check_items(sx, cont, want):
    sx.check(same(cont.data, want), "the items of a list after the same operation")
    sx.check(all(isinstance(x, (ContentLine, Container)) for x in cont.data), "only lines and containers")
    sx.check(len(cont) == len(want), "length")
    sx.check(same(list(cont), want), "iteration")


SINGLE = ("append", "insert", "setitem")
MANY = ("extend", "iadd", "setslice", "init", "generator")


@case(*[dict(op=o, n=n) for o in SINGLE for n in (0, 1, 2, 3)])
def one_item(sx, op, n):
    """adding or replacing an item: type-checked, and like a list"""
    old = some_items(sx, "old", n)
    cont = Container("X", old)
    (item,), good = new_items(sx, 1)
    want = list(old)
    i = sx.int("i", -5, 5) if op != "append" else 0
    if op == "append":
        exc, _ = sx.raises(cont.append, item)
        want.append(item)
        ok = True
    elif op == "insert":
        exc, _ = sx.raises(cont.insert, i, item)
        want.insert(i, item)
        ok = True
    else:
        exc, _ = sx.raises(cont.__setitem__, i, item)
        ok = sx.and_(i >= -n, i < n)
        if ok:
            want[i] = item
    if not good:
        sx.check(isinstance(exc, TypeError), "other types are refused")
        check_items(sx, cont, old)
    elif ok:
        sx.check(exc is None, "accepted")
        check_items(sx, cont, want)
    else:
        sx.check(isinstance(exc, IndexError), "no such item")
        check_items(sx, cont, old)


@case(*[dict(op=o, n=n, m=m) for o in MANY for n in (0, 2, 3) for m in (0, 1, 2)])
def many_items(sx, op, n, m):
    """adding several items: all of them or none"""
    simple = op == "setslice"
    old = some_items(sx, "old", n, simple)
    cont = Container("X", old)
    items, good = new_items(sx, m, simple)
    want = list(old)
    if op == "extend":
        exc, _ = sx.raises(cont.extend, items)
        want += items
    elif op == "generator":
        exc, _ = sx.raises(cont.extend, (x for x in items))
        want += items
    elif op == "iadd":
        exc, _ = sx.raises(cont.__iadd__, items)
        want += items
    elif op == "init":
        exc, got = sx.raises(Container, "x", items)
        if exc is None:
            sx.check(got.name == "X", "name in upper case")
            check_items(sx, got, items)
            got.append(ContentLine("A"))
            sx.check(len(items) == m, "the given list is not used itself")
        sx.check((exc is None) == good, "only lines and containers")
        return
    else:
        sl = some_slice(sx)
        exc, _ = sx.raises(cont.__setitem__, sl, items)
        exc2, _ = sx.raises(want.__setitem__, sl, items)
        if good:
            sx.check((exc is None) == (exc2 is None), "like a list")
            check_items(sx, cont, want)
            return
    if good:
        sx.check(exc is None, "accepted")
        check_items(sx, cont, want)
    else:
        sx.check(isinstance(exc, TypeError), "other types are refused")
        check_items(sx, cont, old)


@case(*[dict(n=n) for n in (0, 1, 2, 3)])
def by_name(sx, n):
    """access by name"""
    old = some_items(sx, "old", n)
    cont = Container("X", old)
    name = sx.str("name", 1, "=ABCX")
    want = [x for x in old if x.name == name]
    got = cont[name]
    sx.check(same(got, want), "all items of this name in order")
    del cont[name]
    check_items(sx, cont, [x for x in old if x.name != name])
    sx.check(len(cont[name]) == 0, "none is left")


@case(*[dict(n=n, op=o) for n in (0, 2, 3) for o in ("get", "del", "getslice", "delslice", "pop")])
def by_index(sx, n, op):
    """access by index"""
    old = some_items(sx, "old", n, "slice" in op)
    cont = Container("X", old)
    want = list(old)
    if op in ("get", "del", "pop"):
        i = sx.int("i", -5, 5)
        ok = sx.and_(i >= -n, i < n)
        f = {"get": cont.__getitem__, "del": cont.__delitem__, "pop": cont.pop}[op]
        exc, got = sx.raises(f, i)
        if not ok:
            sx.check(isinstance(exc, IndexError), "no such item")
            check_items(sx, cont, old)
            return
        sx.check(exc is None, "found")
        if op != "del":
            sx.check(got is old[i], "the item")
        if op != "get":
            del want[i]
        check_items(sx, cont, want)
    else:
        sl = some_slice(sx)
        if op == "getslice":
            got = cont[sl]
            sx.check(isinstance(got, Container), "a container")
            sx.check(got.name == cont.name, "of the same name")
            check_items(sx, got, old[sl])
            got.append(ContentLine("A"))
            check_items(sx, cont, old)
        else:
            del cont[sl]
            del want[sl]
            check_items(sx, cont, want)


@case(dict(n=2), dict(n=3))
def others(sx, n):
    """the other operations of a list"""
    old = some_items(sx, "old", n)
    cont = Container("X", old)
    sx.check(same(list(reversed(cont)), old[::-1]), "reversed iteration")
    x = old[sx.choice("which", tuple(range(n)))]
    sx.check(x in cont, "contained")
    sx.check(ContentLine("OTHER") not in cont, "not contained")
    sx.check(cont.count(x) == old.count(x), "number")
    sx.check(cont.index(x) == old.index(x), "index")
    cont.reverse()
    want = old[::-1]
    check_items(sx, cont, want)
    cont.remove(x)
    want.remove(x)
    check_items(sx, cont, want)
    cont.clear()
    check_items(sx, cont, [])
    exc, _ = sx.raises(cont.remove, x)
    sx.check(isinstance(exc, ValueError), "not there any more")


@case(dict(n=0), dict(n=2))
def independent(sx, n):
    """containers and their copies do not share their lists"""
    old = some_items(sx, "old", n)
    a, b = Container("X", old), Container("X", old)
    a.append(ContentLine("A"))
    check_items(sx, b, old)
    e, f = Container("X"), Container("X")
    e.append(ContentLine("A"))
    sx.check(len(f) == 0, "the default is not shared")
    c = b.clone()
    sx.check(c == b, "a copy is equal")
    c.append(ContentLine("A"))
    check_items(sx, b, old)
    d = b.clone(deep=True)
    sx.check(d == b, "a deep copy is equal")
    for x, y in zip(d, b):
        sx.check(x is not y, "a deep copy has other items")
        if isinstance(x, ContentLine):
            x.params["P"] = ["v"]
            x.value = "changed"
            sx.check(y.params == {} and y.value != "changed", "which can be changed")
        else:
            x.append(ContentLine("B"))
            sx.check(len(y) == 1, "also inside")


@case()
def names(sx):
    """a container needs a name, which is in upper case"""
    name = sx.str("name", (0, 2), "=aAzZ-1")
    exc, cont = sx.raises(Container, name)
    sx.check((exc is None) == (len(name) > 0), "refused if and only if it is empty")
    if exc is None:
        sx.check(cont.name == name.upper(), "upper case")
        sx.check(string_to_container(cont.serialize()) == cont, "written and read")


@case()
def nested(sx):
    """lines written in order, containers inside each other"""
    items = some_items(sx, "i", 3)
    cont = Container("X", items)
    text = cont.serialize()
    back = string_to_container(text)
    sx.check(back == cont, "equal after reading")
    sx.check([type(x) for x in back] == [type(x) for x in items], "same kinds")
    sx.check(back.serialize() == text, "written the same again")
    sx.check("".join(cont.serialize_iter()) == text, "written in pieces")
    sx.check(cont.serialize(newline=True) == text + "\r\n", "with a line break at the end if asked for")


def step(sx, nr, cont, want):
    op = sx.choice(f"op{nr}", ("append", "insert", "del", "set", "delname", "reverse", "badappend", "badset"))
    i = sx.int(f"i{nr}", -2, 2)
    x = line(sx, f"x{nr}")
    ok = sx.and_(i >= -len(want), i < len(want))
    if op == "append":
        cont.append(x)
        want.append(x)
    elif op == "insert":
        cont.insert(i, x)
        want.insert(i, x)
    elif op in ("del", "set"):
        exc, _ = sx.raises(cont.__delitem__, i) if op == "del" else sx.raises(cont.__setitem__, i, x)
        sx.check(sx.iff(exc is None, ok), "existing items only")
        if ok:
            if op == "del":
                del want[i]
            else:
                want[i] = x
    elif op == "delname":
        name = sx.str(f"n{nr}", 1, "=ABC")
        del cont[name]
        want[:] = [y for y in want if y.name != name]
    elif op == "reverse":
        cont.reverse()
        want.reverse()
    else:
        exc, _ = sx.raises(cont.append, "x") if op == "badappend" else sx.raises(cont.__setitem__, 0, "x")
        sx.check(isinstance(exc, TypeError), "refused")


@case(dict(n=1))
def history(sx, n):
    """operations in a row"""
    want = some_items(sx, "old", n)
    cont = Container("X", want)
    for nr in range(2):
        step(sx, nr, cont, want)
    check_items(sx, cont, want)


@case(dict(n=2), tier="thorough")
def history2(sx, n):
    history(sx, n)


@case(dict(dom="=AB-"), dict(dom="=Aa"))
def longer_names(sx, dom):
    """names have to agree as a whole"""
    names = [sx.str(f"n{i}", (1, 2), dom) for i in range(2)]
    old = [ContentLine(names[0], value="0"), Container(names[1]), ContentLine("AA", value="2")]
    cont = Container("X", old)
    name = sx.str("name", (0, 3), dom)
    want = [x for x in old if x.name == name]
    sx.check(same(cont[name], want), "all items of this name in order")
    del cont[name]
    check_items(sx, cont, [x for x in old if not any(x is y for y in want)])


@case(*[dict(op=o, step=s) for o in ("get", "del", "set") for s in (None, 3, -2, -3)])
def longer(sx, op, step):
    """slices of longer containers"""
    n = 9
    old = some_items(sx, "old", 3, True) + [ContentLine("L%d" % i) for i in range(3, n)]
    cont = Container("X", old)
    want = list(old)
    lo = sx.choice("lo", (None, *range(-11, 12)))
    hi = sx.choice("hi", (None, -10, -5, -1, 0, 3, 8, 9, 12))
    sl = slice(lo, hi, step)
    if op == "get":
        got = cont[sl]
        sx.check(isinstance(got, Container) and got.name == "X", "a container of the same name")
        check_items(sx, got, old[sl])
        got.clear()
        check_items(sx, cont, old)
    elif op == "del":
        del cont[sl]
        del want[sl]
        check_items(sx, cont, want)
    else:
        m = len(old[sl]) if step is not None else 2
        items = [ContentLine("N%d" % i) for i in range(m)]
        which = sx.choice("bad", (-1, 0, m - 1)) if m else -1
        if which >= 0:
            items[which] = "L:text"
        exc, _ = sx.raises(cont.__setitem__, sl, items)
        if which >= 0:
            sx.check(isinstance(exc, TypeError), "other types are refused")
        else:
            sx.check(exc is None, "accepted")
            want[sl] = items
        check_items(sx, cont, want)


@case(dict(n=0), dict(n=1), dict(n=2))
def itself(sx, n):
    """a container as the argument of an operation on itself or on another one"""
    old = some_items(sx, "old", n)
    cont = Container("X", old)
    what = sx.choice("what", ("extend", "iadd", "slice", "clone", "clone-other", "clone-bad", "init"))
    want = list(old)
    if what == "extend":
        cont.extend(cont)
        want += old
    elif what == "iadd":
        cont += cont
        want += old
    elif what == "slice":
        cont[1:1] = cont
        want[1:1] = old
    elif what == "clone":
        got = cont.clone(items=cont)
        got.clear()
    elif what == "clone-other":
        items = [ContentLine("A"), *cont]
        got = cont.clone(items=items, deep=sx.choice("deep", (False, True)))
        sx.check(got.name == "X" and list(got) == items, "a copy with other items")
        got.append(ContentLine("B"))
        sx.check(len(items) == n + 1, "the given list is not used itself")
    elif what == "clone-bad":
        exc, _ = sx.raises(cont.clone, items=[*old, "A:text"])
        sx.check(isinstance(exc, TypeError), "other types are refused")
    else:
        got = Container("Y", cont)
        got.append(ContentLine("B"))
    check_items(sx, cont, want)
