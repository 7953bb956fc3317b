"""scoped settings and defaults of new entries"""
import datetime
from datetime import timedelta

from ics import Event, Todo
from ics.contentline import Container, ContentLine, string_to_container
from ics.contentline.container import DEFAULT_LINE_WRAP, contentline_set_wrap
from ics.event import deterministic_event_data
from ics.timezone import UTC

from sx.api import case

BOUNDS = (
    "settings within up to 2 (thorough: 3) nested scopes with any width of -2..40 or None, any identifier of up to 2 arbitrary characters and any UTC time, left normally or by any of several errors; lines of up to 3 "
    "arbitrary characters after a fixed text; the clock at any time, with any offset of the local zone"
)
OUTSIDE = "threads that share the line width (it is global by design)"

ERRORS = (None, ValueError, KeyboardInterrupt, StopIteration, GeneratorExit)


class Left(Exception):
    pass


def some_width(sx, name):
    return sx.int(name, -2, 40) if sx.choice(name + ".given", (True, False)) else None


def unlimited(sx, w):
    return True if w is None else w <= 0


def check_width(sx, w, label):
    got = DEFAULT_LINE_WRAP.width
    if unlimited(sx, w):
        sx.check(got > 10**6, label)
    else:
        sx.check(got == w, label)


@case(*[dict(n=n, err=None if e is None else e.__name__) for n in (1, 2) for e in ERRORS])
def width(sx, n, err):
    """the width is set inside of the scope and restored afterwards"""
    err = {None if e is None else e.__name__: e for e in ERRORS}[err]
    before = DEFAULT_LINE_WRAP.width
    ws = [some_width(sx, f"w{i}") for i in range(n)]
    caught = False

    def run(i):
        if i == n:
            if err is not None:
                raise err("x")
            return
        outer = DEFAULT_LINE_WRAP.width
        try:
            with contentline_set_wrap(ws[i]):
                check_width(sx, ws[i], "set inside of the scope")
                run(i + 1)
                check_width(sx, ws[i], "an inner scope restores it")
        finally:
            sx.check(DEFAULT_LINE_WRAP.width == outer, "restored")

    try:
        run(0)
    except BaseException as e:
        if err is None or not isinstance(e, (err, RuntimeError)):
            raise
        caught = True
    sx.check(caught == (err is not None), "errors are passed on")
    sx.check(DEFAULT_LINE_WRAP.width == before, "restored at the end")


@case(dict(n=1), dict(n=2))
def lines(sx, n):
    """lines are folded at the width of the scope; unfolding gives the same text"""
    w = sx.choice("w", (None, 0, 2, 3, 5, 10))
    line = ContentLine("N", {}, "abc def" + sx.str("v", n, "=xyz 1"))
    whole = line.serialize(wrap=None)
    with contentline_set_wrap(w):
        text = line.serialize()
        cont = Container("C", [line]).serialize()
    if not w:
        sx.check(text == whole, "not folded")
    else:
        parts = text.split("\r\n")
        sx.check(all(len(p) <= w for p in parts), "not longer than the width")
        sx.check(all(p[0] == " " for p in parts[1:]), "continuation lines begin with a space")
        sx.check("".join([parts[0], *[p[1:] for p in parts[1:]]]) == whole, "unfolded to the same text")
    sx.check(string_to_container(cont)[0] == line, "read as the same line")
    sx.check(line.serialize() == whole, "the default width is used again")


@case(*[dict(entry=e, err=x) for e in (Event, Todo) for x in (None, "ValueError")])
def event_data(sx, entry, err):
    """fixed identifiers and stamps inside of the scope, fresh ones outside"""
    uid = sx.str("uid", (0, 2))
    stamp = sx.dt("stamp", 2, 9990).replace(tzinfo=UTC)
    local = sx.local()
    kw = {}
    if sx.choice("has_uid", (True, False)):
        kw["uid"] = uid
    if sx.choice("has_stamp", (True, False)):
        kw["dtstamp"] = stamp
    caught = False
    try:
        with deterministic_event_data(**kw):
            a, b = entry(), entry()
            c = entry(uid="own", dtstamp=(2001, 2, 3))
            if err:
                raise ValueError("x")
    except ValueError:
        caught = True
    sx.check(caught == (err is not None), "errors are passed on")
    sx.check(a.uid == b.uid and a.dtstamp == b.dtstamp, "the same for all new entries")
    sx.check(a.uid == kw.get("uid", "deterministic_uid@example.org"), "the identifier")
    sx.check(a.dtstamp == kw.get("dtstamp", datetime.datetime(2000, 1, 1, 12, tzinfo=UTC)), "the stamp")
    sx.check(a.dtstamp.utcoffset() == timedelta(0), "in UTC")
    sx.check(c.uid == "own" and c.dtstamp == datetime.datetime(2001, 2, 3, tzinfo=UTC) - local, "explicit values have priority")
    d, e = entry(), entry()
    sx.check(d.uid != e.uid, "afterwards the identifiers are different again")
    sx.check(d.uid != a.uid or len(uid) > 30, "and not the one of the scope")


@case(*[dict(n=n, err=x) for n in (2, 3) for x in (None, "ValueError", "StopIteration")])
def nested_data(sx, n, err):
    """the inner scope ends first; every scope sets both the identifier and the stamp"""
    error = {"ValueError": ValueError, "StopIteration": StopIteration}.get(err)
    clock = sx.clock()
    uids = [sx.str(f"uid{i}", 1, "=ab") if sx.choice(f"u{i}", (True, False)) else None for i in range(n)]
    stamps = [sx.dt(f"stamp{i}", 2, 9990).replace(tzinfo=UTC) if sx.choice(f"s{i}", (True, False)) else None for i in range(n)]

    def inside(i):
        for e in (Event(), Todo(), Event(begin=(2020, 1, 1))):
            sx.check(e.uid == (uids[i] if uids[i] is not None else "deterministic_uid@example.org"), "the identifier of the scope")
            want = stamps[i] if stamps[i] is not None else datetime.datetime(2000, 1, 1, 12, tzinfo=UTC)
            sx.check(e.dtstamp == want, "the stamp of the scope")

    def run(i):
        if i == n:
            if error is not None:
                raise error("x")
            return
        kw = {}
        if uids[i] is not None:
            kw["uid"] = uids[i]
        if stamps[i] is not None:
            kw["dtstamp"] = stamps[i]
        with deterministic_event_data(**kw):
            inside(i)
            if i + 1 < n and i == 0:
                # the error leaves all inner scopes at once
                exc, _ = sx.raises(run, i + 1)
                sx.check(exc is None if error is None else isinstance(exc, (error, RuntimeError)), "errors are passed on")
            else:
                run(i + 1)
            inside(i)

    run(0)
    x, y = Event(), Event()
    sx.check(len(x.uid) > 30 and x.uid != y.uid, "new identifiers outside")
    sx.check(x.dtstamp.replace(tzinfo=None) == clock.replace(tzinfo=None), "the current time outside")


@case(*[dict(entry=e) for e in (Event, Todo)])
def now(sx, entry):
    """the stamp of a new entry is the current time in UTC"""
    t = sx.clock()  # UTC
    e = entry()
    sx.check(e.dtstamp.replace(tzinfo=None) == t.replace(tzinfo=None), "the current instant")
    sx.check(e.dtstamp.utcoffset() == timedelta(0), "in UTC")
