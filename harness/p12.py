"""lists of TEXT values"""
from ics import Event
from ics.contentline import string_to_container
from ics.valuetype.text import TextConverter

from sx.api import case

BOUNDS = "lists of one to three texts of up to 2 (thorough: 3) arbitrary Unicode characters each; one such text among eleven others; categories together with the other texts of an event"
OUTSIDE = "longer lists and texts; the empty list (no property is written)"


@case(dict(n=1), dict(n=2), dict(n=3))
def split_join(sx, n):
    texts = [sx.str(f"t{i}", (0, sx.pick(2, 3) if n < 3 else sx.pick(1, 2))) for i in range(n)]
    raw = TextConverter.join_value_list(TextConverter.serialize(t) for t in texts)
    sx.observe("raw", raw)
    back = [TextConverter.parse(r) for r in TextConverter.split_value_list(raw)]
    sx.check(back == texts, "the list is read back as written")


@case(dict(n=1), dict(n=2), dict(n=3))
def categories(sx, n):
    """the categories of an event"""
    texts = [sx.str(f"t{i}", (0, sx.pick(1, 2) if n < 3 else 1)) for i in range(n)]
    ev = Event(uid="u", dtstamp=(2020, 1, 1), categories=texts)
    cont = ev.to_container()
    back = Event.from_container(cont)
    sx.check(back.categories == texts, "the categories are read back as written")
    again = back.to_container()
    sx.check(again == Event.from_container(again).to_container(), "stable after the first round trip")
    lines = again["CATEGORIES"]
    ev2 = Event.from_container(again)
    sx.check(ev2.categories == texts, "still the same after a second round trip")


@case(*[dict(at=i) for i in (0, 5, 11)])
def many(sx, at):
    """an arbitrary text among many others"""
    texts = ["a", "", "b,c", "d\\", "e\nf", ",", "\\,", "g;h", "", "\\n", "x" * 100, ";"]
    texts[at] = sx.str("t", (0, 2))
    raw = TextConverter.join_value_list(TextConverter.serialize(t) for t in texts)
    sx.check([TextConverter.parse(r) for r in TextConverter.split_value_list(raw)] == texts, "the list is read back as written")
    ev = Event(uid="u", dtstamp=(2020, 1, 1), categories=texts)
    back = Event.from_container(string_to_container(ev.serialize()))
    sx.check(back.categories == texts, "the categories are read back as written")
    sx.check(back.serialize() == ev.serialize(), "and the event is written the same again")


@case(dict(attribute="summary"), dict(attribute="location"), dict(attribute="description"))
def other_attributes(sx, attribute):
    """categories and the other texts of an event do not get mixed up"""
    texts = ["a", sx.str("t", (0, 1))]
    kw = {k: sx.str(k, (0, 1)) if k == attribute else k + ",;" for k in ("summary", "location", "description")}
    ev = Event(uid="u", dtstamp=(2020, 1, 1), categories=texts, **kw)
    back = Event.from_container(string_to_container(ev.serialize()))
    sx.check(back.categories == texts, "categories")
    for k, v in kw.items():
        sx.check(getattr(back, k) == v, k)
