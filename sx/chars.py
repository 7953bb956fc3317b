"""Unicode character classes as IntSets, computed from CPython's own str methods / re semantics."""
import functools
import sys

from sx.core import ANY, IntSet


def _scan(pred):
    out = []
    start = None
    for cp in range(0x110000):
        if 0xD800 <= cp <= 0xDFFF:
            ok = False
        else:
            ok = pred(chr(cp))
        if ok:
            if start is None:
                start = cp
        elif start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return IntSet(out)


@functools.lru_cache(None)
def method_class(name):
    """the set of single characters c for which c.<name>() is true (isdigit, isalpha, isspace, ...)"""
    m = getattr(str, name)
    return _scan(lambda c: m(c))


@functools.lru_cache(None)
def word():
    return _scan(lambda c: c.isalnum() or c == "_")


@functools.lru_cache(None)
def re_digit():
    return method_class("isdecimal")


@functools.lru_cache(None)
def re_space():
    return method_class("isspace")


@functools.lru_cache(None)
def case_map(name):
    """-> (unchanged: IntSet, {delta: IntSet} for single char results, other: IntSet with multi char results)"""
    m = getattr(str, name)
    deltas = {}
    other = []
    unchanged = []
    for cp in range(0x110000):
        if 0xD800 <= cp <= 0xDFFF:
            continue
        r = m(chr(cp))
        if len(r) != 1:
            other.append((cp, cp))
        else:
            d = ord(r) - cp
            if d == 0:
                unchanged.append((cp, cp))
            else:
                deltas.setdefault(d, []).append((cp, cp))
    return IntSet.norm(unchanged), {d: IntSet.norm(v) for d, v in deltas.items()}, IntSet.norm(other)


ASCII_DIGIT = IntSet.of(("0", "9"))
ASCII_LETTER = IntSet.of(("a", "z"), ("A", "Z"))
CONTROL = IntSet.of((0, 8), (10, 31), 127)
PRINTABLE = ANY - CONTROL
LINESEPS = IntSet.of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
