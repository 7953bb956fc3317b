"""Runtime of the instrumented code: every call, `in`, `%`, f-string and subscript of the code under test ends here.

Concrete operands take the native operation.  Symbolic operands are dispatched to the proxies' models.
"""
import base64
import builtins
import copy
import datetime as _dt
import functools
import re
import types
import uuid
import warnings
from collections import UserString

import z3

from sx import dt, rx
from sx import core
from sx.core import Cell, IntSet, SxAbort, Unsupported, cur
from sx.values import (
    Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr, c_in, c_is, cell_of, cells_of, cvar, fixed_digits, int_to_str,
    is_sym, mkbool, mkint, mkstr, new_cell, sand, snot, str_to_int, zint,
)

r_dict, r_set, r_str, r_int, r_float, r_bool, r_type, r_bytes = dict, set, str, int, float, bool, type, bytes

FMODELS = {}  # id(function) -> (function, model)
TMODELS = {}  # id(type) -> model
PASS = r_set()  # ids of builtins that are fine with symbolic arguments
SYM_LRU = r_set()  # ids of lru wrappers whose cache behaviour is modelled

BuiltinT = types.BuiltinFunctionType
LruT = functools._lru_cache_wrapper
FuncT = types.FunctionType
MethT = types.MethodType
WrapT = types.MethodWrapperType
MDescT = type(str.upper)
ENCODED = r_set()  # qualified names of the functions of the code under test executed symbolically
enter = ENCODED.add


def fmodel(*fs):
    def deco(m):
        for f in fs:
            FMODELS[id(f)] = (f, m)
        return m

    return deco


def deep_sym(x, depth=2):
    if isinstance_sym(x):
        return True
    if depth and type(x) in (tuple, list):
        return any(deep_sym(i, depth - 1) for i in x)
    if type(x) is UserString or (isinstance(x, UserString)):
        return is_sym(x.data)
    return False


def isinstance_sym(x):
    return issubclass(type(x), Sym)


def any_sym(a, k):
    for x in a:
        if deep_sym(x):
            return True
    if k:
        for x in k.values():
            if deep_sym(x):
                return True
    return False


def concretise(x, why):
    if isinstance_sym(x):
        if isinstance(x, (SymDatetimeT, dt.SymDate, dt.SymTimedelta, dt.SymTz)) or hasattr(x, "concretise"):
            return x.concretise(why)
        if type(x) is SymBool or issubclass(type(x), SymBool):
            return r_bool(x)
        if type(x) is SymInt:
            return cur().concretise_int(x.e, why)
        raise Unsupported(f"cannot concretise {type(x).__name__} for {why}")
    if type(x) in (list, tuple):
        return type(x)(concretise(i, why) for i in x)
    if isinstance(x, UserString) and is_sym(x.data):
        return type(x)(concretise(x.data, why))
    return x


SymDatetimeT = dt.SymDatetime


def call(f, /, *a, **k):
    t = r_type(f)
    if t is FuncT:
        m = FMODELS.get(id(f))
        if m is not None:
            return m[1](*a, **k)
        return f(*a, **k)
    if t is MethT:
        return f(*a, **k)
    if t is BuiltinT:
        m = FMODELS.get(id(f))
        if m is not None and m[0] is f:
            return m[1](*a, **k)
        if id(f) in PASS:
            return f(*a, **k)
        return call_builtin(f, a, k)
    if isinstance(f, r_type):
        m = TMODELS.get(id(f))
        if m is not None:
            return m(*a, **k)
        return f(*a, **k)
    if t is LruT:
        return call_lru(f, a, k)
    if t is MDescT:  # unbound builtin method, e.g. str.upper
        if a and (isinstance_sym(a[0]) or any_sym(a, k)):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
    return f(*a, **k)


def call_lru(f, a, k):
    if id(f) not in SYM_LRU and getattr(f, "__module__", "").split(".")[0] != "ics":
        if any_sym(a, k):
            return f.__wrapped__(*a, **k)
        return f(*a, **k)
    p = cur()
    if p is None:
        return f(*a, **k)
    ent = p.lru.get(id(f))
    if ent is None:
        ent = p.lru[id(f)] = (f, [])
    cache = ent[1]
    maxsize = f.cache_parameters()["maxsize"]
    for i, (ka, kk, v) in enumerate(cache):
        if len(ka) != len(a) or list(kk) != list(k):
            continue
        if all(same(x, y) for x, y in zip(ka, a)) and all(same(kk[n], k[n]) for n in k):
            cache.append(cache.pop(i))
            return v
    v = f.__wrapped__(*a, **k)
    if maxsize != 0:
        cache.append((a, r_dict(k), v))
        if maxsize is not None and len(cache) > maxsize:
            cache.pop(0)
    return v


def same(a, b):
    return a is b or r_bool(a == b)


def lift_str(s):
    return s if type(s) is SymStr else SymStr(cells_of(s))


DATE_CLS = (_dt.datetime, _dt.date)


def call_builtin(f, a, k):
    s = f.__self__
    name = f.__name__
    if s is None or type(s) is types.ModuleType:
        if not any_sym(a, k):
            return f(*a, **k)
        return unmodelled(f, name, a, k)
    ts = r_type(s)
    if ts is r_str:
        if name == "join":
            items = list(a[0])
            if any(isinstance_sym(x) for x in items):
                return lift_str(s).join(items)
            return s.join(items)
        if name == "format":
            return str_format(s, a, k)
        if not any_sym(a, k):
            return f(*a, **k)
        if name == "translate":
            return f(*a, **k)
        return getattr(lift_str(s), name)(*a, **k)
    if isinstance(s, r_type):
        if issubclass(s, _dt.date):
            return date_classmethod(s, f, name, a, k)
        if not any_sym(a, k):
            return f(*a, **k)
        return unmodelled(f, name, a, k)
    if isinstance(s, r_dict):
        if a and isinstance_sym(a[0]) and name in ("get", "pop", "setdefault", "__contains__", "__getitem__"):
            for key in list(s):
                if same(key, a[0]):
                    return f(key, *a[1:])
            if name == "get":
                return a[1] if len(a) > 1 else k.get("default")
            if name == "__contains__":
                return False
            if name == "pop" and len(a) > 1:
                return a[1]
            if name == "setdefault":
                return f(concretise(a[0], "dict key"), *a[1:])
            raise KeyError("<sym>")
        return f(*a, **k)
    if isinstance(s, (list, tuple)):
        return f(*a, **k)
    if isinstance(s, (r_set, frozenset)):
        if a and isinstance_sym(a[0]):
            return set_method(s, f, name, a, k)
        return f(*a, **k)
    if ts is re.Pattern:
        if any_sym(a, k):
            return getattr(rx.Pattern(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, _dt.datetime):
        local = s.tzinfo is None and name in ("astimezone", "timestamp") and "local_offset" in cur().notes
        if any_sym(a, k) or local or (s.tzinfo is not None and type(s.tzinfo).__module__.split(".")[0] in ("ics", "sx")):
            return getattr(dt.lift_dt(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (_dt.date, _dt.time)):
        if any_sym(a, k):
            if isinstance(s, _dt.time):
                return getattr(dt.SymTime(tuple(map(z3.IntVal, (s.hour, s.minute, s.second, s.microsecond))), s.tzinfo, s.fold), name)(*a, **k)
            return getattr(dt.lift_date(s), name)(*a, **k)
        return f(*a, **k)
    if ts is _dt.timezone:
        if any_sym(a, k):
            if name in ("utcoffset", "tzname", "dst"):
                return f(None)
            if name == "fromutc":
                return a[0] + s.utcoffset(None)
        return f(*a, **k)
    if not any_sym(a, k):
        return f(*a, **k)
    return unmodelled(f, f"{ts.__name__}.{name}", a, k)


NATIVE_OK = (types.GeneratorType,)


def checknetloc(real):
    """urllib.parse._checknetloc without the normalisation: NFKC turns exactly these characters into ones with a delimiter"""
    import unicodedata

    @functools.lru_cache(None)
    def bad():
        norm = unicodedata.normalize
        cps = [c for a, b in core.ANY.iv for c in range(max(a, 128), b + 1) if not r_set("/?#@:").isdisjoint(norm("NFKC", chr(c)))]
        return IntSet.norm([(c, c) for c in cps])

    def check(netloc):
        if not is_sym(netloc):
            return real(netloc)
        for c in cells_of(netloc):
            if c_in(c, bad()):
                raise ValueError("netloc contains invalid characters under NFKC normalization")

    return check


def unmodelled(f, name, a, k):
    if type(f.__self__).__name__ in ("ContextVar", "Context", "generator", "deque", "defaultdict", "SimpleNamespace"):
        return f(*a, **k)
    a = [concretise(x, f"unmodelled {name}") for x in a]
    k = {n: concretise(x, f"unmodelled {name}") for n, x in k.items()}
    return f(*a, **k)


def clock():
    """microseconds since 0001-01-01 minus one day convention (same as SymDatetime.w) of UTC now"""
    p = cur()
    c = p.notes.get("clock") if p is not None else None
    if c is None:
        d = _dt.datetime(2021, 3, 4, 5, 6, 7)
        c = z3.IntVal(d.toordinal() * dt.DAY + ((5 * 60 + 6) * 60 + 7) * dt.SEC)
    return c


def date_classmethod(cls, f, name, a, k):
    p = cur()
    if name in ("utcnow", "now", "today") and (p is None or "clock" not in p.notes):
        now = _dt.datetime(2021, 3, 4, 5, 6, 7)
        tz = (a[0] if a else k.get("tz")) if name == "now" else None
        if tz is not None:
            return tz.fromutc(now.replace(tzinfo=tz))
        if name == "utcnow":
            return now
        if p is None or "local_offset" not in p.notes:
            return now if issubclass(cls, _dt.datetime) else now.date()
    if name == "utcnow":
        return norm_dt(SymDatetimeT(clock()))
    if name == "now" or (name == "today" and issubclass(cls, _dt.datetime)):
        tz = a[0] if a else k.get("tz")
        if tz is None:
            return norm_dt(SymDatetimeT(z3.simplify(clock() + dt.local_offset())))
        return norm_dt(dt.tz_fromutc(tz, SymDatetimeT(clock(), tzinfo=tz)))
    if name == "today":
        return norm_dt(SymDatetimeT(z3.simplify(clock() + dt.local_offset())).date())
    if not any_sym(a, k):
        return f(*a, **k)
    if name == "combine":
        return dt.combine(*a, **k)
    if name == "strptime":
        fmt = a[1]
        if is_sym(fmt):
            raise Unsupported("symbolic strptime format")
        return dt.strptime(a[0], fmt)
    if name == "fromordinal":
        z = zint(a[0])
        if cur().decide(z3.Or(z < 1, z > 3652059)):
            raise ValueError("ordinal must be >= 1")
        if issubclass(cls, _dt.datetime):
            return SymDatetimeT(day=z, tod=z3.IntVal(0))
        return dt.SymDate(z)
    return unmodelled(f, name, a, k)


def norm_dt(d):
    if type(d) is SymDatetimeT:
        w = z3.simplify(d.w)
        if z3.is_int_value(w):
            w = w.as_long()
            return (_dt.datetime.fromordinal(w // dt.DAY) + _dt.timedelta(microseconds=w % dt.DAY)).replace(tzinfo=d.tzinfo)
    elif type(d) is dt.SymDate:
        w = z3.simplify(d.dayz)
        if z3.is_int_value(w):
            return _dt.date.fromordinal(w.as_long())
    return d


# ------------------------------------------------------------------------------------------------ type models


def tmodel(t):
    def deco(m):
        TMODELS[id(t)] = m
        return m

    return deco


@tmodel(str)
def m_str(*a, **k):
    if len(a) == 1 and not k:
        return tostr(a[0])
    if any_sym(a, k):
        if isinstance(a[0], bytes):
            return a[0].decode(*a[1:], **k)
        raise Unsupported("str(sym, ...)")
    return r_str(*a, **k)


def tostr(x):
    t = r_type(x)
    if t is r_str:
        return x
    if issubclass(t, Sym):
        if t is SymStr:
            return mkstr(x.cells)
        if hasattr(x, "symstr"):
            return x.symstr()
        if t is SymInt:
            return int_to_str(x)
        if issubclass(t, SymBool):
            return r_str(r_bool(x))
        if t is dt.SymTimedelta:
            return td_str(x)
        raise Unsupported(f"str() of {t.__name__}")
    if isinstance(x, UserString):
        if is_sym(x.data):
            return mkstr(x.data.cells)
        return r_str(x)
    s = t.__str__
    if r_type(s) is FuncT:
        return s(x)
    if isinstance(x, _dt.datetime) and x.tzinfo is not None and type(x.tzinfo).__module__.split(".")[0] in ("ics", "sx"):
        return dt.lift_dt(x).symstr()
    return r_str(x)


def td_str(x):
    p = cur()
    us = z3.simplify(x.us)
    known = p.memo.get(("td", us.get_id()))
    if known is None:
        known = p.memo["td", us.get_id()] = (us, new_td_str(p, us))
    return known[1]


def new_td_str(p, us):
    days = mkint(us / dt.DAY)
    sec = us % dt.DAY
    out = []
    if p.decide(zint(days) != 0):
        out += list(cells_of(int_to_str(days)))
        out += list(map(ord, " day" if p.decide(z3.Or(zint(days) == 1, zint(days) == -1)) else " days")) + [44, 32]
    out += list(cells_of(int_to_str(mkint(sec / (3600 * dt.SEC)))))
    for d in (60 * dt.SEC, dt.SEC):
        out.append(58)
        out += list(fixed_digits(mkint(sec / d % 60), 2))
    if p.decide(sec % dt.SEC != 0):
        out.append(46)
        out += list(fixed_digits(mkint(sec % dt.SEC), 6))
    return mkstr(out)


@tmodel(int)
def m_int(*a, **k):
    if not any_sym(a, k):
        return r_int(*a, **k)
    x = a[0]
    if isinstance(x, UserString):
        x = x.data
    if type(x) is SymStr:
        return str_to_int(x, *(concretise(y, "int base") for y in a[1:]), **k)
    if type(x) is SymInt:
        return x
    if isinstance(x, SymBool):
        return mkint(zint(x))
    if type(x) is SymFloat:
        return x.trunc()
    return r_int(concretise(x, "int()"), *a[1:])


@tmodel(float)
def m_float(*a, **k):
    if not any_sym(a, k):
        return r_float(*a, **k)
    x = a[0]
    if type(x) is SymFloat:
        return x
    if type(x) is SymInt:
        return SymFloat(x.e, 1)
    return r_float(concretise(x, "float()"))


@tmodel(bool)
def m_bool(*a):
    return r_bool(*a)


@tmodel(type)
def m_type(*a, **k):
    if len(a) == 1:
        return a[0].__class__ if isinstance_sym(a[0]) else r_type(a[0])
    return r_type(*a, **k)


@tmodel(bytes)
def m_bytes(*a, **k):
    if a and type(a[0]) is SymBytes:
        return a[0]
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    return r_bytes(*a, **k)


def _dtm(cls, model):
    def m(*a, **k):
        if any_sym(a, k):
            return model(*a, **k)
        return cls(*a, **k)

    TMODELS[id(cls)] = m


_dtm(_dt.datetime, dt.new_datetime)
_dtm(_dt.date, dt.new_date)
_dtm(_dt.time, dt.new_time)
_dtm(_dt.timedelta, dt.new_timedelta)


@tmodel(_dt.timezone)
def m_timezone(*a, **k):
    if any_sym(a, k):
        off = dt.lift_td(a[0]).us
        if not cur().decide(z3.And(off > -dt.DAY, off < dt.DAY)):
            raise ValueError("offset must be strictly between -24h and 24h")
        return dt.SymTz(off, a[1] if len(a) > 1 else k.get("name"))
    return _dt.timezone(*a, **k)


@tmodel(map)
def m_map(f, *its):
    return (call(f, *x) for x in zip(*its))


@tmodel(filter)
def m_filter(f, it):
    return (x for x in it if (r_bool(x) if f is None else call(f, x)))


@tmodel(UserString)
def m_userstring(x):
    return UserString(x)


# ------------------------------------------------------------------------------------------------ functions


for _n in ("search", "match", "fullmatch", "finditer", "findall", "split", "sub", "subn"):

    def _mk(n):
        real, sym = rx.module_function(n)

        def m(*a, **k):
            return sym(*a, **k) if any_sym(a, k) else real(*a, **k)

        FMODELS[id(real)] = (real, m)

    _mk(_n)


@fmodel(re.escape)
def m_re_escape(s):
    if not is_sym(s):
        return re.escape(s)
    raise Unsupported("re.escape")


@fmodel(re.compile)
def m_re_compile(p, flags=0):
    if is_sym(p):
        return rx.Pattern(p, flags)
    return re.compile(p, flags)


@fmodel(warnings.warn)
def m_warn(*a, **k):
    p = cur()
    if p is not None:
        p.notes["warnings"] = p.notes.get("warnings", 0) + 1


@fmodel(uuid.uuid4)
def m_uuid4():
    p = cur()
    if p is None:
        return uuid.uuid4()
    p.notes["uuid"] = p.notes.get("uuid", 0) + 1
    return uuid.UUID(int=(0x1234567890ABCDEF << 64) + p.notes["uuid"], version=4)


@fmodel(builtins.ord)
def m_ord(c):
    if type(c) is SymStr:
        if len(c.cells) != 1:
            raise TypeError("ord() expected a character")
        x = cell_of(c.cells[0])
        if isinstance(x, Cell):
            x.link()
            return mkint(x.var)
        return x
    return ord(c)


@fmodel(builtins.chr)
def m_chr(i):
    if type(i) is SymInt:
        return chr(cur().concretise_int(i.e, "chr"))
    return chr(i)


@fmodel(builtins.hash)
def m_hash(x):
    if isinstance_sym(x):
        return 0
    return hash(x)


@fmodel(builtins.repr)
def m_repr(x):
    return repr(x)


@fmodel(builtins.format)
def m_format(x, spec=""):
    return fmt_value(x, spec)


@fmodel(builtins.isinstance)
def m_isinstance(x, c):
    return isinstance(x, c)


@fmodel(copy.copy)
def m_copy(x):
    return x if isinstance_sym(x) else copy.copy(x)


@fmodel(functools.reduce)
def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


for _f in (
    len, abs, min, max, sum, sorted, any, all, next, iter, getattr, hasattr, setattr, delattr, id, divmod, round,
    callable, issubclass, print, vars, dir, object.__new__,
):
    PASS.add(id(_f))
import heapq as _heapq

for _f in (_heapq.heappush, _heapq.heappop, _heapq.heapify, _heapq.heapreplace, _heapq.heappushpop):
    PASS.add(id(_f))
import bisect as _bisect

for _n in ("bisect_left", "bisect_right", "insort_left", "insort_right", "bisect", "insort"):
    PASS.add(id(getattr(_bisect, _n)))
import operator as _op

for _n in dir(_op):
    if isinstance(getattr(_op, _n), BuiltinT) and _n not in ("mod", "contains", "getitem", "index", "indexOf"):
        PASS.add(id(getattr(_op, _n)))

FMODELS[id(_op.contains)] = (_op.contains, lambda c, x: contains(x, c))
FMODELS[id(_op.mod)] = (_op.mod, lambda a, b: mod(a, b))
FMODELS[id(_op.getitem)] = (_op.getitem, lambda a, b: getitem(a, b))


# base64 ---------------------------------------------------------------------------------------

_B64 = [ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"]


def _b64_char(v):
    """sextet expression -> cell"""
    p = cur()
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return _B64[v.as_long()]
    e = z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))
    var = p.fresh_int("b64")
    p.assume(var == e)
    return Cell(p, var, IntSet.of(("A", "Z"), ("a", "z"), ("0", "9"), "+/"), False)


@fmodel(base64.urlsafe_b64encode)
def m_urlsafe_b64encode(s):
    return m_b64encode(s, b"-_")


@fmodel(base64.urlsafe_b64decode)
def m_urlsafe_b64decode(s):
    return m_b64decode(s, b"-_")


@fmodel(base64.b64encode, base64.standard_b64encode)
def m_b64encode(s, altchars=None):
    if type(s) is not SymBytes:
        return base64.b64encode(s, altchars)
    if altchars is not None:
        out = []
        for c in m_b64encode(s).cells:
            if c_is(c, 43):
                c = altchars[0]
            elif c_is(c, 47):
                c = altchars[1]
            out.append(c)
        return SymBytes(out)
    out = []
    cs = list(s.cells)
    for i in range(0, len(cs), 3):
        part = cs[i : i + 3]
        for c in part:
            if isinstance(c, Cell):
                c.link()
        v = [cvar(c) for c in part] + [z3.IntVal(0)] * (3 - len(part))
        n = len(part)
        six = [v[0] / 4, (v[0] % 4) * 16 + v[1] / 16, (v[1] % 16) * 4 + v[2] / 64, v[2] % 64]
        for j in range(4):
            out.append(_b64_char(six[j]) if j <= n else 61)
    return SymBytes(out)


@fmodel(base64.b64decode, base64.standard_b64decode)
def m_b64decode(s, altchars=None, validate=False):
    if type(s) is SymStr:
        if not s.isascii():
            raise ValueError("string argument should contain only ASCII characters")
        s = s.encode("ascii")
    if type(s) is not SymBytes:
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        out = []
        for c in s.cells:
            if c_is(c, altchars[0]):
                c = 43
            elif c_is(c, altchars[1]):
                c = 47
            out.append(c)
        s = SymBytes(out)
    import binascii

    A = IntSet.of(("A", "Z"), ("a", "z"), ("0", "9"), "+/")
    # as binascii.a2b_base64: other characters are skipped, a complete quad with padding ends the data
    vals = []
    pad = 0
    for c in s.cells:
        c = cell_of(c)
        if c_in(c, A):
            if validate and pad:
                raise Unsupported("b64 data after padding")
            pad = 0
            c = cell_of(c)
            if isinstance(c, Cell):
                c.link()
            v = cvar(c)
            vals.append(
                z3.If(v >= 97, v - 71, z3.If(v >= 65, v - 65, z3.If(v >= 48, v + 4, z3.If(v == 43, z3.IntVal(62), z3.IntVal(63)))))
            )
        elif validate:
            raise Unsupported("b64 strict mode")
        elif c_is(c, 61) and len(vals) % 4 >= 2:
            pad += 1
            if len(vals) % 4 + pad >= 4:
                break
    else:
        if len(vals) % 4:
            raise binascii.Error("Incorrect padding")
    n = len(vals)
    out = []
    p = cur()
    for i in range(0, n, 4):
        q = vals[i : i + 4]
        m = len(q)
        q = q + [z3.IntVal(0)] * (4 - m)
        three = [q[0] * 4 + q[1] / 16, (q[1] % 16) * 16 + q[2] / 4, (q[2] % 4) * 64 + q[3]]
        for e in three[: m - 1]:
            e = z3.simplify(e)
            if z3.is_int_value(e):
                out.append(e.as_long())
            else:
                var = p.fresh_int("by")
                p.assume(var == e)
                out.append(Cell(p, var, IntSet(((0, 255),)), False))
    return SymBytes(out)


# ------------------------------------------------------------------------------------------------ operators


def contains(x, c):
    if isinstance_sym(x) or isinstance_sym(c):
        if isinstance(c, UserString):
            c = c.data
        if isinstance(c, r_str):
            return c.__contains__(x) if type(c) is SymStr else lift_str(c).__contains__(x)
        if isinstance(c, SDict):
            return c.__contains__(x)
        if isinstance(c, (r_dict, r_set, frozenset)):
            return any(same(k, x) for k in list(c))
        if isinstance(c, (type({}.keys()),)):
            return any(same(k, x) for k in list(c))
        if r_type(c) is range:
            z = zint(x)
            if z is not None:
                if not len(c):
                    return False
                e = z3.And(z >= min(c[0], c[-1]), z <= max(c[0], c[-1]))
                if abs(c.step) != 1:
                    e = z3.And(e, (z - c.start) % abs(c.step) == 0)
                return r_bool(mkbool(e))
    return x in c


def getitem(o, i):
    if isinstance_sym(i):
        if isinstance(o, SDict):
            return o[i]
        if isinstance(o, r_dict):
            for k in list(o):
                if same(k, i):
                    return o[k]
            if hasattr(type(o), "__missing__"):
                return o[concretise(i, "dict key")]
            raise KeyError("<sym>")
    return o[i]


def setitem(o, i, v):
    if isinstance_sym(i) and isinstance(o, r_dict) and not isinstance_sdict(o):
        for k in list(o):
            if same(k, i):
                o[k] = v
                return
        i = concretise(i, "dict key")
    o[i] = v


def isinstance_sdict(o):
    return issubclass(r_type(o), SDict)


def mod(a, b):
    t = r_type(a)
    if t is r_str:
        if deep_sym(b) or (isinstance(b, r_dict) and any_sym(b.values(), None)) or _needs_str(b):
            return percent(a, b)
        return a % b
    if t is SymStr:
        return percent(a.concretise("format"), b)
    return a % b


def _needs_str(b):
    if r_type(b) is tuple:
        return any(_needs_str(x) for x in b)
    return r_type(r_type(b).__str__) is FuncT and not isinstance(b, (BaseException,))


def callq(f, *a, **k):
    """format and join inside of error messages: symbolic parts are left out"""
    try:
        return f(*a, **k)
    except TypeError as e:
        if "returned non-string" in r_str(e) or "expected str instance, Sym" in r_str(e):
            return "<symbolic>"
        raise


def modq(a, b):
    """`%` inside error messages: no symbolic formatting"""
    if r_type(a) is r_str:
        try:
            return a % b
        except SxAbort:
            raise
        except Exception:
            return a
    return a % b


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])")


def percent(fmt, args):
    if is_sym(fmt):
        fmt = fmt.concretise("format")
    out = []
    pos = 0
    seq = args if isinstance(args, tuple) else (args,)
    n = 0
    for m in _PCT.finditer(fmt):
        out.extend(map(ord, fmt[pos : m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append(37)
            continue
        if key is not None:
            v = getitem(args, key)
        else:
            if n >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[n]
            n += 1
        width = int(width or 0)
        if conv in "di":
            if not is_sym(v):
                out.extend(map(ord, ("%" + flags + (str(width) if width else "") + conv) % v))
                continue
            if type(v) is SymFloat:
                v = v.trunc()
            if zint(v) is None:
                raise TypeError("%d format: a real number is required")
            if "-" in flags:
                r = int_to_str(v, 1, "0", "+" in flags)
                r = call(r.ljust, width)
            else:
                r = int_to_str(v, max(width, 1), "0" if "0" in flags else " ", "+" in flags)
            out.extend(cells_of(r))
        elif conv in "sra":
            r = tostr(v) if conv == "s" else repr(v)
            if prec is not None:
                r = r[: int(prec)]
            if width and len(r) < width:
                r = call(r.ljust, width) if "-" in flags else call(r.rjust, width)
            out.extend(cells_of(r))
        else:
            if is_sym(v):
                raise Unsupported(f"format %{conv}")
            out.extend(map(ord, (m.group(0)) % v))
    out.extend(map(ord, fmt[pos:]))
    if not isinstance(args, r_dict) and n < len(seq) and isinstance(args, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


_SPEC = re.compile(r"(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)$", re.S)


def fmt_value(v, spec):
    """format(v, spec)"""
    if is_sym(spec):
        spec = spec.concretise("format spec")
    if not isinstance_sym(v):
        if spec == "":
            return tostr(v)
        return format(v, spec)
    if spec == "":
        return tostr(v)
    if isinstance(v, (_dt.date, _dt.time)):
        return v.strftime(spec)
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, alt, zero, width, comma, prec, conv = m.groups()
    width = int(width or 0)
    if comma or alt or prec is not None and type(v) is not SymStr:
        raise Unsupported(f"format spec {spec!r}")
    fill = fill or ("0" if zero else " ")
    if type(v) is SymStr:
        r = v if prec is None else v[: int(prec)]
        align = align or "<"
    else:
        if type(v) is SymFloat or zint(v) is None or conv not in ("", "d"):
            raise Unsupported(f"format spec {spec!r} of {type(v).__name__}")
        if zero or (align == "=" and fill == "0"):
            return int_to_str(v, max(width, 1), "0", sign == "+")
        r = int_to_str(v, 1, "0", sign == "+")
        align = align or ">"
    pad = width - len(r)
    if pad <= 0:
        return r
    if align == "<":
        return call(r.ljust, width, fill)
    if align == ">":
        return call(r.rjust, width, fill)
    if align == "^":
        left = pad // 2
        return fill * left + r + fill * (pad - left)
    raise Unsupported(f"format spec {spec!r}")


def fstrq(*parts):
    """the message of an exception: symbolic parts are left out"""
    out = []
    for p in parts:
        if r_type(p) is tuple:
            v, conv, spec = p
            try:
                if conv:
                    v = {"r": repr, "s": r_str, "a": ascii}[conv](v)
                p = format(v, spec)
            except TypeError as e:
                if "returned non-string" not in r_str(e):
                    raise
                p = "<symbolic>"
        out.append(p if r_type(p) is r_str else "<symbolic>")
    return "".join(out)


def fstr(*parts):
    out = []
    symbolic = False
    for p in parts:
        if r_type(p) is tuple:
            v, conv, spec = p
            if conv == "r":
                v = repr(v)
            elif conv == "s":
                v = tostr(v)
            elif conv == "a":
                v = ascii(v)
            p = fmt_value(v, spec)
        if r_type(p) is not r_str:
            symbolic = True
        out.append(p)
    if not symbolic:
        return "".join(out)
    cells = []
    for p in out:
        cells.extend(cells_of(p))
    return mkstr(cells)


import string as _string


def str_format(fmt, a, k):
    if is_sym(fmt):
        fmt = fmt.concretise("format")
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else getitem(v, i)
        if spec and "{" in spec:
            spec = str_format(spec, a, k)
        parts.append((v, conv, spec or ""))
    return fstr(*parts)


_STRM = {}


def tattr(name):
    """`str.<name>` used as a function object"""
    r = _STRM.get(name)
    if r is None:
        real = getattr(r_str, name)

        @functools.wraps(real)
        def f(s, *a, **k):
            if type(s) is SymStr or any_sym(a, k):
                return call(getattr(s, name), *a, **k)
            return real(s, *a, **k)

        if not callable(real) or name == "maketrans":
            f = real
        r = _STRM[name] = f
    return r


# ------------------------------------------------------------------------------------------------ containers


class _DictMeta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, r_dict)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, r_dict)


_MISSING = object()


class SDict(dict, metaclass=_DictMeta):
    """dict that accepts symbolic keys: looked up by (symbolic) equality, insertion ordered"""

    __slots__ = ("_it",)

    def __init__(self, *a, **k):
        self._it = None
        dict.__init__(self)
        self.update(*a, **k)

    def __class_getitem__(cls, item):
        return types.GenericAlias(r_dict, item)

    def _listmode(self):
        if self._it is None:
            self._it = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        """entry in list mode / (key,) in native mode / None"""
        if self._it is None:
            if isinstance_sym(key):
                for k in list(dict.keys(self)):
                    if same(k, key):
                        return (k,)
                return None
            return (key,) if dict.__contains__(self, key) else None
        for e in self._it:
            if same(e[0], key):
                return e
        return None

    def __contains__(self, key):
        return self._find(key) is not None

    def __getitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key if not isinstance_sym(key) else "<sym>")
        return dict.__getitem__(self, e[0]) if self._it is None else e[1]

    def get(self, key, default=None):
        e = self._find(key)
        if e is None:
            return default
        return dict.__getitem__(self, e[0]) if self._it is None else e[1]

    def __setitem__(self, key, value):
        e = self._find(key)
        if self._it is None:
            if e is not None:
                dict.__setitem__(self, e[0], value)
            elif isinstance_sym(key):
                self._listmode()
                self._it.append([key, value])
            else:
                dict.__setitem__(self, key, value)
        elif e is not None:
            e[1] = value
        else:
            self._it.append([key, value])

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError("<sym>" if isinstance_sym(key) else key)
        if self._it is None:
            dict.__delitem__(self, e[0])
        else:
            self._it = [x for x in self._it if x is not e]

    def setdefault(self, key, default=None):
        e = self._find(key)
        if e is not None:
            return dict.__getitem__(self, e[0]) if self._it is None else e[1]
        self[key] = default
        return default

    def pop(self, key, *default):
        e = self._find(key)
        if e is None:
            if default:
                return default[0]
            raise KeyError("<sym>" if isinstance_sym(key) else key)
        if self._it is None:
            return dict.pop(self, e[0])
        self._it = [x for x in self._it if x is not e]
        return e[1]

    def popitem(self):
        if self._it is None:
            return dict.popitem(self)
        if not self._it:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self._it.pop())

    def clear(self):
        self._it = None
        dict.clear(self)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = getitem(o, x)
            else:
                for x, v in o:
                    self[x] = v
        for x, v in k.items():
            self[x] = v

    def keys(self):
        return dict.keys(self) if self._it is None else [k for k, v in self._it]

    def values(self):
        return dict.values(self) if self._it is None else [v for k, v in self._it]

    def items(self):
        return dict.items(self) if self._it is None else [tuple(e) for e in self._it]

    def __iter__(self):
        return dict.__iter__(self) if self._it is None else iter([k for k, v in self._it])

    def __reversed__(self):
        return reversed(list(self.__iter__()))

    def __len__(self):
        return dict.__len__(self) if self._it is None else len(self._it)

    def __eq__(self, o):
        if not isinstance(o, r_dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in list(self.items()):
            w = o.get(k, _MISSING) if isinstance_sdict(o) or not isinstance_sym(k) else call(o.get, k, _MISSING)
            if w is _MISSING or not same(v, w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def copy(self):
        return SDict(self)

    def __copy__(self):
        return SDict(self)

    def __or__(self, o):
        n = SDict(self)
        n.update(o)
        return n

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"

    @staticmethod
    def fromkeys(it, v=None):
        return SDict((k, v) for k in it)


def mkdict(*pairs):
    """dict display: (key, value) pairs or 1-tuples for **mapping"""
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def dictcomp(gen):
    d = SDict()
    for k, v in gen:
        d[k] = v
    return d


def set_method(s, f, name, a, k):
    if name == "issuperset":
        return all(set_method(s, None, "__contains__", [x], {}) for x in a[0])
    if name in ("add", "__contains__", "discard", "remove"):
        for x in list(s):
            if same(x, a[0]):
                if name == "__contains__":
                    return True
                if name in ("discard", "remove"):
                    s.discard(x)
                return None
        if name == "__contains__":
            return False
        if name == "remove":
            raise KeyError("<sym>")
        if name == "add":
            return f(concretise(a[0], "set element"))
        return None
    return f(*[concretise(x, "set method") for x in a], **k)


class _SetMeta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, r_set) or type(inst) is SSet

    def __subclasscheck__(cls, sub):
        return issubclass(sub, r_set) or sub is SSet


class SSet(metaclass=_SetMeta):
    """set by (symbolic) equality"""

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def __class_getitem__(cls, item):
        return types.GenericAlias(r_set, item)

    @property
    def __class__(self):
        return r_set

    def add(self, x):
        if x not in self:
            self._l.append(x)

    def __contains__(self, x):
        return any(same(y, x) for y in self._l)

    def discard(self, x):
        self._l = [y for y in self._l if not same(y, x)]

    def remove(self, x):
        if x not in self:
            raise KeyError("set")
        self.discard(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def clear(self):
        self._l = []

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __eq__(self, o):
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __or__(self, o):
        n = SSet(self)
        n.update(o)
        return n

    union = __or__
    __ior__ = __or__

    def __and__(self, o):
        return SSet(x for x in self if contains(x, o))

    intersection = __and__

    def __sub__(self, o):
        return SSet(x for x in self if not contains(x, o))

    difference = __sub__

    def issubset(self, o):
        return all(contains(x, o) for x in self)

    __le__ = issubset

    def copy(self):
        return SSet(self)

    def pop(self):
        return self._l.pop()


def mkset(*items):
    return SSet(items)


TMODELS[id(dict)] = SDict
TMODELS[id(set)] = SSet
