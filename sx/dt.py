"""Proxy values for the datetime module (exact integer arithmetic on microseconds)."""
import zoneinfo
import collections
import datetime as _dt
import time as _time

import z3

from sx import chars
from sx.core import Cell, IntSet, Infeasible, Unsupported, cur
from sx.values import (
    Sym, SymBool, SymFloat, SymInt, SymStr, c_in, c_is, cell_of, cells_of, digit_value, fixed_digits, int_to_str, is_sym, known_number, mkbool,
    mkint, mkstr, sand, snot, str_to_int, zbool, zint,
)

SEC = 10**6
DAY = 86400 * SEC

r_date, r_datetime, r_time, r_timedelta, r_tzinfo, r_timezone = (
    _dt.date, _dt.datetime, _dt.time, _dt.timedelta, _dt.tzinfo, _dt.timezone,
)

_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def iv(x):
    return z3.IntVal(x)


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim(y, m):
    e = iv(31)
    for i in range(10, -1, -1):
        e = z3.If(m == i + 1, iv(_DIM[i]), e)
    return z3.If(z3.And(m == 2, leap(y)), iv(29), e)


def ordinal(y, m, d):
    y1 = y - 1
    cum = iv(_CUM[11])
    for i in range(10, -1, -1):
        cum = z3.If(m == i + 1, iv(_CUM[i]), cum)
    return 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400 + cum + z3.If(z3.And(m > 2, leap(y)), iv(1), iv(0)) + d


def td_us(td):
    return (td.days * 86400 + td.seconds) * SEC + td.microseconds


def us_td(us):
    return r_timedelta(days=us // DAY, microseconds=us % DAY)


# ------------------------------------------------------------------------------------------------ timedelta


def lift_td(x):
    if type(x) is SymTimedelta:
        return x
    return SymTimedelta(iv(td_us(x)))


def mktd(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return us_td(e.as_long())
    return SymTimedelta(e)


class SymTimedelta(Sym):
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return r_timedelta

    def _td(self, o):
        if type(o) is SymTimedelta:
            return o.us
        if isinstance(o, r_timedelta) and not isinstance(o, Sym):
            return iv(td_us(o))
        return None

    def __add__(self, o):
        u = self._td(o)
        if u is not None:
            return mktd(self.us + u)
        if isinstance(o, r_date):
            return lift_dt(o).__add__(self)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        u = self._td(o)
        return NotImplemented if u is None else mktd(self.us - u)

    def __rsub__(self, o):
        u = self._td(o)
        if u is not None:
            return mktd(u - self.us)
        if isinstance(o, r_date):
            return lift_dt(o).__sub__(self)
        return NotImplemented

    def __neg__(self):
        return mktd(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if cur().decide(self.us >= 0) else mktd(-self.us)

    def __mul__(self, o):
        z = zint(o)
        if z is not None:
            return mktd(self.us * z)
        if isinstance(o, float):
            n, d = o.as_integer_ratio()
            return mktd(zint(SymFloat(self.us * n, d).__round__()))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        u = self._td(o)
        if u is not None:
            return mkint(self.us) // mkint(u)
        z = zint(o)
        if z is not None:
            return mktd(zint(mkint(self.us) // o))
        return NotImplemented

    def __rfloordiv__(self, o):
        return lift_td(o) // self

    def __mod__(self, o):
        u = self._td(o)
        if u is None:
            return NotImplemented
        return mktd(zint(mkint(self.us) % mkint(u)))

    def __rmod__(self, o):
        return lift_td(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        u = self._td(o)
        if u is not None:
            return SymFloat(self.us, 1) / mkint(u)
        z = zint(o)
        if z is not None:
            return mktd(zint(mkint(zint(SymFloat(self.us, 1).__truediv__(o).__round__()))))
        return NotImplemented

    def __bool__(self):
        return cur().decide(self.us != 0)

    def _cmp(self, o, f):
        u = self._td(o)
        if u is None:
            return NotImplemented
        return mkbool(f(self.us, u))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concretise("hash"))

    def concretise(self, why="timedelta"):
        return us_td(cur().concretise_int(self.us, why))

    @property
    def days(self):
        return mkint(self.us / DAY)

    @property
    def seconds(self):
        return mkint((self.us % DAY) / SEC)

    @property
    def microseconds(self):
        return mkint(self.us % SEC)

    def total_seconds(self):
        return SymFloat(self.us, SEC)

    def __repr__(self):
        return "<symtd>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


TD_TYPES = (r_timedelta,)


def new_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    total = iv(0)
    for v, f in (
        (days, DAY), (seconds, SEC), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * SEC), (hours, 3600 * SEC),
        (weeks, 7 * DAY),
    ):
        z = zint(v)
        if z is not None:
            total = total + z * f
        elif isinstance(v, SymFloat):
            total = total + zint((v * f).__round__())
        elif isinstance(v, float):
            total = total + td_us(r_timedelta(microseconds=v * f))
        else:
            raise TypeError(f"unsupported type for timedelta component: {type(v).__name__}")
    lim = 10**9 * DAY
    if cur().decide(z3.Or(total <= -lim, total >= lim)):
        raise OverflowError("timedelta out of range")
    return mktd(total)


# ------------------------------------------------------------------------------------------------ tzinfo


class SymTz(Sym):
    """a fixed offset time zone with a symbolic offset (behaves like datetime.timezone)"""

    kind = "fixed"

    def __init__(self, us, name=None):
        self.us = us
        self._name = name

    @property
    def __class__(self):
        return r_timezone

    def utcoffset(self, dt):
        return mktd(self.us)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        if self._name is not None:
            return self._name
        p = cur()
        if p.decide(self.us == 0):
            return "UTC"
        neg = p.decide(self.us < 0)
        a = -self.us if neg else self.us
        parts = [("-" if neg else "+"), mkint(a / (3600 * SEC)), ":", mkint(a / (60 * SEC) % 60)]
        if not p.decide(a % (60 * SEC) == 0):
            parts += [":", mkint(a / SEC % 60)]
            if not p.decide(a % SEC == 0):
                raise Unsupported("sub-second utc offset name")
        out = [85, 84, 67]
        for x in parts:
            out.extend(map(ord, x) if isinstance(x, str) else fixed_digits(x, 2))
        return mkstr(out)

    def fromutc(self, dt):
        return dt + mktd(self.us)

    def __eq__(self, o):
        if isinstance(o, SymTz):
            return mkbool(self.us == o.us) if o.kind == self.kind else False
        if self.kind == "fixed" and isinstance(o, r_timezone):
            return mkbool(self.us == td_us(o.utcoffset(None)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic tz")

    def __str__(self):
        return "<symtz>"

    def symstr(self):
        return self.tzname(None)

    def concretise(self, why="tz"):
        us = cur().concretise_int(self.us, why)
        return r_timezone(us_td(us))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of tz")


def local_offset():
    p = cur()
    off = p.notes.get("local_offset")
    return iv(0) if off is None else off


class _LocalMeta(type):
    def __instancecheck__(cls, inst):
        return type(inst) is cls


class SymLocal(SymTz, metaclass=_LocalMeta):
    """stands for dateutil.tz.tzlocal: the (fixed, symbolic) offset of the process' local time"""

    kind = "local"

    def __init__(self):
        super().__init__(local_offset(), "LOC")

    @property
    def __class__(self):
        return SymLocal

    def dst(self, dt):
        return r_timedelta(0)

    def __hash__(self):
        raise TypeError("unhashable type: 'tzlocal'")  # as dateutil's

    def symstr(self):
        return "tzlocal()"

    def is_ambiguous(self, dt):
        return False

    def __str__(self):
        return "tzlocal()"

    def __repr__(self):
        return "tzlocal()"

    def concretise(self, why="tz"):
        raise Unsupported("concretise local tz")


def tz_offset(tz, d):
    """utcoffset as z3 microseconds or None"""
    if tz is None:
        return None
    if isinstance(tz, SymTz):
        return tz.us
    if type(tz) is r_timezone:
        return iv(td_us(tz.utcoffset(None)))
    if type(tz) is zoneinfo.ZoneInfo:
        off = tz.utcoffset(None)
        if off is not None:  # a fixed offset
            return iv(td_us(off))
    from sx import rt

    td = rt.call(tz.utcoffset, d)
    if td is None:
        return None
    return lift_td(td).us


def tz_fromutc(tz, d):
    if isinstance(tz, SymTz):
        return tz.fromutc(d)
    if type(tz) is r_timezone:
        return d + tz.utcoffset(None)
    if type(tz) is zoneinfo.ZoneInfo and tz.utcoffset(None) is not None:
        return d + tz.utcoffset(None)
    from sx import rt

    return rt.call(tz.fromutc, d)


# ------------------------------------------------------------------------------------------------ date


class _DateFields:
    __slots__ = ()


SMALL = 800  # days


def valid_ymd(*ymd):
    """these values are known to be a date"""
    cur().okdates[tuple(x.get_id() for x in ymd)] = ymd
    return ymd


def is_valid_ymd(*ymd):
    return tuple(x.get_id() for x in ymd) in cur().okdates


def _ymd_of_day(day):
    p = cur()
    day = z3.simplify(day)
    known = p.memo.get(("ymd", day.get_id()))
    if known is None:
        known = p.memo["ymd", day.get_id()] = (day, _new_ymd(p, day))
    return known[1]


def field(whole, i, fields):
    """a field of a day or of a time of day"""
    whole = z3.simplify(whole)
    if z3.is_int_value(whole):
        return mkint(fields()[i])
    return SymInt(None, (whole, i, fields))


def whole(*xs):
    """the number that these fields were taken from, if they all belong together"""
    if all(type(x) is SymInt and x.src is not None and x.src[1] == i for i, x in enumerate(xs)) and len({x.src[0].get_id() for x in xs}) == 1:
        return xs[0].src[0]
    return None


def _new_ymd(p, day):
    b = p.bounds(day)
    if b is not None and 1 <= b[0] and b[1] <= r_date.max.toordinal() and b[1] - b[0] <= SMALL:
        # few months: a linear case distinction
        if day.children():
            v = p.bounded_int("day", *b)
            p.add(z3.And(v == day, v >= b[0], v <= b[1]))
            day = v
        y = m = d = None
        at = r_date.fromordinal(b[1]).replace(day=1)
        while True:
            o = at.toordinal()
            t = iv(at.year), iv(at.month), day - (o - 1)
            if y is None:
                y, m, d = t
            else:
                c = day < nxt
                y, m, d = z3.If(c, t[0], y), z3.If(c, t[1], m), z3.If(c, t[2], d)
            if o <= b[0]:
                return valid_ymd(y, m, d)
            nxt = o
            at = (at - r_timedelta(days=1)).replace(day=1)
    lo, hi = b or (1, 3652059)
    ylo, yhi = r_date.fromordinal(max(lo, 1)).year, r_date.fromordinal(min(hi, 3652059)).year
    y, m, d = p.bounded_int("y", ylo, yhi), p.bounded_int("m", 1, 12), p.bounded_int("d", 1, 31)
    p.flush()
    p.assume(z3.And(y >= ylo, y <= yhi, m >= 1, m <= 12, d >= 1, d <= dim(y, m), day == ordinal(y, m, d)))
    return valid_ymd(y, m, d)


IsoCalendar = collections.namedtuple("IsoCalendarDate", "year week weekday")


def _missing(cls, name):
    """an attribute of the real class that has no model"""
    if name in ("min", "max", "resolution"):
        return getattr(cls, name)
    if name.startswith("__") or not hasattr(cls, name):
        raise AttributeError(name)
    raise Unsupported(f"{cls.__name__}.{name}")


def _fd(x, n):
    return list(fixed_digits(x, n))


def _timetuple(ymd, hms, day, flag):
    y, m, d = ymd
    yday = day - ordinal(y, iv(1), iv(1)) + 1
    return _time.struct_time([mkint(x) for x in (y, m, d, *hms[:3], (day + 6) % 7, yday)] + [flag])


def _iso_time(hms, timespec="auto"):
    p = cur()
    if timespec == "auto":
        timespec = "microseconds" if p.decide(hms[3] != 0) else "seconds"
    n = {"hours": 1, "minutes": 2, "seconds": 3, "milliseconds": 3, "microseconds": 3}.get(timespec)
    if n is None:
        raise ValueError("Unknown timespec value")
    out = []
    for x in hms[:n]:
        out += ([58] if out else []) + _fd(mkint(x), 2)
    if timespec == "milliseconds":
        out += [46] + _fd(mkint(hms[3] / 1000), 3)
    elif timespec == "microseconds":
        out += [46] + _fd(mkint(hms[3]), 6)
    return out


def _iso_offset(off):
    if off is None:
        return []
    p = cur()
    neg = p.decide(off < 0)
    a = -off if neg else off
    out = [45 if neg else 43] + _fd(mkint(a / (3600 * SEC)), 2) + [58] + _fd(mkint(a / (60 * SEC) % 60), 2)
    if p.decide(a % (60 * SEC) != 0):
        out += [58] + _fd(mkint(a / SEC % 60), 2)
        if p.decide(a % SEC != 0):
            out += [46] + _fd(mkint(a % SEC), 6)
    return out


class SymDate(Sym):
    __slots__ = ("_day", "_ymd")

    def __init__(self, day=None, ymd=None):
        self._day = day
        self._ymd = ymd

    @property
    def __class__(self):
        return r_date

    @property
    def dayz(self):
        if self._day is None:
            self._day = ordinal(*self._ymd)
        return self._day

    @property
    def ymd(self):
        if self._ymd is None:
            self._ymd = _ymd_of_day(self._day)
        return self._ymd

    def _date_field(self, i):
        return mkint(self._ymd[i]) if self._ymd is not None else field(self.dayz, i, lambda: self.ymd)

    year = property(lambda s: s._date_field(0))
    month = property(lambda s: s._date_field(1))
    day = property(lambda s: s._date_field(2))

    def toordinal(self):
        return mkint(self.dayz)

    def weekday(self):
        return mkint((self.dayz + 6) % 7)

    def isoweekday(self):
        return self.weekday() + 1

    def _other(self, o):
        if type(o) is SymDate:
            return o
        if isinstance(o, r_date) and not isinstance(o, (r_datetime, Sym)):
            return lift_date(o)
        return None

    def _cmp(self, o, f):
        d = self._other(o)
        if d is None:
            return NotImplemented
        return mkbool(f(self.dayz, d.dayz))

    def __eq__(self, o):
        d = self._other(o)
        if d is None:
            return NotImplemented
        if self._ymd is not None and d._ymd is not None:
            return mkbool(z3.And(*[a == b for a, b in zip(self._ymd, d._ymd)]))
        return mkbool(self.dayz == d.dayz)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concretise("hash"))

    def __add__(self, o):
        if not isinstance(o, r_timedelta):
            return NotImplemented
        return SymDate(self.dayz + lift_td(o).us / DAY)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, r_timedelta):
            return SymDate(self.dayz + (-(lift_td(o).us / DAY)))
        d = self._other(o)
        if d is None:
            return NotImplemented
        return mktd((self.dayz - d.dayz) * DAY)

    def __rsub__(self, o):
        d = self._other(o)
        if d is None:
            return NotImplemented
        return mktd((d.dayz - self.dayz) * DAY)

    def replace(self, year=None, month=None, day=None):
        return new_date(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
        )

    def strftime(self, fmt):
        return strftime(fmt, self.ymd, (iv(0),) * 4, None)

    def isoformat(self):
        y, m, d = (mkint(x) for x in self.ymd)
        return mkstr(_fd(y, 4) + [45] + _fd(m, 2) + [45] + _fd(d, 2))

    symstr = isoformat

    def timetuple(self):
        return _timetuple(self.ymd, (iv(0),) * 4, self.dayz, -1)

    def isocalendar(self):
        # the week belongs to the year of its thursday
        wd = (self.dayz + 6) % 7
        y, m, d = _ymd_of_day(self.dayz - wd + 3)
        week = (self.dayz - wd + 3 - ordinal(y, iv(1), iv(1))) / 7 + 1
        return IsoCalendar(mkint(y), mkint(week), mkint(wd + 1))

    def __getattr__(self, name):
        return _missing(r_date, name)

    def concretise(self, why="date"):
        return r_date.fromordinal(cur().concretise_int(self.dayz, why))

    def __repr__(self):
        return "<symdate>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symdate>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def lift_date(d):
    if isinstance(d, SymDate):
        return d
    return SymDate(iv(d.toordinal()), (iv(d.year), iv(d.month), iv(d.day)))


def _all_concrete(xs):
    return not any(is_sym(x) for x in xs)


def new_date(year, month=None, day=None):
    known = whole(year, month, day)
    if known is not None:
        return SymDate(known)
    y, m, d = zint(year), zint(month), zint(day)
    if not cur().decide(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m))):
        raise ValueError("day is out of range for month")
    return SymDate(None, (y, m, d))


# ------------------------------------------------------------------------------------------------ time


class SymTime(Sym):
    __slots__ = ("hms", "tzinfo", "fold")

    def __init__(self, hms, tzinfo=None, fold=0):
        self.hms = hms
        self.tzinfo = tzinfo
        self.fold = fold

    @property
    def __class__(self):
        return r_time

    hour = property(lambda s: mkint(s.hms[0]))
    minute = property(lambda s: mkint(s.hms[1]))
    second = property(lambda s: mkint(s.hms[2]))
    microsecond = property(lambda s: mkint(s.hms[3]))

    @property
    def todz(self):
        h, m, s, us = self.hms
        return ((h * 60 + m) * 60 + s) * SEC + us

    def utcoffset(self):
        o = tz_offset(self.tzinfo, None)
        return None if o is None else mktd(o)

    def _other(self, o):
        if type(o) is SymTime:
            return o
        if isinstance(o, r_time) and not isinstance(o, Sym):
            return SymTime((iv(o.hour), iv(o.minute), iv(o.second), iv(o.microsecond)), o.tzinfo, o.fold)
        return None

    def __eq__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if self.tzinfo is o.tzinfo:
            return mkbool(z3.And(*[a == b for a, b in zip(self.hms, o.hms)]))
        a, b = tz_offset(self.tzinfo, None), tz_offset(o.tzinfo, None)
        if (a is None) != (b is None):
            return False
        if a is None:
            return mkbool(z3.And(*[x == y for x, y in zip(self.hms, o.hms)]))
        return mkbool(self.todz - a == o.todz - b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _cmp(self, o, f):
        o = self._other(o)
        if o is None:
            return NotImplemented
        a, b = tz_offset(self.tzinfo, None), tz_offset(o.tzinfo, None)
        if (a is None) != (b is None):
            raise TypeError("can't compare offset-naive and offset-aware times")
        if a is None:
            a = b = iv(0)
        return mkbool(f(self.todz - a, o.todz - b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concretise("hash"))

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        hms = list(self.hms)
        for i, v in enumerate((hour, minute, second, microsecond)):
            if v is not None:
                hms[i] = zint(v)
        h, mi, s, us = hms
        if not cur().decide(z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < SEC)):
            raise ValueError("hour must be in 0..23")
        return SymTime(tuple(hms), self.tzinfo if tzinfo is True else tzinfo, self.fold if fold is None else fold)

    def strftime(self, fmt):
        return strftime(fmt, (iv(1900), iv(1), iv(1)), self.hms, self.tzinfo)

    def isoformat(self, timespec="auto"):
        return mkstr(_iso_time(self.hms, timespec) + _iso_offset(tz_offset(self.tzinfo, None)))

    symstr = isoformat

    def __bool__(self):
        return True

    def dst(self):
        return self._zone("dst")

    def tzname(self):
        return self._zone("tzname")

    def _zone(self, name):
        if self.tzinfo is None:
            return None
        from sx import rt

        return rt.call(getattr(self.tzinfo, name), None)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return "<symtime>"

    def __getattr__(self, name):
        return _missing(r_time, name)

    def concretise(self, why="time"):
        tz = self.tzinfo
        if isinstance(tz, SymTz):
            tz = tz.concretise(why)
        return r_time(*[cur().concretise_int(x, why) for x in self.hms], tzinfo=tz, fold=int(self.fold))

    def __repr__(self):
        return "<symtime>"

    __str__ = __repr__


# ------------------------------------------------------------------------------------------------ datetime


class SymDatetime(Sym):
    """wall clock time: (day, tod) with derived calendar and clock fields, tzinfo and fold"""

    __slots__ = ("_w", "_day", "_tod", "_ymd", "_hms", "tzinfo", "fold", "nat")

    def __init__(self, w=None, day=None, tod=None, ymd=None, hms=None, tzinfo=None, fold=0):
        self._w = w
        self._day = day
        self._tod = tod
        self._ymd = ymd
        self._hms = hms
        self.tzinfo = tzinfo
        self.fold = fold
        self.nat = w is None and day is None and ymd is not None  # given by its fields

    @property
    def __class__(self):
        return r_datetime

    def copy(self, **kw):
        n = SymDatetime(self._w, self._day, self._tod, self._ymd, self._hms, self.tzinfo, self.fold)
        n.nat = self.nat
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    # -- representations
    @property
    def w(self):
        if self._w is None:
            self._w = self.dayz * DAY + self.todz
        return self._w

    def _split(self):
        p = cur()
        w = z3.simplify(self._w)
        if z3.is_int_value(w):
            self._day, self._tod = iv(w.as_long() // DAY), iv(w.as_long() % DAY)
            return
        known = p.memo.get(("split", w.get_id()))
        if known is None:
            b = p.bounds(w)
            day = p.fresh_int("day") if b is None else p.bounded_int("day", b[0] // DAY, b[1] // DAY)
            tod = p.bounded_int("tod", 0, DAY - 1)
            p.flush()
            p.assume(z3.And(w == day * DAY + tod, tod >= 0, tod < DAY))
            p.memo["split", w.get_id()] = known = (w, day, tod)
        _, day, tod = known
        if self._day is None:
            self._day = day
        if self._tod is None:
            self._tod = tod

    @property
    def dayz(self):
        if self._day is None:
            if self._ymd is not None:
                self._day = ordinal(*self._ymd)
            else:
                self._split()
        return self._day

    @property
    def todz(self):
        if self._tod is None:
            if self._hms is not None:
                h, m, s, us = self._hms
                self._tod = ((h * 60 + m) * 60 + s) * SEC + us
            else:
                self._split()
        return self._tod

    @property
    def ymd(self):
        if self._ymd is None:
            self._ymd = _ymd_of_day(self.dayz)
        return self._ymd

    @property
    def hms(self):
        if self._hms is None:
            p = cur()
            tod = z3.simplify(self.todz)
            if z3.is_int_value(tod):
                t = tod.as_long()
                self._hms = (iv(t // (3600 * SEC)), iv(t // (60 * SEC) % 60), iv(t // SEC % 60), iv(t % SEC))
            elif ("hms", tod.get_id()) in p.memo:
                self._hms = p.memo["hms", tod.get_id()][1]
            else:
                h, m, s, us = (p.bounded_int(n, 0, k - 1) for n, k in (("h", 24), ("mi", 60), ("s", 60), ("us", SEC)))
                p.flush()
                p.assume(
                    z3.And(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60, us >= 0, us < SEC,
                           tod == ((h * 60 + m) * 60 + s) * SEC + us)
                )
                self._hms = (h, m, s, us)
                p.memo["hms", tod.get_id()] = (tod, self._hms)
        return self._hms

    def _date_field(self, i):
        return mkint(self._ymd[i]) if self._ymd is not None else field(self.dayz, i, lambda: self.ymd)

    def _time_field(self, i):
        return mkint(self._hms[i]) if self._hms is not None else field(self.todz, i, lambda: self.hms)

    year = property(lambda s: s._date_field(0))
    month = property(lambda s: s._date_field(1))
    day = property(lambda s: s._date_field(2))
    hour = property(lambda s: s._time_field(0))
    minute = property(lambda s: s._time_field(1))
    second = property(lambda s: s._time_field(2))
    microsecond = property(lambda s: s._time_field(3))

    # -- zone
    def offset(self):
        return tz_offset(self.tzinfo, self)

    def utcoffset(self):
        o = self.offset()
        return None if o is None else mktd(o)

    def dst(self):
        if self.tzinfo is None:
            return None
        from sx import rt

        if type(self.tzinfo) is r_timezone:
            return None
        return rt.call(self.tzinfo.dst, self)

    def tzname(self):
        if self.tzinfo is None:
            return None
        from sx import rt

        if type(self.tzinfo) is r_timezone:
            return self.tzinfo.tzname(None)
        return rt.call(self.tzinfo.tzname, self)

    def _other(self, o):
        if type(o) is SymDatetime:
            return o
        if isinstance(o, r_datetime) and not isinstance(o, Sym):
            return lift_dt(o)
        return None

    def _same_wall(self, o):
        a, b = self, o
        if a._ymd is not None and b._ymd is not None:
            day = z3.And(*[x == y for x, y in zip(a._ymd, b._ymd)])
        elif a._day is not None or b._day is not None:
            day = a.dayz == b.dayz
        else:
            return a.w == b.w
        if a._hms is not None and b._hms is not None:
            t = z3.And(*[x == y for x, y in zip(a._hms, b._hms)])
        else:
            t = a.todz == b.todz
        return z3.And(day, t)

    def _trivial_tz(self):
        return self.tzinfo is None or isinstance(self.tzinfo, SymTz) or type(self.tzinfo) is r_timezone

    def _fold_dependent(self, off):
        """PEP 495: does the utcoffset depend on fold? (as a z3 Bool)"""
        if self._trivial_tz():
            return z3.BoolVal(False)
        other = self.copy(fold=1 - self.fold)
        return other.offset() != off

    def __eq__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        if self.tzinfo is o.tzinfo:
            return mkbool(self._same_wall(o))
        a, b = self.offset(), o.offset()
        if (a is None) != (b is None):
            return False
        if a is None:
            return mkbool(self._same_wall(o))
        e = self.w - a == o.w - b
        fa = z3.simplify(self._fold_dependent(a))
        fb = z3.simplify(o._fold_dependent(b))
        return mkbool(z3.And(e, z3.Not(fa), z3.Not(fb)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _lex(self, o, f):
        """comparison field by field, for values that are given by their fields"""
        va, vb = (*self._ymd, *self._hms), (*o._ymd, *o._hms)
        r = f(va[-1], vb[-1])
        for x, y in list(zip(va, vb))[-2::-1]:
            r = z3.Or(z3.And(f(x, y), x != y), z3.And(x == y, r))
        return mkbool(r)

    def _by_fields(self, o):
        return self.nat and o.nat and None not in (self._ymd, self._hms, o._ymd, o._hms)

    def _cmp(self, o, f):
        o2 = self._other(o)
        if o2 is None:
            if isinstance(o, r_date):
                raise TypeError("can't compare datetime.datetime to datetime.date")
            return NotImplemented
        o = o2
        if self.tzinfo is o.tzinfo:
            if self._by_fields(o):
                return self._lex(o, f)
            return mkbool(f(self.w, o.w))
        a, b = self.offset(), o.offset()
        if (a is None) != (b is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if self._by_fields(o) and (a is None or z3.is_true(z3.simplify(a == b))):
            return self._lex(o, f)
        if a is None:
            return mkbool(f(self.w, o.w))
        return mkbool(f(self.w - a, o.w - b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.concretise("hash"))

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, r_timedelta):
            return NotImplemented
        us = z3.simplify(lift_td(o).us)
        if z3.is_int_value(us) and us.as_long() == 0:
            return self.copy(fold=0)
        if z3.is_int_value(us) and us.as_long() % DAY == 0 and self._tod is not None and self._w is None:
            n = SymDatetime(day=self.dayz + us.as_long() // DAY, tod=self._tod, hms=self._hms, tzinfo=self.tzinfo)
        else:
            n = SymDatetime(self.w + us, tzinfo=self.tzinfo)
        lim = n.w
        if cur().decide(z3.Or(lim < DAY, lim >= 3652060 * DAY)):
            raise OverflowError("date value out of range")
        return n

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, r_timedelta):
            return self.__add__(-o)
        o2 = self._other(o)
        if o2 is None:
            return NotImplemented
        o = o2
        if self.tzinfo is o.tzinfo:
            return mktd(self.w - o.w)
        a, b = self.offset(), o.offset()
        if (a is None) != (b is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        if a is None:
            return mktd(self.w - o.w)
        return mktd((self.w - a) - (o.w - b))

    def __rsub__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    # -- parts
    def date(self):
        return SymDate(self.dayz, self._ymd)

    def time(self):
        return SymTime(self.hms, None, self.fold)

    def timetz(self):
        return SymTime(self.hms, self.tzinfo, self.fold)

    def toordinal(self):
        return mkint(self.dayz)

    def weekday(self):
        return mkint((self.dayz + 6) % 7)

    def isoweekday(self):
        return self.weekday() + 1

    def timestamp(self):
        off = self.offset()
        if off is None:
            off = local_offset()
        return SymFloat(self.w - off - r_datetime(1970, 1, 1).toordinal() * DAY, SEC)

    def replace(
        self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *,
        fold=None,
    ):
        if tzinfo is not True and tzinfo is not None and not isinstance(tzinfo, (r_tzinfo, SymTz)):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        n = self.copy()
        if tzinfo is not True:
            n.tzinfo = tzinfo
        if fold is not None:
            n.fold = fold
        if not (year is None and month is None and day is None):
            y, m, d = self.ymd
            y = y if year is None else zint(year)
            m = m if month is None else zint(month)
            d = d if day is None else zint(day)
            if not cur().decide(z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m))):
                raise ValueError("day is out of range for month")
            tod = self.todz
            n._w, n._day, n._tod, n._ymd = None, None, tod, (y, m, d)
        if not (hour is None and minute is None and second is None and microsecond is None):
            vals = [zint(v) if v is not None else None for v in (hour, minute, second, microsecond)]
            dayz = n.dayz
            if all(v is not None for v in vals):
                hms = tuple(vals)
            elif hour is None and minute is None and second is None and z3.is_int_value(vals[3]) and vals[3].as_long() == 0:
                # truncation to whole seconds
                h, mi, s, _ = self.hms
                hms = (h, mi, s, iv(0))
            else:
                hms = tuple(v if v is not None else o for v, o in zip(vals, self.hms))
            h, mi, s, us = hms
            if not cur().decide(
                z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < SEC)
            ):
                raise ValueError("hour must be in 0..23")
            n._w, n._day, n._tod, n._hms = None, dayz, None, hms
        return n

    def astimezone(self, tz=None):
        if tz is None:
            tz = SymTz(local_offset())
        if not isinstance(tz, (r_tzinfo, SymTz)):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        if self.tzinfo is tz:
            return self
        off = self.offset()
        if off is None:
            off = local_offset()
        if z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0:
            utc = self.copy(tzinfo=tz, fold=0)
        else:
            utc = SymDatetime(self.w - off, tzinfo=tz)
        return tz_fromutc(tz, utc)

    def strftime(self, fmt):
        return strftime(fmt, self.ymd, self.hms, self.tzinfo)

    def isoformat(self, sep="T", timespec="auto"):
        out = _fd(mkint(self.ymd[0]), 4) + [45] + _fd(mkint(self.ymd[1]), 2) + [45]
        out = out + _fd(mkint(self.ymd[2]), 2) + list(cells_of(sep))
        return mkstr(out + _iso_time(self.hms, timespec) + _iso_offset(self.offset()))

    def symstr(self):
        return self.isoformat(" ")

    def timetuple(self):
        dst = self.dst()
        flag = -1 if dst is None else 1 if dst else 0
        return _timetuple(self.ymd, self.hms, self.dayz, flag)

    def utctimetuple(self):
        off = self.offset()
        u = self
        if off is not None:
            u = SymDatetime(self.w - off)
            if cur().decide(z3.Or(u.w < DAY, u.w >= 3652060 * DAY)):
                raise OverflowError("date value out of range")
        return _timetuple(u.ymd, u.hms, u.dayz, 0)

    def isocalendar(self):
        return self.date().isocalendar()

    def __getattr__(self, name):
        return _missing(r_datetime, name)

    def concretise(self, why="datetime"):
        w = cur().concretise_int(self.w, why)
        d = r_datetime.fromordinal(w // DAY) + r_timedelta(microseconds=w % DAY)
        tz = self.tzinfo
        if isinstance(tz, SymTz):
            tz = tz.concretise(why)
        return d.replace(tzinfo=tz, fold=int(self.fold))

    def __repr__(self):
        return "<symdt>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symdt>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


def lift_dt(d):
    if type(d) in (SymDatetime, SymDate):
        return d
    if not isinstance(d, r_datetime):
        return lift_date(d)
    n = SymDatetime(
        day=iv(d.toordinal()),
        tod=iv(((d.hour * 60 + d.minute) * 60 + d.second) * SEC + d.microsecond),
        ymd=(iv(d.year), iv(d.month), iv(d.day)),
        hms=(iv(d.hour), iv(d.minute), iv(d.second), iv(d.microsecond)),
        tzinfo=d.tzinfo,
        fold=d.fold,
    )
    return n


def new_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    date, clock = whole(year, month, day), whole(hour, minute, second, microsecond)
    ok, ymd, hms = [], None, None
    if date is None:
        ymd = y, m, d = zint(year), zint(month), zint(day)
        if any(x is None for x in ymd):
            raise TypeError("an integer is required")
        ok += [y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m)]
    if clock is None:
        hms = h, mi, s, us = zint(hour), zint(minute), zint(second), zint(microsecond)
        if any(x is None for x in hms):
            raise TypeError("an integer is required")
        ok += [h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < SEC]
        if date is not None:
            clock = z3.simplify(((h * 60 + mi) * 60 + s) * SEC + us)
    if ok and not cur().decide(z3.And(ok)):
        raise ValueError("day is out of range for month")
    return SymDatetime(day=date, ymd=ymd, hms=hms, tod=clock, tzinfo=tzinfo, fold=fold)


def combine(date, time, tzinfo=True):
    if not isinstance(date, r_date) or not isinstance(time, r_time):
        raise TypeError("combine() arguments must be date and time")
    tz = time.tzinfo if tzinfo is True else tzinfo
    if isinstance(date, r_datetime):
        date = lift_dt(date).date()
    d = lift_date(date)
    if type(time) is SymTime:
        hms = time.hms
    else:
        hms = (iv(time.hour), iv(time.minute), iv(time.second), iv(time.microsecond))
    h, m, s, us = hms
    return SymDatetime(
        day=d.dayz, ymd=d._ymd, hms=hms, tod=z3.simplify(((h * 60 + m) * 60 + s) * SEC + us), tzinfo=tz, fold=time.fold
    )


def new_time(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    h, mi, s, us = (zint(x) for x in (hour, minute, second, microsecond))
    if not cur().decide(z3.And(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < SEC)):
        raise ValueError("hour must be in 0..23")
    return SymTime((h, mi, s, us), tzinfo, fold)


# ------------------------------------------------------------------------------------------------ (str|p)time


def strftime(fmt, ymd, hms, tz):
    p = cur()
    out = []
    i = 0
    fc = cells_of(fmt)
    while i < len(fc):
        c = fc[i]
        if isinstance(c, Cell):
            # a character of unknown value is copied unless it starts a directive
            if c.isin(IntSet.of("%")):
                raise Unsupported("strftime: directive given by input")
            out.append(c)
            i += 1
            continue
        if c != 37:
            out.append(c)
            i += 1
            continue
        d = fc[i + 1]
        if isinstance(d, Cell):
            raise Unsupported("strftime: directive given by input")
        d = chr(d)
        i += 2
        if d == "Y":
            # glibc: not zero padded
            y = mkint(ymd[0])
            out.extend(cells_of(int_to_str(y)))
        elif d == "y":
            out.extend(fixed_digits(mkint(ymd[0] % 100), 2))
        elif d == "m":
            out.extend(fixed_digits(mkint(ymd[1]), 2))
        elif d == "d":
            out.extend(fixed_digits(mkint(ymd[2]), 2))
        elif d == "H":
            out.extend(fixed_digits(mkint(hms[0]), 2))
        elif d == "I":
            out.extend(fixed_digits(mkint((hms[0] + 11) % 12 + 1), 2))
        elif d == "M":
            out.extend(fixed_digits(mkint(hms[1]), 2))
        elif d == "S":
            out.extend(fixed_digits(mkint(hms[2]), 2))
        elif d == "f":
            out.extend(fixed_digits(mkint(hms[3]), 6))
        elif d == "j":
            out.extend(fixed_digits(mkint(ordinal(*ymd) - ordinal(ymd[0], iv(1), iv(1)) + 1), 3))
        elif d == "F":
            out.extend(cells_of(strftime("%Y-%m-%d", ymd, hms, tz)))
        elif d == "T":
            out.extend(cells_of(strftime("%H:%M:%S", ymd, hms, tz)))
        elif d == "%":
            out.append(37)
        else:
            raise Unsupported(f"strftime %{d}")
    return mkstr(out)


_WIDTH = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "y": 2}


def strptime(s, fmt):
    """datetime.strptime for formats whose total length equals the length of the (symbolic) string.

    With every directive at its maximal width there is exactly one way to match, so the regular expression
    alternatives of _strptime reduce to range checks.
    """
    cells = cells_of(s)
    items = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%":
            if fmt[i + 1] not in _WIDTH:
                raise Unsupported(f"strptime %{fmt[i + 1]}")
            items.append(("d", fmt[i + 1], _WIDTH[fmt[i + 1]]))
            i += 2
        else:
            items.append(("l", ord(fmt[i]), 1))
            i += 1
    total = sum(x[2] for x in items)
    if total != len(cells):
        if len(cells) > total:
            raise ValueError("unconverted data remains")
        raise Unsupported("strptime with narrow fields")
    p = cur()
    vals = {"Y": iv(1900), "m": iv(1), "d": iv(1), "H": iv(0), "M": iv(0), "S": iv(0)}
    pos = 0
    for kind, v, w in items:
        part = cells[pos : pos + w]
        pos += w
        if kind == "l":
            c = part[0]
            code = v
            lower = {code, ord(chr(code).lower()), ord(chr(code).upper())}
            if not c_in(c, IntSet.norm([(x, x) for x in lower])):
                raise ValueError("time data does not match format")
            continue
        e = known_number(part)
        if e is not None and v != "y":
            vals[v] = e
            continue
        n = iv(0)
        for k, c in enumerate(part):
            if c_in(c, chars.ASCII_DIGIT):
                c = cell_of(c)
                if isinstance(c, Cell):
                    c.link()
                    n = n * 10 + (c.var - 48)
                else:
                    n = n * 10 + (c - 48)
            elif v == "d" and k == 0 and c_is(c, 32):
                # "| [1-9]"
                if not c_in(part[1], IntSet.of(("1", "9"))):
                    raise ValueError("time data does not match format")
            elif (v in "Yy" or (v in "HMSd" and k)) and c_in(c, chars.re_digit()):
                if v in "Hd" and not p.decide(z3.And(n < (2 if v == "H" else 3), *([n > 0] if v == "d" else []))):
                    raise ValueError("time data does not match format")  # \d follows only some of the digits
                if v == "S" and not p.decide(n < 6):
                    raise ValueError("time data does not match format")
                n = n * 10 + digit_value(c)
            else:
                raise ValueError("time data does not match format")
        n = z3.simplify(n)
        if v == "y":
            n = z3.If(n <= 68, n + 2000, n + 1900)
            v = "Y"
        vals[v] = n
    y, m, d, h, mi, sec = (vals[k] for k in "YmdHMS")
    date = True if is_valid_ymd(y, m, d) else z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim(y, m))
    if not p.decide(
        z3.And(date, h >= 0, h <= 23, mi >= 0, mi <= 59, sec >= 0,
               sec <= 59)
    ):
        raise ValueError("time data does not match format / out of range")
    return SymDatetime(ymd=(y, m, d), hms=(h, mi, sec, iv(0)))
