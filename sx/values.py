"""Proxy values for bool / int / float / str."""
import string as _string

import z3

from sx import chars, core
from sx.core import ANY, Cell, Infeasible, IntSet, Unsupported, cur

# ------------------------------------------------------------------------------------------------ helpers


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """base of all proxies"""

    __slots__ = ()


def zint(x):
    """z3 Int expression of an int-like"""
    if type(x) is SymInt:
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int) and not isinstance(x, Sym):
        return z3.IntVal(int(x))
    if isinstance(x, SymBool):
        return z3.If(x.z(), z3.IntVal(1), z3.IntVal(0))
    return None


def zbool(x):
    if isinstance(x, SymBool):
        return x.z()
    return z3.BoolVal(bool(x))


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# ------------------------------------------------------------------------------------------------ bool


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def z(self):
        return self.e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.e)

    def __and__(self, o):
        if not isinstance(o, (bool, SymBool)):
            return NotImplemented
        return mkbool(z3.And(self.z(), zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (bool, SymBool)):
            return NotImplemented
        return mkbool(z3.Or(self.z(), zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z(), zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return -1 - SymInt(zint(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z() == zbool(o))
        z = zint(o)
        if z is None:
            return NotImplemented
        return mkbool(zint(self) == z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __add__(self, o):
        return SymInt(zint(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(zint(self)) * o

    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))


def snot(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z()))
    return not x


def sand(*xs):
    """conjunction without forking"""
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x.z())
        elif not x:
            return False
    if not parts:
        return True
    return mkbool(z3.And(*parts))


def sor(*xs):
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x.z())
        elif x:
            return True
    if not parts:
        return False
    return mkbool(z3.Or(*parts))


def simplies(a, b):
    return sor(snot(a), b)


def siff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mkbool(zbool(a) == zbool(b))
    return bool(a) == bool(b)


def site(c, a, b):
    """if-then-else on ints/bools without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.z(), zbool(a), zbool(b)))
    return mkint(z3.If(c.z(), zint(a), zint(b)))


# ------------------------------------------------------------------------------------------------ int


class SymInt(Sym):
    """an integer; src names the field of a date or clock time it was taken from, which is only computed when it is needed"""

    __slots__ = ("_e", "src")

    def __init__(self, e, src=None):
        self._e = e
        self.src = src

    @property
    def e(self):
        if self._e is None:
            self._e = z3.simplify(self.src[2]()[self.src[1]])
        return self._e

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        z = zint(o)
        if z is None:
            return NotImplemented
        return mkint(f(self.e, z))

    def __add__(self, o):
        if isinstance(o, float):
            return SymFloat(self.e, 1) + o
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float) or isinstance(o, SymFloat):
            return SymFloat(self.e, 1) * o
        from sx import dt

        if isinstance(o, dt.TD_TYPES):
            return dt.lift_td(o) * self
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, float):
            return SymFloat(self.e, 1) // o
        return _ifloordiv(self, o)

    def __rfloordiv__(self, o):
        return _ifloordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, float):
            return SymFloat(self.e, 1) % o
        return _imod(self, o)

    def __rmod__(self, o):
        return _imod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return SymFloat(self.e, 1) / o

    def __rtruediv__(self, o):
        return SymFloat(zint(o), 1) / self

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        return self.__index__() ** o

    def __int__(self):
        return self.__index__()

    def __index__(self):
        return cur().concretise_int(self.e, "index", enumerate_limit=40)

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, float):
            return f(SymFloat(self.e, 1), o) if False else _fcmp(SymFloat(self.e, 1), o, f)
        if isinstance(o, SymFloat):
            return _fcmp(SymFloat(self.e, 1), o, f)
        z = zint(o)
        if z is None:
            return NotImplemented
        return mkbool(f(self.e, z))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __and__(self, o):
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __rshift__(self, o):
        return self // (1 << o)

    def __lshift__(self, o):
        return self * (1 << o)

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    numerator = real


def _const(x):
    if isinstance(x, Sym):
        if isinstance(x, SymBool):
            return int(bool(x))
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        return None
    if isinstance(x, int):
        return int(x)
    return NotImplemented


def _divisible(e, c):
    """e = c * q + r for a linear e, r with as few terms as possible; -> (q, r)"""
    e = z3.simplify(e)
    terms = e.children() if z3.is_add(e) else [e]
    q, r = [], []
    for t in terms:
        if z3.is_int_value(t):
            k = t.as_long()
            if k // c:
                q.append(z3.IntVal(k // c))
            if k % c:
                r.append(z3.IntVal(k % c))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % c == 0:
            q.append(z3.IntVal(t.arg(0).as_long() // c) * t.arg(1))
        else:
            r.append(t)
    return z3.Sum(q) if q else z3.IntVal(0), z3.Sum(r) if r else z3.IntVal(0)


def _ifloordiv(a, b):
    c = _const(b)
    if c is NotImplemented or zint(a) is None:
        return NotImplemented
    if c is None:
        c = b.__index__()
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if c > 0:
        q, r = _divisible(zint(a), c)
        return mkint(q + r / c)
    return mkint((-zint(a)) / (-c))


def _imod(a, b):
    c = _const(b)
    if c is NotImplemented or zint(a) is None:
        return NotImplemented
    if c is None:
        c = b.__index__()
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if c > 0:
        return mkint(_divisible(zint(a), c)[1] % c)
    return mkint(-((-zint(a)) % (-c)))


# ------------------------------------------------------------------------------------------------ float


class SymFloat(Sym):
    """an exact rational num/den standing for a float; only used where the float is exactly representable"""

    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    @staticmethod
    def parts(o):
        if isinstance(o, SymFloat):
            return o.num, o.den
        z = zint(o)
        if z is not None:
            return z, 1
        if isinstance(o, float):
            n, d = o.as_integer_ratio()
            return z3.IntVal(n), d
        return None

    def _addsub(self, o, sign):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        n, d = p
        return SymFloat(self.num * d + sign * n * self.den, self.den * d)

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        r = self._addsub(o, -1)
        return r if r is NotImplemented else -r

    def __neg__(self):
        return SymFloat(-self.num, self.den)

    def __abs__(self):
        return SymFloat(z3.If(self.num >= 0, self.num, -self.num), self.den)

    def __mul__(self, o):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        return SymFloat(self.num * p[0], self.den * p[1])

    __rmul__ = __mul__

    def _cdiv(self, o):
        p = self.parts(o)
        if p is None:
            return None
        n = z3.simplify(p[0])
        if not z3.is_int_value(n):
            raise Unsupported("float division by a symbolic value")
        n = n.as_long()
        if n == 0:
            raise ZeroDivisionError("float division by zero")
        if n < 0:
            return SymFloat(-self.num * p[1], self.den * -n)
        return SymFloat(self.num * p[1], self.den * n)

    def __truediv__(self, o):
        r = self._cdiv(o)
        return NotImplemented if r is None else r

    def __floordiv__(self, o):
        r = self._cdiv(o)
        if r is None:
            return NotImplemented
        return SymFloat(r.num / r.den, 1)

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def floor(self):
        return mkint(self.num / self.den)

    def trunc(self):
        return mkint(z3.If(self.num >= 0, self.num / self.den, -((-self.num) / self.den)))

    def __bool__(self):
        return cur().decide(self.num != 0)

    def _cmp(self, o, f):
        return _fcmp(self, o, f)

    def __eq__(self, o):
        return _fcmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        return _fcmp(self, o, lambda a, b: a != b)

    def __lt__(self, o):
        return _fcmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _fcmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _fcmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _fcmp(self, o, lambda a, b: a >= b)

    def is_integer(self):
        return mkbool(self.num % self.den == 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __float__(self):
        raise Unsupported("float() of a symbolic float")

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        # banker's rounding
        fl = self.num / self.den
        rem2 = 2 * (self.num % self.den)
        up = z3.Or(rem2 > self.den, z3.And(rem2 == self.den, fl % 2 == 1))
        return mkint(z3.If(up, fl + 1, fl))

    def __repr__(self):
        return "<symfloat>"


def _fcmp(a, b, f):
    p = SymFloat.parts(b)
    if p is None:
        return NotImplemented
    return mkbool(f(a.num * p[1], p[0] * a.den))


# ------------------------------------------------------------------------------------------------ str


def cell_of(c):
    """canonical item of a cells tuple: int code point if determined"""
    if isinstance(c, Cell):
        v = c.dom.single()
        return c if v is None else v
    return c


def mkstr(cells):
    cells = tuple(cell_of(c) for c in cells)
    for c in cells:
        if isinstance(c, Cell):
            return SymStr(cells)
    return "".join(map(chr, cells))


def cells_of(s):
    """cells of a str-like (real str, SymStr, UserString)"""
    if type(s) is SymStr:
        return tuple(cell_of(c) for c in s.cells)
    if isinstance(s, str):
        return tuple(map(ord, s))
    d = getattr(s, "data", None)  # UserString
    if d is not None and isinstance(d, str):
        return cells_of(d)
    return None


def cvar(c):
    return c.var if isinstance(c, Cell) else z3.IntVal(c)


def c_in(c, S):
    if isinstance(c, Cell):
        return c.isin(S)
    return c in S


def c_is(c, code):
    if isinstance(c, Cell):
        return c.isin(IntSet(((code, code),)))
    return c == code


class StrEq(SymBool):
    """lazy equality of equally long cell sequences"""

    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = pairs
        self.e = None

    def z(self):
        if self.e is None:
            parts = []
            for a, b in self.pairs:
                for c in (a, b):
                    if isinstance(c, Cell):
                        c.link()
                parts.append(cvar(a) == cvar(b))
            self.e = z3.And(*parts) if len(parts) != 1 else parts[0]
        return self.e

    def __bool__(self):
        todo = []
        for a, b in self.pairs:
            a, b = cell_of(a), cell_of(b)
            if a is b:
                continue
            if not isinstance(a, Cell):
                a, b = b, a
            if not isinstance(a, Cell):
                if a != b:
                    return False
                continue
            if isinstance(b, Cell):
                if not (a.dom & b.dom):
                    return False
            elif b not in a.dom:
                return False
            todo.append((a, b))
        if not todo:
            return True
        if len(todo) == 1 and not isinstance(todo[0][1], Cell):
            return todo[0][0].isin(IntSet(((todo[0][1],) * 2,)))
        parts = []
        for a, b in todo:
            a.link()
            if isinstance(b, Cell):
                b.link()
            parts.append(cvar(a) == cvar(b))
        r = cur().decide(z3.And(*parts) if len(parts) > 1 else parts[0])
        if r:
            for a, b in todo:
                if isinstance(b, Cell):
                    d = a.dom & b.dom
                    if d.iv != b.dom.iv:
                        b.dom = d
                        b.touch()
                else:
                    d = IntSet(((b, b),))
                if d.iv != a.dom.iv:
                    a.dom = d
                    a.touch()
        return r


def str_eq(a, b):
    if len(a) != len(b):
        return False
    pairs = []
    for x, y in zip(a, b):
        x, y = cell_of(x), cell_of(y)
        if x is y:
            continue
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        pairs.append((x, y))
    if not pairs:
        return True
    return StrEq(pairs)


def str_lt(a, b, orequal):
    """lexicographic comparison as SymBool"""
    e = z3.BoolVal((len(a) < len(b)) or (orequal and len(a) == len(b)))
    for x, y in reversed(list(zip(a, b))):
        for c in (x, y):
            if isinstance(c, Cell):
                c.link()
        e = z3.Or(cvar(x) < cvar(y), z3.And(cvar(x) == cvar(y), e))
    return mkbool(e)


def new_cell(dom, base="ch", var=None, free=True):
    p = cur()
    return Cell(p, var if var is not None else z3.Int(p.fresh(base)), dom, free)


def shifted(c, d):
    """the cell whose code point is c+d (c's domain is already restricted to where this applies)"""
    if not isinstance(c, Cell):
        return c + d
    v = c.dom.single()
    if v is not None:
        return v + d
    c.link()
    return Cell(cur(), c.var + d, IntSet([(a + d, b + d) for a, b in c.dom.iv]), False)


def concretise_cell(c, why):
    c = cell_of(c)
    if not isinstance(c, Cell):
        return c
    p = cur()
    if c.free:
        v = c.dom.pick()
        p.incomplete.append(f"concretised: {why}")
    else:
        v = p.concretise_int(c.var, why)
    c.dom = IntSet(((v, v),))
    c.touch()
    return v


FEW = 64


def one_of(c):
    """split the path until the character is known"""
    c = cell_of(c)
    while isinstance(c, Cell):
        codes = [x for lo, hi in c.dom.iv for x in range(lo, hi + 1)]
        if len(codes) == 1:
            return codes[0]
        c.isin(IntSet(((codes[0], codes[len(codes) // 2 - 1]),)))
        c = cell_of(c)
    return c


class SymStr(Sym):
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells

    @property
    def __class__(self):
        return str

    # -- basics
    def __len__(self):
        return len(self.cells)

    def __bool__(self):
        return len(self.cells) > 0

    def __iter__(self):
        for c in self.cells:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(x.__index__() if x is not None else None for x in (i.start, i.stop, i.step)))
            return mkstr(self.cells[i])
        if not hasattr(i, "__index__"):
            raise TypeError("string indices must be integers, not %r" % type(i).__name__)
        try:
            return mkstr((self.cells[i.__index__()],))
        except IndexError:
            raise IndexError("string index out of range") from None

    def __contains__(self, sub):
        if cells_of(sub) is None:
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) >= 0

    def concretise(self, why="str"):
        """one path per text if there are few, otherwise one text only, which leaves the case incomplete"""
        n = 1
        for c in self.cells:
            c = cell_of(c)
            if isinstance(c, Cell):
                n *= sum(hi - lo + 1 for lo, hi in c.dom.iv)
        if 1 < n <= FEW:
            return "".join(chr(one_of(c)) for c in self.cells)
        return "".join(chr(concretise_cell(c, why)) for c in self.cells)

    def __hash__(self):
        s = mkstr(self.cells)
        if isinstance(s, SymStr):
            s = self.concretise("hash")
        return hash(s)

    def __repr__(self):
        return "<symstr>"

    def __str__(self):
        s = mkstr(self.cells)
        return s if type(s) is str else "<symstr>"

    def __format__(self, spec):
        return "<symstr>"

    def __eq__(self, o):
        if type(o) is not SymStr and not isinstance(o, str):
            return NotImplemented
        return str_eq(self.cells, cells_of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, StrEq):
            return StrNe(r)
        return snot(r)

    def _lt(self, o, swap, orequal):
        if not isinstance(o, str):
            return NotImplemented
        a, b = self.cells, cells_of(o)
        if swap:
            a, b = b, a
        return str_lt(a, b, orequal)

    def __lt__(self, o):
        return self._lt(o, False, False)

    def __le__(self, o):
        return self._lt(o, False, True)

    def __gt__(self, o):
        return self._lt(o, True, False)

    def __ge__(self, o):
        return self._lt(o, True, True)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.cells + cells_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(cells_of(o) + self.cells)

    def __mul__(self, n):
        return mkstr(self.cells * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        from sx import rt

        return rt.percent(self, args)

    def __rmod__(self, fmt):
        from sx import rt

        return rt.percent(fmt, self)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute {name!r}")

        def concretised(*a, **k):
            return getattr(self.concretise(f"str.{name}"), name)(*a, **k)

        return concretised

    # -- case
    def _casemap(self, name):
        unch, deltas, other = chars.case_map(name)
        out = []
        for c in self.cells:
            c = cell_of(c)
            if not isinstance(c, Cell):
                out.extend(map(ord, getattr(chr(c), name)()))
                continue
            if c.isin(unch):
                out.append(c)
                continue
            for d, S in sorted(deltas.items(), key=lambda x: -x[1].size())[:2]:
                if c.isin(S):
                    out.append(shifted(c, d))
                    break
            else:
                out.extend(self._casemap_rest(c, name, deltas, other))
        return mkstr(out)

    @staticmethod
    def _casemap_rest(c, name, deltas, other):
        """the characters with an unusual case: those that become one other character, then those that become several"""
        m = getattr(str, name)
        v = c.dom.single()
        if v is not None:
            return list(map(ord, m(chr(v))))
        if not (c.dom & other) or not c.isin(other):
            c.link()
            e, iv = c.var, []
            for d, S in deltas.items():
                S = S & c.dom
                if S:
                    e = z3.If(S.z3(c.var), c.var + d, e)
                    iv.extend((a + d, b + d) for a, b in S.iv)
            return [Cell(cur(), e, IntSet.norm(iv), False)]
        groups = {}
        for a, b in other.iv:
            for cp in range(a, b + 1):
                groups.setdefault(len(m(chr(cp))), []).append(cp)
        for n, cps in sorted(groups.items()):
            S = IntSet.norm([(cp, cp) for cp in cps])
            if not c.isin(S):
                continue
            c.link()
            cps = [cp for cp in cps if c.dom & IntSet(((cp, cp),))]
            cells = []
            for k in range(n):
                e = z3.IntVal(ord(m(chr(cps[0]))[k]))
                for cp in cps[1:]:
                    e = z3.If(c.var == cp, ord(m(chr(cp))[k]), e)
                cells.append(Cell(cur(), e, IntSet.norm([(ord(m(chr(cp))[k]),) * 2 for cp in cps]), False))
            return cells
        raise Infeasible()

    def upper(self):
        return self._casemap("upper")

    def lower(self):
        return self._casemap("lower")

    def casefold(self):
        return self._casemap("casefold")

    # -- classes
    def _allin(self, name):
        S = chars.method_class(name)
        if not self.cells:
            return False
        return all(c_in(c, S) for c in self.cells)

    def isdigit(self):
        return self._allin("isdigit")

    def isdecimal(self):
        return self._allin("isdecimal")

    def isnumeric(self):
        return self._allin("isnumeric")

    def isalpha(self):
        return self._allin("isalpha")

    def isalnum(self):
        return self._allin("isalnum")

    def isspace(self):
        return self._allin("isspace")

    def isprintable(self):
        return all(c_in(c, chars.method_class("isprintable")) for c in self.cells)

    def isascii(self):
        return all(c_in(c, IntSet.of((0, 127))) for c in self.cells)

    def _cased(self, good, bad):
        seen = False
        for c in self.cells:
            if c_in(c, bad):
                return False
            if not seen and c_in(c, good):
                seen = True
        return seen

    def isupper(self):
        up = chars.method_class("isupper")
        return self._cased(up, (chars.method_class("islower") | chars.method_class("istitle")) - up)

    def islower(self):
        lo = chars.method_class("islower")
        return self._cased(lo, (chars.method_class("isupper") | chars.method_class("istitle")) - lo)

    # -- searching
    @staticmethod
    def _range(n, start, end):
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def _match_at(self, sub, i):
        return bool(str_eq(self.cells[i : i + len(sub)], sub))

    def find(self, sub, start=None, end=None):
        sub = cells_of(sub)
        if sub is None:
            raise TypeError("must be str")
        n = len(self.cells)
        start = None if start is None else start.__index__()
        end = None if end is None else end.__index__()
        if start is not None and start > n:
            return -1
        start, end = self._range(n, start, end)
        for i in range(start, end - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = cells_of(sub)
        n = len(self.cells)
        if start is not None and start > n:
            return -1
        start, end = self._range(n, start, end)
        for i in range(end - len(sub), start - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        sub = cells_of(sub)
        start, end = self._range(len(self.cells), start, end)
        n = 0
        i = start
        while i + len(sub) <= end:
            if self._match_at(sub, i):
                n += 1
                i += max(1, len(sub))
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        sub = cells_of(p)
        if sub is None:
            raise TypeError("startswith first arg must be str")
        start, end = self._range(len(self.cells), start, end)
        if end - start < len(sub):
            return False
        return self._match_at(sub, start)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        sub = cells_of(p)
        start, end = self._range(len(self.cells), start, end)
        if end - start < len(sub):
            return False
        return self._match_at(sub, end - len(sub))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    # -- splitting
    def _stripset(self, chs):
        if chs is None:
            return chars.method_class("isspace")
        cs = cells_of(chs)
        if any(isinstance(c, Cell) for c in cs):
            cs = tuple(concretise_cell(c, "strip") for c in cs)
        return IntSet.norm([(c, c) for c in cs])

    def lstrip(self, chs=None):
        S = self._stripset(chs)
        i = 0
        while i < len(self.cells) and c_in(self.cells[i], S):
            i += 1
        return mkstr(self.cells[i:])

    def rstrip(self, chs=None):
        S = self._stripset(chs)
        i = len(self.cells)
        while i > 0 and c_in(self.cells[i - 1], S):
            i -= 1
        return mkstr(self.cells[:i])

    def strip(self, chs=None):
        r = self.lstrip(chs)
        return r.rstrip(chs)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            S = chars.method_class("isspace")
            out = []
            i, n = 0, len(self.cells)
            while i < n:
                while i < n and c_in(self.cells[i], S):
                    i += 1
                if i == n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.cells[i:]).rstrip())
                    break
                j = i
                while j < n and not c_in(self.cells[j], S):
                    j += 1
                out.append(mkstr(self.cells[i:j]))
                i = j
            return out
        sub = cells_of(sep)
        if not sub:
            raise ValueError("empty separator")
        out = []
        last = i = 0
        while i + len(sub) <= len(self.cells):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(sub, i):
                out.append(mkstr(self.cells[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(mkstr(self.cells[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        sub = cells_of(sep)
        out = []
        end = len(self.cells)
        i = end - len(sub)
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if self._match_at(sub, i):
                out.append(mkstr(self.cells[i + len(sub) : end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(mkstr(self.cells[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep) :]

    def splitlines(self, keepends=False):
        out = []
        i = start = 0
        n = len(self.cells)
        while i < n:
            if c_in(self.cells[i], chars.LINESEPS):
                j = i + 1
                if c_is(self.cells[i], 13) and j < n and c_is(self.cells[j], 10):
                    j += 1
                out.append(mkstr(self.cells[start : j if keepends else i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(mkstr(self.cells[start:]))
        return out

    # -- transforming
    def join(self, it):
        out = []
        first = True
        for x in it:
            cs = cells_of(x) if isinstance(x, str) else None
            if cs is None:
                raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
            if not first:
                out.extend(self.cells)
            first = False
            out.extend(cs)
        return mkstr(out)

    def replace(self, old, new, count=-1):
        sub, rep = cells_of(old), cells_of(new)
        out = []
        i = 0
        n = len(self.cells)
        if not sub:
            raise Unsupported("replace of the empty string")
        while i < n:
            if count != 0 and i + len(sub) <= n and self._match_at(sub, i):
                out.extend(rep)
                i += len(sub)
                count -= 1
            else:
                out.append(self.cells[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        try:
            keys = sorted(k for k in table.keys() if isinstance(k, int))
        except AttributeError:
            return self.concretise("translate").translate(table)
        K = IntSet.norm([(k, k) for k in keys])
        out = []
        for c in self.cells:
            c = cell_of(c)
            if c_in(c, K):
                for k in keys:
                    if c_is(c, k):
                        break
                else:
                    raise Infeasible()
                v = table[k]
                if v is None:
                    continue
                if isinstance(v, int):
                    out.append(v)
                else:
                    out.extend(cells_of(v))
            else:
                out.append(c)
        return mkstr(out)

    def expandtabs(self, tabsize=8):
        if any(c_is(c, 9) for c in self.cells):
            raise Unsupported("expandtabs")
        return self

    def zfill(self, w):
        n = w - len(self.cells)
        if n <= 0:
            return self
        if self.cells and c_in(self.cells[0], IntSet.of("+-")):
            return mkstr(self.cells[:1] + (48,) * n + self.cells[1:])
        return mkstr((48,) * n + self.cells)

    def ljust(self, w, f=" "):
        return mkstr(self.cells + cells_of(f) * max(0, w - len(self.cells)))

    def rjust(self, w, f=" "):
        return mkstr(cells_of(f) * max(0, w - len(self.cells)) + self.cells)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("ascii", "us-ascii"):
            if not self.isascii():
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
        elif enc in ("utf-8", "utf8"):
            if not self.isascii():
                return self.concretise("encode").encode(encoding, errors)
        else:
            return self.concretise("encode").encode(encoding, errors)
        return SymBytes(self.cells)

    def format(self, *a, **k):
        from sx import rt

        return rt.str_format(self.concretise("format"), a, k)


class StrNe(SymBool):
    __slots__ = ("eq",)

    def __init__(self, eq):
        self.eq = eq
        self.e = None

    def z(self):
        if self.e is None:
            self.e = z3.Not(self.eq.z())
        return self.e

    def __bool__(self):
        return not bool(self.eq)


# ------------------------------------------------------------------------------------------------ bytes


class SymBytes(Sym):
    """a byte string of fixed length; items are ints or Cells with domain within 0..255"""

    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = tuple(cell_of(c) for c in cells)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.cells)

    def __bool__(self):
        return bool(self.cells)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)) and not isinstance(o, Sym):
            return str_eq(self.cells, tuple(o))
        if type(o) is SymBytes:
            return str_eq(self.cells, o.cells)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(self.concretise())

    def concretise(self, why="bytes"):
        return bytes(concretise_cell(c, why) for c in self.cells)

    def __iter__(self):
        for c in self.cells:
            yield mkint(cvar(c))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.cells[i])
        return mkint(cvar(self.cells[i]))

    def __add__(self, o):
        return SymBytes(self.cells + (o.cells if type(o) is SymBytes else tuple(o)))

    def __radd__(self, o):
        return SymBytes(tuple(o) + self.cells)

    def decode(self, encoding="utf-8", errors="strict"):
        for c in self.cells:
            if not c_in(c, IntSet.of((0, 127))):
                return self.concretise().decode(encoding, errors)
        return mkstr(self.cells)

    def __repr__(self):
        return "<symbytes>"


# ------------------------------------------------------------------------------------------------ conversions


def int_to_str(x, min_digits=1, pad="0", plus=False):
    """decimal representation of an int-like"""
    if not isinstance(x, Sym):
        return ("+" if plus and x >= 0 else "") + str(int(x)).rjust(min_digits, pad)
    p = cur()
    e = zint(x)
    if pad == "0" and not plus and min_digits > 1:
        b = p.bounds(e)
        if b is not None and 0 <= b[0] and b[1] < 10**min_digits:
            return mkstr(_digits(e, min_digits))
    neg = p.decide(e < 0)
    if neg:
        e = -e
    n = 1
    while not p.decide(e < 10**n):
        n += 1
        if n > 64:
            raise Unsupported("int with too many digits")
    sign = (45,) if neg else ((43,) if plus else ())
    width = min_digits
    digits = _digits(e, n)
    if pad == "0":
        return mkstr(sign + (48,) * max(0, width - len(sign) - n) + digits)
    return mkstr((ord(pad),) * max(0, width - len(sign) - n) + sign + digits)


def _digits(e, n, fixed=False):
    """n digit cells for 0 <= e < 10**n"""
    p = cur()
    e = z3.simplify(e)
    known = p.memo.get(("digits", e.get_id(), n))
    if known is not None:
        return known[1]
    D = chars.ASCII_DIGIT
    out = []
    total = None
    for k in range(n):
        v = p.bounded_int("dg", 48, 57)
        p.assume(z3.And(v >= 48, v <= 57))
        c = Cell(p, v, D, False)
        c.dirty = False
        out.append(c)
        t = (v - 48) * 10 ** (n - 1 - k)
        total = t if total is None else total + t
    p.assume(e == total)
    p.digits[tuple(map(id, out))] = (e, out)
    p.memo["digits", e.get_id(), n] = (e, tuple(out))
    return tuple(out)


def known_number(cells):
    """the number whose decimal representation these cells are known to be, if any"""
    cells = list(cells)
    while cells and not isinstance(cells[0], Cell) and cells[0] == 48:
        cells.pop(0)
    hit = cur().digits.get(tuple(map(id, cells)))
    return None if hit is None else hit[0]


def fixed_digits(x, n):
    """zero-padded n digit representation where 0 <= x < 10**n is known"""
    if not isinstance(x, Sym):
        return tuple(map(ord, str(int(x)).rjust(n, "0")))
    return _digits(zint(x), n)


# int() doesn't strip the ASCII separators
INT_SPACE = "".join(chr(c) for a, b in chars.method_class("isspace").iv for c in range(a, b + 1) if not 0x1C <= c <= 0x1F)


def str_to_int(s, base=10):
    s = s.strip(INT_SPACE)
    if base != 10:
        return based_int(s, base)
    if type(s) is str:
        return int(s)
    cells = s.cells
    sign = 1
    i = 0
    if cells and c_in(cells[0], IntSet.of("+-")):
        if c_is(cells[0], 45):
            sign = -1
        i = 1
    if i >= len(cells):
        raise ValueError("invalid literal for int() with base 10")
    e = known_number(cells[i:])
    if e is not None:
        return mkint(e) * sign
    total = 0
    prev_digit = False
    for c in cells[i:]:
        if c_in(c, chars.ASCII_DIGIT):
            c = cell_of(c)
            if isinstance(c, Cell):
                c.link()
                d = mkint(c.var - 48)
            else:
                d = c - 48
            total = total * 10 + d
            prev_digit = True
        elif c_in(c, chars.re_digit()):
            d = mkint(digit_value(c))
            total = total * 10 + d
            prev_digit = True
        elif c_is(c, 95) and prev_digit:
            prev_digit = False
        else:
            raise ValueError("invalid literal for int() with base 10")
    if not prev_digit:
        raise ValueError("invalid literal for int() with base 10")
    return total * sign


def digit_value(c):
    """the value of a character that is known to be a decimal digit, of any script"""
    c = cell_of(c)
    if not isinstance(c, Cell):
        return z3.IntVal(int(chr(c)))
    c.link()
    e = c.var - 48
    for a, b in chars.re_digit().iv:  # every range starts with a zero
        if a != 48:
            e = z3.If(z3.And(c.var >= a, c.var <= b), (c.var - a) % 10 if b - a > 9 else c.var - a, e)
    return e


_ALNUM = [(IntSet.of(("0", "9")), 48), (IntSet.of(("a", "z")), 87), (IntSet.of(("A", "Z")), 55)]


def based_int(s, base):
    """int(s, base) of a stripped string for ASCII digits and letters"""
    if type(s) is str:
        return int(s, base)
    if base < 0 or base == 1 or base > 36:
        raise ValueError("int() base must be >= 2 and <= 36, or 0")
    error = ValueError(f"invalid literal for int() with base {base}")
    cells = list(s.cells)
    sign = 1
    if cells and c_in(cells[0], IntSet.of("+-")):
        if c_is(cells.pop(0), 45):
            sign = -1
    given, digits = base, 0
    under = False  # an underscore may follow
    if cells and c_is(cells[0], 48) and base in (0, 2, 8, 16):
        nxt = next((b for b, t in ((16, "xX"), (8, "oO"), (2, "bB")) if len(cells) > 1 and c_in(cells[1], IntSet.of(t))), None)
        if nxt is not None and base in (0, nxt):
            cells = cells[2:]
            base = nxt
            under = True
    if base == 0:
        base = 10
    total = 0
    for nr, c in enumerate(cells):
        if c_is(c, 95):
            if not under:
                raise error
            under = False
            continue
        for cls, minus in _ALNUM:
            if c_in(c, cls):
                c = cell_of(c)
                if isinstance(c, Cell):
                    c.link()
                    d = mkint(c.var - minus)
                else:
                    d = c - minus
                break
        else:
            if c_in(c, chars.re_digit()):
                raise Unsupported("int() of other digits")
            raise error
        if not d < base:
            raise error
        total = total * base + d
        digits += 1
        under = True
        if given == 0 and base == 10 and digits == 1 and d == 0:
            # old style octals are refused, zeros are not
            for o in cells[nr + 1:]:
                if not c_in(o, IntSet.of("0_")):
                    raise error
    if not digits or not under:
        raise error
    return total * sign
