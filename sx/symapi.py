"""Symbolic implementation of the harness API."""
import datetime as _dt

import z3

from sx import chars, core, dt
from sx.core import ANY, Cell, Infeasible, IntSet, Unsupported, Violated, cur
from sx.values import (
    Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr, cell_of, is_sym, mkbool, mkint, mkstr, new_cell, sand, siff,
    simplies, site, snot, sor, zbool, zint,
)

DAY, SEC = dt.DAY, dt.SEC

DOMS = {
    "any": ANY,
    "ascii": IntSet.of((0, 127)),
    "printable": chars.PRINTABLE,  # everything but control characters (HTAB allowed)
    "value": ANY - IntSet.of("\r\n"),  # a single content line
    "digit": chars.ASCII_DIGIT,
    "letter": chars.ASCII_LETTER,
    "name": IntSet.of(("a", "z"), ("A", "Z"), ("0", "9"), "-"),
    "NAME": IntSet.of(("A", "Z"), ("0", "9"), "-"),
    "qsafe": ANY - chars.CONTROL - IntSet.of('"'),
    "safe": ANY - chars.CONTROL - IntSet.of('",:;'),
}


def dom(d):
    if isinstance(d, IntSet):
        return d
    if d in DOMS:
        return DOMS[d]
    if d.startswith("="):  # "=abc": exactly these characters
        return IntSet.of(d[1:])
    if d.startswith("-"):  # "-abc": anything but these characters
        return ANY - IntSet.of(d[1:])
    raise KeyError(d)


class Symbolic:
    symbolic = True

    def __init__(self, path, tier, known=()):
        self.path = path
        self.tier = tier
        self.known_ids = known

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # -- inputs
    def _var(self, name, lo, hi):
        v = z3.Int(name)
        self.path.vbounds[name] = lo, hi
        self.path.add(z3.And(v >= lo, v <= hi))
        return v

    def _record(self, name, spec):
        assert name not in self.path.inputs, name
        self.path.inputs[name] = spec

    def int(self, name, lo, hi):
        v = self._var(name, lo, hi)
        self._record(name, ("int", v))
        return mkint(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._record(name, ("bool", v))
        return SymBool(v)

    def choice(self, name, options):
        i = self.path.choose(len(options))
        self._record(name, ("const", i))
        return options[i]

    def str(self, name, n, dom_="any", **k):
        d = dom(k.get("dom", dom_))
        if isinstance(n, tuple):
            n = n[0] + self.path.choose(n[1] - n[0] + 1)
        cells = [new_cell(d, var=z3.Int(f"{name}[{i}]")) for i in range(n)]
        self._record(name, ("cells", tuple(cells)))
        return mkstr(cells)

    def bytes(self, name, n):
        if isinstance(n, tuple):
            n = n[0] + self.path.choose(n[1] - n[0] + 1)
        cells = [new_cell(IntSet(((0, 255),)), var=z3.Int(f"{name}[{i}]")) for i in range(n)]
        self._record(name, ("cells", tuple(cells)))
        return SymBytes(cells) if cells else b""

    def td(self, name, lo, hi, unit=SEC):
        lo = dt.td_us(lo) if isinstance(lo, _dt.timedelta) else lo * SEC
        hi = dt.td_us(hi) if isinstance(hi, _dt.timedelta) else hi * SEC
        v = self._var(name, -(-lo // unit), hi // unit)
        us = z3.simplify(v * unit)
        self._record(name, ("int", us))
        return dt.mktd(us)

    def dt(self, name, y0=2, y1=9990, tz=None, unit=None, rep="w", fold=0, midnight=False):
        unit = unit or self.unit
        if rep == "w":
            day = self._var(name + ".day", _dt.date(y0, 1, 1).toordinal(), _dt.date(y1, 12, 31).toordinal())
            if midnight:
                d = dt.SymDatetime(day=day, tod=z3.IntVal(0), hms=(z3.IntVal(0),) * 4, tzinfo=tz, fold=fold)
                tod = z3.IntVal(0)
            else:
                t = self._var(name + ".tod", 0, DAY // unit - 1)
                tod = z3.simplify(t * unit)
                d = dt.SymDatetime(day=day, tod=tod, tzinfo=tz, fold=fold)
        else:
            y = self._var(name + ".y", y0, y1)
            m = self._var(name + ".m", 1, 12)
            dd = self._var(name + ".d", 1, 31)
            self.path.add(dd <= dt.dim(y, m))
            dt.valid_ymd(y, m, dd)
            if midnight:
                hms = (z3.IntVal(0),) * 4
            else:
                h = self._var(name + ".h", 0, 23)
                mi = self._var(name + ".mi", 0, 59)
                s = self._var(name + ".s", 0, 59)
                us = z3.IntVal(0) if unit == SEC else self._var(name + ".us", 0, SEC - 1)
                hms = (h, mi, s, us)
            d = dt.SymDatetime(ymd=(y, m, dd), hms=hms, tzinfo=tz, fold=fold)
            day, tod = d.dayz, d.todz
        self._record(name, ("pair", day, tod))
        return d

    def date(self, name, y0=2, y1=9990, rep="w"):
        d = self.dt("_" + name, y0, y1, rep=rep, midnight=True)
        del self.path.inputs["_" + name]
        d = d.date()
        self._record(name, ("int", d.dayz))
        return d

    def time(self, name, tz=None):
        h = self._var(name + ".h", 0, 23)
        mi = self._var(name + ".mi", 0, 59)
        s = self._var(name + ".s", 0, 59)
        t = dt.SymTime((h, mi, s, z3.IntVal(0)), tz)
        self._record(name, ("int", t.todz))
        return t

    def tz(self, name, unit=60, lo=-14 * 3600, hi=14 * 3600):
        v = self._var(name, -(-lo // unit), hi // unit)
        self._record(name, ("int", v * unit))
        return dt.SymTz(z3.simplify(v * (unit * SEC)))

    def local(self, name="local_offset", unit=900, lo=-14 * 3600, hi=14 * 3600):
        v = self._var(name, -(-lo // unit), hi // unit)
        self._record(name, ("int", v * unit))
        off = z3.simplify(v * (unit * SEC))
        self.path.notes["local_offset"] = off
        return dt.mktd(off)

    def clock(self, name="clock", y0=2000, y1=2050):
        day = self._var(name + ".day", _dt.date(y0, 1, 1).toordinal(), _dt.date(y1, 12, 31).toordinal())
        t = self._var(name + ".tod", 0, 86399)
        self._record(name, ("pair", day, t * SEC))
        self.path.notes["clock"] = z3.simplify(day * DAY + t * SEC)
        return dt.SymDatetime(self.path.notes["clock"])

    # -- logic
    and_ = staticmethod(sand)
    or_ = staticmethod(sor)
    not_ = staticmethod(snot)
    implies = staticmethod(simplies)
    iff = staticmethod(siff)
    ite = staticmethod(site)

    def seconds(self, td):
        return td // _dt.timedelta(seconds=1)

    def us(self, td):
        return mkint(dt.lift_td(td).us)

    def wall(self, d):
        d = dt.lift_dt(d)
        return mkint(d.w)

    # -- verdicts
    def assume(self, cond):
        p = self.path
        if isinstance(cond, SymBool):
            p.flush()
            p.add(cond.z())
            if len(p.trace) >= len(p.prefix) and p.model is None:
                p.get_model()
        elif not cond:
            raise Infeasible()

    def known(self, kid, cond=True):
        if kid in self.known_ids:
            self.assume(snot(cond))

    def check(self, cond, label):
        p = self.path
        p.reached += 1
        k = len(p.trace)
        if k < len(p.prefix):
            ok = p.prefix[k][1]
            p.trace.append(("k", ok))
            if not ok and isinstance(cond, SymBool):
                p.flush()
                p.add(cond.z())
            return
        if not isinstance(cond, SymBool):
            p.checks.append((label, bool(cond)))
            if cond:
                p.trace.append(("k", 1))
                return
            p.flush()
            p.failed.append((label, self.inputs(p.get_model())))
            raise Violated(label)
        z = cond.z()
        p.flush()
        neg = z3.simplify(z3.Not(z))
        r = z3.unsat if z3.is_false(neg) else p.check(neg)
        if r == z3.unsat:
            p.checks.append((label, True))
            p.trace.append(("k", 1))
            return
        if r == z3.unknown:
            p.incomplete.append(f"solver unknown: {label}")
            p.trace.append(("k", 1))
            return
        p.checks.append((label, False))
        p.failed.append((label, self.inputs(p.last.model())))
        p.trace.append(("k", 0))
        p.add(z)
        p.model = None
        if p.check() != z3.sat:
            raise Violated(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, label, value):
        self.path.observations.append((label, self.freeze(value)))

    def raises(self, fn, *a, **k):
        from sx import rt

        try:
            r = rt.call(fn, *a, **k)
        except Exception as e:
            n = type(e).__name__
            self.path.observations.append(("raises", lambda m: n))
            return e, None
        self.path.observations.append(("raises", lambda m: None))
        return None, r

    # -- reading back
    def inputs(self, m):
        out = {}

        def ev(e):
            if isinstance(e, int):
                return e
            return m.eval(e, model_completion=True).as_long()

        for name, spec in self.path.inputs.items():
            kind = spec[0]
            if kind == "const":
                out[name] = spec[1]
            elif kind == "int":
                out[name] = ev(spec[1])
            elif kind == "bool":
                out[name] = z3.is_true(m.eval(spec[1], model_completion=True))
            elif kind == "pair":
                out[name] = [ev(spec[1]), ev(spec[2])]
            elif kind == "cells":
                vals = []
                for c in spec[1]:
                    v = ev(c.var)
                    if v not in c.dom:
                        v = c.dom.pick()
                    vals.append(v)
                out[name] = vals
        return out

    def freeze(self, v, depth=4):
        """-> function of a model giving the counterpart of api.canon"""
        from sx import api

        def ev(m, e):
            return m.eval(e, model_completion=True).as_long()

        if not is_sym(v):
            if isinstance(v, (list, tuple)) and depth:
                parts = [self.freeze(x, depth - 1) for x in v]
                return lambda m: [f(m) for f in parts]
            if isinstance(v, _dt.datetime) and v.tzinfo is not None and type(v.tzinfo).__module__.startswith(("ics", "sx")):
                v = dt.lift_dt(v)
            elif hasattr(v, "data") and isinstance(v.data, str):
                f = self.freeze(v.data)
                return lambda m: ["q", f(m)]
            else:
                c = api.canon(v)
                return lambda m: c
        if isinstance(v, SymBool):
            z = v.z()
            return lambda m: z3.is_true(m.eval(z, model_completion=True))
        if type(v) is SymInt:
            return lambda m: ev(m, v.e)
        if type(v) is SymStr:
            cells = tuple(map(cell_of, v.cells))
            return lambda m: "".join(chr(c if isinstance(c, int) else ev(m, c.var)) for c in cells)
        if type(v) is SymBytes:
            cells = tuple(map(cell_of, v.cells))
            return lambda m: bytes((c if isinstance(c, int) else ev(m, c.var)) for c in cells).hex()
        if type(v) is dt.SymDatetime:
            off = v.offset()
            w = v.w
            return lambda m: ["dt", ev(m, w) // DAY, ev(m, w) % DAY, None if off is None else ev(m, off)]
        if type(v) is dt.SymDate:
            z = v.dayz
            return lambda m: ["d", ev(m, z)]
        if type(v) is dt.SymTimedelta:
            return lambda m: ["td", ev(m, v.us)]
        if type(v) is dt.SymTime:
            return lambda m: ["t", *(ev(m, x) for x in v.hms)]
        name = type(v).__name__
        return lambda m: ["o", name]
