"""Harness-facing API: case registry and the concrete (replay) implementation.  Does not depend on z3."""
import datetime as _dt
import os
import time as _time

CASES = []

DOMS = {}


class Case:
    def __init__(self, name, fn, args, tiers, note):
        self.name = name
        self.fn = fn
        self.args = args
        self.tiers = tiers
        self.note = note


def case(*variants, name=None, tier=None, note=""):
    """register a harness function; each variant is a dict of keyword arguments (one case per variant)"""

    def deco(fn):
        base = name or fn.__name__
        tiers = ("quick", "thorough") if tier is None else (tier,)
        for v in variants or ({},):
            v = v if type(v).__name__ in ("dict", "SDict") else dict(v)
            suffix = ",".join(f"{k}={_short(x)}" for k, x in v.items())
            CASES.append(Case(base + (f"[{suffix}]" if suffix else ""), fn, v, tiers, note))
        return fn

    return deco


def _short(x):
    if isinstance(x, str) and not x.isprintable():
        return ascii(x)
    return getattr(x, "__name__", None) or str(x)


class Skip(BaseException):
    """an assumption of the harness does not hold for the concrete inputs"""


def canon(v, depth=4):
    """canonical, JSON-able representation of a concrete value"""
    if v is None or isinstance(v, (bool, int)):
        return int(v) if isinstance(v, int) and not isinstance(v, bool) else v
    if isinstance(v, str):
        return v
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, _dt.datetime):
        off = v.utcoffset()
        return ["dt", v.toordinal(), ((v.hour * 60 + v.minute) * 60 + v.second) * 10**6 + v.microsecond,
                None if off is None else _us(off)]
    if isinstance(v, _dt.date):
        return ["d", v.toordinal()]
    if isinstance(v, _dt.timedelta):
        return ["td", _us(v)]
    if isinstance(v, _dt.time):
        return ["t", v.hour, v.minute, v.second, v.microsecond]
    if isinstance(v, (list, tuple)) and depth:
        return [canon(x, depth - 1) for x in v]
    if type(v).__name__ == "QuotedParamValue" or hasattr(v, "data") and isinstance(getattr(v, "data"), str):
        return ["q", str(v)]
    return ["o", type(v).__name__]


def _us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


class Missing(BaseException):
    """the path ended before this input was made"""


class Inputs(dict):
    def __missing__(self, name):
        raise Missing(name)


class Concrete:
    """runs a harness on one concrete input assignment"""

    symbolic = False

    def __init__(self, inputs, tier="quick", known=()):
        self.inputs = Inputs(inputs)
        self.tier = tier
        self.checks = []
        self.obs = []
        self.cleanup = []
        self.known_ids = known

    # -- bounds
    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # -- inputs
    def int(self, name, lo=None, hi=None):
        return self.inputs[name]

    def bool(self, name):
        return bool(self.inputs[name])

    def choice(self, name, options):
        return options[self.inputs[name]]

    def str(self, name, n=0, dom="any"):
        return "".join(map(chr, self.inputs[name]))

    def bytes(self, name, n):
        return bytes(self.inputs[name])

    def td(self, name, lo=None, hi=None, unit=10**6):
        us = self.inputs[name]
        return _dt.timedelta(days=us // 86400000000, microseconds=us % 86400000000)

    def dt(self, name, y0=2, y1=9990, tz=None, unit=10**6, rep="w", fold=0, midnight=False):
        day, tod = self.inputs[name]
        d = _dt.datetime.fromordinal(day) + _dt.timedelta(microseconds=tod)
        return d.replace(tzinfo=tz, fold=int(fold))

    def date(self, name, y0=2, y1=9990, rep="w"):
        return _dt.date.fromordinal(self.inputs[name])

    def time(self, name, tz=None):
        tod = self.inputs[name]
        return (_dt.datetime(2000, 1, 1) + _dt.timedelta(microseconds=tod)).time().replace(tzinfo=tz)

    def tz(self, name, unit=60, lo=-14 * 3600, hi=14 * 3600):
        return _dt.timezone(_dt.timedelta(seconds=self.inputs[name]))

    def local(self, name="local_offset", unit=900, lo=-14 * 3600, hi=14 * 3600):
        """the process' local time zone has a fixed offset"""
        off = self.inputs[name]
        old = os.environ.get("TZ")

        def restore():
            if old is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old
            _time.tzset()

        self.cleanup.append(restore)
        a = abs(off)
        os.environ["TZ"] = "LOC%s%02d:%02d:%02d" % ("-" if off > 0 else "+", a // 3600, a // 60 % 60, a % 60)
        _time.tzset()
        self._local = off
        return _dt.timedelta(seconds=off)

    def clock(self, name="clock", y0=2000, y1=2050):
        import freezegun

        day, tod = self.inputs[name]
        now = _dt.datetime.fromordinal(day) + _dt.timedelta(microseconds=tod)
        f = freezegun.freeze_time(now, tz_offset=_dt.timedelta(seconds=getattr(self, "_local", 0)))
        f.start()
        self.cleanup.append(f.stop)
        # freezegun adds its tz_offset to aware results, too
        from freezegun.api import FakeDatetime

        old = FakeDatetime.__dict__["now"]
        local = _dt.timedelta(seconds=getattr(self, "_local", 0))

        def fixed(cls, tz=None):
            if tz is None:
                r = now + local
            else:
                r = tz.fromutc(now.replace(tzinfo=tz))
            return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo, fold=r.fold)

        FakeDatetime.now = classmethod(fixed)
        self.cleanup.append(lambda: setattr(FakeDatetime, "now", old))
        return now

    # -- logic
    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def seconds(self, td):
        """whole seconds of a timedelta"""
        return td // _dt.timedelta(seconds=1)

    def us(self, td):
        return _us(td)

    def wall(self, d):
        """microseconds of the wall clock time on a linear scale"""
        return d.toordinal() * 86400000000 + ((d.hour * 60 + d.minute) * 60 + d.second) * 10**6 + d.microsecond

    # -- verdicts
    def assume(self, cond):
        if not cond:
            raise Skip()

    def known(self, kid, cond=True):
        """inputs satisfying cond belong to the known finding kid"""
        if kid in self.known_ids and cond:
            raise Skip()

    def check(self, cond, label):
        self.checks.append([label, bool(cond)])

    def fail(self, label):
        self.checks.append([label, False])

    def observe(self, label, value):
        self.obs.append([label, canon(value)])

    def raises(self, fn, *a, **k):
        """-> (exception or None, result)"""
        try:
            r = fn(*a, **k)
        except Exception as e:
            self.obs.append(["raises", type(e).__name__])
            return e, None
        self.obs.append(["raises", None])
        return None, r

    def run(self, fn, args):
        exc = error = None
        skipped = False
        try:
            fn(self, **args)
        except Skip:
            skipped = True
        except Missing as e:
            error = f"input {e} missing"
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            exc = [type(e).__name__, str(e)[:300], [f"{f.filename}:{f.lineno}" for f in tb[-4:]]]
        finally:
            for c in reversed(self.cleanup):
                c()
        res = {"checks": self.checks, "obs": self.obs, "exc": exc, "skipped": skipped}
        return dict(res, error=error) if error else res
