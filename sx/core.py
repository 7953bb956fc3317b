"""Path-exploring symbolic execution core.

One `Path` object is active per execution of a harness.  Every symbolic branch asks `decide`, which
consults z3; both feasible sides are explored by re-execution with decision prefixes.
"""
import time
import z3

MAXCP = 0x10FFFF


class SxAbort(BaseException):
    """Base of engine-internal control flow; deliberately not an Exception (code under test must not catch it)."""


class Infeasible(SxAbort):
    """the current path is not feasible (failed assumption)"""


class Unsupported(SxAbort):
    """the engine can't go on with this path; the path is reported as incomplete"""


class Violated(SxAbort):
    """assertion definitely violated on this path; stop the path"""


class PathTimeout(SxAbort):
    pass


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.forks = 0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()

FIRST_MS = 1500
STRATEGIES = (
    (z3.Solver, (("random_seed", 7),)),
    (z3.SimpleSolver, (("random_seed", 8), ("arith.solver", 2))),
    (lambda: z3.SolverFor("QF_LIA"), ()),
)


def bounds(e, vb, memo, depth=60):
    """an interval that holds all values of an integer expression, or None"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = _bounds(e, vb, memo, depth - 1) if depth else None
    memo[k] = e, r
    return r


def _bounds(e, vb, memo, depth):
    if z3.is_int_value(e):
        v = e.as_long()
        return v, v
    kind = e.decl().kind()
    a = e.children()
    if kind == z3.Z3_OP_UNINTERPRETED:
        return None if a else vb.get(e.decl().name())
    if kind == z3.Z3_OP_ITE:
        a = a[1:]
    b = []
    for x in a:
        i = bounds(x, vb, memo, depth)
        if i is None:
            if kind == z3.Z3_OP_MOD and x is a[0] and z3.is_int_value(a[1]) and a[1].as_long() > 0:
                return 0, a[1].as_long() - 1
            return None
        b.append(i)
    if kind == z3.Z3_OP_ADD:
        return sum(i[0] for i in b), sum(i[1] for i in b)
    if kind == z3.Z3_OP_SUB:
        return b[0][0] - sum(i[1] for i in b[1:]), b[0][1] - sum(i[0] for i in b[1:])
    if kind == z3.Z3_OP_UMINUS:
        return -b[0][1], -b[0][0]
    if kind == z3.Z3_OP_ITE:
        return min(i[0] for i in b), max(i[1] for i in b)
    if kind == z3.Z3_OP_MUL and len(b) == 2:
        v = [x * y for x in b[0] for y in b[1]]
        return min(v), max(v)
    if kind == z3.Z3_OP_IDIV and b[1][0] == b[1][1] > 0:
        return b[0][0] // b[1][0], b[0][1] // b[1][0]
    if kind == z3.Z3_OP_MOD and b[1][0] == b[1][1] > 0:
        n = b[1][0]
        return b[0] if 0 <= b[0][0] and b[0][1] < n else (0, n - 1)
    return None


def btruth(e, vb, memo):
    """the truth value of a condition, where intervals tell"""
    kind = e.decl().kind()
    a = e.children()
    if kind == z3.Z3_OP_TRUE:
        return True
    if kind == z3.Z3_OP_FALSE:
        return False
    if kind == z3.Z3_OP_NOT:
        r = btruth(a[0], vb, memo)
        return None if r is None else not r
    if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = kind == z3.Z3_OP_OR
        r = [btruth(x, vb, memo) for x in a]
        if out in r:
            return out
        return None if None in r else not out
    if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(a[0]):
        x = bounds(a[0], vb, memo)
        y = x and bounds(a[1], vb, memo)
        if y is None:
            return None
        if kind == z3.Z3_OP_EQ:
            return False if x[1] < y[0] or y[1] < x[0] else True if x[0] == x[1] == y[0] == y[1] else None
        if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = y, x
            kind = z3.Z3_OP_LE if kind == z3.Z3_OP_GE else z3.Z3_OP_LT
        if kind == z3.Z3_OP_LE:
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        return True if x[1] < y[0] else False if x[0] >= y[1] else None
    return None


def linear(e):
    """(v, k, c) for an expression k * v + c of one variable"""
    if z3.is_int_value(e):
        return None, 0, e.as_long()
    kind = e.decl().kind()
    a = e.children()
    if kind == z3.Z3_OP_UNINTERPRETED:
        return None if a or not z3.is_int(e) else (e.decl().name(), 1, 0)
    if kind == z3.Z3_OP_UMINUS:
        x = linear(a[0])
        return x and (x[0], -x[1], -x[2])
    if kind == z3.Z3_OP_MUL and len(a) == 2 and z3.is_int_value(a[0]):
        x = linear(a[1])
        k = a[0].as_long()
        return x and (x[0], k * x[1], k * x[2])
    if kind == z3.Z3_OP_ADD and len(a) == 2:
        x, y = linear(a[0]), linear(a[1])
        if x is None or y is None or x[0] is not None and y[0] is not None:
            return None
        return x[0] or y[0], x[1] + y[1], x[2] + y[2]
    return None


def limits(e, v=True):
    """intervals (variable, low, high) that follow from a condition"""
    kind = e.decl().kind()
    a = e.children()
    if kind == z3.Z3_OP_NOT:
        yield from limits(a[0], not v)
    elif kind == z3.Z3_OP_AND and v or kind == z3.Z3_OP_OR and not v:
        for x in a:
            yield from limits(x, v)
    elif kind in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(a[0]):
        if kind == z3.Z3_OP_EQ and not v:
            return
        x = linear(a[0])
        y = x and linear(a[1])
        if y is None or (x[0] is None) == (y[0] is None):
            return
        if x[0] is None:
            x, y = y, x
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(kind, kind)
        if not v:
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[kind]
        # k * v (kind) n
        name, k, n = x[0], x[1], y[2] - x[2]
        if k < 0:
            k, n = -k, -n
            kind = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(kind, kind)
        if kind == z3.Z3_OP_LT:
            kind, n = z3.Z3_OP_LE, n - 1
        elif kind == z3.Z3_OP_GT:
            kind, n = z3.Z3_OP_GE, n + 1
        if k == 0:
            return
        lo = -(-n // k) if kind != z3.Z3_OP_LE else None
        hi = n // k if kind != z3.Z3_OP_GE else None
        yield name, lo, hi


class Path:
    def __init__(self, prefix, query_timeout_ms=4000):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []  # unexplored alternative prefixes
        self.solver = z3.SimpleSolver()
        # a short first attempt: what the incremental solver doesn't decide quickly
        # is mostly decided at once by another strategy (see retry)
        self.solver.set("timeout", min(FIRST_MS, query_timeout_ms))
        self.query_ms = query_timeout_ms
        self.last = self.solver  # the solver that has the latest model
        self.model = None
        self.names = {}
        self.inputs = {}  # name -> spec used to read back the concrete input values
        self.cells = []  # free cells with pending domain constraints
        self.memo = {}  # decompositions of times
        self.incomplete = []  # reasons for which this path is not the full set of values
        self.checks = []  # (label, status)
        self.failed = []  # candidate violations: (label, inputs)
        self.observations = []
        self.fresh_nr = 0
        self.lru = {}
        self.opaque = False
        self.deadline = None
        self.reached = 0
        self.notes = {}
        self.vbounds = {}  # intervals of variables
        self.bmemo = {}
        self.decided = {}  # conditions that are known
        self.okdates = {}  # year, month, day that are known to be a date
        self.digits = {}  # digit cells -> the number they represent

    # ---------------------------------------------------------------- solver
    def fresh(self, base):
        self.fresh_nr += 1
        return f"{base}!{self.fresh_nr}"

    def fresh_int(self, base="t"):
        return z3.Int(self.fresh(base))

    def bounded_int(self, base, lo, hi):
        """a fresh variable for which these bounds are going to be assumed"""
        v = self.fresh_int(base)
        self.vbounds[v.decl().name()] = lo, hi
        return v

    def tighten(self, e, v=True):
        """intervals of variables from a condition that holds from here on"""
        for name, lo, hi in limits(e, v):
            b = self.vbounds.get(name)
            if b is None:
                if lo is None or hi is None:
                    continue
                n = lo, hi
            else:
                n = b[0] if lo is None or lo < b[0] else lo, b[1] if hi is None or hi > b[1] else hi
            if n != b and n[0] <= n[1]:
                self.vbounds[name] = n
                self.bmemo.clear()

    def bounds(self, e):
        return bounds(e, self.vbounds, self.bmemo)

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise PathTimeout()

    def flush(self):
        """push the pending domain constraints of all cells into the solver"""
        if self.cells:
            cells, self.cells = self.cells, []
            for c in cells:
                c.flush(self)

    def check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        STATS.solver_s += time.perf_counter() - t
        STATS.queries += 1
        self.last = self.solver
        if r == z3.unknown:
            STATS.unknown += 1
            r = self.retry(assumptions)
        return r

    def retry(self, assumptions):
        """other strategies for a query the incremental solver gave up on: a short round, then a long one"""
        rounds = (min(2 * FIRST_MS, self.query_ms), self.query_ms, 5 * self.query_ms)
        for ms in rounds:
            for make, options in STRATEGIES:
                s = make()
                s.set("timeout", ms)
                for name, value in options:
                    s.set(name, value)
                s.add(*self.solver.assertions())
                s.add(*assumptions)
                t = time.perf_counter()
                r = s.check()
                STATS.solver_s += time.perf_counter() - t
                STATS.queries += 1
                if r != z3.unknown:
                    self.last = s
                    return r
        return z3.unknown

    def add(self, e):
        if z3.is_true(e):
            return
        self.solver.add(e)
        self.tighten(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported("solver unknown")
            self.model = self.last.model()
        return self.model

    def assume(self, e):
        """constrain the path (an assumption of the harness / a definition of a fresh variable)"""
        if z3.is_true(e):
            return
        self.add(e)

    def assume_checked(self, e):
        self.flush()
        self.add(e)
        if self.model is None:
            self.get_model()

    # ---------------------------------------------------------------- branching
    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = z3.is_not(e)
        if neg:
            e = e.arg(0)
        k = e.get_id()
        if k in self.decided:
            return self.decided[k][1] != neg
        r = btruth(e, self.vbounds, self.bmemo)
        if r is None:
            r = self._decide(e)
            self.tighten(e, r)
            self.decided[k] = e, r
        return r != neg

    def _decide(self, e):
        STATS.decisions += 1
        self.tick()
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            # 2/3 are decisions whose other side is infeasible: implied, needn't be added
            v = d in (1, 3)
            if d < 2:
                self.flush()
                self.add(e if v else z3.Not(e))
            return v
        self.flush()
        m = self.get_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        r = self.check(other)
        if r == z3.unsat:
            self.trace.append(3 if v else 2)
            return v
        if r == z3.unknown:
            self.incomplete.append("unknown branch")
        else:
            STATS.forks += 1
            self.alts.append(self.trace + [0 if v else 1])
        self.trace.append(1 if v else 0)
        self.solver.add(e if v else other_not(e, v))
        return v

    def choose(self, n):
        """a fork over n concrete alternatives, all of them feasible"""
        if n == 1:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for i in range(1, n):
                self.alts.append(self.trace + [i])
            STATS.forks += n - 1
        self.trace.append(d)
        return d

    def concretise_int(self, e, why, enumerate_limit=0):
        """pick a value for e. With enumerate_limit > 0 all other values are explored too (complete)."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.flush()
        if enumerate_limit:
            for _ in range(enumerate_limit):
                # the candidate must not depend on the (prefix dependent) model: take the least feasible value
                v = self._least(e)
                if self.decide(e == v):
                    return v
            raise Unsupported(f"too many values to enumerate: {why}")
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][1]
            self.trace.append(("c", v))
        else:
            v = self.get_model().eval(e, model_completion=True).as_long()
            self.trace.append(("c", v))
        self.incomplete.append(f"concretised: {why}")
        self.add(e == v)
        return v

    def _least(self, e):
        k = len(self.trace)
        if k < len(self.prefix) and isinstance(self.prefix[k], tuple):
            v = self.prefix[k][1]
            self.trace.append(("l", v))
            return v
        m = self.get_model()
        v = m.eval(e, model_completion=True).as_long()
        self.trace.append(("l", v))
        return v


def other_not(e, v):
    return e if v else z3.Not(e)


CUR = None  # the active path


def cur():
    return CUR


def set_cur(p):
    global CUR
    CUR = p


# ---------------------------------------------------------------------------------------------------- integer sets


class IntSet:
    """immutable set of code points as sorted disjoint closed intervals"""

    __slots__ = ("iv", "_h")

    def __init__(self, iv=()):
        self.iv = tuple(iv)

    @staticmethod
    def of(*items):
        pts = []
        for i in items:
            if isinstance(i, str):
                for c in i:
                    pts.append((ord(c), ord(c)))
            elif isinstance(i, tuple):
                a, b = i
                pts.append((a if isinstance(a, int) else ord(a), b if isinstance(b, int) else ord(b)))
            elif isinstance(i, int):
                pts.append((i, i))
            elif isinstance(i, IntSet):
                pts.extend(i.iv)
            else:
                raise TypeError(i)
        return IntSet.norm(pts)

    @staticmethod
    def norm(pts):
        pts = sorted(pts)
        out = []
        for a, b in pts:
            if a > b:
                continue
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return IntSet(out)

    def __and__(self, o):
        out = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo = max(A[i][0], B[j][0])
            hi = min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return IntSet(out)

    def __or__(self, o):
        return IntSet.norm(self.iv + o.iv)

    def complement(self):
        out = []
        p = 0
        for a, b in self.iv:
            if p < a:
                out.append((p, a - 1))
            p = b + 1
        if p <= MAXCP:
            out.append((p, MAXCP))
        return IntSet(out)

    def __sub__(self, o):
        return self & o.complement()

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return isinstance(o, IntSet) and self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __contains__(self, v):
        for a, b in self.iv:
            if a <= v <= b:
                return True
        return False

    def single(self):
        if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1]:
            return self.iv[0][0]
        return None

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def pick(self):
        return self.iv[0][0]

    def z3(self, var):
        if not self.iv:
            return _FALSE
        parts = []
        for a, b in self.iv:
            if a == b:
                parts.append(var == a)
            else:
                parts.append(z3.And(var >= a, var <= b))
        return parts[0] if len(parts) == 1 else z3.Or(*parts)

    def __repr__(self):
        return "{" + ",".join(f"{a:x}-{b:x}" for a, b in self.iv[:8]) + "}"


ANY = IntSet([(0, 0xD7FF), (0xE000, MAXCP)])  # every unicode scalar value
EMPTY = IntSet()


class Cell:
    """one symbolic character"""

    __slots__ = ("var", "dom", "free", "dirty", "sval")

    def __init__(self, path, var, dom, free):
        self.var = var
        self.dom = dom
        self.free = free
        self.sval = None
        self.dirty = True
        path.cells.append(self)

    def touch(self):
        if not self.dirty:
            self.dirty = True
            CUR.cells.append(self)

    def flush(self, path):
        if self.dirty:
            self.dirty = False
            path.add(self.dom.z3(self.var))

    def isin(self, S):
        """fork on membership in S, refining the domain"""
        inter = self.dom & S
        if not inter:
            return False
        if inter.iv == self.dom.iv:
            return True
        p = CUR
        p.tick()
        if self.free:
            STATS.decisions += 1
            k = len(p.trace)
            if k < len(p.prefix):
                d = p.prefix[k]
            else:
                d = 1
                p.alts.append(p.trace + [0])
                STATS.forks += 1
            p.trace.append(d)
        else:
            d = 1 if p.decide(S.z3(self.var)) else 0
        self.dom = inter if d else (self.dom - S)
        if not self.dom:
            raise Infeasible()
        self.touch()
        return bool(d)

    def link(self):
        """the cell takes part in a constraint with other variables from now on"""
        self.free = False
        self.flush(CUR)

    def value(self):
        """the concrete code point if it is determined by the domain"""
        return self.dom.single()
