"""A small symbolic-execution engine for real Python code.

Real functions are run on proxy values (SymInt, SymBool, SymReal) that carry z3
terms.  A truth test on a proxy is a branch: the engine asks z3 which sides are
feasible under the current path condition and explores all of them by
re-execution (depth first).  Where Python insists on a concrete value
(`__index__`, `__hash__`, `int()`), the engine forks over *every* value z3
finds feasible, so exploration stays complete within the stated ranges.
"""
import numbers
import re
import time
from fractions import Fraction

from . import env
env.load()
import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)


class Inconclusive(Exception):
    """z3 answered unknown, or a bound of the engine was hit."""


class Counterexample(Exception):
    """The solver found values that break the asserted property."""

    def __init__(self, what, values, detail=None):
        super().__init__(what, values, detail)
        self.what = what
        self.values = values
        self.detail = detail


def sample_number(name, k, lo=None, hi=None):
    import zlib
    h = zlib.crc32(f"{name}|{k}".encode())
    v = (-2.5, -1., -0.375, 0.25, 0.5, 1., 1.75, 3., 0.125, -4.)[h % 10]
    if k == 0:
        v = abs(v)
    if k == 1 and h % 3 == 0:
        v = 0.
    if lo is not None and v < lo or hi is not None and v > hi:
        lo = hi - 1 if lo is None else lo
        hi = lo + 1 if hi is None else hi
        v = lo + (hi - lo) * ((h >> 8) % 9) / 8
    return float(v)


class _Infeasible(BaseException):
    """The current path turned out to be infeasible (assume failed)."""


class _Cut(BaseException):
    """Depth limit of the splitting phase of a parallel exploration."""


CUR = None   # the engine that is currently exploring


def eng():
    if CUR is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return CUR


def active():
    return CUR is not None


def _frac(q):
    if isinstance(q, z3.AlgebraicNumRef):
        q = q.approx(20)
    return Fraction(q.numerator_as_long(), q.denominator_as_long())


class Engine:
    def __init__(self, timeout_ms=60000, max_paths=2_000_000,
                 time_limit=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.checks = 0
        self.discharged = 0
        self.reach = {}
        self.inputs = {}
        self._names = {}
        self.solver = None
        self.stop_first = True
        self.violations = []
        # Fallback mode: integer and boolean inputs are forked to all their
        # feasible values at once (solver-driven, still complete).
        self.enum = False

    # ---------------------------------------------------------------- solver
    def _new_solver(self):
        s = z3.SimpleSolver()
        s.set("timeout", min(self.timeout_ms, 30000))
        return s

    def _sat(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self._answer = self.solver
        if r == z3.unknown:
            r = self._other_solvers(*extra)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown: "
                               + self.solver.reason_unknown())
        return r == z3.sat

    def _other_solvers(self, *extra):
        """Ask solvers of other strategies where the first gives up."""
        for make in (z3.Solver, lambda: z3.Tactic("qfnra-nlsat").solver(),
                     lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
                     lambda: z3.Tactic("qflra").solver()):
            try:
                s = make()
                s.set("timeout", self.timeout_ms)
                s.add(self.solver.assertions())
                for x in extra:
                    s.add(x)
                r = s.check()
                if r == z3.sat:
                    s.model()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                self._answer = s
                return r
        return z3.unknown

    # ---------------------------------------------------------------- inputs
    def _reg(self, name, term):
        self.inputs[name] = term

    def int(self, name, lo, hi):
        """A fresh integer input lo <= x <= hi."""
        v = z3.Int(name)
        self._reg(name, v)
        self.solver.add(v >= lo, v <= hi)
        if lo == hi:
            return lo
        if self.enum:
            return self.concretize(v)
        return SymInt(v, lo, hi)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, v)
        if self.enum:
            return self.branch(v)
        return SymBool(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self._reg(name, v)
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        return SymReal(v)

    def coef(self, name, lo=None, hi=None):
        """A number the code under test computes with: symbolic, but in the
        fallback mode one of a few concrete numbers."""
        if not self.enum:
            return self.real(name, lo, hi)
        v = sample_number(name, int(self.int("number sample", 0, 5)), lo, hi)
        t = z3.Real(name)
        self._reg(name, t)
        self.solver.add(t == z3r(v))
        return v

    def table(self, name, array):
        """A concrete array as an uninterpreted function with its facts, to
        be looked up at symbolic positions."""
        import itertools
        import numpy as np
        a = np.asarray(array)
        f = z3.Function(name, *([z3.IntSort()] * a.ndim),
                        z3.BoolSort() if a.dtype.kind == "b"
                        else z3.IntSort())
        for idx in itertools.product(*map(range, a.shape)):
            t = f(*[z3.IntVal(i) for i in idx])
            if a.dtype.kind == "b":
                self.solver.add(t if a[idx] else z3.Not(t))
            else:
                self.solver.add(t == int(a[idx]))
        wrap = SymBool if a.dtype.kind == "b" else SymInt

        def look(*idx):
            return wrap(f(*[z3i(i) for i in idx]))
        return look

    def pick(self, name, options):
        """One of the options; the path forks over all of them."""
        lo, hi = 0, len(options) - 1
        v = z3.Int(name)
        self._reg(name, v)
        self.solver.add(v >= lo, v <= hi)
        while lo < hi:              # halving, for the sake of parallel runs
            mid = (lo + hi) // 2
            if self.branch(v <= mid):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def assume(self, cond):
        c = z3b(cond)
        if z3.is_true(c):
            return
        self.solver.add(c)
        if self._pos >= len(self._prefix):
            if not self._sat():
                raise _Infeasible()

    # -------------------------------------------------------------- branching
    def _cut(self):
        if self._depth is not None and len(self._trace) >= self._depth:
            raise _Cut()

    def branch(self, e):
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self._known.get(key)
        if hit is not None:
            return hit[0]
        if self._pos < len(self._prefix):
            d = self._prefix[self._pos]
        else:
            self._cut()
            self.branches += 1
            t = self._sat(e)
            f = self._sat(z3.Not(e)) if t else True
            if t and f:
                d = True
                self._stack.append(self._trace + [False])
            else:
                d = t
            self._prefix.append(d)
        self._pos += 1
        self._trace.append(d)
        self.solver.add(e if d else z3.Not(e))
        self._known[key] = (d, e)
        return d

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ("c", e.get_id())
        hit = self._known.get(key)
        if hit is not None:
            return hit[0]
        while True:
            if self._pos < len(self._prefix):
                d = self._prefix[self._pos]
                v, yes = d
            else:
                self._cut()
                if not self._sat():
                    raise _Infeasible()
                v = self._answer.model().eval(e, model_completion=True)
                v = v.as_long()
                yes = True
                if self._sat(e != v):
                    self._stack.append(self._trace + [(v, False)])
                self._prefix.append((v, True))
            self._pos += 1
            self._trace.append((v, yes))
            self.solver.add(e == v if yes else e != v)
            if yes:
                self._known[key] = (v, e)
                return v

    # --------------------------------------------------------------- checking
    def model_values(self, m):
        out = {}
        for k, t in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if z3.is_bool(v):
                out[k] = z3.is_true(v)
            elif z3.is_int_value(v):
                out[k] = v.as_long()
            else:
                out[k] = _frac(v)
        return out

    def check(self, cond, what, detail=None):
        """Assert that cond holds for every value on the current path."""
        self.checks += 1
        c = z3b(cond)
        neg = z3.simplify(z3.Not(c))
        if z3.is_false(neg):
            self.discharged += 1
            return
        if self._sat(neg):
            vals = self.model_values(self._nice_model(neg))
            raise Counterexample(what, vals, detail)
        self.discharged += 1

    def _nice_model(self, neg):
        """A model whose real numbers survive floating point arithmetic, if
        the solver finds one soon."""
        m = self._answer.model()
        reals = [t for t in self.inputs.values() if z3.is_real(t)]
        if not reals:
            return m
        for den, top in ((8, 64), (1024, 8192)):
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(self.solver.assertions())
            s.add(neg)
            for k, t in enumerate(reals):
                i = z3.Int(f"nice!{k}")
                s.add(t == z3.ToReal(i) / den, i >= -top, i <= top)
            if s.check() == z3.sat:
                return s.model()
        return m

    def witness(self, label, cond=True):
        """Reachability twin: record that `label` is reachable (the negated
        assertion `false` at this point must be satisfiable)."""
        if self.reach.get(label):
            return
        self.reach.setdefault(label, False)
        if self._sat(z3b(cond)):
            self.reach[label] = True

    symbolic = True
    # ------------------------------------------------------------------ texts
    texts = None
    numpy_texts = False

    def texting(self, on=True, numpy=False):
        """From now on, numbers turned to text become tokens that
        `vlib.texts` reads back."""
        self.texts = {} if on else None
        self.numpy_texts = numpy

    def text(self, x):
        """A token for x, standing for its digits and its sign."""
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            return repr(float(_frac(x)))
        n = len(self.texts)
        self.texts[n] = x
        return f"\u00a7{n}\u00a7"

    def format(self, x, spec):
        m = re.fullmatch(r"([<>^]?)(\+?)(\d*)(?:\.(\d+))?([a-zA-Z]?)", spec)
        if m is None:
            raise Inconclusive(f"format {spec!r} is not modelled")
        align, plus, width, digits, kind = m.groups()
        if kind not in ("", "f", "g", "e", "F", "G", "E"):
            raise ValueError(f"format {spec!r} of a float")
        n = 6 if digits is None and kind else None if digits is None \
            else int(digits)
        k = kind.lower()
        if n is not None and not (n >= 15 or k == "e" and n >= 14):
            self._fresh = getattr(self, "_fresh", 0) + 1
            r = z3.Real(f"rounded!{self._fresh}")
            if k == "f":
                d = z3.Q(1, 2 * 10 ** n)
            else:
                a = z3.If(x >= 0, x, -x)
                d = a * z3.Q(1, 2 * 10 ** (n - 1 if k != "e" else n))
            self.solver.add(r - x <= d, x - r <= d,
                            z3.Implies(x >= 0, r >= 0),
                            z3.Implies(x <= 0, r <= 0))
            x = r
        t = self.text(x)
        if plus and t[0] != "-" and not self.branch(x < 0):
            t = "+" + t
        return format(t, f"{align or '>'}{width}" if width else "")

    def eq(self, a, b, tol=None):
        """a == b (in a replay: up to rounding)."""
        return SymBool(z3r(a) == z3r(b))

    def le(self, a, b, tol=None):
        return SymBool(z3r(a) <= z3r(b))

    def arr(self, x, dtype=None):
        from .symnp import arr, deep_sym
        import numpy as np
        if self.enum and not deep_sym(np.array(x, dtype=object)):
            return np.array(x, dtype=dtype)
        return arr(x)

    def patch(self, *mods, **extra):
        from .symnp import patched, NpProxy
        if self.enum:
            return patched(*mods, proxy=NpProxy(force_object=False), **extra)
        return patched(*mods, **extra)

    # --------------------------------------------------------------- exploring
    def explore(self, fn, roots=None, depth=None):
        """Run fn(engine) along every feasible path."""
        global CUR
        self._stack = [list(r) for r in roots] if roots is not None else [[]]
        self._depth = depth
        self.cut = []
        t0 = time.time()
        prev = CUR
        CUR = self
        try:
            while self._stack:
                self._prefix = list(self._stack.pop())
                self._pos = 0
                self._trace = []
                self._known = {}
                self.solver = self._new_solver()
                self.inputs = {}
                self.texts = None
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Inconclusive("path bound hit")
                if self.time_limit and time.time() - t0 > self.time_limit:
                    raise Inconclusive("time bound hit")
                try:
                    fn(self)
                except _Infeasible:
                    pass
                except _Cut:
                    self.paths -= 1
                    self.cut.append(self._trace)
                except Counterexample as ce:
                    if self.stop_first:
                        raise
                    self.violations.append(ce)
                except Inconclusive:
                    raise
                except RecursionError:
                    raise
                except Exception as ex:
                    # An exception of the code under test: obtain the inputs.
                    if getattr(ex, "_sym_internal", False):
                        raise
                    if not self._sat():
                        continue
                    vals = self.model_values(self._answer.model())
                    import traceback
                    raise Counterexample(
                        f"exception {type(ex).__name__}: {ex}", vals,
                        traceback.format_exc()) from ex
        finally:
            CUR = prev

    def explore_parallel(self, fn, depth=8, procs=None):
        """As explore, the path tree split over worker processes."""
        import multiprocessing as mp
        import os
        global _PAR
        self.explore(fn, depth=depth)
        tasks = self.cut
        if not tasks:
            return
        n = min(procs or min(8, os.cpu_count() or 1), len(tasks))
        tasks.sort(key=repr)
        _PAR = (self, fn)
        ctx = mp.get_context("fork")
        with ctx.Pool(n) as pool:
            try:
                for st, ce in pool.imap_unordered(_par_run, tasks):
                    for k in ("paths", "queries", "branches", "checks",
                              "discharged", "solver_s"):
                        setattr(self, k, getattr(self, k) + st[k])
                    for k, v in st["reach"].items():
                        self.reach[k] = self.reach.get(k, False) or v
                    if ce is not None:
                        if isinstance(ce, Counterexample) \
                                and not self.stop_first:
                            self.violations.append(ce)
                            continue
                        raise ce
            finally:
                pool.terminate()

    def stats(self):
        return dict(paths=self.paths, queries=self.queries,
                    branches=self.branches, assertions=self.checks,
                    discharged=self.discharged,
                    solver_s=round(self.solver_s, 3))


_PAR = None


def _par_run(root):
    """Explore one subtree in a worker process."""
    parent, fn = _PAR
    e = Engine(parent.timeout_ms, parent.max_paths, parent.time_limit)
    e.stop_first = parent.stop_first
    e.enum = parent.enum
    e.reach = {k: True for k, v in parent.reach.items() if v}
    err = None
    try:
        e.explore(fn, roots=[root])
    except (Counterexample, Inconclusive) as ex:
        err = ex
    except Exception as ex:
        import traceback
        err = RuntimeError("worker: " + traceback.format_exc())
    if err is None and e.violations:
        err = e.violations[0]
    if isinstance(err, Counterexample):
        err = Counterexample(err.what, err.values, err.detail)
    st = {k: getattr(e, k) for k in ("paths", "queries", "branches", "checks",
                                     "discharged", "solver_s", "reach")}
    return st, err


# ------------------------------------------------------------------ conversions
def z3b(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymReal):
        return x.e != 0
    return z3.BoolVal(bool(x))


def z3i(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def z3r(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return z3.ToReal(z3i(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(float(x)) if not isinstance(x, Fraction) else x
    return z3.RealVal(str(f))


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymReal))


def And(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    out = []
    for x in xs:
        if isinstance(x, (bool,)) or type(x).__name__ == "bool":
            if not x:
                return False
            continue
        out.append(z3b(x))
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def Or(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    out = []
    for x in xs:
        if isinstance(x, (bool,)) or type(x).__name__ == "bool":
            if x:
                return True
            continue
        out.append(z3b(x))
    if not out:
        return False
    return SymBool(z3.Or(*out) if len(out) > 1 else out[0])


def Not(x):
    if is_sym(x):
        return SymBool(z3.Not(z3b(x)))
    if isinstance(x, z3.ExprRef):
        return SymBool(z3.Not(x))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return SymBool(z3b(a) == z3b(b))


def ite(c, a, b):
    """If c then a else b, on proxies or constants."""
    if not is_sym(c) and not isinstance(c, z3.ExprRef):
        return a if c else b
    c = z3b(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    boolish = (bool, SymBool)
    if (isinstance(a, boolish) or type(a).__name__ == "bool") and \
       (isinstance(b, boolish) or type(b).__name__ == "bool"):
        return SymBool(z3.If(c, z3b(a), z3b(b)))
    if isinstance(a, (SymReal, float, Fraction)) or \
       isinstance(b, (SymReal, float, Fraction)):
        return SymReal(z3.If(c, z3r(a), z3r(b)))
    return SymInt(z3.If(c, z3i(a), z3i(b)))


# ----------------------------------------------------------------------- proxies
def _num(x):
    """Classify the other operand: 'i' int-like, 'r' real-like, None."""
    if isinstance(x, (SymInt, SymBool)):
        return "i"
    if isinstance(x, SymReal):
        return "r"
    if isinstance(x, bool) or type(x).__name__ in ("bool", "bool_"):
        return "i"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "r"
    n = type(x).__module__
    if n == "numpy" and hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return "i" if x.dtype.kind in "iub" else (
            "r" if x.dtype.kind == "f" else None)
    return None


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _b(self, o):
        return z3b(o)

    def __and__(self, o):
        if _num(o) is None:
            return NotImplemented
        return SymBool(z3.And(self.e, z3b(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _num(o) is None:
            return NotImplemented
        return SymBool(z3.Or(self.e, z3b(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if _num(o) is None:
            return NotImplemented
        return SymBool(z3.Xor(self.e, z3b(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def _as_int(self):
        return SymInt(z3i(self), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool) or isinstance(o, bool) \
                or type(o).__name__ in ("bool", "bool_"):
            return SymBool(self.e == z3b(o))
        if _num(o) is None:
            return False
        return self._as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        if isinstance(o, SymBool) or type(o).__name__ in ("bool", "bool_"):
            # numpy's boolean addition is logical or; Python's is arithmetic.
            return self._as_int() + z_int(o)
        return self._as_int() + o

    def __radd__(self, o):
        return self._as_int() + z_int(o)

    def __sub__(self, o):
        return self._as_int() - z_int(o)

    def __rsub__(self, o):
        return z_int(o) - self._as_int()

    def __mul__(self, o):
        return self._as_int() * z_int(o)
    __rmul__ = __mul__

    def __neg__(self):
        return -self._as_int()

    def __lt__(self, o):
        return self._as_int() < z_int(o)

    def __le__(self, o):
        return self._as_int() <= z_int(o)

    def __gt__(self, o):
        return self._as_int() > z_int(o)

    def __ge__(self, o):
        return self._as_int() >= z_int(o)

    def __repr__(self):
        return f"SymBool({self.e})"


def z_int(o):
    if isinstance(o, SymBool):
        return o._as_int()
    if isinstance(o, bool) or type(o).__name__ in ("bool", "bool_"):
        return int(o)
    return o


class SymInt:
    __slots__ = ("e", "lo", "hi")
    __array_priority__ = 1000

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- truth and concretisation
    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(eng().concretize(self.e))

    def __hash__(self):
        return hash(eng().concretize(self.e))

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return format(eng().concretize(self.e), spec)

    def __str__(self):
        return str(eng().concretize(self.e))

    def __repr__(self):
        return f"SymInt({self.e})"

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(object)

    def item(self):
        return self

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        k = _num(o)
        if k is None:
            return NotImplemented
        if k == "r":
            a, b = z3r(self), z3r(o)
            if swap:
                a, b = b, a
            return SymReal(f(a, b))
        a, b = self.e, z3i(o)
        if swap:
            a, b = b, a
        return SymInt(z3.simplify(f(a, b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        d = int(o)
        if d > 0:
            return SymInt(self.e / d)     # z3 int div is floor for d > 0
        return int(self) // d

    def __rfloordiv__(self, o):
        return o // int(self)

    def __mod__(self, o):
        d = int(o)
        if d > 0:
            return SymInt(self.e % d)
        return int(self) % d

    def __rmod__(self, o):
        return o % int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SymReal(z3r(self)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3r(self))

    def __pow__(self, o):
        return int(self) ** int(o)

    def __rpow__(self, o):
        return o ** int(self)

    def _bits(self, o, f, swap=False):
        a, b = int(self), int(o)
        return f(b, a) if swap else f(a, b)

    def __lshift__(self, o):
        return int(self) << int(o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return int(self) >> int(o)

    def __and__(self, o):
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)
    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)
    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    # -- comparison
    def _cmp(self, o, f):
        k = _num(o)
        if k is None:
            return NotImplemented
        if k == "r":
            return SymBool(f(z3r(self), z3r(o)))
        return SymBool(f(self.e, z3i(o)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def logical_not(self):
        return SymBool(self.e == 0)

    def conjugate(self):
        return self


class SymReal:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __hash__(self):
        return hash(("SymReal", self.e.get_id()))

    def __float__(self):
        raise NotReal("float() of a symbolic real")

    def __round__(self, n=None):
        return self

    def __repr__(self):
        if CUR is not None and CUR.texts is not None:
            t = CUR.text(self.e)
            return f"np.float64({t})" if CUR.numpy_texts and not isinstance(
                self, PlainReal) else t
        return f"SymReal({self.e})"

    def __str__(self):
        if CUR is not None and CUR.texts is not None:
            return CUR.text(self.e)
        return f"SymReal({self.e})"

    def _sympy_(self):
        import sympy
        if CUR is None or CUR.texts is None:
            raise NotReal("sympy number from a symbolic real")
        t = CUR.text(self.e)
        return sympy.Symbol(t) if t[0] == "\u00a7" else sympy.Float(t)

    def __format__(self, spec):
        if CUR is None or CUR.texts is None:
            return format(str(self), spec)
        return CUR.format(self.e, spec)

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(object)

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def _bin(self, o, f, swap=False):
        if _num(o) is None:
            return NotImplemented
        a, b = self.e, z3r(o)
        if swap:
            a, b = b, a
        return SymReal(f(a, b))

    def __add__(self, o):
        if _num(o) is not None and not is_sym(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if _num(o) is not None and not is_sym(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _num(o) is not None and not is_sym(o):
            if o == 0:
                return 0.
            if o == 1:
                return self
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _num(o) is None:
            return NotImplemented
        if is_sym(o):
            if not eng().branch(z3r(o) != 0):
                raise ZeroDivisionError("symbolic division by zero")
        elif o == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(self.e / z3r(o))

    def __rtruediv__(self, o):
        if not eng().branch(self.e != 0):
            raise ZeroDivisionError("symbolic division by zero")
        return SymReal(z3r(o) / self.e)

    def __pow__(self, o):
        n = int(o)
        if n == 0:
            return 1.
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if CUR is not None and CUR.texts is not None:
            # numbers that are written: the sign is decided
            return self if CUR.branch(self.e > 0) else -self
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if _num(o) is None:
            return NotImplemented
        if type(o) is float and o in (float("inf"), float("-inf")):
            big = o > 0
            return SymBool(z3.BoolVal({"<": big, "<=": big, ">": not big,
                                       ">=": not big, "==": False,
                                       "!=": True}[f[0]]))
        return SymBool(f[1](self.e, z3r(o)))

    def __eq__(self, o):
        r = self._cmp(o, ("==", lambda a, b: a == b))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, ("!=", lambda a, b: a != b))
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, ("<", lambda a, b: a < b))

    def __le__(self, o):
        return self._cmp(o, ("<=", lambda a, b: a <= b))

    def __gt__(self, o):
        return self._cmp(o, (">", lambda a, b: a > b))

    def __ge__(self, o):
        return self._cmp(o, (">=", lambda a, b: a >= b))

    def logical_not(self):
        return SymBool(self.e == 0)


numbers.Real.register(SymReal)


class NotReal(TypeError):
    """The code asked for a machine float where only a symbolic real exists."""
    _sym_internal = True


class PlainReal(SymReal):
    """A Python float (as opposed to a numpy one) in texts."""
    __slots__ = ()


def plain(x=0.):
    """float(x)"""
    return PlainReal(x.e) if isinstance(x, SymReal) else float(x)


class _FloatMeta(type):
    def __call__(cls, x=0.):
        return plain(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, PlainReal))


class Float(metaclass=_FloatMeta):
    """Stands in for the name `float`, also where it says a type."""
    import numpy as _np
    dtype = _np.dtype("float64")
