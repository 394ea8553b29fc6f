"""A stand-in for MOSEK Fusion that records the model it is given.

Expressions are arrays of linear maps {key: coefficient}, where a key is None
(the constant), (variable, i) for an entry of a linear variable, or
(variable, i, j) with i <= j for an entry of a positive semidefinite one.  The
solution is made of free numbers; the duals of conic variables follow from
those of the constraints by  s = c - A'y,  MOSEK's definition.  `self_test`
compares recorded models with what Fusion itself writes."""
import sys
import types
from unittest import mock
import numpy as np
import mosek as realmosek
import mosek.fusion as real

from .symsparse import Coo
from .engine import And


class FusionError(ValueError):
    pass


def _shape(dims):
    if len(dims) == 1 and not np.isscalar(dims[0]):
        dims = dims[0]
    return tuple(int(d) for d in dims)


class Expr:
    """An array of affine expressions."""

    def __init__(self, shape, cells):
        self.shape = tuple(shape)
        self.cells = list(cells)
        assert len(self.cells) == int(np.prod(self.shape, dtype=int))

    # as Fusion's expressions and variables
    def getShape(self):
        return np.array(self.shape, dtype=np.int32)

    def getSize(self):
        return len(self.cells)

    getNumRows = lambda s: s.shape[0]

    def index(self, *idx):
        idx = _shape(idx)
        return Expr((), [self.cells[np.ravel_multi_index(idx, self.shape)
                                    if self.shape else 0]])

    def reshape(self, *dims):
        dims = _shape(dims)
        if int(np.prod(dims, dtype=int)) != len(self.cells):
            raise FusionError("mismatching shapes")
        return Expr(dims, self.cells)

    def transpose(self):
        a = _grid(self).T
        return Expr(a.shape, a.ravel().tolist())

    def slice(self, first, last):
        a = _grid(self)
        first, last = np.atleast_1d(first), np.atleast_1d(last)
        a = a[tuple(slice(int(f), int(t)) for f, t in zip(first, last))]
        return Expr(a.shape, a.ravel().tolist())

    def diag(self):
        a = _grid(self)
        return Expr((a.shape[0],), [a[i, i] for i in range(a.shape[0])])

    def asExpr(self):
        return self

    def pick(self, *idx):
        if len(idx) == 1:
            pos = [(int(i),) if np.isscalar(i) else tuple(map(int, i))
                   for i in idx[0]]
        else:
            pos = [tuple(map(int, t)) for t in zip(*idx)]
        return Expr((len(pos),), [self.index(*p).cells[0] for p in pos])

    def level(self):
        return self._model().values(self)

    def __add__(self, o): return Sum.add(self, o)
    __radd__ = __add__
    def __sub__(self, o): return Sum.sub(self, o)
    def __rsub__(self, o): return Sum.sub(o, self)
    def __neg__(self): return Sum.neg(self)

    def __mul__(self, o):
        if not np.isscalar(o) and isinstance(o, (Expr, Matrix)):
            raise FusionError("elementwise product not supported here")
        return Sum.mul(o, self)
    __rmul__ = __mul__
    __array_priority__ = 5000
    __array_ufunc__ = None

    def _model(self):
        for c in self.cells:
            for k in c:
                if k is not None:
                    return k[0].model
        raise FusionError("constant")


def _grid(x):
    a = np.empty(len(x.cells), dtype=object)
    for i, c in enumerate(x.cells):
        a[i] = c
    return a.reshape(x.shape)


class Var(Expr):
    def __init__(self, model, name, shape, domain):
        self.model, self.name, self.domain = model, name, domain
        if domain.kind == "psd":
            n = shape[0]
            cells = [{(self, min(i, j), max(i, j)): 1}
                     for i in range(n) for j in range(n)]
        else:
            cells = [{(self, i): 1} for i in range(
                int(np.prod(shape, dtype=int)))]
        super().__init__(shape, cells)

    def _model(self):
        return self.model

    def dual(self):
        return self.model.var_dual(self)


class Matrix:
    def __init__(self, m, n, cells):
        self.m, self.n, self.cells_ = int(m), int(n), cells

    @staticmethod
    def sparse(*a):
        if len(a) == 5:
            m, n, r, c, d = a
            if not len(r) == len(c) == len(d):
                raise FusionError("lengths differ")
            cells = {}
            for i, j, v in zip(r, c, d):
                k = (int(i), int(j))
                if not (0 <= k[0] < m and 0 <= k[1] < n):
                    raise FusionError("index out of bounds")
                cells[k] = cells[k] + v if k in cells else v
            return Matrix(m, n, cells)
        if len(a) == 2:
            return Matrix(a[0], a[1], {})
        return Matrix.dense(*a)

    @staticmethod
    def dense(*a):
        if len(a) == 3:
            m, n, d = a
            a = [np.array(d, dtype=object).reshape(m, n)
                 if not np.isscalar(d) else np.full((m, n), d, dtype=object)]
        d = np.array(a[0], dtype=object)
        return Matrix(*d.shape, {k: d[k] for k in np.ndindex(d.shape)})

    @staticmethod
    def eye(n):
        return Matrix(n, n, {(i, i): 1.0 for i in range(n)})

    @staticmethod
    def diag(d):
        return Matrix(len(d), len(d), {(i, i): v for i, v in enumerate(d)})

    def numRows(self): return self.m
    def numColumns(self): return self.n

    def transpose(self):
        return Matrix(self.n, self.m, {k[::-1]: v for k, v in
                                       self.cells_.items()})

    def expr(self):
        return Expr((self.m, self.n), [
            {None: self.cells_[i, j]} if (i, j) in self.cells_ else {}
            for i in range(self.m) for j in range(self.n)])


def _expr(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, Matrix):
        return x.expr()
    if isinstance(x, np.ndarray) and x.ndim:
        return Expr(x.shape, [{None: v} for v in x.ravel()])
    if isinstance(x, (list, tuple)):
        return Expr((len(x),), [{None: v} for v in x])
    return Expr((), [{None: x}])


def _plus(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        v = v if s == 1 else -v
        out[k] = out[k] + v if k in out else v
    return out


def _times(c, a):
    return {k: c * v for k, v in a.items()}


class Sum:
    """Stands in for mosek.fusion.Expr."""

    @staticmethod
    def add(*a):
        if len(a) == 1:
            a = list(a[0])
        out = _expr(a[0])
        for x in a[1:]:
            out = Sum._two(out, _expr(x), 1)
        return out

    @staticmethod
    def sub(a, b):
        return Sum._two(_expr(a), _expr(b), -1)

    @staticmethod
    def _two(a, b, s):
        if not (isinstance(a, Expr) and isinstance(b, Expr)):
            raise FusionError("no matching overload")
        if a.shape == () and b.shape != ():
            a = Expr(b.shape, a.cells * len(b.cells))
        if b.shape == () and a.shape != ():
            b = Expr(a.shape, b.cells * len(a.cells))
        if len(a.cells) != len(b.cells):
            raise FusionError("mismatching shapes")
        shape = a.shape if len(a.shape) >= len(b.shape) else b.shape
        return Expr(shape, [_plus(x, y, s) for x, y in zip(a.cells, b.cells)])

    @staticmethod
    def neg(a):
        a = _expr(a)
        return Expr(a.shape, [{k: -v for k, v in c.items()} for c in a.cells])

    @staticmethod
    def mul(a, b):
        if isinstance(b, Matrix) or not isinstance(b, Expr):
            if isinstance(a, Expr):
                if not isinstance(b, Matrix):
                    a, b = b, a
                else:
                    return Sum.mul(b.transpose(), Expr(
                        a.shape[::-1], _grid(a).T.ravel().tolist()))
            else:
                raise FusionError("no matching overload")
        if isinstance(a, Matrix):
            if b.shape[0] != a.n:
                raise FusionError("mismatching shapes")
            g = _grid(b).reshape(a.n, -1)
            out = [[{} for _ in range(g.shape[1])] for _ in range(a.m)]
            for (i, j), v in a.cells_.items():
                for k in range(g.shape[1]):
                    out[i][k] = _plus(out[i][k], _times(v, g[j, k]))
            shape = (a.m,) if len(b.shape) == 1 else (a.m, g.shape[1])
            return Expr(shape, [c for r in out for c in r])
        if isinstance(a, Expr):
            raise FusionError("product of expressions")
        return Expr(b.shape, [_times(a, c) for c in b.cells])

    mulElm = staticmethod(lambda a, b: Sum._elm(a, b))

    @staticmethod
    def _elm(a, b):
        if not isinstance(b, Expr):
            a, b = b, a
        c = _expr(a)
        if len(c.cells) != len(b.cells):
            raise FusionError("mismatching shapes")
        return Expr(b.shape, [_times(x.get(None, 0), y)
                              for x, y in zip(c.cells, b.cells)])

    @staticmethod
    def dot(a, b):
        if not isinstance(b, Expr):
            a, b = b, a
        if not isinstance(b, Expr):
            raise FusionError("no matching overload")
        c = _expr(a)
        if len(c.cells) != len(b.cells):
            raise FusionError("mismatching shapes")
        out = {}
        for x, y in zip(c.cells, b.cells):
            if None in x:
                out = _plus(out, _times(x[None], y))
        return Expr((), [out])

    @staticmethod
    def sum(a, *dims):
        if dims:
            raise FusionError("not supported here")
        out = {}
        for c in _expr(a).cells:
            out = _plus(out, c)
        return Expr((), [out])

    @staticmethod
    def constTerm(*a):
        if len(a) == 2:
            shape = _shape(a[:1])
            x = a[1]
            if np.isscalar(x) or not hasattr(x, "__len__"):
                return Expr(shape, [{None: x}] * int(np.prod(shape)))
            return _expr(x).reshape(shape)
        return _expr(a[0])

    @staticmethod
    def zeros(n):
        shape = _shape([n])
        return Expr(shape, [{}] * int(np.prod(shape)))

    @staticmethod
    def ones(n):
        return Expr((int(n),), [{None: 1.0}] * int(n))

    @staticmethod
    def flatten(a):
        a = _expr(a)
        return Expr((len(a.cells),), a.cells)

    @staticmethod
    def reshape(a, *dims):
        return _expr(a).reshape(*dims)

    @staticmethod
    def transpose(a):
        return _expr(a).transpose()

    @staticmethod
    def vstack(*a):
        a = [_expr(x) for x in (a[0] if len(a) == 1 else a)]
        if all(len(x.shape) <= 1 for x in a):
            cells = [c for x in a for c in x.cells]
            return Expr((len(cells),), cells)
        g = np.vstack([_grid(x) if len(x.shape) == 2 else
                       _grid(x).reshape(-1, 1) for x in a])
        return Expr(g.shape, g.ravel().tolist())


class Dom:
    def __init__(self, kind, value=0, size=None):
        self.kind, self.value, self.size = kind, value, size


class Domain:
    @staticmethod
    def inPSDCone(n=None, *a):
        return Dom("psd", size=n)

    @staticmethod
    def greaterThan(v, *a):
        return Dom("lo", v)

    @staticmethod
    def lessThan(v, *a):
        return Dom("up", v)

    @staticmethod
    def equalsTo(v, *a):
        return Dom("fx", v)

    @staticmethod
    def unbounded(*a):
        return Dom("fr")


class Con:
    def __init__(self, model, name, expr, domain):
        self.model, self.name, self.domain = model, name, domain
        self.expr = expr
        self.shape = expr.shape

    def dual(self):
        return self.model.con_dual(self)

    def level(self):
        return self.model.values(self.expr)

    def index(self, *idx):
        raise FusionError("not supported here")


class Model:
    recorder = None

    def __init__(self, *name):
        self.rec = self.recorder
        self.rec.models.append(self)
        self.vars, self.cons, self.names = [], [], set()
        self.sense, self.obj = "minimize", Expr((), [{}])
        self.solved = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _name(self, a):
        if a and isinstance(a[0], str):
            if a[0] and a[0] in self.names:
                raise FusionError("name already used")
            self.names.add(a[0])
            return a[0], a[1:]
        return "", a

    def variable(self, *a):
        name, a = self._name(a)
        a = list(a)
        dom = a.pop() if a and isinstance(a[-1], Dom) else Dom("fr")
        if dom.kind == "psd":
            n = int(a[0]) if a else int(dom.size)
            shape = (n, n)
        else:
            shape = _shape(a) if a else ()
        v = Var(self, name or f"v{len(self.vars)}", shape, dom)
        self.vars.append(v)
        return v

    def constraint(self, *a):
        name, a = self._name(a)
        if len(a) != 2 or not isinstance(a[0], Expr) or not isinstance(
                a[1], Dom):
            raise FusionError("Invalid argument list for constraint")
        c = Con(self, name or f"con{len(self.cons)}", a[0], a[1])
        self.cons.append(c)
        return c

    def objective(self, *a):
        name, a = self._name(a)
        self.sense = a[0]
        x = _expr(a[1])
        if len(x.cells) != 1:
            raise FusionError("the objective is not one number")
        self.obj = Expr((), x.cells)

    def solve(self, *a):
        self.solved += 1

    def _nothing(self, *a):
        pass

    setLogHandler = setSolverParam = acceptedSolutionStatus = _nothing
    writeTask = dispose = breakSolver = setCallbackHandler = _nothing

    def getProblemStatus(self, *a):
        return self.rec.status

    def getPrimalSolutionStatus(self, *a):
        return real.SolutionStatus.Optimal

    getDualSolutionStatus = getPrimalSolutionStatus

    def primalObjValue(self):
        return self.rec.pobj

    def dualObjValue(self):
        return self.rec.dobj

    def getSolverIntInfo(self, *a):
        return 0

    # ------------------------------------------------------------- solution
    def values(self, expr):
        return self.rec.vec([self.eval(c) for c in expr.cells])

    def value_of(self, key):
        return self.rec.number("level", self.vars.index(key[0]), key[1:])

    def multiplier(self, con, q):
        """The multiplier of the q-th entry of a constraint."""
        if con.domain.kind == "psd":
            n = con.shape[0]
            q = (min(divmod(q, n)), max(divmod(q, n)))
        return self.rec.number("dual", self.cons.index(con), (q,))

    def eval(self, cell, point=None):
        t = 0
        for k, v in cell.items():
            if k is None:
                t = t + v
            else:
                t = t + v * (self.value_of(k) if point is None else point[k])
        return t

    def con_dual(self, con):
        return self.rec.vec([self.multiplier(con, q)
                             for q in range(len(con.expr.cells))])

    def var_dual(self, var):
        s = self.slacks(lambda con, q: self.multiplier(con, q))
        return self.rec.vec([next(iter(
            s.get(k, 0) / (1 if len(k) == 2 or k[1] == k[2] else 2)
            for k in c)) for c in var.cells])

    # -------------------------------------------------------------- reading
    def keys(self):
        return list(dict.fromkeys(k for v in self.vars for c in v.cells
                                  for k in c))

    def linear(self):
        """(cell, domain) of every scalar constraint."""
        return [(c, con.domain) for con in self.cons
                if con.domain.kind != "psd" for c in con.expr.cells]

    def cones(self):
        """Matrices of cells that must be positive semidefinite."""
        return [_grid(v) for v in self.vars if v.domain.kind == "psd"] + [
            _grid(c.expr) for c in self.cons if c.domain.kind == "psd"]

    def feasible(self, point, e):
        """Conditions for the point apart from semidefiniteness."""
        out = [_within(e, self.eval(c, point), d) for c, d in self.linear()]
        for v in self.vars:
            if v.domain.kind != "psd":
                out += [_within(e, point[k], v.domain)
                        for c in v.cells for k in c]
        return out

    def slacks(self, mult):
        """{key: c - A'y} for the multipliers mult(con, q)."""
        s = {}
        for k, v in self.obj.cells[0].items():
            if k is not None:
                s[k] = v
        for con in self.cons:
            for q, c in enumerate(con.expr.cells):
                for k, v in c.items():
                    if k is not None:
                        s[k] = s.get(k, 0) - mult(con, q) * v
        return s

    def dual_value(self, mult):
        """c0 - y'k + bounds, the value of the Lagrangian."""
        t = self.obj.cells[0].get(None, 0)
        for con in self.cons:
            for q, c in enumerate(con.expr.cells):
                t = t - mult(con, q) * (c.get(None, 0) - con.domain.value)
        return t

    def dual_feasible(self, mult, e):
        """Conditions apart from semidefiniteness, and the matrices that must
        be semidefinite (for a minimisation)."""
        mini = self.sense == real.ObjectiveSense.Minimize
        out, mats = [], []
        for con in self.cons:
            for q in range(len(con.expr.cells)):
                out.append(_sign(e, con.domain, mult(con, q), mini))
        s = self.slacks(mult)
        for v in self.vars:
            if v.domain.kind == "psd":
                n = v.shape[0]
                m = np.zeros((n, n), dtype=object)
                for i in range(n):
                    for j in range(i, n):
                        x = s.get((v, i, j), 0)
                        if i != j:
                            x = x / 2
                        m[i, j] = m[j, i] = x if mini else -x
                mats.append(m)
                continue
            for c in v.cells:
                for k in c:
                    out.append(_sign(e, v.domain, s.get(k, 0), mini))
        return out, mats


def _within(e, x, d):
    return {"lo": lambda: e.le(d.value, x), "up": lambda: e.le(x, d.value),
            "fx": lambda: e.eq(x, d.value), "fr": lambda: True}[d.kind]()


def _sign(e, d, s, mini):
    if d.kind == "fx":
        return True
    if d.kind == "fr":
        return e.eq(s, 0)
    return e.le(0, s) if (d.kind == "lo") == mini else e.le(s, 0)


class Fusion:
    """Use as a context: `from mosek.fusion import ...` gives the stand-in."""

    def __init__(self, e, vec, status=None, fixed=False):
        self.e, self.vec, self.fixed = e, vec, fixed
        self.models = []
        self.status = status or real.ProblemStatus.PrimalAndDualFeasible
        self.pobj, self.dobj = e.coef("primal_objective"), \
            e.coef("dual_objective")
        self.known = {}

    def number(self, *key):
        if key not in self.known:
            kind, i, idx = key
            if self.fixed:      # distinct numbers
                self.known[key] = 0.25 + 3 * len(self.known)
            else:
                self.known[key] = self.e.coef(
                    f"{kind}{i}_" + "_".join(map(str, idx)))
        return self.known[key]

    def __enter__(self):
        m = types.ModuleType("mosek.fusion")
        for k in dir(real):
            if not k.startswith("__"):
                setattr(m, k, getattr(real, k))
        cls = type("Model", (Model,), {"recorder": self})
        m.Model, m.Matrix, m.Expr, m.Domain = cls, Matrix, Sum, Domain
        m.Var = Sum
        top = types.ModuleType("mosek")
        for k in dir(realmosek):
            if not k.startswith("__"):
                setattr(top, k, getattr(realmosek, k))
        top.fusion = m
        self.p = mock.patch.dict(sys.modules, {"mosek": top,
                                               "mosek.fusion": m})
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__(*a)
        return False
