"""A stand-in for the MOSEK Optimizer API that records the task it is given.

The recorded task is the linear program
    sense c.y + cfix  subject to  blc <= A y <= buc,  blx <= y <= bux
with MOSEK's bound keys.  Its solution is made of free symbolic numbers."""
import mosek as real
import numpy as np

from .engine import And, Or, ite

UP, LO, FX, FR, RA = (int(getattr(real.boundkey, k))
                      for k in ("up", "lo", "fx", "fr", "ra"))


class Task:
    """What was handed to the solver."""

    def __init__(self, mod):
        self.mod = mod
        mod.tasks.append(self)
        self.sense = None
        self.optimized = 0
        self.ncon = self.nvar = 0
        self.iparam = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    # ---------------------------------------------------------------- input
    def putobjsense(self, s):
        self.sense = s

    def inputdata(self, ncon, nvar, c, cfix, ptrb, ptre, sub, val, bkc, blc,
                  buc, bkx, blx, bux):
        self.ncon, self.nvar = int(ncon), int(nvar)
        self.c = list(c)
        self.cfix = cfix
        self.cols = []
        for j in range(self.nvar):
            col = {}
            for p in range(int(ptrb[j]), int(ptre[j])):
                i = int(sub[p])
                assert i not in col, "entry given twice"
                assert 0 <= i < self.ncon, "row out of range"
                col[i] = val[p]
            self.cols.append(col)
        self.bkc, self.blc, self.buc = _ints(bkc), list(blc), list(buc)
        self.bkx, self.blx, self.bux = _ints(bkx), list(blx), list(bux)
        assert len(self.c) >= self.nvar
        for v in (self.bkc, self.blc, self.buc):
            assert len(v) >= self.ncon, "constraint bounds too short"
        for v in (self.bkx, self.blx, self.bux):
            assert len(v) >= self.nvar, "variable bounds too short"

    def putintparam(self, k, v):
        self.iparam[str(k)] = v

    def putdouparam(self, *a):
        pass

    putstrparam = putnaintparam = set_Stream = writedata = putdouparam
    solutionsummary = puttaskname = putdouparam

    # ------------------------------------------------------------- solution
    def optimize(self):
        self.optimized += 1
        return real.rescode.ok

    def getsolution(self, which):
        e = self.mod.e
        n = len(self.mod.tasks)
        num = e.coef if self.mod.symbolic_solution else \
            lambda name: 0.25 + (len(name) + int(name[-1])) / 8
        self.xx = [num(f"sol{n}_x{j}") for j in range(self.nvar)]
        self.yy = [num(f"sol{n}_y{i}") for i in range(self.ncon)]
        self.sta = self.mod.status
        z = lambda m: self.mod.vec([0.] * m)
        return (real.prosta.prim_and_dual_feas, self.sta, [], [], [],
                z(self.ncon), self.mod.vec(self.xx), self.mod.vec(self.yy),
                z(self.ncon), z(self.ncon), z(self.nvar), z(self.nvar),
                z(self.nvar))

    def getprimalobj(self, which):
        return self.mod.pobj

    def getdualobj(self, which):
        return self.mod.dobj

    def getsolsta(self, which):
        return self.mod.status

    # -------------------------------------------------------------- reading
    def row(self, i, y):
        t = 0
        for j, col in enumerate(self.cols):
            if i in col:
                t = t + col[i] * y[j]
        return t

    def feasible(self, y, e):
        c = [self._within(e, self.bkc[i], self.blc[i], self.buc[i],
                          self.row(i, y)) for i in range(self.ncon)]
        c += [self._within(e, self.bkx[j], self.blx[j], self.bux[j], y[j])
              for j in range(self.nvar)]
        return And(*c)

    @staticmethod
    def _within(e, k, lo, hi, v):
        if k == UP:
            return e.le(v, hi)
        if k == LO:
            return e.le(lo, v)
        if k == FX:
            return e.eq(v, lo)      # MOSEK uses the lower bound
        if k == RA:
            return And(e.le(lo, v), e.le(v, hi))
        return True

    def value(self, y):
        t = self.cfix
        for j in range(self.nvar):
            t = t + self.c[j] * y[j]
        return t

    def dual_feasible(self, z, e):
        """z, one number for each constraint, is feasible in the linear dual
        of this task."""
        mini = self.sense == real.objsense.minimize
        out = []
        for i in range(self.ncon):
            out.append(_sign(e, self.bkc[i], z[i], mini))
        for j in range(self.nvar):
            out.append(_sign(e, self.bkx[j], self.slack(j, z), mini))
        return And(*out)

    def slack(self, j, z):
        t = self.c[j]
        for i, v in self.cols[j].items():
            t = t - v * z[i]
        return t

    def dual_value(self, z):
        mini = self.sense == real.objsense.minimize
        t = self.cfix
        for i in range(self.ncon):
            t = t + _mult(self.bkc[i], self.blc[i], self.buc[i], z[i], mini)
        for j in range(self.nvar):
            t = t + _mult(self.bkx[j], self.blx[j], self.bux[j],
                          self.slack(j, z), mini)
        return t


def _sign(e, k, s, mini):
    """The multiplier s of a bound of kind k has the right sign."""
    if k in (FX, RA):
        return True
    if k == FR:
        return e.eq(s, 0)
    return e.le(0, s) if (k == LO) == mini else e.le(s, 0)


def _mult(k, lo, hi, s, mini):
    if k == FR:
        return 0
    if k in (LO, FX):
        return s * lo if not _zero(lo) else 0
    if k == UP:
        return s * hi if not _zero(hi) else 0
    return ite(s >= 0, s * lo, s * hi) if mini else ite(s <= 0, s * lo, s * hi)


def _zero(v):
    return isinstance(v, (int, float, np.number)) and v == 0


def _ints(v):
    return [int(x) for x in v]


class Mosek:
    """Stands in for the module `mosek`."""
    symbolic_solution = True

    def __init__(self, e, vec, status=real.solsta.optimal):
        self.e = e
        self.vec = vec
        self.tasks = []
        self.status = status
        self.pobj = e.coef("primal_objective")
        self.dobj = e.coef("dual_objective")
        outer = self

        class Env:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def Task(self, *a):
                return Task(outer)

            def checkoutlicense(self, *a):
                pass

            @staticmethod
            def getcodedesc(code):
                return ("MSK_RES_OK", "")
        self.Env = Env
        self.Task = lambda *a: Task(outer)

    def __getattr__(self, name):
        return getattr(real, name)
