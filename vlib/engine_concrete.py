"""Concrete twin of the engine: replays a solver model against the real code."""
import contextlib


class ReplayViolation(Exception):
    pass


class ReplayInvalid(Exception):
    """The recorded values do not satisfy the harness's assumptions."""


class ConcreteEngine:
    symbolic = False
    texts = None

    def texting(self, on=True, numpy=False):
        pass

    def __init__(self, values):
        self.values = values
        self.ran_checks = 0

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = int(self.values.get(name, lo))
        if not lo <= v <= hi:
            raise ReplayInvalid(name)
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def real(self, name, lo=None, hi=None):
        v = float(self.values.get(name, 0 if lo is None else lo))
        return v

    coef = real

    def table(self, name, array):
        import numpy as np
        a = np.asarray(array)
        return lambda *idx: (bool if a.dtype.kind == "b" else int)(
            a[tuple(int(i) for i in idx)])

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, cond):
        if not _t(cond):
            raise ReplayInvalid("assumption")

    def check(self, cond, what, detail=None):
        self.ran_checks += 1
        if not _t(cond):
            raise ReplayViolation(what)

    def witness(self, label, cond=True):
        pass

    def eq(self, a, b, tol=1e-6):
        return abs(a - b) <= tol * max(1., abs(a), abs(b))

    def le(self, a, b, tol=1e-6):
        return a <= b + tol * max(1., abs(a), abs(b))

    def arr(self, x, dtype=None):
        import numpy as np
        return np.array(x, dtype=dtype)

    def patch(self, *mods, **extra):
        return contextlib.nullcontext()


def _t(c):
    import numpy as np
    if isinstance(c, np.ndarray):
        return bool(c.all())
    return bool(c)
