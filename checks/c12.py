"""C12: the task given to the LP solver is the described one, or its dual."""
from unittest import mock
import numpy as np
import scipy.sparse as sp
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite, is_sym
from vlib.symnp import arr
from vlib import symsparse, symmosek
from vlib.env import mod
import inflation.utils as U
L = mod("lp.lp_utils")

EXPLANATION = (
    "solveLP and solveLP_sparse run with symbolic coefficients, right hand "
    "sides and bounds; scipy.sparse is replaced by the same operations on "
    "symbolic numbers and MOSEK by a recorder. For the recorded task and a "
    "symbolic point z3 is asked for values for which the point is feasible "
    "in one and not in the other program, or has another objective value "
    "(for the dual form: in the linear dual of the recorded task, built from "
    "MOSEK's definition).")
ASSUMPTIONS = [
    "MOSEK solves the task it is given; scipy.sparse does what it documents "
    "(the stand-in is compared with it on every run)",
    "when known values or inequalities are relaxed, no variable is "
    "non-negative by default (as the code states)"]
OUTSIDE = ("more variables, rows and bounds; rounding of floating point "
           "arithmetic; the log and the debug file of verbose runs")


def iff(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


def vec(e):
    return (lambda x: arr(list(x))) if e.symbolic else \
        (lambda x: np.array(x, dtype=float))


def coo(e, data, row, col, shape):
    if e.symbolic and any(is_sym(d) for d in data):
        return symsparse.Coo((list(data), (row, col)), shape=shape)
    if e.symbolic and not e.enum:
        return symsparse.Coo((np.array(data, dtype=float), (row, col)),
                             shape=shape)
    return sp.coo_array((np.array(data, dtype=float),
                         (np.array(row, dtype=int), np.array(col, dtype=int))),
                        shape=shape)


class Ctx:
    """The real functions with the solver replaced by a recorder."""

    def __init__(self, e, status=None, mods=()):
        self.e = e
        self.mods = [L, U, *mods]
        self.mosek = symmosek.Mosek(
            e, vec(e), status if status is not None
            else symmosek.real.solsta.optimal)

    def __enter__(self):
        self.stack = []
        e = self.e
        if e.symbolic and not e.enum:
            for m in self.mods:
                p = e.patch(m, **symsparse.names(m))
                from vlib.symnp import patched
                p = patched(m, proxy=symsparse.SpNp(), **symsparse.names(m))
                p.__enter__()
                self.stack.append(p)
        p = mock.patch.object(L, "mosek", self.mosek)
        p.__enter__()
        self.stack.append(p)
        return self.mosek

    def __exit__(self, *a):
        for p in reversed(self.stack):
            p.__exit__(*a)
        return False


# rows of the matrices: lists of columns with a symbolic coefficient
PATTERNS = [
    dict(ineq=[[0, 1], [2, 1, 0]], eq=[[1, 2]]),
    dict(ineq=[[1], [0, 2]], eq=[]),
    dict(ineq=[], eq=[[0, 1, 2], [2, 0]]),
    dict(ineq=[[], [1, 2]], eq=[[2], [], [0, 1]]),
    dict(ineq=None, eq=[[0, 1]]),
    dict(ineq=[[0, 2]], eq=None),
    dict(ineq=None, eq=None),
]
KNOWN = [[], [0], [2, 0]]
LB = [[], [1], [2, 0]]
UB = [[], [1], [0, 1]]
OBJ = [[1, 2], [], [2, 0, 1], None]


def covering(*lists, t=3):
    """Index tuples such that every combination of t of the lists' values is
    in one of them (greedy, deterministic)."""
    import itertools
    full = list(itertools.product(*[range(len(x)) for x in lists]))
    if t >= len(lists):
        return full
    groups = list(itertools.combinations(range(len(lists)), t))
    need = {}
    for g in groups:
        for v in itertools.product(*[range(len(lists[i])) for i in g]):
            need[g, v] = True
    out = []
    while need:
        g, v = next(iter(need))
        case = dict(zip(g, v))
        for i in range(len(lists)):
            if i in case:
                continue
            sub = [h for h in groups if i in h and all(
                k in case or k == i for k in h)]
            case[i] = max(range(len(lists[i])), key=lambda w: (sum(
                (h, tuple(w if k == i else case[k] for k in h)) in need
                for h in sub), -((w + len(out)) % len(lists[i]))))
        for h in groups:
            need.pop((h, tuple(case[k] for k in h)), None)
        out.append(tuple(case[i] for i in range(len(lists))))
    return out


def matrix(e, tag, rows, n):
    if rows is None:
        return None, []
    d, r, c, spec = [], [], [], []
    for i, cols in enumerate(rows):
        row = {}
        for k in cols:
            row[k] = e.coef(f"{tag}{i}_{k}")
            d.append(row[k])
            r.append(i)
            c.append(k)
        spec.append(row)
    # stored in another order than that of the rows
    d, r, c = d[::-1], r[::-1], c[::-1]
    return coo(e, d, r, c, (len(rows), n)), spec


def vector(e, tag, cols, n):
    if cols is None:
        return None, {}
    v = {k: e.coef(f"{tag}{k}") for k in cols}
    return coo(e, list(v.values()), [0] * len(v), list(v), (1, n)), v


def dot(row, x):
    t = 0
    for k, a in row.items():
        t = t + a * x[k]
    return t


def described(e, d, x, nonneg, rk, ri, lam):
    """Feasibility of x (and the slack lam) in the described program."""
    c = []
    for row in d["inequalities"]:
        if not row:
            continue            # says nothing, relaxed or not
        t = dot(row, x)
        c.append(e.le(0, t + lam if ri else t))
    for row in d["equalities"]:
        c.append(e.eq(dot(row, x), 0))
    for k, v in d["known_vars"].items():
        if rk:
            c += [e.le(v, x[k] + lam), e.le(x[k] - lam, v)]
        else:
            c.append(e.eq(x[k], v))
    for k, v in d["lower_bounds"].items():
        c.append(e.le(v, x[k]))
    for k, v in d["upper_bounds"].items():
        c.append(e.le(x[k], v))
    if nonneg and not (rk or ri):
        c += [e.le(0, x[k]) for k in range(len(x))
              if k not in d["lower_bounds"]]
    return And(*c)


def compare(e, task, d, n, dual, nonneg, rk, ri):
    relaxed = rk or ri
    x = [e.real(f"x{k}") for k in range(n)]
    lam = e.real("slack") if relaxed else 0
    want = described(e, d, x, nonneg, rk, ri, lam)
    obj = -lam if relaxed else dot(d["objective"], x)
    y = x + [lam] if relaxed else x
    maxi = symmosek.real.objsense.maximize
    if dual:
        e.check(task.ncon == len(y), "the dual has not one constraint for "
                "each variable")
        e.check(task.sense == symmosek.real.objsense.minimize,
                "the dual is not minimised")
        got = task.dual_feasible(y, e)
        val = task.dual_value(y)
    else:
        e.check(task.nvar == len(y), "the task has another number of "
                "variables")
        got = task.feasible(y, e)
        val = task.value(y)
        if task.sense != maxi:
            val = -val
    e.check(Implies(want, got), "a point of the described program is not "
            "feasible in the " + ("dual of the task" if dual else "task"))
    e.check(Implies(got, want), "a point that violates the described program "
            "is feasible in the " + ("dual of the task" if dual else "task"))
    e.check(Implies(want, e.eq(val, obj)), "the objective of the task is not "
            "the described one")
    e.witness("feasible", want)
    e.witness("infeasible", Not(want))


def certificate(e, task, d, n, dual, rk, res, variables):
    """Certificate entries against the multipliers of the recorded task."""
    mult = task.xx if dual else task.yy
    unit = []     # constraint -> (coefficients, right hand side)
    if dual:
        for j in range(task.nvar):
            unit.append((task.cols[j], task.c[j]))
    else:
        for i in range(task.ncon):
            unit.append(({j: c[i] for j, c in enumerate(task.cols)
                          if i in c}, task.blc[i]))
    cert = res["dual_certificate"]
    sc = res["sparse_certificate"].toarray().ravel()
    for k in range(n):
        got = cert.get(variables[k], 0)
        if k in d["known_vars"]:
            # rows that say x_k (+- slack) ... known value
            rows = {}
            for q, (cf, rhs) in enumerate(unit):
                if set(cf) - {k, n} or k not in cf or (not rk and n in cf):
                    continue
                if not (isinstance(cf[k], (int, float, np.number))
                        and cf[k] == 1):
                    continue
                if rk and n not in cf:
                    continue
                if not same(e, rhs, d["known_vars"][k]):
                    continue
                rows.setdefault(_sgn(cf.get(n, 0)), []).append(mult[q])
            e.check(len(rows) == (2 if rk else 1), "no constraint of the "
                    "task fixes a known value")
            opts = [0]
            for vs in rows.values():
                opts = [o + v for o in opts for v in vs]
            cs = d["objective"].get(k, 0)
            opts = opts + ([o - cs for o in opts] if is_sym(cs) or cs else [])
        else:
            opts = [-d["objective"].get(k, 0)]
        e.check(Or(*[e.eq(sc[k], o) for o in opts]), "the certificate has "
                "another coefficient than the multiplier of a known value "
                "(or the objective of an unknown variable)")
        small = And(e.le(-1e-7, sc[k]), e.le(sc[k], 1e-7))
        e.check(Or(e.eq(got, sc[k]), And(small, e.eq(got, 0))),
                "the two forms of the certificate differ")


def _sgn(v):
    return int(np.sign(float(v)))


def same(e, a, b):
    if e.symbolic and (is_sym(a) or is_sym(b)):
        from vlib.engine import z3, z3r
        return z3.is_true(z3.simplify(z3r(a) == z3r(b)))
    return abs(a - b) < 1e-12


def task(dual, rk, ri, form, t=2):
    lists = (PATTERNS, KNOWN, LB, UB, OBJ[:2] if rk or ri else OBJ,
             [True] if rk or ri else [True, False])
    combos = covering(*lists, t=t)

    def fn(e):
        n = 3
        pat, known, lb, ub, obj, nonneg = (
            x[i] for x, i in zip(lists, e.pick("case", combos)))
        args, d = {}, {}
        for k, (m, s) in dict(
                inequalities=matrix(e, "g", pat["ineq"], n),
                equalities=matrix(e, "h", pat["eq"], n),
                known_vars=vector(e, "kv", known, n),
                lower_bounds=vector(e, "lb", lb, n),
                upper_bounds=vector(e, "ub", ub, n),
                objective=vector(e, "c", obj, n)).items():
            d[k] = s
            if m is not None:
                args[k] = m
        if not pat["ineq"] and not pat["eq"] and not known:
            e.assume(False)          # a program without constraints
        variables = ["1", "a", "b"]
        status = e.pick("status", [symmosek.real.solsta.optimal] if known
                        else [symmosek.real.solsta.dual_infeas_cer])
        with Ctx(e, status) as M:
            res = (L.solveLP if form == "any" else L.solveLP_sparse)(
                **args, solve_dual=dual, default_non_negative=nonneg,
                relax_known_vars=rk, relax_inequalities=ri,
                variables=variables)
        e.check(len(M.tasks) == 1 and M.tasks[0].optimized == 1,
                "not exactly one task is solved")
        t = M.tasks[0]
        compare(e, t, d, n, dual, nonneg, rk, ri)
        certificate(e, t, d, n, dual, rk, res, variables)
        e.check(bool(res["success"]) == (status == symmosek.real.solsta.
                                         optimal),
                "success is reported wrongly")
        e.check(And(e.eq(res["primal_value"], M.dobj if dual else M.pobj),
                    e.eq(res["dual_value"], M.pobj if dual else M.dobj)),
                "the primal and dual objective values are mixed up")
        sol = t.yy if dual else t.xx
        e.check(And(*[e.eq(res["x"][v], sol[k])
                      for k, v in enumerate(variables)]),
                "the solution reported is not that of the solver")
    return fn


def obligations(tier):
    symsparse.self_test()
    big = tier == "thorough"
    obs = []
    for dual in (False, True):
        for rk, ri in ((0, 0), (1, 0), (0, 1), (1, 1)):
            name = "dual" if dual else "primal"
            name += " known values relaxed" * rk + " inequalities relaxed" * ri
            obs.append(Obligation(
                f"task {name}", "task",
                dict(dual=dual, rk=bool(rk), ri=bool(ri), form="sparse",
                     t=6 if big else 2),
                ["lp_utils.solveLP_sparse", "lp_utils.drop_zero_rows",
                 "lp_utils.canonical_order", "utils.vstack",
                 "utils.expand_sparse_vec"],
                "3 variables; up to 2 inequalities and 3 equalities with all "
                "coefficients, all values of known variables and bounds, "
                "all points; several supports",
                parallel=True, depth=3,
                fallback=dict(dual=dual, rk=bool(rk), ri=bool(ri),
                              form="sparse", t=1)))
    return obs
