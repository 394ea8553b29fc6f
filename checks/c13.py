"""C13: the model given to the SDP solver is the described one, or its dual."""
import numpy as np
import scipy.sparse as sp
from mosek.fusion import ProblemStatus, ObjectiveSense
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, is_sym, Float
from vlib.symnp import arr, patched
from vlib import symsparse, symfusion
from vlib.env import mod
from checks.c12 import covering, vec
S = mod("sdp.sdp_utils")

EXPLANATION = (
    "solveSDP_MosekFUSION runs with symbolic mask entries, coefficients and "
    "known values; scipy.sparse is replaced by the same operations on "
    "symbolic numbers and MOSEK Fusion by a recorder. For the recorded model "
    "z3 is asked for a point that is feasible in one and not in the other "
    "program, has another matrix that must be positive, or another objective "
    "value (for the dual form: in the conic dual of the recorded model). The "
    "certificate, evaluated at other known values, is compared with the dual "
    "objective of the model built for these values at the same solution.")
ASSUMPTIONS = [
    "MOSEK solves the model it is given and returns dual values with "
    "s = c - A'y; scipy.sparse and Fusion's expressions do what they document "
    "(the stand-ins are compared with them on every run)",
    "mask matrices are symmetric; linearised variables have no known value "
    "of their own, and factors that are not negative when variables are not",
    "that two programs have the same semidefinite cone is decided by the "
    "matrices being equal for all values of the variables"]
OUTSIDE = ("larger matrices, more variables and rows; rounding of floating "
           "point arithmetic; the text printed by verbose runs; maximising "
           "the smallest eigenvalue without a matrix or with variables "
           "non-negative by default")

# masks: upper positions of the symmetric matrix (2x2 unless a 3 is used)
MASKS = [
    {"1": [(0, 0)], "x": [(0, 1)], "y": [(1, 1)]},
    {"x": [(0, 0), (0, 1)], "y": [(1, 1), (0, 1)], "z": [(1, 1)]},
    {"1": [(0, 0), (1, 1)], "y": [(0, 1)]},
    {},
    {"1": [(0, 0), (2, 2)], "x": [(1, 2)], "z": [(0, 1), (1, 1)]},
]
KNOWN = [["1"], ["1", "z"], [], ["x", "1"]]
SEMI = [{}, {"y": "x"}, {"y": "w"}, {"w": "x", "y": "z"}]
INEQ = [[["1", "x"], ["y", "z"]], [], [["y", "1", "x"]], None]
EQ = [[], [["x", "y", "z"], ["1", "y"]], [["z", "1"]], None]
OBJ = [{"y": 0, "1": 0}, {"x": 0, "z": 0}, {}, None, {"w": 0, "x": 0}]
LISTS = (MASKS, KNOWN, SEMI, INEQ, EQ, OBJ)


class Ctx:
    def __init__(self, e, zero, status=None, numbers=None):
        self.e, self.zero = e, zero
        self.fusion = symfusion.Fusion(e, vec(e), status, fixed=not zero)
        if numbers is not None:
            self.fusion.known = numbers

    def __enter__(self):
        e = self.e
        self.stack = [self.fusion]
        if e.symbolic and not e.enum:
            proxy = symsparse.SpNp()
            if not self.zero:
                proxy.isclose = lambda a, b, **k: False if is_sym(a) \
                    else np.isclose(a, b, **k)
            self.stack.append(patched(S, proxy=proxy, float=Float,
                                      **symsparse.names(S)))
        for s in self.stack:
            s.__enter__()
        return self.fusion

    def __exit__(self, *a):
        for s in reversed(self.stack):
            s.__exit__(*a)
        return False


def coo(e, cells, n):
    """A symmetric sparse matrix from its upper part."""
    full = {}
    for (i, j), v in cells.items():
        full[i, j] = full[j, i] = v
    r = [k[0] for k in full]
    c = [k[1] for k in full]
    d = list(full.values())
    if e.symbolic and not e.enum:
        return symsparse.Coo((d if any(map(is_sym, d)) else
                              np.array(d, dtype=float), (r, c)),
                             shape=(n, n)).tolil()
    return sp.coo_array((np.array(d, dtype=float), (r, c)),
                        shape=(n, n)).tolil()


def nonzero(e, name):
    v = e.coef(name)
    e.assume(Not(e.eq(v, 0, tol=0)))
    return v


def build(e, case, concrete):
    """Arguments for the solver and the same data as numbers."""
    mk, known, semi, ineq, eq, obj = (x[i] for x, i in zip(LISTS, case))
    count = iter(range(2, 1000))

    def num(name):
        return float(next(count)) if concrete else e.coef(name)
    semi = {x: t for x, t in semi.items() if x not in known}
    n = 1 + max([j for p in mk.values() for _, j in p], default=-1)
    d = dict(n=n, masks={x: {p: float(next(count)) if concrete else
                             nonzero(e, f"f{x}{p[0]}{p[1]}") for p in ps}
                         for x, ps in mk.items()})
    d["known"] = {x: e.coef(f"v{x}") for x in known}
    d["semi"] = {x: (num(f"k{x}"), t) for x, t in semi.items()}
    for key, rows in (("ineq", ineq), ("eq", eq)):
        d[key] = [{x: num(f"{key}{i}{x}") for x in row}
                  for i, row in enumerate(rows or [])]
    d["obj"] = {x: num(f"o{x}") for x in obj or {}}

    def args(known):
        a = dict(mask_matrices={x: coo(e, c, n)
                                for x, c in d["masks"].items()},
                 known_vars=dict(known))
        if semi:
            a["semiknown_vars"] = dict(d["semi"])
        if ineq is not None:
            a["inequalities"] = [dict(r) for r in d["ineq"]]
        if eq is not None:
            a["equalities"] = [dict(r) for r in d["eq"]]
        if obj is not None:
            a["objective"] = dict(d["obj"])
        if not a["mask_matrices"]:
            del a["mask_matrices"]
        return a
    return d, args


def unknowns(d):
    """Variables without a known value, linearised ones left out."""
    out = set(d["masks"]) | set(d["obj"])
    for r in d["ineq"] + d["eq"]:
        out |= set(r)
    out |= {t for _, t in d["semi"].values()}
    return sorted(out - set(d["known"]) - set(d["semi"]))


def assignment(e, d, free):
    x = dict(d["known"])
    x.update(free)
    for y, (c, t) in d["semi"].items():
        x[y] = c * x[t]
    return x


def total(row, x):
    t = 0
    for k, a in row.items():
        t = t + a * x[k]
    return t


def matrix(d, x, lam):
    n = d["n"]
    m = np.zeros((n, n), dtype=object)
    for v, cells in d["masks"].items():
        for (i, j), a in cells.items():
            m[i, j] = m[i, j] + a * x[v]
            if i != j:
                m[j, i] = m[j, i] + a * x[v]
    for i in range(n):
        m[i, i] = m[i, i] - lam
    return m


def described(e, d, x, free, nonneg):
    out = [e.le(0, total(r, x)) for r in d["ineq"] if r]
    out += [e.eq(total(r, x), 0) for r in d["eq"] if r]
    if nonneg:
        out += [e.le(0, x[v]) for v in free]
    return out


def entails(e, hyp, goals, what):
    hyp = And(*hyp)
    for g in goals:
        e.check(Implies(hyp, g), what)


def same(e, a, b):
    if e.symbolic and (is_sym(a) or is_sym(b)):
        from vlib.engine import z3, z3r
        return z3.is_true(z3.simplify(z3r(a) == z3r(b)))
    return abs(a - b) < 1e-9


def named(e, model, res, dual, free, extra):
    """{variable name: its key (primal) or its constraint entry (dual)}."""
    got = dict(res["x"])
    lam = [v for v in got if v not in extra]
    slots = {}
    if dual:
        for con in model.cons:
            for q in range(len(con.expr.cells)):
                slots[con, q] = -model.multiplier(con, q)
    else:
        for v in model.vars:
            if v.domain.kind != "psd":
                for c in v.cells:
                    for k in c:
                        slots[k] = model.value_of(k)
    out = {}
    for v, val in got.items():
        hit = [k for k, s in slots.items() if same(e, s, val)]
        e.check(len(hit) == 1, "the value reported for a variable is not "
                "that of one of the solver's")
        out[v] = hit[0]
    e.check(len(set(out.values())) == len(out), "two variables have the same "
            "value reported")
    return out, lam


def run(e, d, args, dual, nonneg, feas, substitute, zero, status=None,
        numbers=None):
    with Ctx(e, zero, status, numbers) as M:
        a = dict(args)
        before = {k: str(a[k]) if not e.symbolic else None for k in a}
        res = S.solveSDP_MosekFUSION(
            **a, solve_dual=dual, default_non_negative=nonneg,
            feas_as_optim=feas, process_constraints=substitute)
        for k in a:
            if before[k] is not None:
                e.check(str(a[k]) == before[k], "an argument is modified")
    e.check(len(M.models) == 1 and M.models[0].solved == 1,
            "not exactly one model is solved: " + str(res.get("error")))
    return M, M.models[0], res


def skip(d, case, feas):
    """Programs that say nothing, or outside the described ones."""
    if feas and not d["masks"]:
        return True
    return not (unknowns(d) and (d["masks"] or d["ineq"] or d["eq"]))


def model(dual, feas, substitute, t=2, sizes=None):
    combos = covering(*LISTS, [False] if feas else [False, True], t=t)

    def fn(e):
        *case, nn = e.pick("case", combos)
        nonneg = bool(nn)
        d, args = build(e, case, False)
        if feas:
            d["obj"] = {}
        if skip(d, case, feas):
            e.assume(False)
        if nonneg:
            for c, _ in d["semi"].values():
                e.assume(e.le(0, c))
        M, m, res = run(e, d, args(d["known"]), dual, nonneg, feas,
                        substitute, False)
        e.check(res["status"] == "feasible", "the status is not reported")
        free = unknowns(d)
        if not substitute:
            free = sorted(set(free) | set(d["semi"]))
        where, lam = named(e, m, res, dual, free, free + sorted(d["semi"]))
        e.check(len(lam) == int(feas), "a variable is not a described one")
        lam = lam[0] if lam else None
        x = {v: e.real(f"x{v}") for v in free}
        slack = e.real("smallest_eigenvalue") if feas else 0
        pt = dict(x)
        if feas:
            pt[lam] = slack
        for v in where:
            e.check(v in pt, "a variable is not a described one")
        full = dict(d["known"])
        full.update(x)
        if substitute:
            full = assignment(e, d, x)
        want = described(e, d, full, free, nonneg)
        if not substitute:
            want += [e.eq(full[y], c * full[t])
                     for y, (c, t) in d["semi"].items()]
        mat = matrix(d, full, slack)
        obj = slack if feas else total(d["obj"], full)
        if dual:
            e.check(m.sense == ObjectiveSense.Minimize,
                    "the dual is not minimised")
            at = {w: v for v, w in where.items()}

            def mult(con, q):
                e.check((con, q) in at, "a constraint of the dual belongs to "
                        "no variable")
                return -pt[at[con, q]]
            got, mats = m.dual_feasible(mult, e)
            val = m.dual_value(mult)
            which = "dual of the model"
        else:
            e.check(m.sense == ObjectiveSense.Maximize,
                    "the objective is not maximised")
            point = {w: pt[v] for v, w in where.items()}
            mats = m.cones()
            for k in m.keys():
                if k not in point:
                    e.check(len(k) == 3, "a variable of the model belongs to "
                            "no described one")
                    # an entry of the matrix variable
                    point[k] = e.real(f"m{k[1]}{k[2]}")
            got = m.feasible(point, e)
            val = m.eval(m.obj.cells[0], point)
            mats = [np.array([[m.eval(c, point) for c in r] for r in g],
                             dtype=object).reshape(g.shape) for g in mats]
            which = "model"
        e.check(len(mats) == int(bool(d["n"])), "not exactly one matrix has "
                "to be positive")
        idx = [(i, j) for i in range(d["n"]) for j in range(d["n"])]
        equal = []
        if mats:
            e.check(mats[0].shape == mat.shape, "the matrix has another size")
            equal = [e.eq(mats[0][p], mat[p]) for p in idx]
        bad = ("a point of the described program is not feasible in the ",
               "a point that violates the described program is feasible in "
               "the ", "the matrix that has to be positive is not the "
               "described one")
        if dual:
            entails(e, [], equal, bad[2])
            entails(e, want, got, bad[0] + which)
        else:
            entails(e, got, equal, bad[2])
            entails(e, want + equal, got, bad[0] + which)
        entails(e, got, want, bad[1] + which)
        entails(e, want + equal, [e.eq(val, obj)],
                "the objective of the model is not the described one")
        e.witness("feasible", And(*want))
        p, q = res["primal_value"], res["dual_value"]
        e.check(And(e.eq(p, M.pobj), e.eq(q, M.dobj)),
                "the objective values are not those of the solver")
    return fn


def certificate(dual, feas, t=2):
    combos = covering(*LISTS, [True, False], [0, 1], t=t)

    def fn(e):
        *case, sub, st = e.pick("case", combos)
        substitute = not sub
        status = [ProblemStatus.PrimalAndDualFeasible,
                  ProblemStatus.DualInfeasible if dual
                  else ProblemStatus.PrimalInfeasible][st]
        d, args = build(e, case, True)
        if feas:
            d["obj"] = {}
        if skip(d, case, feas) or not d["known"]:
            e.assume(False)
        M, m, res = run(e, d, args(d["known"]), dual, False, feas,
                        substitute, True, status)
        e.check(res["status"] == ("infeasible" if st else "feasible"),
                "the status is not reported")
        other = {x: e.coef(f"u{x}") for x in d["known"]}
        _, m2, res2 = run(e, d, args(other), dual, False, feas, substitute,
                          True, status, numbers=M.known)
        cert = res["dual_certificate"]
        e.check(set(cert) <= set(d["known"]), "the certificate has a variable "
                "without a known value")
        got = 0
        for x, c in cert.items():
            got = got + c * other[x]
        # the bound that the solution gives for the other values
        if dual:
            val = m2.eval(m2.obj.cells[0])
        else:
            val = m2.dual_value(m2.multiplier)
        gap, slack = got - val, 0
        for x in other:
            if x not in cert:       # the coefficient is below the tolerance
                slack = slack + 2e-8 * abs(other[x])
        e.check(And(e.le(gap, slack), e.le(-slack, gap)), "the certificate "
                "is not the bound of the objective as a function of the "
                "known values")
        e.witness("certified", other[next(iter(other))] >= 1)
        # the matrices reported
        if not d["masks"]:
            return
        vals = dict(d["known"])
        vals.update(res["x"])
        lam = [v for v in res["x"] if v not in unknowns(d)
               and v not in d["semi"]]
        if dual:
            for y, (c, t_) in d["semi"].items():
                if substitute:
                    vals[y] = c * vals[t_]
            want = matrix(d, vals, vals[lam[0]] if lam else 0)
            F = res["F"]
            F = F.toarray() if hasattr(F, "toarray") else F
            e.check(And(*[e.eq(F[i, j], want[i, j]) for i in range(d["n"])
                          for j in range(d["n"])]), "the matrix reported is "
                    "not that of the values reported")
    return fn


FUNCTIONS = ["sdp_utils.solveSDP_MosekFUSION", "sdp_utils.triu_indices"]


def self_test():
    """The recorder against the tasks that Fusion writes."""
    import os
    import tempfile
    import mosek
    import mosek.fusion as mf
    from unittest import mock
    from vlib.engine_concrete import ConcreteEngine
    rng = np.random.default_rng(3)
    for k, case in enumerate([(0, 1, 0, 0, 1, 1), (4, 0, 1, 0, 2, 0)]):
        for dual in (True, False):
            e = ConcreteEngine({})
            e.coef = lambda *a, **k: float(rng.integers(1, 9)) / 4
            d, args = build(e, case, False)
            a = args(d["known"])
            rec = symfusion.Fusion(e, np.array, fixed=True)
            with rec:
                S.solveSDP_MosekFUSION(**a, solve_dual=dual)
            m = rec.models[0]
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "m.task")

                def stop(self):
                    self.writeTask(f)
                    raise mf.OptimizeError("stop")
                with mock.patch.object(mf.Model, "solve", stop), \
                        mock.patch("builtins.print"):
                    S.solveSDP_MosekFUSION(**args(d["known"]),
                                           solve_dual=dual)
                env = mosek.Env()
                t = env.Task()
                t.readdata(f)
                _compare(t, m, rng, mosek, mf)


def _compare(t, m, rng, mosek, mf):
    point, byname = {}, {}
    psd = [v for v in m.vars if v.domain.kind == "psd"]
    assert t.getnumbarvar() == len(psd)
    for v in m.vars:
        for i, c in enumerate(v.cells):
            for key in c:
                point.setdefault(key, float(rng.integers(-9, 9)))
                if v.domain.kind != "psd":
                    byname[f"{v.name}[{i}]"] = point[key]
                    byname[f"{v.name}[]"] = point[key]
    xs = []
    for j in range(t.getnumvar()):
        nm = t.getvarname(j)
        xs.append(1.0 if nm == "1.0" else byname[nm])
        if nm != "1.0":
            v = [w for w in m.vars if nm.startswith(w.name + "[")][0]
            bk = t.getvarbound(j)[0]
            assert {"lo": mosek.boundkey.lo, "up": mosek.boundkey.up,
                    "fr": mosek.boundkey.fr}[v.domain.kind] == bk
    bars = []
    for v in psd:
        n = v.shape[0]
        assert t.getdimbarvarj(len(bars)) == n
        bars.append(np.array([[point[v, min(i, j), max(i, j)]
                               for j in range(n)] for i in range(n)]))

    def sym(idx, w):
        s, tot = w, 0.
        for q, wt in zip(idx, s):
            i, j, v = t.getsparsesymmat(q)
            yield q, wt, i, j, v

    rows = np.zeros(t.getnumcon())
    for i in range(t.getnumcon()):
        sub, val = t.getarow(i)[-2:]
        rows[i] = sum(v * xs[j] for j, v in zip(sub, val))
    obj = t.getcfix() + sum(t.getcj(j) * xs[j] for j in range(t.getnumvar()))
    if bars:
        ri, rj, rk, rl, rv = t.getbarablocktriplet()[-5:]
        for i, b, p, q, v in zip(ri, rj, rk, rl, rv):
            rows[i] += v * bars[b][p, q] * (1 if p == q else 2)
        cj, ck, cl, cv = t.getbarcblocktriplet()[-4:]
        for b, p, q, v in zip(cj, ck, cl, cv):
            obj += v * bars[b][p, q] * (1 if p == q else 2)
    lin = m.linear()
    assert len(lin) == t.getnumcon(), (len(lin), t.getnumcon())
    assert abs(obj - m.eval(m.obj.cells[0], point)) < 1e-9
    assert (t.getobjsense() == mosek.objsense.minimize) == (
        m.sense == mf.ObjectiveSense.Minimize)
    want = []
    for i, (c, dm) in enumerate(lin):
        bk, lo, up = t.getconbound(i)
        v = m.eval(c, point)
        assert {"lo": mosek.boundkey.lo, "up": mosek.boundkey.up,
                "fx": mosek.boundkey.fx}[dm.kind] == bk
        ref = up if dm.kind == "up" else lo
        assert abs((v - dm.value) - (rows[i] - ref)) < 1e-9, (v, rows[i])


def obligations(tier):
    symsparse.self_test()
    self_test()
    big = tier == "thorough"
    obs = []
    for dual in (True, False):
        form = "dual form" if dual else "primal form"
        for feas in (False, True):
            for sub in (True, False):
                name = f"model {form}" + " smallest eigenvalue" * feas \
                    + ("" if sub else " linearisation as equalities")
                par = dict(dual=dual, feas=feas, substitute=sub)
                obs.append(Obligation(
                    name, "model", dict(**par, t=5 if big else 3), FUNCTIONS,
                    "matrices up to 3x3 and 4 variables with symbolic "
                    "entries, up to 2 inequalities and 2 equalities with all "
                    "coefficients, all known values, all points",
                    parallel=True, depth=3, fallback=dict(**par, t=1)))
            par = dict(dual=dual, feas=feas)
            obs.append(Obligation(
                f"certificate {form}" + " smallest eigenvalue" * feas,
                "certificate", dict(**par, t=4 if big else 2), FUNCTIONS,
                "all known values, all other values it is evaluated at, all "
                "solutions of the solver; fixed coefficients",
                parallel=True, depth=3, fallback=dict(**par, t=1)))
    return obs
