"""C18: the critical parameter lies at the feasibility threshold."""
import builtins
import contextlib
import io
import warnings
from unittest import mock
import numpy as np
import sympy
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, SymReal, is_sym
from vlib.symnp import arr
from vlib import prog, texts
from vlib.env import mod
from checks.c11 import ctx, cases
import inflation.utils as U
OU = mod("optimization_utils")
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
SDP = mod("sdp.InflationSDP")
MU = mod("sdp.monomial_utils")
PR = mod("InflationProblem")

EXPLANATION = (
    "max_within_feasible runs with a solver whose answers are symbolic: the "
    "threshold and the objective values (bisection) or the certificates and "
    "their roots (dual method) are z3 variables constrained only by having "
    "one threshold. z3 is asked for answers after which the parameter "
    "returned is not at the threshold. Real programs record the values set "
    "for every parameter tried.")
ASSUMPTIONS = [
    "scipy's bisect halves the interval until its half is below xtol + rtol "
    "times the point (a copy in Python is run)",
    "scipy's minimize returns the largest parameter where the certificate is "
    "non-negative; values are affine in the parameter",
    "objective values are non-negative when feasible and below -precision/512 "
    "when not (the code's own tolerance is precision/2048)",
    "the first certificate of the dual method excludes more than twice the "
    "precision (otherwise it refuses to answer)"]
OUTSIDE = ("more tries than stated; values that are not affine in the "
           "parameter in the dual method; the solver itself (see C12, C13)")

V = sympy.Symbol("v")


def bisect(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16,
           maxiter=100, full_output=False, disp=True):
    """scipy.optimize.bisect."""
    fa, fb = f(a, *args), f(b, *args)
    if fa == 0:
        return a
    if fb == 0:
        return b
    neg = fa < 0
    if bool(neg) == bool(fb < 0):
        raise ValueError("f(a) and f(b) must have different signs")
    dm = b - a
    for _ in range(maxiter):
        dm = dm * 0.5
        xm = a + dm
        fm = f(xm, *args)
        if bool(fm < 0) == bool(neg):
            a = xm
        if fm == 0 or abs(dm) < xtol + rtol * abs(xm):
            return xm
    raise RuntimeError("no convergence")


def number(e, expr, v):
    """The value of an expression of V, for a value that may be symbolic."""
    expr = sympy.sympify(expr)
    if expr == V:
        return v
    if isinstance(expr, sympy.Symbol):
        return texts.number(e, expr.name)
    if expr.is_number:
        return float(expr)
    vals = [number(e, a, v) for a in expr.args]
    out = vals[0]
    if expr.is_Add:
        for x in vals[1:]:
            out = out + x
    elif expr.is_Mul:
        for x in vals[1:]:
            out = out * x
    elif expr.is_Pow and vals[1] == int(vals[1]) and vals[1] >= 0:
        out = 1.
        for _ in range(int(vals[1])):
            out = out * vals[0]
    else:
        raise NotImplementedError(expr)
    return out


BOUNDS = [None, (0.25, 0.75), (-0.25, 1.25)]


def family(p, which):
    """Values that depend on V, and which of them are given."""
    atoms = [m for m in p.monomials if m.is_knowable and not m.is_zero
             and not m.is_one and m.n_factors == 1]
    one = atoms[:4]
    forms = [V / 2 + sympy.Rational(1, 4), 0.5, 1 - V / 3, sympy.Float(0.25),
             V / 8 + sympy.Rational(1, 3)]
    vals = {}
    if which == "all":
        for j, m in enumerate(atoms):
            vals[m] = forms[j % len(forms)]
        vals = {p.One: 1., **vals}
    elif which == "some":
        for j, m in enumerate(one):
            vals[m] = forms[j % len(forms)]
    elif which == "curved":
        vals = {m: f for m, f in zip(one, [V ** 2, 1 - V * (1 - V), 0.5])}
    elif which == "single":
        vals = {one[0]: forms[0]}
    return vals


def same_options(e, got, given, precision):
    e.check(got[0] == dict(use_lpi_constraints=given.get(
        "use_lpi_constraints", False), only_specified_values=given.get(
        "only_specified_values", False)), "the options of the values are "
        "not those asked for")
    want = dict(feas_as_optim=True, solve_dual=given.get("solve_dual", True),
                solverparameters=given.get("solverparameters", None))
    e.check(got[1] == want, "the options of the solver are not those asked "
            "for")


def near(e, a, b):
    """Equal up to the precision of floating point numbers."""
    return And(e.le(a - b, 1e-9), e.le(b - a, 1e-9))


OPTIONS = [{}, dict(use_lpi_constraints=True, only_specified_values=True,
                    solve_dual=False, solverparameters={"a": 1}, verbose=1)]


def run_bisection(kind, name, opts, t, precisions, part=(0, 1)):
    opts = dict(opts)
    combos = cases([BOUNDS, precisions, ["all", "some", "curved", "single"],
                    [False, True], [0, 1], [None, 0.1]], t)

    def fn(e):
        bounds, precision, which, last, opt, short = e.pick("case", combos)
        lo, hi = bounds or (0., 1.)
        prec = precision or 1e-4
        extra = OPTIONS[opt]
        p = prog.fresh(kind, name, **opts)
        t = e.real("threshold", lo + part[0] * (hi - lo),
                   lo + part[1] * (hi - lo))
        e.assume(t < hi)
        vals = family(p, which)
        copy = dict(vals)
        tried, log = [], []
        objective = {}
        state = {}

        def set_values(values, **k):
            state["values"] = dict(values)
            state["options"] = k
            # the parameter these values are those of
            e.check(set(values) == set(copy), "other moments are set")
            state["v"] = None

        def solve(**k):
            same_options(e, (state["options"], k), extra, prec)
            # the parameter that the values are those of
            m, x = next((m, x) for m, x in copy.items()
                        if not isinstance(x, float) and x.has(V))
            state["solved"] = state["values"]
            n = len(tried)
            tried.append(state["values"])
            # found by the caller: see below
            obj = e.real(f"objective{n}", -50, 50)
            p.objective_value = obj
            log.append(obj)

        cert = {}

        def certificate():
            return {"tag": len(tried) - 1} if cert.get("on", True) else {}
        # the parameter is what make_numerical gets
        real = U.make_numerical
        params = []

        def make(expr, point):
            e.check(list(point) == [V], "another variable is replaced")
            params.append(float(point[V]))
            return real(expr, point)
        p.set_values = set_values
        p.solve = lambda **k: (solve(**k), consistent())[0]
        p.certificate_as_dict = certificate

        def consistent():
            v, obj = params[-1], log[-1]
            e.assume(And(Implies(v <= t, obj >= 0),
                         Implies(Not(v <= t), obj <= -prec / 512)))
            # real values of the parameter
            for m, x in copy.items():
                want = number(e, x, v)
                e.check(abs(tried[-1][m] - want) < 1e-9 and
                        isinstance(tried[-1][m], float), "a value set is not "
                        "that of the parameter")
        kw = dict(extra)
        if bounds:
            kw["bounds"] = np.array(bounds)
        if precision:
            kw["precision"] = precision
        if short:
            kw["xtol"] = short
        with warnings.catch_warnings(), mock.patch.object(
                OU, "make_numerical", make), mock.patch.object(
                OU, "bisect", bisect), contextlib.redirect_stdout(
                io.StringIO()):
            warnings.simplefilter("ignore")
            if e.symbolic and not e.enum:
                e.texting(True)
            out = OU.max_within_feasible(p, vals, "bisection", last, **kw)
            e.texting(False)
        for name_ in ("set_values", "solve", "certificate_as_dict"):
            vars(p).pop(name_)
        c = out
        if last:
            e.check(isinstance(out, tuple) and len(out) == 2,
                    "the certificate is not returned")
            c = out[0]
        tol = max(short or prec, 1e-9) * (1 + 1e-6)
        e.check(And(e.le(c - t, tol), e.le(t - c, tol)), "the parameter "
                "returned is not within the precision of the threshold")
        e.check(lo <= c <= hi, "the parameter returned is out of bounds")
        e.check(all(lo <= v <= hi for v in params), "values are tried "
                "outside the bounds")
        if last:
            v = params[out[1]["tag"]]
            e.check(abs(v - c) <= tol, "the certificate returned is not of "
                    "the critical parameter")
        e.check(vals == copy, "the values passed are modified")
        e.witness("found", And(t > lo + 0.3 * (hi - lo),
                               t < lo + 0.75 * (hi - lo)))
    return fn


def refuse(kind, name, opts):
    """Problems without a threshold in the bounds are not given one."""
    opts = dict(opts)

    def fn(e):
        method = e.pick("method", ["bisection", "dual"])
        what = e.pick("problem", ["all feasible", "all infeasible",
                                  "no variable", "two variables",
                                  "unknown method"])
        p = prog.fresh(kind, name, **opts)
        vals = family(p, "some")
        if what == "no variable":
            vals = {m: 0.5 for m in vals}
        if what == "two variables":
            vals[list(vals)[0]] = V * sympy.Symbol("w")
        if method == "dual" and what in ("all infeasible", "all feasible"):
            e.assume(False)
        n = [0]

        def solve(**k):
            n[0] += 1
            p.objective_value = e.real(f"objective{n[0]}", -50, 50)
            if what == "all feasible":
                e.assume(p.objective_value >= 0)
            else:
                e.assume(p.objective_value <= -1e-4 / 512)
        p.set_values = lambda *a, **k: None
        p.solve = solve
        p.certificate_as_dict = lambda: {"1": 1.}
        ok = False
        if e.symbolic and not e.enum:
            e.texting(True)
        with mock.patch.object(OU, "bisect", bisect):
            try:
                OU.max_within_feasible(
                    p, vals, "other" if what == "unknown method" else method)
            except (AssertionError, ValueError):
                ok = True
        e.texting(False)
        for k in ("set_values", "solve", "certificate_as_dict"):
            vars(p).pop(k)
        e.check(ok, "a parameter is returned")
        e.witness("refused")
    return fn


def run_dual(kind, name, opts, t, most):
    """The dual method, on real programs with a stand-in for the solver."""
    opts = dict(opts)
    combos = cases([BOUNDS, [None, 0.02], ["all", "some", "single"],
                    [False, True], [0, 1], [0.4, 3.]], t)

    def fn(e):
        bounds, precision, which, last, opt, scale = e.pick("case", combos)
        lo, hi = bounds or (0., 1.)
        prec = precision or 1e-4
        extra = dict(OPTIONS[opt])
        extra.pop("use_lpi_constraints", 0)
        p = prog.fresh(kind, name, **opts)
        t = e.real("threshold", lo, hi)
        vals = family(p, which)
        copy = dict(vals)
        state = dict(params=[], roots=[])
        known = {}

        def solve(**k):
            same_options(e, (state["options"], k), extra, prec)
            n = len(state["params"])
            if n == most:
                e.assume(False)
            # the parameter the values are those of
            v = hi if n == 0 else state["roots"][-1] + prec
            for m, x in copy.items():
                e.check(near(e, p.known_moments[m], number(e, x, v)),
                        f"the value of {m} is not that of the parameter")
            state["params"].append(v)
            r = e.real(f"root{n}", lo, hi)
            e.assume(And(t <= r, r < v))
            if n == 0:
                e.assume(r < hi - 2.5 * prec)
            state["roots"].append(r)
            # a certificate scale * (r - v) in the moments known
            names = {m.name: m for m in p.known_moments if not m.is_zero}
            one = [nm for nm, m in names.items() if m.is_one][0]
            cert = {}
            slope, const = 0., 0.
            for j, (nm, m) in enumerate(names.items()):
                x = value(p, m)
                if x is None or m.is_one:
                    continue
                if sympy.expand(sympy.diff(x, V, 2)) != 0:
                    continue            # not affine
                b = float(sympy.diff(x, V))
                a = float(x.subs(V, 0)) if hasattr(x, "subs") else float(x)
                c = [0.5, -0.25, 0.75][j % 3]
                cert[nm] = c
                slope += b * c
                const += a * c
            # the steepest moment corrects the slope
            nm = next(nm for nm, m in names.items() if nm in cert and
                      float(sympy.diff(value(p, m), V)) != 0)
            x = value(p, names[nm])
            b = float(sympy.diff(x, V))
            a = float(sympy.sympify(x).subs(V, 0))
            d = (-scale - slope) / b
            cert[nm] += d
            const += d * a
            cert[one] = r * scale - const
            p.solution_object = {"dual_certificate": cert,
                                 "status": "feasible"}
            p.objective_value = scale * (r - v)

        def value(p, m):
            """The expression of a known moment."""
            by = {k.name: x for k, x in copy.items()}
            if m.name in by:
                return sympy.sympify(by[m.name])
            out = sympy.S.One
            for f in m.factors:
                if f.name not in by:
                    return None
                out = out * by[f.name]
            return sympy.expand(out)

        real_set = p.set_values

        def set_values(values, **k):
            state["options"] = k
            return real_set(values, **k)

        def minimize(fun, x0, method=None, bounds=None, constraints=(),
                     options=None):
            lb, ub = (float(np.ravel(x)[0]) for x in (bounds.lb, bounds.ub))
            e.check((lb, ub) == (lo, hi), "other bounds are used")
            e.check(constraints["type"] == "ineq", "another constraint")
            g = constraints["fun"]
            g0, g1 = g(lb), g(ub)
            # the objective is to be minimised
            up = fun(ub) < fun(lb)
            e.check(up, "the parameter is not maximised")
            if e.symbolic:
                # affine, decreasing: the root
                span = g0 - g1
                import z3
                s = z3.simplify(span.e) if is_sym(span) else span
                s = float(s.as_fraction()) if is_sym(span) else s
                x = lb + (ub - lb) * (g0 / s)
            else:
                x = ub if g1 >= g0 else lb + (ub - lb) * g0 / (g0 - g1)
                x = min(max(x, lb), ub)
            return {"x": np.array([x], dtype=object)}

        def lambdify(args, expr, modules=None, cse=False):
            return lambda x: number(e, expr, x)

        def make(expr, point):
            return {k: number(e, x, point[V]) for k, x in expr.items()}
        kw = dict(extra)
        if bounds:
            kw["bounds"] = np.array(bounds)
        if precision:
            kw["precision"] = precision
        p.set_values, p.solve = set_values, solve
        p.certificate_as_dict = lambda: {"tag": len(state["params"]) - 1}
        sym = e.symbolic and not e.enum
        with warnings.catch_warnings(), ctx(e, LP, LM, SDP, MU, PR), \
                mock.patch.object(OU, "minimize", minimize), \
                contextlib.ExitStack() as stack, \
                contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            if sym:
                stack.enter_context(mock.patch.object(
                    OU, "lambdify", lambdify))
                stack.enter_context(mock.patch.object(
                    OU, "make_numerical", make))
                e.texting(True)
            try:
                out = OU.max_within_feasible(p, vals, "dual", last, **kw)
            except AssertionError as x:
                e.check(False, "no parameter is found: " + str(x).strip())
            finally:
                e.texting(False)
                for k in ("set_values", "solve", "certificate_as_dict"):
                    vars(p).pop(k)
        c = out[0] if last else out
        tol = prec * (1 + 1e-6)
        e.check(e.le(t - c, 1e-9), "the parameter returned is below the threshold")
        e.check(e.le(c - hi, 1e-9), "the parameter returned is out of bounds")
        r = state["roots"]
        e.check(len(r) > 1, "the first certificate is not improved")
        e.check(And(e.le(c - r[-1], tol), e.le(r[-1] - c, tol),
                    e.le(r[-2] - c, 1e-9)),
                "the parameter returned is not where the certificates stop "
                "improving by the precision")
        if last:
            e.check(out[1] == {"tag": len(r) - 1}, "the certificate "
                    "returned is not the last")
        e.check(vals == copy, "the values passed are modified")
        e.witness("found", t > lo + 0.3 * (hi - lo))
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    progs = [("sdp", "bell", {}), ("lp", "bell", {})]
    for kind, name, opts in progs + (
            [("sdp", "bilocal", {}), ("lp", "instrumental", {})]
            if big else []):
        d = dict(kind=kind, name=name, opts=list(opts.items()))
        obs.append(Obligation(
            f"bisection {kind} {name}", "run_bisection",
            dict(d, t=3 if big else 2, precisions=[0.01, 0.05]),
            ["optimization_utils.max_within_feasible",
             "optimization_utils._maximize_via_bisect",
             "utils.make_numerical"],
            "all thresholds and objective values; three intervals and "
            "precisions", parallel=True, depth=5))
        if kind == "lp" or big:
            obs.append(Obligation(
                f"bisection {kind} {name} default precision",
                "run_bisection", dict(d, t=1, precisions=[None],
                                       part=(0, 1) if big else (.7, .72)),
                ["optimization_utils._maximize_via_bisect"],
                "all thresholds (quick: between 0.7 and 0.72) and objective "
                "values; the default precision",
                parallel=True, depth=8))
        if kind == "sdp" or big:
            obs.append(Obligation(
                f"bisection {kind} {name} fine precision",
                "run_bisection", dict(d, t=1, precisions=[1e-6],
                                       part=(.7, .70001)),
                ["optimization_utils._maximize_via_bisect"],
                "all thresholds between 0.7 and 0.70001 and objective "
                "values; a precision below the default one",
                parallel=True, depth=8))
        obs.append(Obligation(
            f"problems without threshold {kind} {name}", "refuse", d,
            ["optimization_utils.max_within_feasible"],
            "all objective values", parallel=True, depth=3))
    for kind, name, opts in progs + [("sdp", "bellinf", {})] + (
            [("lp", "bellinf", {}), ("sdp", "bilocal", {})] if big else []):
        obs.append(Obligation(
            f"dual {kind} {name}", "run_dual",
            dict(kind=kind, name=name, opts=list(opts.items()),
                 t=3 if big else 2, most=5 if big else 4),
            ["optimization_utils.max_within_feasible",
             "optimization_utils._maximize_via_dual"],
            "all thresholds and roots of certificates; up to 4 certificates "
            "(thorough: 5); values affine in the parameter",
            parallel=True, depth=5))
    return obs
