"""C11: what is handed to the solver is the problem the user stated."""
from unittest import mock
import warnings
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, is_sym
from vlib import prog, symsparse, symmosek
from vlib.env import mod
from checks.c12 import Ctx, covering, dot, compare
import inflation.utils as U
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
SDP = mod("sdp.InflationSDP")
SU = mod("sdp.sdp_utils")
MU = mod("sdp.monomial_utils")

EXPLANATION = (
    "Objective, values, distribution, bounds and extra constraints with "
    "symbolic numbers are set on a real program, in several orders and with "
    "moments given by name, symbol and object. The solver is replaced by a "
    "recorder. z3 is asked for numbers and a point that is feasible, or has "
    "another objective value, in only one of the recorded problem and the "
    "problem stated (the user's settings plus the program's generated "
    "constraints).")
ASSUMPTIONS = [
    "coefficients, values and bounds are 0 or at least 1/100 in size (the "
    "code drops those below 1e-8)",
    "the constraints a program generates by itself are right (C07, C08, C09, "
    "C19)",
    "a known value that contradicts a bound may be refused by an error in "
    "semidefinite programs"]
OUTSIDE = ("other scenarios, larger numbers of settings at once, user "
           "arguments that are not moments of the program")


class Pro:
    """A program and its moments, by position."""

    def __init__(self, kind, name, opts):
        self.kind = kind
        self.p = prog.fresh(kind, name, **opts)
        p = self.p
        if kind == "lp":
            self.mons = list(p.monomials)
        else:
            self.mons = [m for m in p.moments]
        self.one = self.mons.index(p.One)
        self.n = len(self.mons)
        self.where = {m: i for i, m in enumerate(self.mons)}
        atomic = {}
        for i, m in enumerate(self.mons):
            if len(m.factors) == 1:
                atomic[m.factors[0]] = i
                if kind == "sdp":
                    atomic[m.factors[0].dagger] = i
        self.factors = [[atomic.get(f) for f in m.factors]
                        for m in self.mons]
        self.atoms = [i for i, m in enumerate(self.mons)
                      if len(m.factors) == 1 and not m.is_zero
                      and not m.is_one]
        self.know = [i for i in self.atoms if self.mons[i].is_knowable]
        self.free = [i for i in self.atoms if not self.mons[i].is_knowable]
        self.comp = [i for i, m in enumerate(self.mons) if len(m.factors) > 1]

    def key(self, i, form):
        m = self.mons[i]
        if i == self.one:
            return {"name": "1", "symbol": "constant_term"}.get(form, m)
        if form == "name":
            return m.name
        if form == "legacy":
            return m.legacy_name
        if form == "symbol":
            return m.symbol
        if form == "array" and len(m.factors) == 1:
            return m.factors[0].as_2d_array
        if form == "atom" and len(m.factors) == 1:
            return m.factors[0]
        return m


def number(e, name, zero=False):
    v = e.coef(name)
    if zero and e.pick(name + " zero", [False, True]):
        e.assume(e.eq(v, 0))
        return 0. * v
    e.assume(Or(v >= 0.01, v <= -0.01) if e.symbolic else abs(v) >= 0.01)
    return v


def bound(e, name):
    v = e.coef(name)
    e.assume(Or(e.eq(v, 0), v >= 0.01, v <= -0.01) if e.symbolic else
             v == 0 or abs(v) >= 0.01)
    return v


FORMS = ["name", "symbol", "object", "atom", "legacy", "name"]


def poly(e, P, tag, idx, rot, twice=False):
    """A dictionary as a user writes it, and what it means."""
    d, spec = {}, {}
    for j, i in enumerate(idx):
        c = number(e, f"{tag}{j}", tag == "c" and j == 1)
        k = P.key(i, FORMS[(j + rot) % len(FORMS)])
        d[k] = c
        spec[i] = spec.get(i, 0) + c
    if twice:
        m = P.mons[idx[0]]
        for k in (m.name, m.legacy_name, m):
            if not any(type(k) is type(q) and k == q for q in d):
                c = number(e, tag + "again")
                d[k] = c
                spec[idx[0]] = spec[idx[0]] + c
                break
    return d, spec


def expression(P, idx, coeffs, const):
    t = const
    for i, c in zip(idx, coeffs):
        t = t + c * P.mons[i].symbol
    spec = {i: c for i, c in zip(idx, coeffs)}
    spec[P.one] = const
    return t, spec


def distribution(e, p):
    shape = tuple(int(x) for x in (
        p.expected_distro_shape if hasattr(p, "expected_distro_shape")
        else p.InflationProblem.expected_distro_shape))
    flat = [e.coef(f"p{i}", 0, 1) for i in range(int(np.prod(shape)))]
    a = np.empty(shape, dtype=object)
    for i, idx in enumerate(np.ndindex(shape)):
        a[idx] = flat[i]
    return e.arr(a.tolist()) if e.symbolic else a.astype(float)


OBJ = ["none", "dict", "twice", "expr", "const", "knowns"]
VAL = ["none", "some", "free", "lpi", "only", "nan", "compound", "zero"]
BND = ["none", "lo", "up", "both", "known"]
EXT = ["none", "eq", "ineq", "both", "constant"]
ORD = ["ovb", "vbo", "bov", "bvo"]


def settings(e, P, case, lpi_ok=True):
    """Apply the settings of a case; return the stated problem."""
    obj, val, bnd, ext, order, mini = case
    p = P.p
    out = dict(objective={}, known={}, eq=[], ineq=[], lo={}, up={}, sign=1)
    ks, fs, cs = P.know, P.free or P.know[-2:], P.comp
    some = [ks[0], ks[-1]] + fs[:2]
    values = {}
    lpi = val == "lpi"
    only = val == "only"
    if val in ("some", "only", "lpi", "zero"):
        for j, i in enumerate(ks[:3] if not lpi else ks):
            values[i] = bound(e, f"v{j}") if j < 3 else 0.125 * j
        if val == "zero":
            values[ks[0]] = 0
    elif val == "free":
        values = {i: bound(e, f"v{j}") for j, i in enumerate(
            [fs[0], fs[-1], ks[1 % len(ks)]])}
    elif val == "nan":
        values = {i: bound(e, f"v{j}") for j, i in enumerate(ks[:2])}
    elif val == "compound" and cs:
        values = {i: bound(e, f"v{j}") for j, i in enumerate(
            [cs[-1], ks[0]])}

    calls = {}
    kw = {"direction": "min"} if mini else {}
    out["sign"] = -1 if mini else 1
    d, q = None, {}
    if obj == "dict":
        d, q = poly(e, P, "c", [P.one] + some, 1)
    elif obj == "twice":
        d, q = poly(e, P, "c", some[:3], 4, True)
    elif obj == "const":
        d, q = poly(e, P, "c", [some[-1], P.one], 0)
    elif obj == "knowns":
        d, q = poly(e, P, "c", ks[:2] + cs[-2:] + cs[:1], 2)
    elif obj == "expr":
        d, q = expression(P, some[:3] + cs[-1:], [0.5, -2, 1, -0.75], 3)
    out["objective"] = q
    calls["o"] = [lambda: p.set_objective(d, **kw)]

    vals = {P.key(i, FORMS[(j + 2) % 6]): v
            for j, (i, v) in enumerate(values.items())}
    if val == "nan":
        vals[P.key(ks[-1], "name")] = float("nan")
    calls["v"] = [lambda: p.set_values(
        vals if val != "none" else None, use_lpi_constraints=lpi,
        only_specified_values=only)]
    if ext in ("eq", "both", "constant"):
        rows = [poly(e, P, f"h{r}_", idx, r) for r, idx in enumerate(
            [some[1:3] + [P.one], [ks[0], fs[-1]]])]
        if ext == "constant":
            r = poly(e, P, "h", [fs[0]], 0)
            rows = [({**r[0], 1: 0.5}, {**r[1], P.one: 0.5})]
        heq = [r[0] for r in rows]
        calls["v"].append(lambda: p.set_extra_equalities(heq))
        out["eq"] += [r[1] for r in rows]
    if ext in ("ineq", "both"):
        rows = [poly(e, P, f"g{r}_", idx, r + 1) for r, idx in enumerate(
            [[P.one, fs[0]], some[:2]])]
        gin = [r[0] for r in rows]
        calls["v"].append(lambda: p.set_extra_inequalities(gin))
        out["ineq"] += [r[1] for r in rows]

    calls["b"] = []
    if bnd in ("lo", "both", "known"):
        idx = [fs[0], fs[-1]] if bnd != "known" else [ks[0], fs[0]]
        q = {i: bound(e, f"lo{j}") for j, i in enumerate(idx)}
        los = {P.key(i, FORMS[j]): v for j, (i, v) in enumerate(q.items())}
        calls["b"].append(lambda: p.set_bounds(los, "lo"))
        out["lo"] = q
    if bnd in ("up", "both", "known"):
        idx = [fs[-1], ks[-1]] if bnd != "known" else [ks[0], ks[1]]
        q = {i: bound(e, f"up{j}") for j, i in enumerate(idx)}
        ups = {P.key(i, FORMS[j + 1]): v
               for j, (i, v) in enumerate(q.items())}
        calls["b"].append(lambda: p.set_bounds(ups, "up"))
        out["up"] = q
    out["refused"] = False
    try:
        for k in order:
            for c in calls[k]:
                c()
    except AssertionError as ex:
        if "contradicts" not in str(ex):
            raise
        out["refused"] = True
    # what the values say
    out["known"] = dict(values)
    if not only:
        for i in P.comp:
            if i in values and i not in P.atoms and None in P.factors[i]:
                continue
            f = P.factors[i]
            have = [k for k in f if k in values]
            rest = [k for k in f if k not in values]
            v = 1
            for k in have:
                v = v * values[k]
            if not rest:
                out["known"][i] = v
            elif lpi and have:
                mon = [P.mons[i].factors[q] for q, k in enumerate(f)
                       if k not in values]
                j = P.where[p._monomial_from_atoms(mon)]
                out["eq"].append({i: 1, j: -v})
    return out


def stated(e, P, s, x, base_eq, base_ineq, nonneg=(), default_lo=None):
    c = [e.eq(x[P.one], 1)]
    c += [e.eq(x[i], 0) for i, m in enumerate(P.mons) if m.is_zero]
    for i, v in s["known"].items():
        c.append(e.eq(x[i], v))
    for r in base_eq + s["eq"]:
        c.append(e.eq(dot(r, x), 0))
    for r in base_ineq + s["ineq"]:
        c.append(e.le(0, dot(r, x)))
    for i, v in s["lo"].items():
        c.append(e.le(v, x[i]))
    for i, v in s["up"].items():
        c.append(e.le(x[i], v))
    for i in nonneg:
        if i not in s["lo"]:
            c.append(e.le(0, x[i]))
    return And(*c)


def sdp(name, opts, t):
    lists = (OBJ, VAL, BND, EXT, ORD, [False, True])
    combos = cases(lists, t)
    rec = {}

    def solver(**args):
        rec["calls"].append(args)
        return dict(status="feasible", primal_value=rec["value"],
                    dual_value=rec["value"], dual_certificate={}, x={})

    def fn(e):
        case = e.pick("case", combos)
        P = Pro("sdp", name, dict(opts))
        p = P.p
        rec.update(calls=[], value=e.coef("optimum"))
        base = [{P.where[m]: c for m, c in q.items()}
                for q in p.minimal_equalities]
        nonneg = [P.where[m] for m in p.hermitian_moments]
        with warnings.catch_warnings(), ctx(e, SDP, LM, MU), \
                mock.patch.object(SU, "solveSDP_MosekFUSION", solver), \
                mock.patch.object(SDP, "solveSDP_MosekFUSION", solver):
            warnings.simplefilter("ignore")
            s = settings(e, P, case)
            x = [e.real(f"x{i}") for i in range(P.n)]
            want = stated(e, P, s, x, base, [], nonneg=nonneg)
            if s["refused"]:
                only = stated(e, P, dict(s, eq=[], ineq=[]), x, [], [],
                              nonneg=nonneg)
                e.check(Not(And(only, *[e.le(0, x[i]) for i in nonneg])),
                        "consistent settings are refused")
                e.witness("refused")
                return
            wobj = dot(s["objective"], x)
            p.solve()
        e.check(len(rec["calls"]) == 1, "not one program is solved")
        a = rec["calls"][0]
        y = {m.name: x[i] for i, m in enumerate(P.mons)}
        y["constant_term"] = 1
        masks = np.full(p.momentmatrix.shape, None, dtype=object)
        for k, M in a["mask_matrices"].items():
            M = M.tocoo()
            for i, j, v in zip(M.row, M.col, M.data):
                if not v:
                    continue
                e.check(masks[i, j] is None and v == 1,
                        "an entry of the matrix is given twice")
                masks[i, j] = k
        nm = {m.idx: m.name for m in P.mons}
        e.check(all(masks[i, j] == nm[int(p.momentmatrix[i, j])]
                    for i, j in np.ndindex(masks.shape)),
                "a matrix entry has another variable")

        def val(k):
            if k not in y:          # a variable of no moment: free
                y[k] = e.real("other " + k)
            return y[k]

        def lin(r):
            t = 0
            for k, c in r.items():
                t = t + c * val(k)
            return t
        got = [e.eq(val(k), v) for k, v in (a.get("known_vars")
                                            or {}).items()]
        got += [e.eq(val(k), c * val(k2)) for k, (c, k2) in
                (a.get("semiknown_vars") or {}).items()]
        got += [e.eq(lin(r), 0) for r in a.get("equalities") or []]
        got += [e.le(0, lin(r)) for r in a.get("inequalities") or []]
        if a.get("default_non_negative"):
            got += [e.le(0, v) for v in x]
        same_problem(e, want, And(*got), s["sign"] * wobj,
                     lin(a.get("objective") or {}), "semidefinite program")
        e.check(e.eq(p.objective_value, s["sign"] * rec["value"]),
                "the optimum reported is not that of the stated objective")
        if case[1] in ("none", "some") and case[3] == "none":
            e.witness("feasible", want)
        e.witness("reached")
    return fn


def rows_of(m):
    m = m.tocsr()
    return [{int(k): int(v) for k, v in zip(
        m.indices[m.indptr[i]:m.indptr[i + 1]],
        m.data[m.indptr[i]:m.indptr[i + 1]])} for i in range(m.shape[0])]


def same_problem(e, want, got, wobj, gobj, what):
    e.check(Implies(want, got), what + ": a point of the stated problem is "
            "excluded")
    e.check(Implies(got, want), what + ": a point that violates the stated "
            "problem is allowed")
    e.check(Implies(want, e.eq(wobj, gobj)), what + ": the objective is not "
            "the stated one")


class ctx(Ctx):
    """As Ctx, and without the (slow) garbage collection."""

    def __init__(self, e, *mods):
        super().__init__(e, mods=mods)

    def __enter__(self):
        r = super().__enter__()
        r.symbolic_solution = False
        for m in self.mods:
            if hasattr(m, "collect"):
                p = mock.patch.object(m, "collect", lambda *a, **k: 0)
                p.__enter__()
                self.stack.append(p)
        return r


def cases(lists, t):
    return [tuple(l[i] for l, i in zip(lists, c))
            for c in covering(*lists, t=t)]


def lp(name, opts, t, via):
    lists = (OBJ, VAL, BND, EXT, ORD, [False, True])
    combos = cases(lists, t)

    def fn(e):
        case = e.pick("case", combos)
        P = Pro("lp", name, dict(opts))
        p = P.p
        if not hasattr(p, "_verif_rows"):
            p._verif_rows = (rows_of(p.minimal_sparse_equalities),
                             rows_of(p.minimal_sparse_inequalities))
        base = p._verif_rows
        nonneg = e.pick("non-negative", [True, False]
                        if via != "bounds as rows" else [False])
        with warnings.catch_warnings(), ctx(e, LP, LM, MU) as M:
            warnings.simplefilter("ignore")
            s = settings(e, P, case)
            x = [e.real(f"x{i}") for i in range(P.n)]
            e.check(not s["refused"], "consistent settings are refused")
            want = stated(e, P, s, x, *base,
                          nonneg=range(P.n) if nonneg else ())
            wobj = dot(s["objective"], x)
            if via == "solve":
                p.solve(solve_dual=False, default_non_negative=nonneg)
            else:
                sep = via == "arguments"
                a = p._prepare_solver_arguments(separate_bounds=sep)
                mod("lp.lp_utils").solveLP(
                    **a, solve_dual=False, default_non_negative=nonneg)
        e.check(len(M.tasks) == 1, "not one task is solved")
        task = M.tasks[0]
        y = x
        if via != "solve":
            # a column for the constant may be added, its value is 1
            pos = {m.name: i for i, m in enumerate(P.mons)}
            pos["constant_term"] = P.one
            e.check(task.nvar == len(a["variables"]), "other variables")
            y = [x[pos[k]] for k in a["variables"]]
        same_problem(e, want, task.feasible(y, e), s["sign"] * wobj
                     if task.sense == symmosek.real.objsense.maximize
                     else -s["sign"] * wobj, task.value(y), "linear program")
        if via == "solve":
            e.check(e.eq(p.objective_value, s["sign"] * M.pobj),
                    "the optimum reported is not that of the stated "
                    "objective")
        e.witness("feasible", want) if case[1] in ("none", "some") \
            and case[3] == "none" else None
        e.witness("reached")
    return fn


def relaxed(name, t):
    lists = (VAL[:3], BND, EXT, [(1, 0, {}), (0, 1, {}), (1, 1, {}),
                                 (0, 1, {"feas_as_optim": True}),
                                 (0, 0, {"feas_as_optim": False})],
             [False, True])
    combos = cases(lists, t)

    def fn(e):
        val, bnd, ext, (rk, ri, extra), dual = e.pick("case", combos)
        # with feas_as_optim=True the user asks for something else than the
        # objective
        obj = e.pick("objective", ["none"] if extra.get("feas_as_optim")
                     else ["none", "const"])
        P = Pro("lp", name, {})
        p = P.p
        base = (rows_of(p.minimal_sparse_equalities),
                rows_of(p.minimal_sparse_inequalities))
        nonneg = e.pick("non-negative", [True, False])
        with warnings.catch_warnings(), ctx(e, LP, LM, MU) as M:
            warnings.simplefilter("ignore")
            s = settings(e, P, (obj, val, bnd, ext, "vbo", False))
            args = extra or dict(relax_known_vars=bool(rk),
                                 relax_inequalities=bool(ri))
            p.solve(solve_dual=dual, default_non_negative=nonneg, **args)
        if obj != "none":
            rk = ri = 0             # the objective is optimised instead
        e.check(len(M.tasks) == 1, "not one task is solved")
        compare(e, M.tasks[0], dict(
            known_vars={**s["known"], P.one: 1}, lower_bounds=s["lo"],
            upper_bounds=s["up"], equalities=base[0] + s["eq"],
            inequalities=base[1] + s["ineq"],
            objective=s["objective"]), P.n, dual, nonneg, bool(rk), bool(ri))
        e.check(e.eq(p.objective_value, M.dobj if dual else M.pobj),
                "another optimum is reported")
        e.witness("reached")
    return fn


def obligations(tier):
    symsparse.self_test()
    big = tier == "thorough"
    fl = ["InflationLP.set_objective", "InflationLP.set_values",
          "InflationLP.update_values", "InflationLP.set_bounds",
          "InflationLP.set_extra_equalities",
          "InflationLP.set_extra_inequalities", "InflationLP._sanitise_dict",
          "InflationLP._sanitise_monomial",
          "InflationLP._prepare_solver_matrices",
          "InflationLP._prepare_solver_arguments", "InflationLP.solve",
          "CompoundMoment.evaluate", "lp_utils.solveLP",
          "lp_utils.solveLP_sparse"]
    fs = ["InflationSDP.set_objective", "InflationSDP.set_values",
          "InflationSDP.update_values", "InflationSDP.set_bounds",
          "InflationSDP.set_extra_equalities",
          "InflationSDP.set_extra_inequalities",
          "InflationSDP._sanitise_dict", "InflationSDP._sanitise_moment",
          "InflationSDP._cleanup_after_set_values",
          "InflationSDP._update_objective", "InflationSDP._update_bounds",
          "InflationSDP._prepare_solver_arguments", "InflationSDP.solve",
          "CompoundMoment.evaluate"]
    b = ("settings in {} orders; objectives of up to 5 terms, up to 3 free "
         "values (and all products), 4 bounds, 4 extra rows, all with "
         "symbolic numbers; every combination of {} of the settings; all "
         "points").format(len(ORD), "4" if big else "3")
    obs = []
    for name, opts in [("bellinf", ()), ("triangle", ()),
                       ("instrumental", ())]:
        for via in ("solve", "arguments", "bounds as rows"):
            obs.append(Obligation(
                f"linear program {name} {via}", "lp",
                dict(name=name, opts=list(opts), t=(4 if big else 3)
                     - (via == "bounds as rows"), via=via),
                fl, b, parallel=True, depth=6,
                fallback=dict(name=name, opts=list(opts), t=1, via=via)))
    obs.append(Obligation(
        "relaxed linear program bellinf", "relaxed",
        dict(name="bellinf", t=3 if big else 2), fl, b, parallel=True,
        depth=6, fallback=dict(name="bellinf", t=1)))
    for name, opts in [("bellinf", ()), ("bilocal", ()),
                       ("instrumental", ()), ("evans", ()),
                       ("instrumental_inf", ())]:
        obs.append(Obligation(
            f"semidefinite program {name}", "sdp",
            dict(name=name, opts=list(opts), t=(4 if big else 3)
                 - (name == "instrumental_inf")),
            fs, b, parallel=True, depth=6,
            fallback=dict(name=name, opts=list(opts), t=1)))
    return obs
