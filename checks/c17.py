"""C17: the state of a program is that of its current settings."""
import copy
import itertools
import warnings
from unittest import mock
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, is_sym
from vlib import prog
from vlib.env import mod
from checks.c11 import Pro, ctx
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
SDP = mod("sdp.InflationSDP")
MU = mod("sdp.monomial_utils")

EXPLANATION = (
    "All short sequences of public calls (objectives, values, distributions, "
    "bounds, extra constraints, resets, solving, exporting, generating again) "
    "with symbolic numbers are executed on a real program. The problem then "
    "handed to the solver is compared, for all numbers and by z3 at all "
    "points, with the one of a freshly generated program after only the "
    "settings still in force.")
ASSUMPTIONS = [
    "numbers are at least 1/100 in size, values lie inside the bounds",
    "setting values drops the extra constraints (as the code says), so "
    "histories in which extra constraints are followed by new values are not "
    "judged on the extra constraints"]
OUTSIDE = "longer histories, other scenarios, warnings"


def numbers(e, P):
    """Symbolic numbers of all settings."""
    g = {}
    for k in ("o1", "o2", "o3", "e1", "e2", "i1", "i2"):
        v = e.coef(k)
        e.assume(Or(v >= 0.01, v <= -0.01) if e.symbolic else abs(v) >= .01)
        g[k] = v
    for k in ("v1", "v2", "v3", "v4"):
        g[k] = e.coef(k, 0.3, 0.6)
    for k in ("l1", "l2", "l3"):
        g[k] = e.coef(k, 0.01, 0.05)
    for k in ("u1", "u2"):
        g[k] = e.coef(k, 0.7, 2)
    return g


def table(e, P, tag, zero):
    """A product distribution with one symbolic marginal."""
    p = P.p
    pr = p.InflationProblem
    shape = tuple(int(x) for x in pr.expected_distro_shape)
    N = len(shape) // 2
    t = e.coef("d" + tag, 0.3, 0.6)
    arr = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        v = t if idx[0] == 0 else (1 - t) / (shape[0] - 1)
        for k in range(1, N):
            v = v / shape[k]
        arr[idx] = v
        if zero and idx[:2] in ((0, 1), (1, 0)):
            arr[idx] = 0.0 if tag == "1" or idx[0] == 0 else v
    return e.arr(arr.tolist()) if e.symbolic else arr.astype(float)


def operations(e, P, supports=False):
    """name -> (what it replaces, call)."""
    p, m = P.p, P.mons
    g = numbers(e, P)
    k, f, c = P.know, P.free or P.know[-2:], P.comp
    out = {}

    def op(name, kind, fn):
        out[name] = (kind, fn)
    if not supports:
        op("max", "obj", lambda: p.set_objective(
            {m[k[0]].name: g["o1"], m[f[0]]: g["o2"],
             m[c[0] if c else f[-1]]: g["o3"]}))
        op("min", "obj", lambda: p.set_objective(
            {m[k[-1]].symbol: g["o3"], "1": g["o1"]}, "min"))
        op("no objective", "obj", lambda: p.set_objective(None))
        op("values", "val", lambda: p.set_values(
            {m[k[0]]: g["v1"], m[k[1]].name: g["v2"]}))
        op("lpi", "val", lambda: p.set_values(
            {m[i]: g["v3"] if j == 0 else 0.4 + j / 64
             for j, i in enumerate(k)}, use_lpi_constraints=True))
        op("only", "val", lambda: p.set_values(
            {m[k[0]]: g["v4"], m[f[-1]]: g["v3"]},
            only_specified_values=True))
        op("update", "update", lambda: p.update_values({m[k[0]]: g["v2"]}))
    t1, t2 = table(e, P, "1", supports), table(e, P, "2", supports)
    op("distribution", "val", lambda: p.set_distribution(t1))
    if supports:
        op("distribution 2", "val", lambda: p.set_distribution(t2))
    op("no values", "val", lambda: p.set_values(None))
    op("reset values", "reset val", lambda: p.reset("values"))
    op("lower", "lo", lambda: p.set_bounds(
        {m[k[0]]: g["l1"], m[f[0]].name: g["l2"]}, "lo"))
    op("no lower", "lo", lambda: p.set_bounds(None, "lo"))
    op("reset bounds", "reset lo up", lambda: p.reset("bounds"))
    op("reset all", "reset lo up val obj", lambda: p.reset("all"))
    if not supports:
        op("lower 2", "lo", lambda: p.set_bounds(
            {m[k[-1]]: g["l3"]}, "lo"))
        op("upper", "up", lambda: p.set_bounds(
            {m[k[1]]: g["u1"], m[f[-1]].name: g["u2"]}, "up"))
        op("upper 2", "up", lambda: p.set_bounds({m[k[0]]: g["u2"]}))
        op("no upper", "up", lambda: p.set_bounds(None))
        op("reset objective", "reset obj", lambda: p.reset("objective"))
        op("reset list", "reset up obj", lambda: p.reset(
            ["upperbounds", "objective"]))
        op("equality", "eq", lambda: p.set_extra_equalities(
            [{m[k[0]]: g["e1"], m[f[0]].name: g["e2"]}]))
        op("no equality", "eq", lambda: p.set_extra_equalities(None))
        op("inequality", "ineq", lambda: p.set_extra_inequalities(
            [{m[k[1]]: g["i1"], "1": g["i2"]}]))
        op("no inequality", "ineq", lambda: p.set_extra_inequalities([]))
    op("solve", "solve", lambda: p.solve())
    op("export", "look", lambda: export(P))
    return out


def export(P):
    if P.kind == "lp":
        P.p._prepare_solver_arguments(separate_bounds=True)
        P.p._prepare_solver_arguments(separate_bounds=False)
    else:
        P.p._prepare_solver_arguments()


NONE = ("no objective", "no values", "no lower", "no upper", "no equality",
        "no inequality")


def in_force(seq, ops):
    """The operations still in force, None if it is not determined."""
    cur = dict(obj=[], val=[], lo=[], up=[], eq=[], ineq=[])
    for name in seq:
        kind = ops[name][0]
        if kind in ("solve", "look"):
            continue
        if kind.startswith("reset"):
            for k in kind.split()[1:]:
                cur[k] = []
            if "val" in kind:
                cur["eq"] = cur["ineq"] = []
            continue
        if kind == "update":
            if "only" in cur["val"] or "lpi" in cur["val"]:
                return None     # what is updated is the subject of C11
            cur["val"] = cur["val"] + [name]
            continue
        cur[kind] = [] if name in NONE else [name]
        if kind == "val" and (cur["eq"] or cur["ineq"]):
            return None
    return cur


def run(e, kind, rec):
    return mock.patch.object(LP if kind == "lp" else SDP,
                             "solveLP" if kind == "lp" else
                             "solveSDP_MosekFUSION", rec)


class Recorder:
    def __init__(self, kind, value):
        self.kind, self.calls, self.value = kind, [], value

    def __call__(self, **a):
        self.calls.append(a)
        return dict(success=True, status="feasible", dual_certificate={},
                    primal_value=self.value, dual_value=self.value, x={})


def rows(M):
    M = M.tocoo()
    out = [{} for _ in range(M.shape[0])]
    for i, j, v in zip(M.row, M.col, M.data):
        i, j = int(i), int(j)
        out[i][j] = out[i].get(j, 0) + v
    return out


def problem(P, a):
    """The arguments given to the solver, by positions of moments."""
    if P.kind == "lp":
        def vec(x):
            return rows(x)[0] if x.shape[0] else {}
        return dict(known=vec(a["known_vars"]), obj=vec(a["objective"]),
                    eq=rows(a["equalities"]), ineq=rows(a["inequalities"]),
                    lo=vec(a["lower_bounds"]), up=vec(a["upper_bounds"]),
                    semi={}, nonneg=a["default_non_negative"])
    at = {m.name: i for i, m in enumerate(P.mons)}

    def row(r):
        d = {}
        for k, v in r.items():
            k = at.get(k, k)
            d[k] = d[k] + v if k in d else v
        return d
    return dict(known=row(a.get("known_vars") or {}), obj=row(a["objective"]),
                eq=[row(r) for r in a["equalities"]],
                ineq=[row(r) for r in a["inequalities"]], lo={}, up={},
                semi={at.get(k, k): (c, at.get(j, j)) for k, (c, j)
                      in (a.get("semiknown_vars") or {}).items()},
                nonneg=False)


def formula(e, d, x):
    def lin(r):
        t = 0
        for k, c in r.items():
            t = t + c * x(k)
        return t
    f = [e.eq(x(k), v) for k, v in d["known"].items()]
    f += [e.eq(lin(r), 0) for r in d["eq"]]
    f += [e.le(0, lin(r)) for r in d["ineq"]]
    f += [e.le(v, x(k)) for k, v in d["lo"].items()]
    f += [e.le(x(k), v) for k, v in d["up"].items()]
    f += [e.eq(x(k), c * x(j)) for k, (c, j) in d["semi"].items()]
    return And(*f), lin(d["obj"])


def equal(e, a, b):
    """Structural equality (True only if the dictionaries are alike)."""
    def same(x, y):
        if isinstance(x, dict):
            return isinstance(y, dict) and x.keys() == y.keys() and all(
                same(x[k], y[k]) for k in x)
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(map(same, x, y))
        if is_sym(x) or is_sym(y):
            return is_sym(x) and is_sym(y) and x.e.eq(y.e)
        return x == y
    return same(a, b)


def alike(e, a, b):
    """Equality of dictionaries of numbers, as a condition."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return False
        return And(*[alike(e, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return And(*[alike(e, x, y) for x, y in zip(a, b)])
    if not (is_sym(a) or is_sym(b)):
        return a is b or bool(a == b)
    return (is_sym(a) or np.isfinite(a)) and (
        is_sym(b) or np.isfinite(b)) and e.eq(a, b)


def same_problem(e, P, a, b, what):
    if equal(e, a, b):
        e.check(True, what)
        return
    pts = {}

    def x(k):
        if k not in pts:
            pts[k] = e.real(f"x{k}")
        return pts[k]
    fa, oa = formula(e, a, x)
    fb, ob = formula(e, b, x)
    for k in list(pts):
        if a["nonneg"]:
            fa = And(fa, Or(e.le(0, x(k)), k in a["lo"]))
        if b["nonneg"]:
            fb = And(fb, Or(e.le(0, x(k)), k in b["lo"]))
    e.check(Implies(fa, fb), what + ": points of the current problem are "
            "missing or points of a past one are allowed")
    e.check(Implies(fb, fa), what + ": something of the past restricts the "
            "problem")
    e.check(Implies(fa, e.eq(oa, ob)), what + ": another objective")


def history(kind, name, opts, length, supports=False, start=(), again=None):
    opts = dict(opts)
    if supports:
        opts["supports_problem"] = True

    def fn(e):
        P = Pro(kind, name, opts)
        rec = Recorder(kind, e.coef("optimum"))
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP), \
                run(e, kind, rec):
            warnings.simplefilter("ignore")
            ops = operations(e, P, supports)
            names = list(ops)
            seq = list(start)
            for i in range(length):
                seq.append(e.pick(f"call {i}", names))
            if any(ops[x][0] == "look" for x in seq[-1:]) or (
                    "solve" not in seq and ops[seq[0]][0].startswith(
                        "reset")):
                return          # as good as a shorter one
            force = in_force(seq, ops)
            if force is None or supports and not force["val"] and any(
                    ops[x][0].startswith("reset") for x in seq):
                return          # a supports problem without values
            solved = None
            for i, x in enumerate(seq):
                ops[x][1]()
                if x == "solve":
                    solved = in_force(seq[:i + 1], ops)
            # results of the past
            if solved is not None and solved != force:
                for a in ("objective_value", "primal_objective",
                          "solution_object"):
                    e.check(not hasattr(P.p, a), "a result of an earlier "
                            "problem is reported for a later one")
                e.check(P.p.status not in ("feasible", "optimal"), "the "
                        "status of an earlier problem is reported for a "
                        "later one")
                e.witness("past result")
            if kind == "lp":
                by_name = copy_of(P.p._prepare_solver_arguments())
            rec.calls.clear()
            P.p.solve()
            got = problem(P, rec.calls[-1])
            sign = P.p.maximize
            inner = (dict(P.p.known_moments), dict(P.p.semiknown_moments))
            # the same on a fresh program
            Q = Pro(kind, name, opts)
            ops = operations(e, Q, supports)
            for k in ("obj", "val", "lo", "up", "eq", "ineq"):
                for x in force[k]:
                    ops[x][1]()
            if kind == "lp":
                names2 = copy_of(Q.p._prepare_solver_arguments())
            Q.p.solve()
            want = problem(Q, rec.calls[-1])
        e.check(sign == Q.p.maximize, "another direction of optimisation")
        same_problem(e, P, got, want, "after " + ", ".join(seq))
        e.check(alike(e, inner[0], dict(Q.p.known_moments)),
                "other values are known")
        e.check(alike(e, inner[1], dict(Q.p.semiknown_moments)),
                "other values are linearised")
        if kind == "lp":
            e.check(alike(e, by_name, names2), "other constraints would be "
                    "exported")
        e.witness("compared")
    return fn


def copy_of(a):
    return {k: ({x: v for x, v in r.items()} if isinstance(r, dict) else
                [dict(q) if isinstance(q, dict) else q for q in r]
                if isinstance(r, list) else r) for k, r in a.items()}


def inputs(kind, name):
    """Arguments of the user are not modified."""
    def fn(e):
        P = Pro(kind, name, {})
        p, m = P.p, P.mons
        g = numbers(e, P)
        k, f = P.know, P.free or P.know[-2:]
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP), \
                run(e, kind, Recorder(kind, 1)):
            warnings.simplefilter("ignore")
            obj = {m[k[0]]: g["o1"], m[f[0]].name: g["o2"], "1": g["o3"]}
            val = {m[k[0]]: g["v1"], m[k[1]].name: g["v2"]}
            lo = {m[k[0]]: g["l1"], m[f[0]].name: g["l2"]}
            up = {m[k[1]]: g["u1"]}
            eqs = [{m[k[0]]: g["e1"], m[f[0]].name: g["e2"]}]
            ine = [{m[k[1]]: g["i1"], "1": g["i2"]}]
            arr = table(e, P, "1", False)
            par = {"x": 1}
            arg = {"extra_argument": 1}
            keep = ([dict(d) for d in (obj, val, lo, up, par, arg)],
                    [dict(d) for d in eqs + ine],
                    [arr[i] for i in np.ndindex(arr.shape)])
            which = e.pick("order", [0, 1])
            todo = [lambda: p.set_objective(obj, "min"),
                    lambda: p.set_bounds(lo, "lo"),
                    lambda: p.set_bounds(up, "up"),
                    lambda: p.set_distribution(arr, True),
                    lambda: p.set_values(val),
                    lambda: p.set_extra_equalities(eqs),
                    lambda: p.set_extra_inequalities(ine)]
            for t in todo[::-1] if which else todo:
                t()
            if kind == "lp":
                p.solve(solverparameters=par)
            else:
                p.solve(solverparameters=par, solver_arguments=arg)
            now = ([dict(d) for d in (obj, val, lo, up, par, arg)],
                   [dict(d) for d in eqs + ine],
                   [arr[i] for i in np.ndindex(arr.shape)])
        e.check(alike(e, keep, now), "an argument of the user is modified")
        # nor does the program keep a reference that changes with it
        before = problem_now(e, P, kind)
        for d in (obj, val, lo, up) + tuple(eqs + ine):
            for x in list(d):
                d[x] = 7.
        after = problem_now(e, P, kind)
        e.check(alike(e, before, after), "changing an argument afterwards "
                "changes the problem")
        e.witness("kept")
    return fn


def problem_now(e, P, kind):
    rec = Recorder(kind, 1)
    with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP), \
            run(e, kind, rec):
        warnings.simplefilter("ignore")
        P.p.solve()
    return problem(P, rec.calls[-1])


def again(name, opts, specs):
    """Generating a relaxation a second time."""
    def fn(e):
        first = e.pick("first", specs)
        second = e.pick("second", specs)
        when = e.pick("before", ["nothing", "settings"])
        S = dict(opts)
        P = Pro("sdp", name, dict(S, columns=first))
        rec = Recorder("sdp", 1)
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP), \
                run(e, "sdp", rec):
            warnings.simplefilter("ignore")
            if when == "settings":
                ops = operations(e, P)
                for x in ("max", "lower", "upper", "lpi", "equality",
                          "solve"):
                    ops[x][1]()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            P.p.generate_relaxation(second)
        e.check(not hasattr(P.p, "objective_value"), "a result of an earlier "
                "problem is reported for a later one")
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP), \
                run(e, "sdp", rec):
            warnings.simplefilter("ignore")
            P.p.solve()
            a = rec.calls[-1]
            mm = [[P.p.compmoment_from_idx[int(i)].name for i in r]
                  for r in P.p.momentmatrix]
            Q = Pro("sdp", name, dict(S, columns=second))
            Q.p.solve()
            b = rec.calls[-1]
            nn = [[Q.p.compmoment_from_idx[int(i)].name for i in r]
                  for r in Q.p.momentmatrix]
        e.check(mm == nn, "the moment matrix depends on the relaxation "
                "generated before")
        R = Q
        R.mons = list(Q.p.moments)
        same_problem(e, Q, problem(R, a), problem(R, b),
                     "generated again")
        e.witness("compared")
    return fn


def obligations(tier):
    big = tier == "thorough"
    fl = ["InflationLP." + x for x in (
        "set_objective", "set_values", "update_values", "set_distribution",
        "set_bounds", "set_extra_equalities", "set_extra_inequalities",
        "reset", "_reset_values", "_reset_bounds", "_reset_objective",
        "_reset_solution", "_cleanup_after_set_values", "solve",
        "_prepare_solver_matrices", "_prepare_solver_arguments")]
    fs = [x.replace("LP", "SDP") for x in fl] + [
        "InflationSDP._update_objective", "InflationSDP._update_bounds"]
    obs = []
    for kind, name, opts, n in [
            ("lp", "bellinf", {}, 3), ("sdp", "bilocal", {}, 3)] + (
            [("lp", "triangle", {}, 3), ("sdp", "evans", {}, 3),
             ("sdp", "triangle", {}, 4), ("lp", "bell_c", {}, 4)]
            if big else []):
        obs.append(Obligation(
            f"{kind} {name} histories of {n}", "history",
            dict(kind=kind, name=name, opts=list(opts.items()), length=n),
            fl if kind == "lp" else fs,
            f"all sequences of {n} calls of 26, all numbers, all points",
            parallel=True, depth=7, fallback=dict(
                kind=kind, name=name, opts=list(opts.items()), length=2)))
    for kind, name in [("lp", "bellinf"), ("sdp", "bilocal")]:
        n = 4 if big else 3
        obs.append(Obligation(
            f"{kind} {name} supports, histories of {n}", "history",
            dict(kind=kind, name=name, opts=[], length=n, supports=True),
            fl if kind == "lp" else fs,
            f"all sequences of {n} calls of 10, all numbers, all points",
            parallel=True, depth=7, fallback=dict(
                kind=kind, name=name, opts=[], length=2, supports=True)))
        obs.append(Obligation(
            f"{kind} {name} arguments", "inputs", dict(kind=kind, name=name),
            fl if kind == "lp" else fs, "all numbers"))
    specs = ["npa1", "local1", "npa2"] if big else ["npa1", "local1"]
    for name, opts in [("bellinf", {}), ("evans", {})] + (
            [("bilocal", {})] if big else []):
        obs.append(Obligation(
            f"sdp {name} generated again", "again",
            dict(name=name, opts=list(opts.items()), specs=specs),
            fs + ["InflationSDP.generate_relaxation"],
            "columns " + ", ".join(specs) + " in both orders",
            parallel=True))
    return obs
