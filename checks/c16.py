"""C16: dictionary, matrix and mixed descriptions of a program are
equivalent."""
import numpy as np
import scipy.sparse as sp
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite, is_sym
from vlib import symsparse, symmosek
from vlib.env import mod
from checks.c12 import (Ctx, coo, covering, dot, compare, iff)
import inflation.utils as U
L = mod("lp.lp_utils")

EXPLANATION = (
    "The conversion helpers run on sparse matrices with symbolic numbers and "
    "forked positions, and z3 is asked for a point that tells the system "
    "before and after the conversion apart. solveLP is run with the same "
    "symbolic program given by dictionaries, matrices or a mixture, and the "
    "task recorded at the solver is compared with the program described.")
ASSUMPTIONS = [
    "the constant is the first column and has the value 1 where bounds are "
    "turned into rows (as the code assumes)",
    "scipy.sparse does what it documents (the stand-in is compared with it)"]
OUTSIDE = "more rows, columns and stored entries"


def mat(e, tag, m, n, k):
    """A matrix with k stored numbers at any positions (also twice the same),
    in any order."""
    r = [int(e.int(f"{tag}r{i}", 0, m - 1)) for i in range(k)]
    c = [int(e.int(f"{tag}c{i}", 0, n - 1)) for i in range(k)]
    d = [e.coef(f"{tag}v{i}") for i in range(k)]
    dense = [[0] * n for _ in range(m)]
    for i in range(k):
        dense[r[i]][c[i]] = dense[r[i]][c[i]] + d[i]
    return coo(e, d, r, c, (m, n)), dense, sorted(set(r)), list(zip(r, c, d))


def same(e, M, dense, what):
    A = M.toarray()
    e.check(tuple(M.shape) == (len(dense), len(dense[0]) if dense else
                               M.shape[1]), what + ": another shape")
    e.check(And(*[e.eq(A[i, j], dense[i][j]) for i in range(len(dense))
                  for j in range(len(dense[0]))]), what)


def zero_rows(m, n, k):
    def fn(e):
        M, dense, rows, _ = mat(e, "a", m, n, k)
        with Ctx(e):
            R = L.drop_zero_rows(M)
        same(e, R, [dense[i] for i in rows], "dropping empty rows changes "
             "the remaining rows") if rows else e.check(
                 R.shape[0] == 0, "rows remain")
        e.witness("reached")
    return fn


def order(m, n, k):
    def fn(e):
        M, dense, _, ent = mat(e, "a", m, n, k)
        with Ctx(e):
            R = L.canonical_order(M)
        same(e, R, dense, "sorting the entries changes the matrix")
        rc = list(zip((int(x) for x in R.row), (int(x) for x in R.col)))
        e.check(rc == sorted(rc), "the entries are not sorted")
        e.check(len(R.data) == k, "an entry is lost")
        e.witness("reached")
    return fn


def expand(n, k, style):
    def fn(e):
        c = [int(e.int(f"c{i}", 0, n - 1)) for i in range(k)]
        e.assume(len(set(c)) == k)
        v = [e.coef(f"v{i}") for i in range(k)]
        V = coo(e, v, [0] * k, c, (1, n))
        with Ctx(e):
            R = U.expand_sparse_vec(V, conversion_style=style)
        x = [e.real(f"x{i}") for i in range(n)]
        if style != "eq":
            x[0] = 1
        e.check(tuple(R.shape) == (k, n), "wrong shape")
        A = R.toarray()
        t = [dot({j: A[i, j] for j in range(n)}, x) for i in range(k)]
        for i in range(k):
            if style == "eq":
                e.check(e.eq(t[i], x[c[i]]), "a fixed value is not turned "
                        "into its row")
            elif style == "lb":
                e.check(iff(e, e.le(0, t[i]), e.le(v[i], x[c[i]])),
                        "a lower bound is turned into another inequality")
            else:
                e.check(iff(e, e.le(0, t[i]), e.le(x[c[i]], v[i])),
                        "an upper bound is turned into another inequality")
        e.witness("reached")
    return fn


def stack(fmt):
    def fn(e):
        n = 2
        sizes = e.pick("sizes", [(1, 2), (0, 2), (2, 0), (0, 0), (1, 0, 1),
                                 (0, 1, 1)])
        other = bool(e.bool("csr block")) if fmt == "csr" else False
        blocks, dense = [], []
        for b, m in enumerate(sizes):
            if m:
                M, d, _, _ = mat(e, f"b{b}_", m, n, 2)
                if other and b == 0:
                    M = M.tocsr()
            else:
                M, d = coo(e, [], [], [], (0, n)), []
            blocks.append(M)
            dense += d
        with Ctx(e):
            R = U.vstack(tuple(blocks), format=fmt)
        e.check(R.format == fmt, "another format than asked for")
        same(e, R, dense, "stacking changes an entry")
        e.witness("reached")
    return fn


NAMES = ["1", "b", "a"]
FORMS = ["dict", "dict, variables not given", "matrix", "mixed",
         "mixed2"]
INEQ = [[["1", "b"], ["a"]], [], [["a", "1", "b"]], None]
EQ = [[["b", "a"]], [[], ["1", "a"]], [], None]
SEMI = [None, [("a", "b")], [("b", "a"), ("a", "1")]]
KN = [["1"], ["b", "1"], None]
LB = [None, ["a"], ["b", "a"]]
UB = [None, ["b"], ["a", "b"]]
OBJ = [["b"], ["1", "a"], None]
ALL = (FORMS, INEQ, EQ, SEMI, KN, LB, UB, OBJ, [False, True])


def solve(t):
    cases = covering(*ALL, t=t)

    def fn(e):
        form, ineq, eq, semi, kn, lb, ub, obj, dual = (
            a[i] for a, i in zip(ALL, e.pick("case", cases)))
        if not (ineq or eq or kn):
            e.assume(False)
        d = {k: None if v is None else [
            {x: e.coef(f"{k}{i}_{x}") for x in row}
            for i, row in enumerate(v)]
            for k, v in dict(inequalities=ineq, equalities=eq).items()}
        for k, v in dict(known_vars=kn, lower_bounds=lb, upper_bounds=ub,
                         objective=obj).items():
            d[k] = None if v is None else {x: e.coef(f"{k}_{x}") for x in v}
        sk = None if semi is None else {x: (e.coef(f"semi_{x}"), y)
                                        for x, y in semi}
        args = {}
        which = {"dict": [], "dict, variables not given": [],
                 "matrix": list(d), "mixed": ["inequalities", "known_vars",
                                              "upper_bounds"],
                 "mixed2": ["equalities", "objective", "lower_bounds"]}[form]
        if form == "matrix" and sk:
            e.assume(False)      # only dictionaries describe these
        for k, v in d.items():
            if v is None:
                continue
            if k in which:
                rows = v if isinstance(v, list) else [v]
                ent = [(i, NAMES.index(x), a) for i, r in enumerate(rows)
                       for x, a in r.items()][::-1]
                args[k] = coo(e, [a for *_, a in ent], [i for i, *_ in ent],
                              [j for _, j, _ in ent],
                              (len(rows), len(NAMES)))
            else:
                args[k] = [dict(r) for r in v] if isinstance(v, list) \
                    else dict(v)
        if sk:
            args["semiknown_vars"] = dict(sk)
        if form != "dict, variables not given":
            args["variables"] = list(NAMES)
        dicts = {k: repr(v) for k, v in args.items()
                 if isinstance(v, (dict, list))}
        with Ctx(e) as M:
            res = L.solveLP(**args, solve_dual=dual)
        e.check(len(M.tasks) == 1, "not exactly one task is solved")
        e.check(dicts == {k: repr(v) for k, v in args.items() if k in dicts},
                "the description passed is modified")
        names = list(res["x"])
        used = {x for k, v in d.items() if v for r in (
            v if isinstance(v, list) else [v]) for x in r}
        used |= {x for k, v in (sk or {}).items() for x in (k, v[1])}
        e.check(used <= set(names) and len(set(names)) == len(names),
                "a variable of the program is not a variable of the task")
        ix = {x: i for i, x in enumerate(names)}
        dd = {}
        for k, v in d.items():
            v = v if v is not None else (
                [] if k in ("inequalities", "equalities") else {})
            dd[k] = [{ix[x]: a for x, a in r.items()} for r in v] \
                if isinstance(v, list) else {ix[x]: a for x, a in v.items()}
        dd["equalities"] = dd["equalities"] + [
            {ix[x]: 1, ix[y]: -a} for x, (a, y) in (sk or {}).items()]
        compare(e, M.tasks[0], dd, len(names), dual, True, False, False)
    return fn


def obligations(tier):
    symsparse.self_test()
    big = tier == "thorough"
    k = 4 if big else 3
    obs = [
        Obligation("drop_zero_rows", "zero_rows", dict(m=3, n=2, k=k),
                   ["lp_utils.drop_zero_rows"],
                   f"3x2 matrices, {k} stored numbers at all positions",
                   parallel=True, depth=3, fallback=dict(m=3, n=2, k=2)),
        Obligation("canonical_order", "order", dict(m=2, n=2, k=k),
                   ["lp_utils.canonical_order"],
                   f"2x2 matrices, {k} stored numbers at all positions",
                   parallel=True, depth=3, fallback=dict(m=2, n=2, k=2)),
    ]
    for style in ("eq", "lb", "ub"):
        obs.append(Obligation(
            f"expand_sparse_vec {style}", "expand",
            dict(n=4, k=3, style=style), ["utils.expand_sparse_vec"],
            "vectors of 4 columns with 3 stored numbers, all columns (the "
            "constant one too) and all numbers",
            fallback=dict(n=3, k=2, style=style)))
    for fmt in ("coo", "csr", "csc"):
        obs.append(Obligation(
            f"vstack {fmt}", "stack", dict(fmt=fmt), ["utils.vstack"],
            "up to 3 blocks with up to 2 rows and 2 stored numbers, also "
            "empty ones", parallel=True, depth=4))
    obs.append(Obligation(
        "solveLP forms", "solve", dict(t=4 if big else 3),
        ["lp_utils.solveLP", "lp_utils.convert_dicts", "lp_utils.to_sparse",
         "lp_utils.solveLP_sparse"],
        "3 variables; dictionaries, matrices and mixtures; with and without "
        "each argument; all numbers; all points", parallel=True, depth=3,
        fallback=dict(t=1)))
    return obs
