"""C02: commutation and orthogonality follow the causal structure."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib import scen
import inflation.sdp.fast_npa as F
from inflation import InflationSDP

EXPLANATION = (
    "The pairwise commutation rule is executed on two symbolic operators and "
    "symbolic source codes and compared by z3 with the rule derived from the "
    "causal structure; the matrices of real problems over forked "
    "classical/quantum patterns are compared at symbolic positions.")
ASSUMPTIONS = ["operators given to the rule belong to one scenario: a copy "
               "index is non-zero exactly for the sources of the party"]
OUTSIDE = "more parties, sources, copies than stated; other DAG shapes"


def rule(P, S, C):
    """nb_operators_commute on arbitrary operators and codes."""
    def fn(e):
        codes = [[[None] * S for _ in range(P)] for _ in range(P)]
        for p in range(P):
            for q in range(p, P):
                for s in range(S):
                    codes[p][q][s] = codes[q][p][s] = e.int(
                        f"code_{p}_{q}_{s}", 0, 2)
        ops = []
        for k in range(2):
            p = e.int(f"party{k}", 1, P)
            c = [e.int(f"copy{k}_{s}", 0, C) for s in range(S)]
            # a source of the party has a copy index, others have none
            for s in range(S):
                for x in range(P):
                    e.assume(Implies(p == x + 1, And(
                        Implies(codes[x][x][s] >= 1, c[s] >= 1),
                        Implies(Or(*[codes[x][y][s] >= 1 for y in range(P)]),
                                c[s] >= 1))))
            ops.append([p] + c + [e.int(f"setting{k}", 0, 2),
                                  e.int(f"outcome{k}", 0, 2)])
        a, b = ops
        with e.patch(F):
            r = F.nb_operators_commute(e.arr(a, np.uint8), e.arr(b, np.uint8),
                                       e.arr(codes, np.uint8))
            r2 = F.nb_operators_commute(e.arr(b, np.uint8),
                                        e.arr(a, np.uint8),
                                        e.arr(codes, np.uint8))
        cs = [sum([ite(And(a[0] == x + 1, b[0] == y + 1), codes[x][y][s], 0)
                   for x in range(P) for y in range(P)], 0) for s in range(S)]
        quantum = Or(*[And(cs[s] == 2, a[1 + s] == b[1 + s])
                       for s in range(S)])
        same = And(*[Implies(cs[s] >= 1, a[1 + s] == b[1 + s])
                     for s in range(S)])
        commute = Or(Not(quantum), And(same, Or(a[0] != b[0],
                                                a[-2] == b[-2])))
        r = r if e.symbolic else bool(r)
        e.check(Iff(r, commute) if e.symbolic else r == bool(commute),
                "the commutation of two operators is not the one their "
                "sources imply")
        e.check(Iff(r, r2) if e.symbolic else r == bool(r2),
                "commutation is not symmetric")
        e.witness("commuting", r)
        e.witness("not commuting", Not(r))
    return fn


def matrix(P, S, C, n):
    """commutation_matrix of n arbitrary operators."""
    def fn(e):
        codes = [[[e.int(f"code_{min(p,q)}_{max(p,q)}_{s}", 0, 2)
                   if p <= q else None for s in range(S)] for q in range(P)]
                 for p in range(P)]
        for p in range(P):
            for q in range(p):
                codes[p][q] = codes[q][p]
        ops = [[e.int(f"party{k}", 1, P)]
               + [e.int(f"copy{k}_{s}", 0, C) for s in range(S)]
               + [e.int(f"setting{k}", 0, 1), e.int(f"outcome{k}", 0, 1)]
               for k in range(n)]
        i = int(e.int("row", 0, n - 1))
        j = int(e.int("col", 0, n - 1))
        with e.patch(F):
            lex = e.arr(ops, np.uint8)
            cc = e.arr(codes, np.uint8)
            m = F.commutation_matrix(lex, cc, False)
            z = F.commutation_matrix(lex, cc, True)
        for x in range(n):
            for y in range(n):
                e.check(Not(z[x, y]), "commuting mode has a non-commuting "
                        "pair")
        if i == j:
            e.check(Not(m[i, i]), "an operator does not commute with itself")
        else:
            a, b = ops[i], ops[j]
            cs = [sum([ite(And(a[0] == x + 1, b[0] == y + 1),
                           codes[x][y][s], 0)
                       for x in range(P) for y in range(P)], 0)
                  for s in range(S)]
            quantum = Or(*[And(cs[s] == 2, a[1 + s] == b[1 + s])
                           for s in range(S)])
            same = And(*[Implies(cs[s] >= 1, a[1 + s] == b[1 + s])
                         for s in range(S)])
            nc = And(quantum, Not(And(same, Or(a[0] != b[0],
                                               a[-2] == b[-2]))))
            e.check(Iff(m[i, j], nc) if e.symbolic
                    else bool(m[i, j]) == bool(nc),
                    "an entry of the commutation matrix is wrong")
        e.witness("reached")
    return fn


def real(shape):
    """The matrices of real problems, for every classical/quantum pattern."""
    def fn(e):
        kw = scen.kw(shape)
        kw.pop("classical_sources", None)
        srcs = scen.Spec(**{k: v for k, v in kw.items()}).sources
        cl = [s for s in srcs if bool(e.bool(f"classical_{s}"))]
        lat = list(kw.pop("nonclassical_intermediate_latents", [])) + \
            list(kw.pop("classical_intermediate_latents", []))
        ql = [x for x in lat if bool(e.bool(f"quantum_{x}"))]
        for x in ql:
            par = [s for s in srcs if x in kw["dag"][s]]
            if all(s in cl for s in par):
                e.assume(False)      # refused by the constructor
        kw.update(classical_sources=cl, nonclassical_intermediate_latents=ql,
                  classical_intermediate_latents=[x for x in lat
                                                  if x not in ql])
        prob = scen.problem(**kw)
        sp = scen.Spec(**kw)
        n = prob._nr_operators
        S, P = len(srcs), len(sp.names)
        sdp = InflationSDP(prob)
        e.check(prob._default_notcomm.shape == (n, n) and
                sdp._notcomm.shape == (n + 1, n + 1) and
                sdp._orthomat.shape == (n + 1, n + 1), "wrong shapes")
        lex = e.table("lexorder", np.asarray(prob._lexorder, dtype=int))
        code = e.table("code", np.array(sp.code))
        nc = e.table("notcomm", np.asarray(prob._default_notcomm, dtype=bool))
        snc = e.table("sdp_notcomm", np.asarray(sdp._notcomm, dtype=bool))
        om = e.table("ortho", np.asarray(sdp._orthomat, dtype=bool))
        i, j = e.int("i", 0, n - 1), e.int("j", 0, n - 1)
        a = [lex(i, k) for k in range(S + 3)]
        b = [lex(j, k) for k in range(S + 3)]
        cs = [code(a[0] - 1, b[0] - 1, s) for s in range(S)]
        quantum = Or(*[And(cs[s] == 2, a[1 + s] == b[1 + s])
                       for s in range(S)])
        same = And(*[Implies(cs[s] >= 1, a[1 + s] == b[1 + s])
                     for s in range(S)])
        spec = And(quantum, Not(And(same, Or(a[0] != b[0],
                                             a[-2] == b[-2]))))
        orth = And(*[x == y for x, y in zip(a[:-1], b[:-1])],
                   a[-1] != b[-1])

        def iff(x, y):
            return Iff(x, y) if e.symbolic else bool(x) == bool(y)
        e.check(iff(nc(i, j), spec), "two operators of the problem do not "
                "have the commutation relation of the causal structure")
        e.check(iff(snc(i + 1, j + 1), spec), "two operators of the "
                "semidefinite program do not have the commutation relation "
                "of the causal structure")
        e.check(iff(om(i + 1, j + 1), orth), "orthogonality is not that of "
                "different outcomes of one measurement")
        e.check(And(om(0, i + 1), om(i + 1, 0), Not(snc(0, i + 1)),
                    Not(snc(i + 1, 0)), Not(snc(0, 0))),
                "the zero operator has wrong relations")
        e.check(bool(sdp.all_operators_commute) ==
                (not np.asarray(sdp._notcomm).any()),
                "the all-commuting flag is wrong")
        e.witness("reached")
        if P > 1:
            e.witness("orthogonal", orth)
    return fn


def obligations(tier):
    big = tier == "thorough"
    f1 = ["fast_npa.nb_operators_commute"]
    obs = []
    for P, S, C in [(1, 2, 2), (2, 2, 3), (2, 3, 2)] + \
            ([(3, 3, 3)] if big else []):
        obs.append(Obligation(
            f"rule P={P} S={S} C={C}", "rule", dict(P=P, S=S, C=C), f1,
            f"all pairs of operators of {P} parties, {S} sources with {C} "
            "copies, 3 settings, 3 outcomes, all source codes",
            fallback=dict(P=min(P, 2), S=2, C=2)))
    for P, S, C, n in [(2, 2, 2, 3)] + ([(2, 3, 2, 4)] if big else []):
        obs.append(Obligation(
            f"matrix P={P} S={S} n={n}", "matrix", dict(P=P, S=S, C=C, n=n),
            ["fast_npa.commutation_matrix"] + f1,
            f"all lists of {n} operators", parallel=True,
            fallback=dict(P=1, S=2, C=2, n=2)))
    for shape in ["bell", "bilocal", "triangle", "latent", "evans", "direct_latent",
                  "collider"] + (
            ["triangle_mixed", "latent_c", "chain", "instrumental_inf"]
            if big else []):
        obs.append(Obligation(
            f"real {shape}", "real", dict(shape=shape),
            ["InflationProblem.__init__", "InflationSDP.__init__",
             "fast_npa.commutation_matrix", "fast_npa.nb_operators_commute"],
            "all classical/quantum patterns of the sources and intermediate "
            "latents of this DAG, all pairs of operators", parallel=True,
            depth=2))
    return obs
