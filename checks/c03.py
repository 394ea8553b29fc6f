"""C03: products factorise into their source-disconnected parts."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib.symnp import wrap_arrays
from vlib import scen
from vlib.env import mod
import inflation.sdp.fast_npa as F

P = mod("InflationProblem")

EXPLANATION = (
    "The overlap and connected-component code is executed on symbolic copy "
    "indices and symbolic graphs, and factorize_monomial_1d/2d of real "
    "problems on products of symbolic operators; on every path z3 compares "
    "the factors with the connected components of the relation 'shares a "
    "copy of a source'.")
ASSUMPTIONS = ["a product given to a problem consists of operators of that "
               "problem"]
OUTSIDE = "longer products, larger problems"


def closure(adj):
    n = len(adj)
    r = [[True if i == j else adj[i][j] for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [[Or(r[i][j], And(r[i][k], r[k][j])) for j in range(n)]
             for i in range(n)]
    return r


def same(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


def overlap(n, S, C):
    def fn(e):
        v = [[e.int(f"v{i}_{s}", 0, C) for s in range(S)] for i in range(n)]
        with e.patch(F):
            m = F.nb_overlap_matrix(e.arr(v, np.uint8))
            x = F.nb_exists_shared_source(e.arr(v[0], np.uint8),
                                          e.arr(v[1], np.uint8))
        share = [[Or(*[And(v[i][s] != 0, v[i][s] == v[j][s])
                       for s in range(S)]) for j in range(n)]
                 for i in range(n)]
        e.check(same(e, x, share[0][1]), "sharing of a source copy between "
                "two operators is wrong")
        for i in range(n):
            for j in range(n):
                if i == j:
                    e.check(m[i, j], "the overlap matrix is not reflexive")
                else:
                    e.check(same(e, m[i, j], share[i][j]),
                            "an entry of the overlap matrix is wrong")
        e.witness("sharing", share[0][1])
        e.witness("not sharing", Not(share[0][1]))
    return fn


def components(n):
    def fn(e):
        a = [[True] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                a[i][j] = a[j][i] = e.bool(f"adj_{i}_{j}")
        with e.patch(F):
            lab = F.nb_classify_disconnected_components(e.arr(a, bool))
        r = closure(a)
        for i in range(n):
            for j in range(i + 1, n):
                e.check(same(e, lab[i] == lab[j], r[i][j]),
                        "two positions are in one component although not "
                        "connected, or connected but in different ones")
        top = max(int(x) for x in lab)
        for k in range(top + 1):
            e.check(Or(*[x == k for x in lab]),
                    "component labels are not consecutive from zero")
        e.witness("one component", And(*[x == 0 for x in lab]))
        e.witness("many components", Not(And(*[x == 0 for x in lab])))
    return fn


def chains(n, sym):
    """Long chains in every order of the positions."""
    import itertools

    def fn(e):
        perm = []
        for k in range(n):
            v = e.int(f"p{k}", 0, n - 1)
            for u in perm:
                e.assume(v != u)
            perm.append(int(v))
        e.assume(perm[0] < perm[-1])
        a = [[i == j for j in range(n)] for i in range(n)]
        for k in range(n - 1):
            x = e.bool(f"edge{k}") if sym or k == n - 2 else True
            i, j = perm[k], perm[k + 1]
            a[i][j] = a[j][i] = x
        with e.patch(F):
            lab = F.nb_classify_disconnected_components(e.arr(a, bool))
        for k in range(n):
            for m in range(k + 1, n):
                e.check(same(e, lab[perm[k]] == lab[perm[m]],
                             And(*[a[perm[q]][perm[q + 1]]
                                   for q in range(k, m)])),
                        "two positions are in one component although not "
                        "connected, or connected but in different ones")
        e.witness("reached")
    return fn


def monomial_components(L, S, C):
    """nb_monomial_to_components on arbitrary operators."""
    def fn(e):
        ops = [[e.int(f"party{k}", 1, 3)]
               + [e.int(f"c{k}_{s}", 0, C) for s in range(S)]
               + [e.int(f"set{k}", 0, 1), e.int(f"out{k}", 0, 1)]
               for k in range(L)]
        with e.patch(F):
            lab = F.nb_monomial_to_components(e.arr(ops, np.uint8))
        share = [[Or(*[And(a[1 + s] != 0, a[1 + s] == b[1 + s])
                       for s in range(S)]) for b in ops] for a in ops]
        r = closure(share)
        for i in range(L):
            for j in range(i + 1, L):
                e.check(same(e, lab[i] == lab[j], r[i][j]),
                        "components of a product are wrong")
        e.witness("reached")
    return fn


def real(shape, L, lo=1, hi=2, mode="1d"):
    def fn(e):
        kw = scen.kw(shape)
        n = len(kw["inflation_level_per_source"])
        kw["inflation_level_per_source"] = [
            int(e.int(f"level{s}", lo, hi)) for s in range(n)]
        key = tuple(kw["inflation_level_per_source"])
        if key not in CACHE.setdefault((shape, mode), {}):
            CACHE[shape, mode][key] = scen.problem(**kw)
        prob = CACHE[shape, mode][key]
        lexn = np.asarray(prob._lexorder, dtype=int)
        N, S = len(lexn), n
        w = [e.int(f"op{i}", 0, N - 1) for i in range(L)]
        if e.symbolic and mode != "2d":
            wrap_arrays(prob)
        with e.patch(*([] if mode == "2d" else [F, P])):
            if mode == "2d":
                # a 2d product names the operators by their rows
                rows = lexn[[int(i) for i in w]].astype(prob._np_dtype)
                out = prob.factorize_monomial_2d(rows)
                out = [[int(np.flatnonzero((lexn == np.asarray(
                    o, dtype=int)).all(axis=1))[0]) for o in f] for f in out]
                w = [int(i) for i in w]
            elif mode == "ordered":
                out = prob.factorize_monomial_1d(e.arr(w, np.intc),
                                                 canonical_order=True)
            else:
                out = prob.factorize_monomial_1d(e.arr(w, np.intc))
        out = [list(f) for f in out]
        lex = e.table("lexorder", lexn)

        def share(a, b):
            return Or(*[And(lex(a, 1 + s) != 0,
                            lex(a, 1 + s) == lex(b, 1 + s))
                        for s in range(S)])
        adj = [[share(a, b) for b in w] for a in w]
        r = closure(adj)
        r = [[bool(r[i][j]) for j in range(L)] for i in range(L)]
        exp = []
        seen = set()
        for i in range(L):
            if i not in seen:
                c = [j for j in range(L) if r[i][j]]
                seen |= set(c)
                exp.append([w[j] for j in c])
        out = [f for f in out if len(f)]
        e.check(len(out) == len(exp), "the number of factors of a product "
                "is not the number of its source-disconnected parts")
        for c in exp:
            e.check(Or(*[And(*[x == y for x, y in zip(c, f)]) for f in out
                         if len(f) == len(c)]),
                    "a source-disconnected part is not a factor (with its "
                    "operators in the order of the product)")
        e.witness("reached")
        if hi > 1 and L > 1:
            e.witness("one factor", len(out) == 1)
            e.witness("several factors", len(out) > 1)
    return fn


CACHE = {}


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for n, S, C in [(3, 2, 2), (3, 3, 2)] + ([(4, 3, 3)] if big else []):
        obs.append(Obligation(
            f"overlap n={n} S={S} C={C}", "overlap", dict(n=n, S=S, C=C),
            ["fast_npa.nb_overlap_matrix", "fast_npa.nb_exists_shared_source"],
            f"all {n} copy-index vectors of {S} sources, indices 0..{C}",
            parallel=True, fallback=dict(n=3, S=2, C=2)))
    for n, sym in [(6, False)] + ([(6, True), (7, False)] if big else []):
        obs.append(Obligation(
            f"chains n={n}" + " with gaps" * sym, "chains",
            dict(n=n, sym=sym),
            ["fast_npa.nb_classify_disconnected_components"],
            f"all chains on {n} positions, in every order of the positions"
            + (", every edge may be missing" if sym else
               ", the last edge may be missing"), parallel=True, depth=6))
    for n in [3, 4] + ([5] if big else []):
        obs.append(Obligation(
            f"components n={n}", "components", dict(n=n),
            ["fast_npa.nb_classify_disconnected_components"],
            f"all graphs on {n} positions", parallel=n > 3,
            fallback=dict(n=min(n, 4))))
    obs.append(Obligation(
        "monomial components", "monomial_components",
        dict(L=4 if big else 3, S=2, C=2),
        ["fast_npa.nb_monomial_to_components"],
        "all products of 3 (thorough: 4) operators, 2 sources, 2 copies",
        parallel=True, fallback=dict(L=3, S=2, C=1)))
    fr = ["InflationProblem.factorize_monomial_1d",
          "InflationProblem.factorize_monomial_2d",
          "InflationProblem.__init__ (ever_factorizes, overlap tables)"]
    for shape, L, hi in [("bell", 3, 2), ("bilocal", 3, 2),
                         ("triangle", 3, 2), ("latent", 3, 2),
                         ("evans", 3, 2)] + (
            [("triangle", 4, 3), ("bilocal", 4, 2), ("bilocal_hybrid", 4, 3), ("chain", 4, 2),
             ("instrumental", 4, 3)] if big else []):
        obs.append(Obligation(
            f"real {shape} L={L} levels<={hi}", "real",
            dict(shape=shape, L=L, hi=hi), fr,
            f"all products of {L} operators, every inflation level 1..{hi} "
            "of every source", parallel=True, depth=6,
            fallback=dict(shape=shape, L=2, hi=2)))
    obs.append(Obligation(
        "real bilocal 2d", "real", dict(shape="bilocal", L=2, mode="2d"), fr,
        "all products of 2 operators given as arrays", parallel=True, depth=6))
    obs.append(Obligation(
        "real bilocal ordered", "real",
        dict(shape="bilocal", L=2, mode="ordered"), fr,
        "all products of 2 operators, factors in canonical order",
        parallel=True, depth=6))
    return obs
