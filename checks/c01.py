"""C01: canonical form of operator products."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
import inflation.sdp.fast_npa as F

EXPLANATION = (
    "Symbolic execution of the real canonicalisation code on words of "
    "symbolic letters under a symbolic commutation relation and symbolic "
    "orthogonality classes; z3 decides on every path that the result is the "
    "trace-monoid normal form of the reduced word.")
ASSUMPTIONS = [
    "numba's JIT is off during exploration (the replay runs it jitted)",
    "letters of one orthogonality class are contiguous in the operator order "
    "and have the same commutation relations (C02 checks that real problems "
    "provide this)",
    "the zero operator (letter 0) is never part of an input word"]
OUTSIDE = "longer words and larger alphabets"

FUNCS = ["fast_npa.to_canonical_1d_internal", "fast_npa.nb_lexmon_to_canonical",
         "fast_npa.lexmon_is_zero", "fast_npa.remove_projector_squares"]


def setup(e, n, L, ortho=True):
    N = n + 1
    nc = [[False] * N for _ in range(N)]
    om = [[False] * N for _ in range(N)]
    for i in range(1, N):
        for j in range(i + 1, N):
            nc[i][j] = nc[j][i] = e.bool(f"notcomm_{i}_{j}")
    if ortho:
        tw = {i: e.bool(f"sameclass_{i}_{i+1}") for i in range(1, n)}
        for i in range(1, N):
            for j in range(i + 1, N):
                o = And(*[tw[k] for k in range(i, j)])
                om[i][j] = om[j][i] = o
                e.assume(Implies(o, And(Not(nc[i][j]), *[
                    Iff(nc[i][k], nc[j][k]) for k in range(1, N)
                    if k not in (i, j)])))
    w = [e.int(f"w{i}", 1, n) for i in range(L)]
    return nc, om, w


def look(m, a, b):
    """m[a][b] for symbolic letters, independent of the array proxies."""
    n = len(m)
    return Or(*[And(a == i, b == j, m[i][j]) for i in range(1, n)
                for j in range(1, n)])


def dep(nc, a, b):
    return Or(a == b, look(nc, a, b))


def trace_equal(nc, u, keep, w):
    """The kept letters of u and the word w are the same trace."""
    L, M = len(u), len(w)
    cond = []
    # occurrence number of position i among equal kept letters
    def occ(ws, kp, i):
        return sum([ite(And(ws[k] == ws[i], kp[k]), 1, 0)
                    for k in range(i)], 0)
    one = [True] * M
    ou = [occ(u, keep, i) for i in range(L)]
    ow = [occ(w, one, j) for j in range(M)]
    match = [[And(keep[i], u[i] == w[j], ou[i] == ow[j]) for j in range(M)]
             for i in range(L)]
    for i in range(L):
        cond.append(Implies(keep[i], Or(*match[i])))
    for j in range(M):
        cond.append(Or(*[match[i][j] for i in range(L)]))
    pos = [sum([ite(match[i][j], j, 0) for j in range(M)], 0)
           for i in range(L)]
    for i in range(L):
        for k in range(i + 1, L):
            cond.append(Implies(And(keep[i], keep[k], dep(nc, u[i], u[k])),
                                pos[i] < pos[k]))
    return And(*cond)


def reduced(nc, om, u):
    """Which letters survive idempotence, and whether the word is zero."""
    L = len(u)
    keep, zero = [], []
    for j in range(L):
        red = []
        for i in range(j):
            free = And(*[Not(look(nc, u[i], u[k]))
                         for k in range(i + 1, j)])
            red.append(And(u[i] == u[j], free))
            zero.append(And(look(om, u[i], u[j]), free))
        keep.append(Not(Or(*red)))
    return keep, Or(*zero)


def canon(e, w, nc, om, commuting, only):
    return list(F.to_canonical_1d_internal(
        e.arr(w, np.intc), e.arr(nc, bool), e.arr(om, bool), commuting, only))


def reorder(n, L):
    """Commutations alone: the result is the same product, and every allowed
    exchange of neighbours leaves it unchanged."""
    def fn(e):
        nc, om, w = setup(e, n, L, ortho=False)
        with e.patch(F):
            out = canon(e, w, nc, om, False, True)
        e.check(trace_equal(nc, w, [True] * L, out),
                "the canonical word is not the same operator product")
        e.witness("reordered", Or(*[a != b for a, b in zip(w, out)]))
        e.witness("blocked", And(Not(look(nc, w[0], w[1])) if L < 2 else
                                 look(nc, w[0], w[1]), w[0] > w[1]))
    return fn


def swap(n, L):
    def fn(e):
        nc, om, w = setup(e, n, L, ortho=False)
        i = e.int("swap_at", 0, L - 2)
        i = int(i)
        e.assume(And(Not(look(nc, w[i], w[i + 1])), w[i] < w[i + 1]))
        v = list(w)
        v[i], v[i + 1] = v[i + 1], v[i]
        with e.patch(F):
            a = canon(e, w, nc, om, False, True)
            b = canon(e, v, nc, om, False, True)
        e.check(len(a) == len(b) and And(*[x == y for x, y in zip(a, b)]),
                "two orderings of the same product get different canonical "
                "forms")
        e.witness("swap")
    return fn


def full(n, L):
    """Commutation, idempotence and orthogonality together."""
    def fn(e):
        nc, om, w = setup(e, n, L)
        with e.patch(F):
            out = canon(e, w, nc, om, False, False)
        keep, zero = reduced(nc, om, w)
        is0 = len(out) == 1 and out[0] == 0
        e.check(Iff(zero, is0) if e.symbolic else bool(zero) == bool(is0),
                "a product is declared zero although it need not vanish, or "
                "a vanishing product is not recognised")
        e.check(Or(zero, trace_equal(nc, w, keep, out)),
                "the reduced product differs from the input product")
        e.witness("zero", zero)
        e.witness("squares removed", And(Not(zero), Or(*map(Not, keep))))
    return fn


def idem(n, L):
    """The canonical form of a reduced product is again canonical."""
    def fn(e):
        nc, om, w = setup(e, n, L)
        with e.patch(F):
            out = canon(e, w, nc, om, False, False)
            out2 = canon(e, out, nc, om, False, False)
        e.check(len(out) == len(out2) and
                And(*[x == y for x, y in zip(out, out2)]),
                "canonicalising twice changes the result")
        e.witness("reached")
    return fn


def comm(n, L):
    """All-commuting mode agrees with the general mode without
    non-commuting pairs."""
    def fn(e):
        nc, om, w = setup(e, n, L)
        zero_nc = [[False] * (n + 1) for _ in range(n + 1)]
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                e.assume(Not(nc[i][j]))
        with e.patch(F):
            out = canon(e, w, zero_nc, om, True, False)
            gen = canon(e, w, zero_nc, om, False, False)
        keep, zero = reduced(zero_nc, om, w)
        is0 = len(out) == 1 and out[0] == 0
        e.check(Iff(zero, is0) if e.symbolic else bool(zero) == bool(is0),
                "commuting mode: zero detection is wrong")
        e.check(Or(zero, trace_equal(zero_nc, w, keep, out)),
                "commuting mode: the product changed")
        e.check(len(out) == len(gen) and
                And(*[x == y for x, y in zip(out, gen)]),
                "commuting mode and general mode disagree")
        e.witness("reached")
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []

    def add(h, sizes):
        for n, L in sizes:
            obs.append(Obligation(
                f"{h} n={n} L={L}", h, dict(n=n, L=L), FUNCS,
                f"all words of length {L} over {n} letters, all symmetric "
                "commutation relations, all orthogonality classes",
                parallel=True, fallback=dict(n=3, L=min(L, 3))))
    add("reorder", [(4, 2), (4, 3), (4, 4)] + ([(5, 5)] if big else [(3, 5)]))
    add("full", [(4, 2), (4, 3), (4, 4)] + ([(4, 5)] if big else [(3, 5)]))
    add("swap", [(3, 3), (4, 4)] + ([(4, 5)] if big else []))
    add("idem", [(4, 3), (4, 4)] + ([(4, 5)] if big else []))
    add("comm", [(4, 4)] + ([(5, 5)] if big else []))
    return obs
