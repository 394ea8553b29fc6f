"""C19: default lower bounds of semidefinite programs, and physicality."""
import warnings
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib import scen, prog
from vlib.env import mod
from checks.c07 import classes, Map
from checks.c03 import wrap_arrays
import inflation.sdp.fast_npa as F
MC = mod("sdp.monomial_classes")
SP = mod("sdp.InflationSDP")
QT = mod("sdp.quantum_tools")

EXPLANATION = (
    "A product of projectors that equals its reversal under commutation has "
    "the form U C U* with C a product of commuting projectors, so it is "
    "positive. For the moments of real programs z3 is asked for one, at a "
    "symbolic entry of the moment matrix, that is bounded below by zero "
    "although its product is not of this form, or is not bounded although "
    "all its operators commute; the form is decided from the causal structure "
    "alone. The real test of a moment is executed symbolically on words of "
    "symbolic operators, and nb_is_physical on products with symbolic "
    "parties, copies and settings, against the definition.")
ASSUMPTIONS = [
    "products that do not have the form U C U* are not positive: the check "
    "does not look for other reasons why a moment cannot be negative",
    "the variables of the moment matrix are right (C07)"]
OUTSIDE = "longer products, other scenarios and generating sets"


def positive(can, w):
    w = can._reduce(tuple(w))
    return w is None or w == can._reduce(w[::-1])


def commute(sp, w):
    return not any(sp.notcomm(a, b) for a in w for b in w)


def bounds(name, opts, cols, reset):
    opts = dict(opts)

    def fn(e):
        p, M, keys, moments, can = classes("sdp", name, opts, cols)
        p = prog.fresh("sdp", name, columns=cols, **opts)
        if reset:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p.set_bounds({p.moments[-1]: 0.125}, "lo")
                p.reset(reset)
        n = len(M)
        mm = np.asarray(p.momentmatrix).astype(int)
        low = np.full(int(mm.max()) + 1, -1.)
        for idx, m in p.compmoment_from_idx.items():
            if m in p.moment_lowerbounds:
                low[idx] = p.moment_lowerbounds[m]
        e.check(set(p.moment_lowerbounds)
                <= set(p.compmoment_from_idx.values()),
                "a bounded moment is not in the matrix")
        pos = np.zeros(int(M.max()) + 1, dtype=int)
        com = np.zeros(int(M.max()) + 1, dtype=int)
        for x, w in keys.items():
            pos[x] = positive(can, w)
            com[x] = commute(can.sp, w)
        cls, var = e.table("class", M), e.table("variable", mm)
        bnd = e.table("bounded", (low >= 0).astype(int))
        off = e.table("positive bound", (low > 0).astype(int))
        tp, tc = e.table("positive", pos), e.table("commuting", com)
        known = np.zeros(len(low), dtype=int)
        for idx, m in p.compmoment_from_idx.items():
            known[idx] = m in p.known_moments
        kn = e.table("has a value", known)
        i, j = e.int("i", 0, n - 1), e.int("j", 0, n - 1)
        e.assume(And(cls(i, j) != 0, kn(var(i, j)) == 0))
        e.check(Or(bnd(var(i, j)) == 0, tp(cls(i, j)) == 1),
                "a moment is bounded below by zero although its operator "
                "need not be positive")
        e.check(Or(bnd(var(i, j)) == 1, tc(cls(i, j)) == 0),
                "a moment of commuting operators has no lower bound")
        e.check(off(var(i, j)) == 0, "a default bound is not zero")
        e.witness("bounded", bnd(var(i, j)) == 1)
        if not com[1:].all():
            e.witness("not commuting", tc(cls(i, j)) == 0)
    return fn


def palindrome(e, nc, w):
    """Equal to its reversal under commutation: reversing sends the k-th
    occurrence of a letter to the k-th from the end."""
    L = len(w)
    occ = [sum([ite(w[k] == w[i], 1, 0) for k in range(i)], 0)
           for i in range(L)]
    back = [sum([ite(w[k] == w[i], 1, 0) for k in range(i + 1, L)], 0)
            for i in range(L)]
    mate = [sum([ite(And(w[j] == w[i], back[j] == occ[i]), j, 0)
                 for j in range(L)], 0) for i in range(L)]
    return And(*[Implies(nc(w[i], w[j]), mate[i] > mate[j])
                 for i in range(L) for j in range(i + 1, L)])


def words(name, opts, L):
    opts = dict(opts)

    def fn(e):
        p = prog.fresh("sdp", name, **opts)
        o = dict(opts)
        sp = scen.Spec(**scen.kw(name, **o.pop("problem", {})))
        ops = [tuple(int(v) for v in x) for x in p._lexorder]
        N = len(ops)
        rel = np.zeros((N, N), dtype=int)
        for a in range(1, N):
            for b in range(1, N):
                rel[a, b] = sp.notcomm(ops[a], ops[b])
        table = e.table("notcomm", rel)
        w = [e.int(f"w{k}", 1, N - 1) for k in range(L)]
        nc = lambda a, b: table(a, b) == 1
        # a product in reduced form: no letter meets an equal or orthogonal one
        ortho = np.zeros((N, N), dtype=int)
        for a in range(1, N):
            for b in range(1, N):
                ortho[a, b] = a == b or sp.ortho(ops[a], ops[b])
        tor = e.table("orthogonal", ortho)
        for i in range(L):
            for j in range(i + 1, L):
                between = [Or(nc(w[i], w[k]), nc(w[k], w[j]))
                           for k in range(i + 1, j)]
                e.assume(Or(tor(w[i], w[j]) == 0, *between))
        if e.symbolic and not e.enum:
            wrap_arrays(p)
            for k, v in vars(p).items():
                if isinstance(v, dict) and k.endswith("from_hash"):
                    setattr(p, k, Map())
        with e.patch(F, MC, SP, QT):
            arr = e.arr(w, np.intc)
            m = object.__new__(MC.InternalAtomicMonomialSDP)
            m.context = p
            m.as_lexmon = p._to_canonical_memoized_1d(arr)
            m.is_all_commuting = p.all_commuting_q_1d(arr)
            herm = m.is_hermitian
        com = And(*[Not(nc(a, b)) for k, a in enumerate(w) for b in w[:k]])
        e.check(Implies(bool(herm), palindrome(e, nc, w)), "a product counts "
                "as positive although it need not be")
        e.check(Or(bool(herm), Not(com)), "a product of commuting operators "
                "does not count as positive")
        if herm:
            e.witness("positive")
        else:
            e.witness("other")
    return fn


def physical(L, S, C, sandwich):
    def fn(e):
        part = [e.pick(f"party{k}", [1, 2]) for k in range(L)]
        ops = [[part[k]] + [e.int(f"c{k}_{s}", 0, C) for s in range(S)]
               + [e.int(f"set{k}", 0, 1), e.int(f"out{k}", 0, 1)]
               for k in range(L)]
        with e.patch(F):
            got = F.nb_is_physical(e.arr(ops, np.uint8),
                                   sandwich_positivity=sandwich)
        want = True
        for q in (1, 2):
            w = [o for o in ops if o[0] == q]
            n = len(w)
            r = [[a == b or bool(Or(*[And(w[a][1 + s] != 0,
                                          w[a][1 + s] == w[b][1 + s])
                                      for s in range(S)]))
                  for b in range(n)] for a in range(n)]
            for k in range(n):
                for a in range(n):
                    for b in range(n):
                        r[a][b] = r[a][b] or (r[a][k] and r[k][b])
            for a in range(n):
                if any(r[a][b] for b in range(a)):
                    continue
                f = [w[b] for b in range(n) if r[a][b]]
                while sandwich and len(f) > 1 and \
                        bool(And(*[x == y for x, y in zip(f[0], f[-1])])):
                    f = f[1:-1]
                if len(f) > 1:
                    want = False
        e.check(bool(got) == want, "a product is called physical although "
                "two operators of a party are left in a factor, or the other "
                "way round")
        if want:
            e.witness("physical")
        else:
            e.witness("other")
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    progs = [("bilocal", {}, "npa2", None), ("bell", {}, "npa3", None),
             ("bellinf", {}, "npa3", None), ("triangle", {}, "npa2", None),
             ("bell", {"include_all_outcomes": True}, "npa2", "all"),
             ("bilocal_hybrid", {}, "npa2", "lowerbounds"),
             ("bell_c", {}, "npa2", "bounds"),
             ("instrumental_inf", {}, "npa1", None),
             ("latent", {}, "npa2", None), ("evans", {}, "npa2", None)]
    if big:
        progs += [("triangle_mixed", {}, "npa2", None),
                  ("instrumental_inf", {}, "npa2", "bounds"),
                  ("collider", {}, "npa1", None), ("chain", {}, "npa2", None),
                  ("triangle", {}, "local1", None),
                  ("direct_latent", {}, "npa2", None),
                  ("bilocal", {}, "local1", "all")]
    for name, opts, cols, reset in progs:
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        obs.append(Obligation(
            f"bounds {name} {cols}{tail}"
            + (f" after reset({reset})" if reset else ""), "bounds",
            dict(name=name, opts=list(opts.items()), cols=cols, reset=reset),
            ["InflationSDP.generate_relaxation",
             "InternalAtomicMonomialSDP.is_hermitian",
             "CompoundMomentSDP.is_hermitian"],
            "all entries of the moment matrix of this program"))
    for name, opts, L in [("bell", {}, 3), ("bell", {}, 4),
                          ("bell3", {}, 4), ("bellinf", {}, 3),
                          ("bilocal", {}, 3)] \
            + ([("bellinf", {}, 4), ("bell", {}, 5), ("triangle", {}, 3)]
               if big else []):
        obs.append(Obligation(
            f"words {name} length={L}", "words",
            dict(name=name, opts=list(opts.items()), L=L),
            ["InternalAtomicMonomialSDP.is_hermitian",
             "InflationSDP._to_canonical_memoized_1d",
             "fast_npa.to_canonical_1d_internal", "fast_npa.reverse_mon"],
            "all non-zero products of this length", parallel=True, depth=4))
    for L, S, C in [(2, 2, 2), (3, 1, 2), (3, 2, 2)] \
            + ([(4, 1, 2), (4, 2, 2), (5, 1, 2)] if big else []):
        for sandwich in (True, False):
            obs.append(Obligation(
                f"physical length={L} sources={S} copies={C}"
                + ("" if sandwich else " no sandwiches"), "physical",
                dict(L=L, S=S, C=C, sandwich=sandwich),
                ["fast_npa.nb_is_physical", "fast_npa."
                 "nb_indices_of_more_than_one_op_per_party_per_factor",
                 "fast_npa.nb_monomial_to_components"],
                "all products of this length of two parties",
                parallel=True, depth=4))
    return obs
