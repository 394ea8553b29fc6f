"""C04: which moments are knowable."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib.symnp import wrap_arrays
from vlib import scen
from vlib.env import mod
import inflation.sdp.fast_npa as F
import inflation.lp.monomial_classes as M
import inflation.lp.numbafied as NB
from inflation import InflationLP, InflationSDP

P = mod("InflationProblem")
L = mod("lp.InflationLP")
S = mod("sdp.InflationSDP")

EXPLANATION = (
    "The knowability code is executed on products of symbolic operators: the "
    "copy/party test, the do-conditional test for scenarios with parents, the "
    "translation of effective to private settings, and the construction of "
    "moments of real linear and semidefinite programs.  z3 compares each with "
    "the definition of an observable event.")
ASSUMPTIONS = [
    "operators come from one scenario: a copy index is non-zero exactly for "
    "the sources of the party",
    "in the moment-level harnesses the names of moments are stubbed, as they "
    "play no part in knowability"]
OUTSIDE = "longer products, larger scenarios"


def iff(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


def event(sp, ops):
    """Spec: the product of the operators (lists of values, possibly
    symbolic) is an event of the original scenario."""
    n = len(sp.sources)
    cond = []
    for i, a in enumerate(ops):
        for b in ops[:i]:
            cond.append(a[0] != b[0])
            for s in range(n):
                cond.append(Or(a[1 + s] == 0, b[1 + s] == 0,
                               a[1 + s] == b[1 + s]))
    for a in ops:
        for p in range(len(sp.names)):
            for s in range(sp.settings[p]):
                _, par = sp.unpack(p, s)
                for q, o in par.items():
                    cond.append(Implies(
                        And(a[0] == p + 1, a[-2] == s),
                        Or(*[And(b[0] == q + 1, b[-1] == o) for b in ops])))
    return And(*cond)


def private(sp, op):
    r = 0
    for p in range(len(sp.names)):
        for s in range(sp.settings[p]):
            r = r + ite(And(op[0] == p + 1, op[-2] == s), sp.unpack(p, s)[0],
                        0)
    return r


def copies(n, nP, nS, C):
    """nb_is_knowable on arbitrary operators."""
    def fn(e):
        ops = [[e.int(f"party{k}", 1, nP)]
               + [e.int(f"c{k}_{s}", 0, C) for s in range(nS)]
               + [e.int(f"set{k}", 0, 1), e.int(f"out{k}", 0, 1)]
               for k in range(n)]
        with e.patch(F):
            r = F.nb_is_knowable(e.arr(ops, np.uint8))
            d = NB.nb_is_do_conditional(e.arr(ops, np.uint8)) \
                if not e.symbolic else None
        if e.symbolic:
            with e.patch(NB):
                d = NB.nb_is_do_conditional(e.arr(ops, np.uint8))
        one = And(*[Or(a[1 + s] == 0, b[1 + s] == 0, a[1 + s] == b[1 + s])
                    for i, a in enumerate(ops) for b in ops[:i]
                    for s in range(nS)])
        dist = And(*[a[0] != b[0] for i, a in enumerate(ops)
                     for b in ops[:i]])
        e.check(iff(e, r, And(one, dist)), "the copy and party test of "
                "knowability is wrong")
        e.check(iff(e, d, one), "the one-copy-per-source test is wrong")
        e.witness("knowable", And(one, dist))
        e.witness("not knowable", Not(And(one, dist)))
    return fn


PROB = {}


def prob(shape):
    if shape not in PROB:
        PROB[shape] = scen.problem(**scen.kw(shape))
    return PROB[shape]


def parents(shape, n):
    """_is_knowable_q_non_networks and rectify_fake_setting."""
    def fn(e):
        sp = scen.Spec(**scen.kw(shape))
        pr = prob(shape)
        N = len(sp.names)
        ops = []
        for k in range(n):
            p = e.int(f"party{k}", 1, N)
            s = e.int(f"set{k}", 0, max(sp.settings) - 1)
            o = e.int(f"out{k}", 0, max(sp.outs) - 1)
            for q in range(N):
                e.assume(Implies(p == q + 1, And(s < sp.settings[q],
                                                 o < sp.outs[q])))
            for b in ops:
                e.assume(p != b[0])
            ops.append([p, s, o])
        with e.patch(P):
            r = pr._is_knowable_q_non_networks(e.arr(ops, np.uint8))
            m = pr.rectify_fake_setting(e.arr(ops, np.uint8))
        sp0 = sp
        ok = And(*[Implies(And(a[0] == p + 1, a[1] == s),
                           Or(*[And(b[0] == q + 1, b[2] == o) for b in ops]))
                   for a in ops for p in range(N)
                   for s in range(sp0.settings[p])
                   for q, o in sp0.unpack(p, s)[1].items()])
        e.check(iff(e, r, ok), "a product is called knowable although a "
                "parent is missing or has another outcome than its child's "
                "setting says, or the other way round")
        for a, b in zip(ops, m):
            e.check(And(b[0] == a[0], b[2] == a[2],
                        b[1] == private(sp, a)),
                    "the private setting of an operator is wrong")
        e.witness("knowable", ok)
        e.witness("not knowable", Not(ok))
    return fn


CTX = {}


def context(shape, kind):
    if (shape, kind) not in CTX:
        kw = scen.kw(shape)
        if kind == "lp":
            c = InflationLP(scen.problem(**kw))
        else:
            c = InflationSDP(scen.problem(**kw))
        CTX[shape, kind] = c
    return CTX[shape, kind]


class Atom(M.InternalAtomicMonomial):
    """Moments without their names."""
    _name = "x"
    _raw_name = "x"
    _signature = (0,)


def atom(shape, kind, n):
    """One factor of a real program."""
    def fn(e):
        sp = scen.Spec(**scen.kw(shape))
        c = context(shape, kind)
        lexn = np.asarray(c.InflationProblem._lexorder, dtype=int)
        nS = len(sp.sources)
        off = 1 if kind == "sdp" else 0
        w = [e.int(f"op{i}", off, len(lexn) - 1 + off) for i in range(n)]
        if kind == "lp":
            for i in range(n - 1):
                e.assume(w[i] < w[i + 1])
        if e.symbolic:
            wrap_arrays(c)
            wrap_arrays(c.InflationProblem)
        with e.patch(M, F, NB, P, L, S):
            m = Atom(c, e.arr(w, np.intc))
            know = m.is_knowable
            comm = c.all_commuting_q_1d(e.arr(w, np.intc))
            rect = m.rectified_ndarray if bool(know) else None
        know = bool(know)
        lex = e.table("lexorder", lexn)
        ops = [[lex(x - off, k) for k in range(nS + 3)] for x in w]
        spec = And(event(sp, ops), comm)
        e.check(iff(e, know, spec), "a factor is knowable although it is not "
                "an observable event, or the other way round")
        if know:
            e.check(len(rect) == n, "the rectified form lost an operator")
            for a, b in zip(ops, rect):
                e.check(And(b[0] == a[0], b[-1] == a[-1],
                            b[1] == private(sp, a)),
                        "the rectified form of a knowable factor is wrong")
            e.witness("knowable")
        else:
            e.witness("not knowable")
    return fn


def moment(shape, kind, n):
    """Moments made by the public interface: status from their factors."""
    def fn(e):
        sp = scen.Spec(**scen.kw(shape))
        c = context(shape, kind)
        lexn = np.asarray(c.InflationProblem._lexorder, dtype=int)
        off = 1 if kind == "sdp" else 0
        w = [e.int(f"op{i}", 0, len(lexn) - 1) for i in range(n)]
        if kind == "lp":
            for i in range(n - 1):
                e.assume(w[i] < w[i + 1])
                # one outcome per measurement
        w = [int(x) for x in w]
        ops = lexn[w].tolist()
        for i in range(n):
            for j in range(i):
                if sp.ortho(ops[i], ops[j]) or (
                        ops[i] == ops[j]):
                    e.assume(False)
        if e.symbolic:
            with e.patch():
                m = build(c, kind, w, off)
        else:
            m = build(c, kind, w, off)
        if kind == "sdp" and not all(not sp.notcomm(a, b) for a in ops
                                     for b in ops):
            return
        # factors by shared copies
        comp = list(range(n))
        for _ in range(n):
            for i in range(n):
                for j in range(n):
                    if sp.share(ops[i], ops[j]):
                        comp[i] = comp[j] = min(comp[i], comp[j])
        st = [bool(_t(event(sp, [ops[i] for i in range(n) if comp[i] == k])))
              for k in sorted(set(comp))]
        want = "Knowable" if all(st) else "Semi" if any(st) else "Unknowable"
        e.check(len(m.factors) == len(st), "wrong number of factors")
        e.check(m.knowability_status == want, "the knowability status of a "
                "moment is not that of its factors")
        e.check(m.is_knowable == all(st) and m.n_knowable_factors == sum(st),
                "the knowable factors of a moment are wrong")
        e.witness(want)
    return fn


def _t(x):
    return x


def build(c, kind, w, off):
    arr = np.array([x + off for x in w], dtype=np.intc)
    return c.Monomial(arr) if kind == "lp" else c.Moment_1d(arr)


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for n, nP, nS, C in [(2, 3, 3, 2), (3, 3, 2, 2)] + (
            [(3, 3, 3, 3)] if big else []):
        obs.append(Obligation(
            f"copies n={n} P={nP} S={nS} C={C}", "copies",
            dict(n=n, nP=nP, nS=nS, C=C),
            ["fast_npa.nb_is_knowable", "numbafied.nb_is_do_conditional"],
            f"all products of {n} operators, {nP} parties, {nS} sources, "
            f"copies 0..{C}", parallel=True,
            fallback=dict(n=2, nP=2, nS=2, C=2)))
    for shape, n in [("instrumental", 1), ("instrumental", 2), ("evans", 2),
                     ("evans", 3), ("chain", 1), ("chain", 2),
                     ("chain", 3), ("collider", 2), ("collider", 3),
                     ("collider_r", 3)]:
        obs.append(Obligation(
            f"parents {shape} n={n}", "parents", dict(shape=shape, n=n),
            ["InflationProblem._is_knowable_q_non_networks",
             "InflationProblem.rectify_fake_setting"],
            f"all products of {n} operators of different parties",
            parallel=True))
    fr = ["InternalAtomicMonomial.__init__", "_atomic_knowable_q",
          "all_commuting_q_1d", "fast_npa.nb_is_knowable",
          "numbafied.nb_is_do_conditional",
          "InflationProblem._is_knowable_q_non_networks",
          "InflationProblem.rectify_fake_setting"]
    for shape, kind, n in [("bilocal", "sdp", 2), ("triangle", "sdp", 2),
                           ("triangle_c", "lp", 2), ("evans", "sdp", 2),
                           ("instrumental_inf", "sdp", 2),
                           ("evans", "lp", 2)] + (
            [("bilocal", "sdp", 3), ("triangle_mixed", "sdp", 3),
             ("chain", "sdp", 3), ("evans", "sdp", 3), ("latent", "sdp", 3),
             ("chain", "lp", 3)] if big else []):
        obs.append(Obligation(
            f"factor {shape} {kind} n={n}", "atom",
            dict(shape=shape, kind=kind, n=n), fr,
            f"all products of {n} operators of the program", parallel=True,
            fallback=dict(shape=shape, kind=kind, n=min(n, 2))))
    for shape, kind, n in [("bilocal", "sdp", 2), ("evans", "sdp", 2),
                           ("instrumental_inf", "lp", 2),
                           ("bell_c", "lp", 3)] + (
            [("triangle", "sdp", 3), ("chain", "lp", 3),
             ("evans", "sdp", 3), ("latent", "sdp", 3)] if big else []):
        obs.append(Obligation(
            f"moment {shape} {kind} n={n}", "moment",
            dict(shape=shape, kind=kind, n=n),
            ["CompoundMoment.__init__", "Monomial/Moment_1d"] + fr,
            f"all products of {n} mutually commuting distinct operators",
            parallel=True))
    return obs
