"""C05: the values a distribution gives to the moments."""
import itertools
import warnings
import numpy as np
from vlib.report import Obligation
from vlib import prog, scen
from vlib.env import mod
from checks.c11 import ctx
from checks.c04 import event
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
SDP = mod("sdp.InflationSDP")
MU = mod("sdp.monomial_utils")
PR = mod("InflationProblem")

EXPLANATION = (
    "set_distribution of real linear and semidefinite programs is executed on "
    "an array whose entries are real variables, for every pattern of options. "
    "From the operators of each moment its factors, the observability of each "
    "factor and its event are derived independently; z3 is asked for a "
    "distribution for which a moment has another value, or another status, "
    "than the product of the marginals of its observable factors. The "
    "marginal and factor code is also run on symbolic events and tables.")
ASSUMPTIONS = [
    "probabilities are 0 or at least 1/20 (the code treats values below 1e-8 "
    "as 0); the places of the zeros are enumerated",
    "the marginal of a set of parties with all their parents does not depend "
    "on the private settings of the others (true for every distribution the "
    "scenario can give)"]
OUTSIDE = "other scenarios; arrays of symbolic expressions (see C18)"


class Meaning:
    """What the moments of a program are."""

    def __init__(self, kind, name, opts):
        o = {k: v for k, v in opts.items()}
        self.p = p = prog.fresh(kind, name, **o)
        kw = scen.kw(name, **o.get("problem", {}))
        self.sp = sp = scen.Spec(**kw)
        if o.get("commuting"):
            sp.quantum = [False] * len(sp.quantum)
        can = scen.Canon(sp, reverse=kind == "sdp")
        if o.get("commuting"):
            sp.notcomm = lambda a, b: False
        self.mons = list(p.monomials if kind == "lp" else p.moments)
        self.lex = np.asarray(p.InflationProblem._lexorder, dtype=int)
        off = 1 if kind == "sdp" else 0
        self.known, self.rest, self.keys = [], [], []
        self.can = can
        for m in self.mons:
            fs = [[int(x) - off for x in f.as_lexmon] for f in m.factors]
            if any(x < 0 for f in fs for x in f):
                self.keys.append(None)
                self.known.append([])
                self.rest.append([])
                continue
            fs = [[tuple(self.lex[x].tolist()) for x in f] for f in fs if f]
            kn, rs = [], []
            for f in fs:
                com = all(not sp.notcomm(a, b) for a in f for b in f)
                if com and bool(event(sp, f)):
                    kn.append({a[0] - 1: (a[-1], sp.unpack(a[0] - 1,
                                                           a[-2])[0])
                               for a in f})
                else:
                    rs.append(f)
            self.known.append(kn)
            self.rest.append(rs)
            self.keys.append(can.product(fs))

    def rest_key(self, i):
        return self.can.product(self.rest[i])

    def shape(self):
        return tuple(self.sp.outs) + tuple(self.sp.priv)

    def closed(self):
        """Sets of parties with all their parents."""
        N = len(self.sp.names)
        for r in range(1, N):
            for M in itertools.combinations(range(N), r):
                if all(q in M for p in M for q in self.sp.parents[p]):
                    yield M

    def marginal(self, P, ev):
        """P: dict index -> value; ev: party -> (outcome, setting)."""
        N = len(self.sp.names)
        idx = [[ev[p][0]] if p in ev else range(self.sp.outs[p])
               for p in range(N)]
        s = [ev[p][1] if p in ev else 0 for p in range(N)]
        t = 0
        for o in itertools.product(*idx):
            t = t + P[tuple(o) + tuple(s)]
        return t


def zeros(M, how):
    """Indices of the array which are 0."""
    N = len(M.sp.names)
    out = set()
    for idx in np.ndindex(M.shape()):
        o, s = idx[:N], idx[N:]
        if how == "corner" and not any(o):      # all-zero outcomes never
            out.add(idx)
        elif how == "party" and o[0] == M.sp.outs[0] - 1:
            out.add(idx)
        elif how == "parity" and sum(o) % 2 and not any(s):
            out.add(idx)
        elif how == "point" and any(o):
            out.add(idx)
    return out


def table(e, M, how):
    """A distribution with the given zeros."""
    Z = zeros(M, how)
    shape = M.shape()
    P = {}
    for i, idx in enumerate(np.ndindex(shape)):
        P[idx] = 0.0 if idx in Z else e.coef(f"p{i}", 0.05, 1)
    N = len(M.sp.names)
    for S in M.closed():
        for o in itertools.product(*[range(M.sp.outs[p]) for p in S]):
            for s in itertools.product(*[range(M.sp.priv[p]) for p in S]):
                free = [p for p in range(N) if p not in S]
                ref = None
                for t in itertools.product(*[range(M.sp.priv[p])
                                             for p in free]):
                    full = dict(zip(S, s))
                    full.update(zip(free, t))
                    tot = 0
                    for idx in np.ndindex(shape):
                        if all(idx[p] == v for p, v in zip(S, o)) and all(
                                idx[N + p] == full[p] for p in range(N)):
                            tot = tot + P[idx]
                    if ref is None:
                        ref = tot
                    else:
                        e.assume(e.eq(ref, tot))
    arr = np.empty(shape, dtype=object)
    for idx in np.ndindex(shape):
        arr[idx] = P[idx]
    if not e.symbolic:
        return P, arr.astype(float)
    return P, e.arr(arr.tolist())


def iszero(M, Z, ev):
    """Whether the marginal of the event is 0."""
    N = len(M.sp.names)
    s = tuple(ev[p][1] if p in ev else 0 for p in range(N))
    return all(tuple(o) + s in Z for o in itertools.product(
        *[[ev[p][0]] if p in ev else range(M.sp.outs[p])
          for p in range(N)]))


HOW = ["none", "corner", "party", "parity", "point"]
MODES = ["plain", "lpi", "shared", "lpi shared"]


def distribution(kind, name, opts, hows=HOW, modes=MODES):
    opts = dict(opts)

    def fn(e):
        how = e.pick("zeros", hows)
        mode = e.pick("options", modes)
        M = Meaning(kind, name, opts)
        p = M.p
        supports = bool(opts.get("supports_problem"))
        Z = zeros(M, how)
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, SDP, PR):
            warnings.simplefilter("ignore")
            P, arr = table(e, M, how)
            p.set_distribution(arr, use_lpi_constraints="lpi" in mode,
                               shared_randomness="shared" in mode)
        at = {m: i for i, m in enumerate(M.mons)}
        known = {at[m]: v for m, v in p.known_moments.items() if m in at}
        semi = {at[m]: v for m, v in p.semiknown_moments.items() if m in at}
        lower = {at[m]: v for m, v in p.moment_lowerbounds.items()
                 if m in at}
        memo = {}

        def marg(ev):
            k = tuple(sorted(ev.items()))
            if k not in memo:
                memo[k] = M.marginal(P, ev)
            return memo[k]
        count = dict(Known=0, Semi=0, Unknown=0)
        for i, m in enumerate(M.mons):
            if M.keys[i] is None:
                e.check(i not in known or e.eq(known[i], 0),
                        "the zero moment has a value")
                continue
            kn, rs = M.known[i], M.rest[i]
            v = 1.0
            for ev in kn:
                v = v * marg(ev)
            z = any(iszero(M, Z, ev) for ev in kn)
            alone = len(kn) + len(rs) <= 1
            full = not rs and (alone or "shared" not in mode)
            say = f"moment {m.name}: "
            if supports and full and not z:
                e.check(i not in known and i not in semi,
                        say + "a possible event has a value in a supports "
                        "problem")
                e.check(i in lower and e.eq(lower[i], 1),
                        say + "a possible event is not required")
                count["Known"] += 1
                continue
            if full:
                e.check(i in known, say + "its value is not set")
                e.check(e.eq(known[i], v), say + "has another value than "
                        "the product of its marginals")
                e.check(i not in semi, say + "known and linearised")
                count["Known"] += 1
                continue
            if supports:
                e.check(i not in lower or e.eq(lower[i], 0),
                        say + "required without being known")
            if z and rs and "shared" not in mode:
                # its value is 0, and this may be used
                e.check(i not in known or e.eq(known[i], 0),
                        say + "has a value other than 0")
                if "lpi" in mode and not supports:
                    e.check(i in known or i in semi and e.eq(semi[i][0], 0),
                            say + "not tied to its known factor")
                continue
            e.check(i not in known, say + "has a value that the "
                    "distribution does not determine")
            want = "lpi" in mode and "shared" not in mode and kn and rs \
                and not supports
            e.check((i in semi) == bool(want), say + "linearised although "
                    "not partly known" if i in semi else say +
                    "is not linearised")
            if want:
                count["Semi"] += 1
                c, r = semi[i]
                e.check(e.eq(c, v), say + "another factor of linearisation")
                off = 1 if kind == "sdp" else 0
                fs = [[tuple(M.lex[int(x) - off].tolist())
                       for x in f.as_lexmon] for f in r.factors]
                e.check(M.can.product(fs) == M.rest_key(i), say + "tied to "
                        "another moment than its unknown part")
            else:
                count["Unknown"] += 1
        for k, c in count.items():
            if c:
                e.witness(k)
    return fn


def marginals(N, outs, sets):
    """compute_marginal on a symbolic event and array."""
    def fn(e):
        shape = tuple(outs) + tuple(sets)
        S = e.pick("parties", [s for r in range(N + 1) for s in
                               itertools.combinations(range(N), r)])
        P = {idx: e.coef(f"p{i}", 0, 1)
             for i, idx in enumerate(np.ndindex(shape))}
        # no signalling
        for p in range(N):
            rest = [k for k in range(N) if k != p]
            for o in itertools.product(*[range(outs[k]) for k in rest]):
                for s in itertools.product(*[range(sets[k]) for k in rest]):
                    ref = None
                    for t in range(sets[p]):
                        full = dict(zip(rest, s))
                        full[p] = t
                        tot = 0
                        for b in range(outs[p]):
                            oo = dict(zip(rest, o))
                            oo[p] = b
                            tot = tot + P[tuple(oo[k] for k in range(N))
                                          + tuple(full[k] for k in range(N))]
                        if ref is None:
                            ref = tot
                        else:
                            e.assume(e.eq(ref, tot))
        arr = np.empty(shape, dtype=object)
        for idx in P:
            arr[idx] = P[idx]
        arr = e.arr(arr.tolist()) if e.symbolic else arr.astype(float)
        o = [e.int(f"o{p}", 0, outs[p] - 1) for p in S]
        s = [e.int(f"s{p}", 0, sets[p] - 1) for p in S]
        ov = [int(x) for x in o]
        sv = [int(x) for x in s]
        rows = [[p + 1, b, a] for p, a, b in zip(S, ov, sv)]
        with e.patch(MU):
            v = MU.compute_marginal(arr, np.array(rows, dtype=int).reshape(
                -1, 3))
        if not S:
            e.check(e.eq(v, 1), "the marginal of nothing is not 1")
            return
        ev = dict(zip(S, zip(ov, sv)))
        t = 0
        for oo in itertools.product(*[[ev[p][0]] if p in ev else
                                      range(outs[p]) for p in range(N)]):
            t = t + P[tuple(oo) + tuple(ev[p][1] if p in ev else 0
                                        for p in range(N))]
        e.check(e.eq(v, t), "a marginal is wrong")
        e.witness("marginal")
    return fn


def obligations(tier):
    big = tier == "thorough"
    f = ["{}.set_distribution", "{}.set_values", "{}.update_values",
         "{}._cleanup_after_set_values", "{}._monomial_from_atoms",
         "CompoundMoment.evaluate", "InternalAtomicMonomial.compute_marginal",
         "monomial_utils.compute_marginal",
         "InflationProblem.rectify_fake_setting"]
    obs = [Obligation(
        f"marginals N={len(o)} {o} {s}", "marginals",
        dict(N=len(o), outs=o, sets=s), ["monomial_utils.compute_marginal"],
        "all events and all non-signalling arrays of these sizes",
        parallel=True)
        for o, s in [([2, 2], [2, 2]), ([3, 2], [1, 2]), ([2, 3, 2],
                                                          [1, 2, 1])]
        + ([([2, 2, 2], [2, 2, 2]), ([2, 2, 2, 2], [1, 2, 1, 1])]
           if big else [])]
    todo = [("lp", "bellinf", {}), ("lp", "triangle", {}),
            ("lp", "instrumental", {}), ("lp", "evans", {}),
            ("lp", "bilocal", {}),
            ("lp", "bell_c", {}), ("lp", "collider", {}),
            ("lp", "bellinf", {"supports_problem": True}),
            ("lp", "triangle", {"supports_problem": True}),
            ("sdp", "bellinf", {}), ("sdp", "bilocal", {}),
            ("sdp", "triangle", {}), ("sdp", "instrumental", {}),
            ("sdp", "evans", {}), ("sdp", "instrumental_inf", {}),
            ("sdp", "bell", {"include_all_outcomes": True}),
            ("sdp", "bilocal", {"supports_problem": True}),
            ("sdp", "bilocal", {"columns": "npa2"}),
            ("sdp", "triangle", {"columns": "local1"})]
    todo += [("lp", "instrumental_inf", {}), ("lp", "triangle_mixed", {}),
             ("lp", "latent", {}), ("lp", "bilocal_hybrid", {}),
             ("sdp", "triangle", {"columns": "npa2"}),
             ("sdp", "bilocal", {"columns": "local1"}),
             ("sdp", "evans", {"supports_problem": True}),
             ("sdp", "triangle_mixed", {}), ("sdp", "latent", {}),
             ("sdp", "chain", {}), ("sdp", "collider_r", {}),
             ("lp", "single3", {}), ("lp", "pair3", {}),
             ("sdp", "single3", {}), ("sdp", "pair3", {"columns": "npa2"}),
             ("sdp", "bilocal_hybrid", {"columns": "npa2"})]
    if big:
        todo += [("sdp", "triangle", {"columns": "npa2",
                                      "supports_problem": True}),
                 ("sdp", "chain", {"columns": "npa2"}),
                 ("sdp", "evans", {"columns": "npa2"}),
                 ("sdp", "bell3", {"columns": "npa2"}),
                 ("sdp", "instrumental_inf", {"columns": "local1"}),
                 ("lp", "bilocal_c", {}), ("lp", "instrumental_c", {}),
                 ("lp", "triangle_c", {"local_level": 1}),
                 ("lp", "collider_r", {})]
    for kind, name, opts in todo:
        obs.append(Obligation(
            " ".join([f"{kind} {name}"] + [f"{k}={v}"
                                           for k, v in opts.items()]),
            "distribution",
            dict(kind=kind, name=name, opts=list(opts.items())),
            [x.format("InflationLP" if kind == "lp" else "InflationSDP")
             for x in f],
            "all distributions with the zero patterns " + ", ".join(HOW)
            + "; all moments of the program", parallel=True, depth=5,
            fallback=dict(kind=kind, name=name, opts=list(opts.items()),
                          hows=["none", "parity"], modes=["plain", "lpi"])))
    return obs
