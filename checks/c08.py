"""C08: the linear program describes exactly the inflated distributions."""
import itertools
import warnings
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or
from vlib import scen, prog

EXPLANATION = (
    "The real program is generated and its equalities and inequalities are "
    "turned into linear constraints on z3 reals, one per variable. "
    "Independently, from the arguments of the problem alone, the conditions "
    "for being a family of distributions of all sets of compatible "
    "measurements (non-negative, normalised, consistent, invariant under "
    "relabelling copies) are written for the same variables. z3 decides for "
    "all points (linear real arithmetic) that each row generated follows from "
    "the conditions and each condition from the rows.")
ASSUMPTIONS = [
    "measurements of a party are incompatible when they have a copy of a "
    "non-classical source in common; those of different parties are "
    "compatible; scenarios with parents are unpacked (the outcomes of the "
    "parents are part of the setting)"]
OUTSIDE = "other scenarios; the numbers of the solver"


class Events:
    """The conditions, from the arguments of the problem."""

    def __init__(self, kw, all_outcomes):
        self.sp = sp = scen.Spec(**kw)
        self.perms = list(itertools.product(
            *[list(itertools.permutations(range(k))) for k in sp.inf]))
        ops = sp.operators()
        self.meas = sorted({o[:-1] for o in ops})
        self.outs = {m: sp.outs[m[0] - 1] for m in self.meas}
        n = len(self.meas)
        self.comp = [[not sp.notcomm(a + (0,), b + (0,)) for b in self.meas]
                     for a in self.meas]
        # last outcomes of parties whose outcome no one else uses are implied
        self.implied = {m: not sp.children[m[0] - 1] and not all_outcomes
                        for m in self.meas}
        self.maximal = []
        self._cliques([], list(range(n)), [])
        self.memo = {}

    def _cliques(self, r, p, x):
        """Bron and Kerbosch."""
        if not p and not x:
            self.maximal.append([self.meas[i] for i in r])
            return
        u = max(p + x, key=lambda v: sum(self.comp[v][w] for w in p
                                         if w != v))
        for v in list(p):
            if self.comp[u][v] and v != u:
                continue
            nb = [w for w in range(len(self.meas))
                  if self.comp[v][w] and w != v]
            self._cliques(r + [v], [w for w in p if w in nb],
                          [w for w in x if w in nb])
            p.remove(v)
            x.append(v)

    def key(self, event):
        event = tuple(sorted(event))
        if event not in self.memo:
            best = None
            for perm in self.perms:
                w = tuple(sorted(
                    o[:1] + tuple(perm[s][c - 1] + 1 if c else 0
                                  for s, c in enumerate(o[1:-2])) + o[-2:]
                    for o in event))
                if best is None or w < best:
                    best = w
            self.memo[event] = best
        return self.memo[event]

    def value(self, event):
        """{key: coefficient} in terms of the variables of the program."""
        for o in event:
            m = o[:-1]
            if self.implied[m] and o[-1] == self.outs[m] - 1:
                rest = tuple(x for x in event if x != o)
                out = dict(self.value(rest))
                for v in range(self.outs[m] - 1):
                    for k, c in self.value(rest + (m + (v,),)).items():
                        out[k] = out.get(k, 0) - c
                return {k: c for k, c in out.items() if c}
        return {self.key(event): 1}

    def events(self, ms):
        for vs in itertools.product(*[range(self.outs[m]) for m in ms]):
            yield tuple(m + (v,) for m, v in zip(ms, vs))

    def conditions(self):
        """(equalities, inequalities) as sets of frozen rows."""
        eqs, ineqs, keys = set(), set(), set()
        subsets = set()
        for c in self.maximal:
            for ev in self.events(c):
                row = self.value(ev)
                keys |= set(row)
                ineqs.add(frozenset(row.items()))
            for k in range(len(c) + 1):
                subsets |= set(itertools.combinations(sorted(c), k))
        for ms in subsets:
            for ev in self.events(ms):
                if any(self.implied[o[:-1]] and
                       o[-1] == self.outs[o[:-1]] - 1 for o in ev):
                    continue
                # without one, it is the sum over its outcomes
                keys |= set(self.value(ev))
                for o in ev:
                    if o[-1] or self.implied[o[:-1]]:
                        continue
                    rest = tuple(x for x in ev if x != o)
                    row = dict(self.value(rest))
                    for v in range(self.outs[o[:-1]]):
                        for k, c in self.value(
                                rest + (o[:-1] + (v,),)).items():
                            row[k] = row.get(k, 0) - c
                    row = {k: c for k, c in row.items() if c}
                    if row:
                        eqs.add(frozenset(row.items()))
        return eqs, ineqs, keys


_memo = {}


def conditions(name, opts):
    k = (name, repr(opts))
    if k not in _memo:
        o = dict(opts)
        kw = scen.kw(name, **o.pop("problem", {}))
        ev = Events(kw, o.get("include_all_outcomes") or
                    o.get("supports_problem"))
        _memo[k] = (ev, *ev.conditions())
    return _memo[k]


def rows(mat, n):
    mat = mat.tocsr()
    out = []
    for i in range(mat.shape[0]):
        a, b = mat.indptr[i], mat.indptr[i + 1]
        out.append([(int(j), float(c)) for j, c in
                    zip(mat.indices[a:b], mat.data[a:b]) if c])
    return out


def polytope(name, opts, how):
    opts = dict(opts)

    def fn(e):
        ev, eqs, ineqs, keys = conditions(name, opts)
        p = prog.fresh("lp", name, **opts)
        n = len(p.monomials)
        idx = {}
        for i, m in enumerate(p.monomials):
            k = ev.key(ops_of(p, i))
            e.check(k not in idx, "two variables are the same moment")
            idx[k] = i
        e.check(set(idx) == keys, "the variables are not the moments of the "
                "sets of compatible operators")
        one = idx[()]
        scaled = p.supports_problem
        x = [1.0 if i == one and not scaled else e.real(
            f"x{i}", 1 if i == one else -1000, 1000) for i in range(n)]

        def val(row):
            s = 0
            for j, c in row:
                s = s + c * x[j]
            return s
        ceq = [[(idx[k], c) for k, c in sorted(r)] for r in sorted(
            eqs, key=sorted)]
        cin = [[(idx[k], c) for k, c in sorted(r)] for r in sorted(
            ineqs, key=sorted)]
        peq = rows(p.minimal_sparse_equalities, n)
        pin = rows(p.minimal_sparse_inequalities, n)
        known = {m.name for m in p.known_moments}
        e.check(known == (set() if scaled else {p.monomials[one].name}) and
                all(v == 1 for v in p.known_moments.values()),
                "the normalisation is not the only known value")
        if how == "no distribution is excluded":
            hyp, goal = (ceq, cin), (peq, pin)
        else:
            hyp, goal = (peq, pin), (ceq, cin)
        tol = 0 if e.symbolic else 1e-7
        e.assume(And(*[e.eq(val(r), 0) for r in hyp[0]],
                     *[val(r) >= -tol for r in hyp[1]]))
        # every variable is bounded below by zero as well
        if how == "no distribution is excluded":
            e.check(And(*[e.le(b, x[i])
                          for i, b in lower(p).items()]),
                    "a lower bound excludes a distribution")
            e.check(scaled or all(
                u >= 1 for u in p.moment_upperbounds.values()),
                "an upper bound excludes a distribution")
        what = {"no distribution is excluded": "a row of the program fails "
                "for a family of distributions: ", "nothing weaker is "
                "imposed": "not implied by the rows of the program: "}[how]
        same = {frozenset(r) for r in hyp[0]}, {frozenset(r) for r in hyp[1]}
        for r in goal[0]:
            if frozenset(r) in same[0] and e.symbolic:
                continue
            e.check(e.eq(val(r), 0), what + text(p, r) + " = 0")
        for r in goal[1]:
            e.check(e.le(0, val(r)), what + text(p, r) + " >= 0")
        e.witness("point", Or(*[x[i] >= 0.25 for i in range(n)
                                if i != one]))
    return fn


def lower(p):
    out = {}
    for m, b in p.moment_lowerbounds.items():
        out[p.compmonomial_to_idx[m]] = b
    return out


def ops_of(p, i):
    return tuple(tuple(int(v) for v in o)
                 for o in p._lexorder[p._monomials_as_lexboolvecs[i]])


def text(p, r):
    return " ".join(f"{c:+g}*{p.monomials[j].name}" for j, c in r)[:200]


def obligations(tier):
    big = tier == "thorough"
    A = {"include_all_outcomes": True}
    progs = [("bell", {}), ("bell", A), ("bell3", {}), ("bell3", A),
             ("bellinf", {}), ("bellinf", A), ("bell_c", {}),
             ("triangle", {}), ("triangle", A), ("bilocal", {}),
             ("instrumental", {}), ("instrumental", A), ("evans", {}),
             ("chain", {}), ("bilocal_hybrid", {}),
             ("bell", {"supports_problem": True}), ("collider", {}),
             ("latent", {}),
             ("bell3", {"problem": {"outcomes_per_party": [2, 4]}})]
    if big:
        progs += [("bilocal", A), ("evans", A), ("instrumental_inf", {}),
                  ("instrumental_inf", A), ("collider_r", {}),
                  ("collider_r", A), ("direct_latent", {}),
                  ("triangle_mixed", {}), ("instrumental_c", {}),
                  ("chain", A), ("triangle", {"supports_problem": True}),
                  ("bilocal_c", {}), ("evans_c", {}), ("latent_c", {}),
                  ("bilocal_hybrid", A), ("latent", A)]
    obs = []
    for name, opts in progs:
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        for how in ("no distribution is excluded",
                    "nothing weaker is imposed"):
            obs.append(Obligation(
                f"{name}{tail}: {how}", "polytope",
                dict(name=name, opts=list(opts.items()), how=how),
                ["InflationLP.__init__", "InflationLP._generate_lp",
                 "InflationLP._raw_monomials_as_lexboolvecs",
                 "InflationLP._maximal_event_as_lexboolvecs",
                 "InflationLP._discover_inflation_orbits",
                 "InflationLP.minimal_sparse_equalities",
                 "InflationLP.minimal_sparse_inequalities"],
                "all real values of all variables of this program"))
    return obs
