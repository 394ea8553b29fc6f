"""Scenarios, and their meaning derived independently from the DAG."""
import warnings
import numpy as np


def problem(**kw):
    from inflation import InflationProblem
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return InflationProblem(**kw)


# name -> keyword arguments of InflationProblem
SCEN = {
    "bell": dict(dag={"L": ["A", "B"]}, outcomes_per_party=[2, 2],
                 settings_per_party=[2, 2], inflation_level_per_source=[1],
                 order=["A", "B"]),
    "bell3": dict(dag={"L": ["A", "B"]}, outcomes_per_party=[3, 2],
                  settings_per_party=[2, 1], inflation_level_per_source=[1],
                  order=["A", "B"]),
    "bellinf": dict(dag={"L": ["A", "B"]}, outcomes_per_party=[2, 2],
                    settings_per_party=[2, 1], inflation_level_per_source=[2],
                    order=["A", "B"]),
    "bilocal": dict(dag={"S": ["A", "B"], "T": ["B", "C"]},
                    outcomes_per_party=[2, 2, 2],
                    settings_per_party=[1, 2, 1],
                    inflation_level_per_source=[2, 2],
                    order=["A", "B", "C"]),
    "bilocal_hybrid": dict(dag={"S": ["A", "B"], "T": ["B", "C"]},
                           outcomes_per_party=[2, 2, 3],
                           settings_per_party=[1, 2, 1],
                           inflation_level_per_source=[2, 1],
                           classical_sources=["S"], order=["A", "B", "C"]),
    "triangle": dict(dag={"R": ["A", "B"], "S": ["B", "C"], "T": ["A", "C"]},
                     outcomes_per_party=[2, 2, 2],
                     settings_per_party=[1, 1, 1],
                     inflation_level_per_source=[2, 2, 2],
                     order=["A", "B", "C"]),
    "triangle_mixed": dict(
        dag={"R": ["A", "B"], "S": ["B", "C"], "T": ["A", "C"]},
        outcomes_per_party=[2, 3, 2], settings_per_party=[2, 1, 1],
        inflation_level_per_source=[2, 1, 2], classical_sources=["T"],
        order=["A", "B", "C"]),
    "instrumental": dict(dag={"U": ["A", "B"], "A": ["B"]},
                         outcomes_per_party=[3, 2], settings_per_party=[2, 1],
                         inflation_level_per_source=[1], order=["A", "B"]),
    "instrumental_inf": dict(dag={"U": ["A", "B"], "A": ["B"]},
                             outcomes_per_party=[2, 2],
                             settings_per_party=[2, 2],
                             inflation_level_per_source=[2],
                             order=["A", "B"]),
    "evans": dict(dag={"U": ["A", "C"], "V": ["B", "C"], "C": ["A", "B"]},
                  outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1],
                  inflation_level_per_source=[1, 2], order=["A", "B", "C"]),
    "chain": dict(dag={"U": ["A", "B", "C"], "A": ["B"], "B": ["C"]},
                  outcomes_per_party=[2, 3, 2], settings_per_party=[1, 2, 1],
                  inflation_level_per_source=[1], order=["A", "B", "C"]),
    "latent": dict(dag={"S": ["A", "Q"], "T": ["Q", "C"], "Q": ["B", "C"]},
                   outcomes_per_party=[2, 2, 2], settings_per_party=[1, 2, 1],
                   inflation_level_per_source=[2, 2],
                   nonclassical_intermediate_latents=["Q"],
                   order=["A", "B", "C"]),
    "latent_c": dict(dag={"S": ["A", "Q"], "T": ["Q", "C"], "Q": ["B", "C"]},
                     outcomes_per_party=[2, 2, 2],
                     settings_per_party=[1, 2, 1],
                     inflation_level_per_source=[2, 2],
                     classical_intermediate_latents=["Q"],
                     classical_sources=["T"], order=["A", "B", "C"]),
}

SCEN["collider"] = dict(
    dag={"U": ["A", "C"], "V": ["B", "C"], "A": ["C"], "B": ["C"]},
    outcomes_per_party=[3, 2, 2], settings_per_party=[1, 2, 2],
    inflation_level_per_source=[1, 1], order=["A", "B", "C"])
SCEN["collider_r"] = dict(SCEN["collider"], order=["C", "B", "A"],
                          outcomes_per_party=[2, 3, 2],
                          settings_per_party=[2, 1, 1])
SCEN["direct_latent"] = dict(
    dag={"S": ["A", "L"], "L": ["A", "B"]}, outcomes_per_party=[2, 2],
    settings_per_party=[2, 1], inflation_level_per_source=[2],
    classical_intermediate_latents=["L"], order=["A", "B"])

# three copies of a source
SCEN["single3"] = dict(dag={"U": ["A"]}, outcomes_per_party=[3],
                       settings_per_party=[2], inflation_level_per_source=[3],
                       order=["A"])
SCEN["pair3"] = dict(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 1],
                     inflation_level_per_source=[3], order=["A", "B"])
SCEN["single3_c"] = dict(SCEN["single3"], classical_sources="all")
SCEN["pair3_c"] = dict(SCEN["pair3"], classical_sources="all")

SCEN["triangle_c"] = dict(SCEN["triangle"], classical_sources="all")
SCEN["bilocal_c"] = dict(SCEN["bilocal"], classical_sources="all")
SCEN["bell_c"] = dict(SCEN["bellinf"], classical_sources="all")
SCEN["instrumental_c"] = dict(SCEN["instrumental_inf"],
                              classical_sources="all")
SCEN["evans_c"] = dict(SCEN["evans"], classical_sources="all")


def kw(name, **over):
    d = dict(SCEN[name])
    d.update(over)
    return d


class Spec:
    """What the arguments of an InflationProblem mean."""

    def __init__(self, dag, outcomes_per_party, settings_per_party,
                 inflation_level_per_source, order, classical_sources=(),
                 nonclassical_intermediate_latents=(),
                 classical_intermediate_latents=()):
        self.dag = {k: list(v) for k, v in dag.items()}
        self.names = list(order)
        self.outs = list(outcomes_per_party)
        self.priv = list(settings_per_party)
        self.inf = list(inflation_level_per_source)
        qlat = set(nonclassical_intermediate_latents)
        lat = qlat | set(classical_intermediate_latents)
        self.sources = [k for k in self.dag
                        if k not in self.names and k not in lat]
        S, N = len(self.sources), len(self.names)
        allc = classical_sources == "all"
        self.quantum = [not allc and s not in classical_sources
                        for s in self.sources]
        self.hyper = [[False] * N for _ in range(S)]
        self.code = [[[0] * S for _ in range(N)] for _ in range(N)]
        pos = {n: i for i, n in enumerate(self.names)}
        for i, s in enumerate(self.sources):
            for ch in self.dag[s]:
                if ch in pos:
                    p = pos[ch]
                    self.hyper[i][p] = True
                    self.code[p][p][i] = max(self.code[p][p][i],
                                             2 if self.quantum[i] else 1)
                else:
                    c = 2 if self.quantum[i] and ch in qlat else 1
                    for a in self.dag[ch]:
                        self.hyper[i][pos[a]] = True
                        for b in self.dag[ch]:
                            x, y = pos[a], pos[b]
                            self.code[x][y][i] = max(self.code[x][y][i], c)
        self.parents = [[j for j, q in enumerate(self.names)
                         if p in self.dag.get(q, [])] for p in self.names]
        self.children = [bool(self.dag.get(p)) for p in self.names]
        self.network = not any(self.children)
        self.settings = [int(np.prod([self.priv[i]] + [
            self.outs[j] for j in self.parents[i]])) for i in range(N)]

    def unpack(self, p, s):
        """effective setting -> (private setting, {parent: outcome})"""
        dims = [self.priv[p]] + [self.outs[j] for j in self.parents[p]]
        v = []
        for d in reversed(dims):
            v.append(s % d)
            s //= d
        v.reverse()
        return v[0], dict(zip(self.parents[p], v[1:]))

    def operators(self):
        """All operators as tuples (party+1, copies..., setting, outcome)."""
        import itertools
        out = []
        for p in range(len(self.names)):
            rng = [range(1, self.inf[i] + 1) if self.hyper[i][p] else (0,)
                   for i in range(len(self.sources))]
            for c in itertools.product(*rng):
                for s in range(self.settings[p]):
                    for o in range(self.outs[p]):
                        out.append((p + 1,) + c + (s, o))
        return out

    def notcomm(self, a, b):
        """For concrete operators."""
        p, q = a[0] - 1, b[0] - 1
        S = range(len(self.sources))
        code = self.code[p][q]
        if not any(code[s] == 2 and a[1 + s] == b[1 + s] for s in S):
            return False
        same = all(a[1 + s] == b[1 + s] for s in S if code[s])
        return not (same and (p != q or a[-2] == b[-2]))

    def ortho(self, a, b):
        return a[:-1] == b[:-1] and a[-1] != b[-1]

    def share(self, a, b):
        return any(a[1 + s] and a[1 + s] == b[1 + s]
                   for s in range(len(self.sources)))


class Canon:
    """Identity of moments, from operators: two products have the same key
    iff they are equal up to commutation, projector rules, relabelling of
    copies and (unless reverse=False) conjugation.  Brute force."""

    def __init__(self, sp, reverse=True):
        import itertools
        self.sp = sp
        self.reverse = reverse
        self.perms = list(itertools.product(
            *[list(itertools.permutations(range(k))) for k in sp.inf]))
        self.memo = {}

    def _reduce(self, w):
        sp = self.sp
        again = True
        while again:
            again = False
            for i in range(len(w)):
                for j in range(i + 1, len(w)):
                    # can w[i] and w[j] be brought next to each other?
                    if self._adjacent(w, i, j):
                        if sp.ortho(w[i], w[j]):
                            return None
                        if w[i] == w[j]:
                            w = w[:j] + w[j + 1:]
                            again = True
                            break
                if again:
                    break
        # least linear extension
        out, rest = [], list(w)
        while rest:
            best = None
            for i, a in enumerate(rest):
                if all(not sp.notcomm(a, b) for b in rest[:i]):
                    if best is None or a < rest[best]:
                        best = i
            out.append(rest.pop(best))
        return tuple(out)

    def _adjacent(self, w, i, j):
        """No chain of non-commuting operators from i to j strictly between."""
        sp = self.sp
        after = {i}
        for k in range(i + 1, j):
            if any(sp.notcomm(w[a], w[k]) for a in after):
                after.add(k)
        return not any(sp.notcomm(w[k], w[j]) for k in after if k != i)

    def key(self, ops):
        ops = tuple(tuple(int(v) for v in o) for o in ops)
        a = self._key(ops)
        if a is None or not self.reverse:
            return a
        return min(a, self._key(ops[::-1]), key=lambda w: (len(w), w))

    def _key(self, ops):
        ops = tuple(tuple(int(v) for v in o) for o in ops)
        if ops in self.memo:
            return self.memo[ops]
        best = None
        for perm in self.perms:
            w = [o[:1] + tuple(perm[s][c - 1] + 1 if c else 0 for s, c in
                               enumerate(o[1:-2])) + o[-2:] for o in ops]
            n = self._reduce(tuple(w))
            if n is None:
                break
            if best is None or (len(n), n) < best:
                best = (len(n), n)
        self.memo[ops] = None if n is None else best[1]
        return self.memo[ops]

    def factors(self, ops):
        """Split by shared copies."""
        sp = self.sp
        comp = list(range(len(ops)))
        for _ in ops:
            for i, a in enumerate(ops):
                for j, b in enumerate(ops):
                    if sp.share(a, b):
                        comp[i] = comp[j] = min(comp[i], comp[j])
        return [[o for o, c in zip(ops, comp) if c == k]
                for k in sorted(set(comp))]

    def moment(self, ops):
        """Key of a product with factors: multiset of the factors' keys."""
        return self.product(self.factors(
            [tuple(int(v) for v in o) for o in ops]))

    def product(self, fs):
        a = [self._key(f) for f in fs]
        if None in a:
            return None
        a = tuple(sorted(a))
        if not self.reverse:
            return a
        return min(a, tuple(sorted(self._key(f[::-1]) for f in fs)))
