"""C10: enumeration of compatible sets."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib import scen
from vlib.env import mod
import inflation.utils as U

EXPLANATION = (
    "The clique enumeration is executed on a symbolic compatibility graph "
    "(every edge and the size cut-off symbolic); on every path z3 is asked "
    "for a set of vertices that is compatible but not listed, listed but not "
    "compatible, listed twice, or wrongly (not) listed as maximal.  The same "
    "question is asked for the templates of real problems.")
ASSUMPTIONS = ["the compatibility graph is symmetric"]
OUTSIDE = "graphs with more vertices"


def iff(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


def member(mask, c, n):
    c = set(int(x) for x in c)
    return And(*[mask[v] if v in c else Not(mask[v]) for v in range(n)])


def judge(e, n, adj, al, mx, max_n, want_max):
    """adj[i][j] for i < j; al, mx lists of lists of vertices."""
    mask = [e.bool(f"in{v}") for v in range(n)]
    cl = And(*[Or(Not(mask[i]), Not(mask[j]), adj[i][j])
               for i in range(n) for j in range(i + 1, n)])
    size = sum([ite(m, 1, 0) for m in mask], 0)
    within = size <= max_n if max_n > 0 else True
    listed = Or(*[member(mask, c, n) for c in al])
    e.check(iff(e, listed, And(cl, within)), "a compatible set (within the "
            "size limit) is not listed, or an incompatible one is")
    keys = [tuple(sorted(int(x) for x in c)) for c in al]
    e.check(len(set(keys)) == len(keys) and
            all(len(set(k)) == len(k) for k in keys),
            "a compatible set is listed twice")
    if want_max:
        big = And(cl, size >= 1, *[Or(mask[v], Not(And(*[
            Or(Not(mask[u]), adj[min(u, v)][max(u, v)])
            for u in range(n) if u != v]))) for v in range(n)])
        e.check(iff(e, Or(*[member(mask, c, n) for c in mx]), big),
                "a set is listed as maximal although it can be enlarged, or "
                "a maximal set is missing")
        keys = [tuple(sorted(int(x) for x in c)) for c in mx]
        e.check(len(set(keys)) == len(keys), "a maximal set is listed twice")
    e.witness("listed", listed)
    if n > 1:
        e.witness("not listed", Not(listed))


def graph(n, diag):
    def fn(e):
        adj = [[None] * n for _ in range(n)]
        for i in range(n):
            adj[i][i] = diag
            for j in range(i + 1, n):
                adj[i][j] = adj[j][i] = e.bool(f"adj_{i}_{j}")
        max_n = int(e.int("max_n", 0, n))
        with e.patch(U):
            al, mx = U.all_and_maximal_cliques(e.arr(adj, bool), max_n=max_n,
                                               isolate_maximal=max_n == 0)
        judge(e, n, adj, al, mx, max_n, max_n == 0)
        if max_n == 0:
            with e.patch(U):
                al, mx = U.all_and_maximal_cliques(e.arr(adj, bool),
                                                   isolate_maximal=False)
            judge(e, n, adj, al, mx, 0, False)
    return fn


def real(shape, classical):
    def fn(e):
        kw = scen.kw(shape)
        if classical:
            kw["classical_sources"] = "all"
        pr = scen.problem(**kw)
        sp = scen.Spec(**kw)
        lexn = np.asarray(pr._lexorder, dtype=int)
        ts = [lexn[t].tolist() for t in pr._template_idxs]
        n = len(ts)
        comp = [[not sp.notcomm(a, b) for b in ts] for a in ts]
        max_n = int(e.int("max_n", 0, 3))
        al, mx = pr.all_and_maximal_compatible_templates(
            max_n=max_n, isolate_maximal=max_n == 0)
        judge(e, n, comp, al, mx, max_n, max_n == 0)
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for n in [1, 2, 3, 4, 5] + ([6] if big else []):
        obs.append(Obligation(
            f"graph n={n}", "graph", dict(n=n, diag=bool(n % 2)),
            ["utils.all_and_maximal_cliques"],
            f"all graphs on {n} vertices, every size limit 0..{n}",
            parallel=n > 3))
    for shape, c in [("bilocal", False), ("bilocal", True),
                     ("bellinf", False), ("evans", False)] + (
            [("triangle", False), ("instrumental_inf", True),
             ("latent", False)] if big else []):
        obs.append(Obligation(
            f"templates {shape} {'classical' if c else 'quantum'}", "real",
            dict(shape=shape, classical=c),
            ["InflationProblem.all_and_maximal_compatible_templates",
             "InflationProblem._compatible_template_measurements",
             "utils.all_and_maximal_cliques"],
            "every set of measurements of the inflated scenario"))
    return obs
