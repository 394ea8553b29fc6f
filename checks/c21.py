"""C21: the operators of a scenario."""
import itertools
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib import scen
from vlib.env import mod
from inflation import InflationSDP, InflationLP

EXPLANATION = (
    "Problems are constructed by the real code for every choice of "
    "cardinalities and inflation levels within the bounds; in each, z3 is "
    "asked for an operator coordinate (party, copies, setting, outcome) that "
    "is missing, superfluous or repeated, for two effective settings with one "
    "meaning, and for a position where the lookups disagree.")
ASSUMPTIONS = []
OUTSIDE = "larger cardinalities, levels and other DAGs"


def iff(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


def ops(shape, omax, smax, lmax, order=None, cls=None, omin=2):
    def fn(e):
        kw = scen.kw(shape)
        nP = len(kw["order"])
        if order:
            kw["order"] = list(order)
        kw["outcomes_per_party"] = [int(e.int(f"outs{p}", omin, omax))
                                    for p in range(nP)]
        kw["settings_per_party"] = [int(e.int(f"sets{p}", 1, smax))
                                    for p in range(nP)]
        kw["inflation_level_per_source"] = [
            int(e.int(f"level{s}", 1, lmax))
            for s in range(len(kw["inflation_level_per_source"]))]
        if cls is not None:
            kw["classical_sources"] = cls
        sp = scen.Spec(**kw)
        pr = scen.problem(**kw)
        S = len(sp.sources)
        lexn = np.asarray(pr._lexorder, dtype=int)
        N = len(lexn)
        e.check(lexn.shape == (N, S + 3) and pr._nr_operators == N,
                "wrong shape of the operator list")
        lex = e.table("lexorder", lexn)

        def valid(c):
            """c is an operator of the scenario."""
            p, s, o = c[0], c[-2], c[-1]
            alts = []
            for q in range(nP):
                alts.append(And(p == q + 1, s >= 0, s < sp.settings[q],
                                o >= 0, o < sp.outs[q], *[
                    And(c[1 + k] >= 1, c[1 + k] <= sp.inf[k])
                    if sp.hyper[k][q] else c[1 + k] == 0 for k in range(S)]))
            return Or(*alts)
        i = e.int("i", 0, N - 1)
        j = e.int("j", 0, N - 1)
        ri = [lex(i, k) for k in range(S + 3)]
        rj = [lex(j, k) for k in range(S + 3)]
        e.check(valid(ri), "an operator of the list does not exist in the "
                "scenario")
        e.check(Implies(i != j, Or(*[a != b for a, b in zip(ri, rj)])),
                "an operator is listed twice")
        c = [e.int("party", 1, nP)] + [e.int(f"copy{k}", 0, lmax)
                                       for k in range(S)] \
            + [e.int("setting", 0, max(sp.settings) - 1),
               e.int("outcome", 0, omax - 1)]
        e.check(Implies(valid(c), Or(*[
            And(*[c[k] == int(lexn[r, k]) for k in range(S + 3)])
            for r in range(N)])), "an operator of the scenario is missing")
        # lookups
        pos = [int(pr.mon_to_lexrepr(pr._lexorder[r:r + 1])[0])
               for r in range(N)]
        t = e.table("position", np.array(pos))
        e.check(t(i) == i, "looking up an operator gives another position")
        # measurements
        grp = np.full(N, -1)
        for g, ix in enumerate(pr._ortho_idxs):
            for x in ix:
                grp[x] = g
        tg = e.table("group", grp)
        e.check(iff(e, tg(i) == tg(j),
                    And(*[a == b for a, b in zip(ri[:-1], rj[:-1])])),
                "operators are not grouped by measurement")
        e.check(And(*[all((np.asarray(g) == lexn[ix]).all() for g, ix in
                          zip(pr._ortho_groups, pr._ortho_idxs))]),
                "the measurements do not list their operators")
        temp = np.asarray(pr._template_idxs)
        tt = e.table("template", temp)
        k = e.int("k", 0, len(temp) - 1)
        e.check(And(tg(tt(k)) == k, lex(tt(k), S + 2) == 0),
                "measurement templates are wrong")
        # effective settings
        p = int(e.int("p", 0, nP - 1))
        e2p = pr.effective_to_parent_settings[p]
        e.check(len(e2p) == sp.settings[p] and
                int(pr.settings_per_party[p]) == sp.settings[p],
                "wrong number of effective settings")
        tab = e.table("unpack", np.array([list(map(int, e2p[s])) for s in
                                          range(sp.settings[p])]))
        dims = [sp.priv[p]] + [sp.outs[q] for q in sp.parents[p]]
        e.check(list(map(int, pr.parents_per_party[p])) == sp.parents[p],
                "wrong parents")
        s = e.int("s", 0, sp.settings[p] - 1)
        v = [tab(s, d) for d in range(len(dims))]
        e.check(And(*[And(x >= 0, x < d) for x, d in zip(v, dims)]),
                "an effective setting has an impossible meaning")
        code = 0
        for x, d in zip(v, dims):
            code = code * d + x
        e.check(code == s, "effective settings are not the private setting "
                "and the outcomes of the parents in lexicographic order")
        e.witness("reached")
        if N > 2:
            e.witness("two operators", i != j)
    return fn


def programs(shape):
    """The operator lists of programs are those of the problem."""
    def fn(e):
        kw = scen.kw(shape)
        kw["inflation_level_per_source"] = [
            int(e.int(f"level{s}", 1, 2))
            for s in range(len(kw["inflation_level_per_source"]))]
        allo = bool(e.bool("include_all_outcomes"))
        kw["classical_sources"] = "all" if bool(e.bool("classical")) else []
        if kw["classical_sources"] == "all" and \
                "nonclassical_intermediate_latents" in kw:
            kw["classical_intermediate_latents"] = kw.pop(
                "nonclassical_intermediate_latents")
        pr = scen.problem(**kw)
        c = InflationSDP(pr, include_all_outcomes=allo)
        lexn = np.asarray(pr._lexorder, dtype=int)
        N = len(lexn)
        e.check(c._lexorder.shape == (N + 1, lexn.shape[1]),
                "wrong number of operators")
        lex = e.table("lexorder", lexn)
        sl = e.table("sdp_lexorder", np.asarray(c._lexorder, dtype=int))
        i = e.int("i", 0, N - 1)
        e.check(And(*[sl(i + 1, k) == lex(i, k)
                      for k in range(lexn.shape[1])]),
                "the program lists operators in another order")
        e.check(And(*[sl(0, k) == 0 for k in range(lexn.shape[1])]),
                "the zero operator is not first")
        pos = e.table("pos", np.array([
            int(c.mon_to_lexrepr(c._lexorder[r:r + 1])[0])
            for r in range(N + 1)]))
        j = e.int("j", 0, N)
        e.check(pos(j) == j, "looking up an operator of the program gives "
                "another position")
        m = [0] * N
        for p, ms in enumerate(c.measurements):
            got = sum(len(x) for conf in ms for x in conf)
            want = sum(1 for o in lexn if o[0] == p + 1 and (
                allo or pr.has_children[p]
                or o[-1] < pr.outcomes_per_party[p] - 1))
            e.check(got == want, "a party has the wrong number of operators")
        e.witness("reached")
    return fn


def obligations(tier):
    big = tier == "thorough"
    f = ["InflationProblem.__init__", "InflationProblem.mon_to_lexrepr",
         "InflationProblem._lexorder_lookup"]
    obs = []
    for shape, o, s, l, order in [
            ("bell", 3, 2, 2, ("B", "A")), ("bilocal", 2, 2, 2, None),
            ("triangle", 2, 1, 3, ("C", "A", "B")),
            ("instrumental", 3, 2, 2, None),
            ("evans", 3, 1, 2, ("B", "C", "A")), ("chain", 3, 2, 1, None),
            ("collider", 3, 2, 1, None), ("direct_latent", 2, 2, 2, None),
            ("latent", 2, 1, 2, None)] + ([
            ("bell", 4, 4, 4, None), ("bilocal", 3, 2, 3, None),
            ("triangle", 3, 2, 2, None), ("instrumental", 4, 3, 3, ("B", "A")),
            ("evans", 3, 2, 2, None), ("chain", 3, 3, 2, ("C", "B", "A"))]
            if big else []):
        obs.append(Obligation(
            f"operators {shape} o<={o} s<={s} l<={l}", "ops",
            dict(shape=shape, omax=o, smax=s, lmax=l, order=order), f,
            f"outcomes 2..{o}, settings 1..{s}, levels 1..{l} of every party "
            "and source, all operator coordinates", parallel=True, depth=5))
    for shape in ["bilocal", "instrumental", "latent"] + (
            ["triangle", "evans"] if big else []):
        obs.append(Obligation(
            f"program {shape}", "programs", dict(shape=shape),
            ["InflationSDP.__init__", "InflationSDP.mon_to_lexrepr",
             "InflationSDP._generate_parties"],
            "levels 1..2, both kinds of sources, with and without last "
            "outcomes", parallel=True, depth=3))
    return obs
