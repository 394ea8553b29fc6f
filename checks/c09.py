"""C09: normalisation equalities of semidefinite programs."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or
from vlib import scen, prog

EXPLANATION = (
    "The real relaxation is generated and its equalities become linear "
    "equations over z3 reals, one per moment. Independently, from the "
    "generating columns and the causal structure, the equations 'the moments "
    "of the outcomes of a measurement add up to the moment without it' are "
    "written for all rows and columns, and for all products in the matrix. "
    "z3 decides for all values of the moments that the first follow from the "
    "equalities imposed, and the equalities imposed from the second.")
ASSUMPTIONS = ["the variables of the moment matrix are right (C07)"]
OUTSIDE = "other scenarios and generating sets"

_memo = {}


def made(name, cols, opts):
    if not isinstance(cols, str):
        cols = [np.array(c, dtype=np.intc) for c in cols]
    return prog.fresh("sdp", name, columns=cols, **opts)


def facts(name, opts, cols):
    key = (name, repr(opts), cols)
    if key in _memo:
        return _memo[key]
    o = dict(opts)
    kw = scen.kw(name, **o.pop("problem", {}))
    sp = scen.Spec(**kw)
    p = made(name, cols, opts)
    can = scen.Canon(sp)
    ops = [tuple(int(v) for v in x) for x in p._lexorder]
    gens = [tuple(ops[k] for k in c) for c in p.generating_monomials_1d]
    mm = np.asarray(p.momentmatrix).astype(int)
    kept = [bool(o.get("include_all_outcomes") or o.get("supports_problem")
                 or ch) for ch in sp.children]
    at = {can._reduce(g): i for i, g in enumerate(gens)}
    expected = []
    for c, g in enumerate(gens):
        for k, op in enumerate(g):
            n = sp.outs[op[0] - 1]
            if not kept[op[0] - 1] or op[-1] != 0:
                continue
            alt = [can._reduce(g[:k] + (op[:-1] + (v,),) + g[k + 1:])
                   for v in range(n)]
            rest = can._reduce(g[:k] + g[k + 1:])
            if rest not in at or any(x not in at for x in alt):
                continue
            for r in range(len(gens)):
                row = [(int(mm[r, at[rest]]), 1)]
                row += [(int(mm[r, at[x]]), -1) for x in alt]
                expected.append(tuple(sorted(row)))
    expected = sorted(set(expected))
    # equations between any products that occur
    var = {}
    n = len(gens)
    words = {}
    for i in range(n):
        for j in range(n):
            w = can.key(gens[i][::-1] + gens[j])
            if w is not None:
                var.setdefault(w, int(mm[i, j]))
                words.setdefault(w, gens[i][::-1] + gens[j])
    true = set()
    extra = {}

    def name_of(w):
        k = can.key(w)
        if k is None:
            return 0
        if k in var:
            return var[k]
        return extra.setdefault(k, int(mm.max()) + 1 + len(extra))
    for w in words.values():
        for k, op in enumerate(w):
            row = [(name_of(w[:k] + w[k + 1:]), 1)]
            row += [(name_of(w[:k] + (op[:-1] + (v,),) + w[k + 1:]), -1)
                    for v in range(sp.outs[op[0] - 1])]
            true.add(tuple(sorted(row)))
    total = int(mm.max()) + 1 + len(extra)
    _memo[key] = (expected, sorted(true), total)
    return _memo[key]


def equalities(name, opts, cols, how):
    opts = dict(opts)

    def fn(e):
        expected, true, total = facts(name, opts, cols)
        p = made(name, cols, opts)
        idx = {m: i for i, m in p.compmoment_from_idx.items()}
        imposed = []
        for eq in p.moment_equalities:
            e.check(all(m in idx for m in eq), "an equality has a moment "
                    "that is not in the matrix")
            imposed.append([(idx[m], float(c)) for m, c in eq.items()])
        one = idx[p.One] if p.One in idx else None
        scaled = p.supports_problem
        x = [0. if i == 0 else 1. if i == one and not scaled else
             e.real(f"x{i}", -100, 100) for i in range(total)]

        def val(row):
            s = 0
            for j, c in row:
                s = s + c * x[j]
            return s
        given, goal = (imposed, expected) if how == "present" else \
            (true, imposed)
        e.assume(And(*[e.eq(val(r), 0) for r in given]))
        for r in goal:
            e.check(e.eq(val(r), 0), ("not imposed: " if how == "present"
                    else "does not hold for every strategy: ")
                    + " ".join(f"{c:+g}*" + (p.compmoment_from_idx[j].name
                                             if j in p.compmoment_from_idx
                                             else "?")
                               for j, c in r)[:200] + " = 0")
        e.witness("reached", Or(*[v >= 0.5 for j, v in enumerate(x)
                                  if j not in (0, one)]))
    return fn


def obligations(tier):
    big = tier == "thorough"
    A = {"include_all_outcomes": True}
    S = {"supports_problem": True}
    progs = [("bell", A, "npa2"), ("bell", S, "npa1"), ("bellinf", A, "npa2"),
             ("bell3", A, "npa2"), ("instrumental", {}, "npa2"),
             ("instrumental", A, "npa1"), ("instrumental_inf", {}, "npa1"),
             ("evans", {}, "npa1"), ("chain", {}, "npa1"),
             ("triangle", A, "npa1"), ("bilocal", A, "npa1"),
             ("collider", {}, "npa1"),
             # products of two parties, where only one of the parties can be
             # summed within the columns
             ("bell", A, ((), (2,), (2, 5), (2, 6))),
             ("bell", A, ((), (6,), (1, 6), (2, 6))),
             ("bell", A, ((), (1,), (1, 3), (1, 4), (3, 1), (4, 2))),
             ("bell", A, "npa3"), ("instrumental", {}, "local1"),
             ("bell_c", A, "npa2"), ("instrumental_c", {}, "npa1"),
             ("instrumental", {"problem": {"outcomes_per_party": [1, 2]}},
              "npa1")]
    if big:
        progs += [("chain", {}, "npa2"), ("triangle", A, "local1"),
                  ("bilocal", A, "npa2"), ("evans", {}, "npa2"),
                  ("instrumental", {}, "npa3"), ("collider", {}, "npa2"),
                  ("instrumental_inf", {}, "npa2"), ("chain", A, "npa2"),
                  ("triangle_mixed", A, "npa1"), ("bellinf", S, "npa2"),
                  ("collider_r", {}, "npa1"), ("latent", A, "npa1")]
    obs = []
    for name, opts, cols in progs:
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        for how in ("present", "true"):
            obs.append(Obligation(
                f"{name} {cols}{tail}: {how}".replace("'", ""), "equalities",
                dict(name=name, opts=list(opts.items()), cols=cols, how=how),
                ["InflationSDP.generate_relaxation",
                 "InflationSDP._discover_normalization_eqns",
                 "quantum_tools.construct_normalization_eqs"],
                "all real values of all moments of this program"))
    return obs
