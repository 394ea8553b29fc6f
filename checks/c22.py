"""C22: generating sets."""
import itertools
import warnings
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies
from vlib import scen, prog

EXPLANATION = (
    "The real build_columns makes the columns of a specification. For a "
    "symbolic column z3 decides that its product is non-zero, in canonical "
    "form and of the stated kind; for two symbolic columns, that they differ; "
    "and for a symbolic product of the stated kind, with every operator "
    "ranging over all operators of its party, that it is one of the columns. "
    "Commutation, orthogonality and the operators themselves come from the "
    "causal structure alone.")
ASSUMPTIONS = [
    "operators of different parties commute (no non-classical intermediate "
    "latents)"]
OUTSIDE = "other scenarios and specifications, columns given as symbols"


def kinds(spec, parties, maxlen, longest):
    """The party patterns a specification asks for, and whether operators
    must commute."""
    if not isinstance(spec, str):
        return sorted(set(tuple(sorted(s)) for s in spec)), False
    if spec.startswith("npa"):
        N = int(spec[3:])
        caps, total, phys = [N] * parties, N, False
    else:
        phys = spec.startswith("physical")
        digits = spec[8:] if phys else spec[5:]
        caps = [longest + 1] * parties if not digits else \
            [int(c) for c in digits] if len(digits) == parties else \
            [int(digits)] * parties
        total = sum(caps)
    if maxlen:
        total = min(total, maxlen)
    total = min(total, longest + 1)
    out = []
    for c in itertools.product(*[range(min(k, total) + 1) for k in caps]):
        if sum(c) <= total:
            out.append(tuple(p for p, k in enumerate(c) for _ in range(k)))
    return out, phys


_made = {}


def setting(name, opts, spec, maxlen):
    key = (name, repr(opts), repr(spec), maxlen)
    if key not in _made:
        o = dict(opts)
        sp = scen.Spec(**scen.kw(name, **o.pop("problem", {})))
        all_outs = o.get("include_all_outcomes") or o.get("supports_problem")
        ops = [x for x in sp.operators()
               if all_outs or sp.children[x[0] - 1]
               or x[-1] < sp.outs[x[0] - 1] - 1]
        p = prog.fresh("sdp", name, **opts)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cols = p.build_columns(spec, max_monomial_length=maxlen)
        number = {x: k for k, x in enumerate(ops)}
        lex = [tuple(int(v) for v in x) for x in p._lexorder]
        words = []
        for c in cols:
            words.append(tuple(number.get(lex[int(k)], -1) for k in c))
        commuting = bool(o.get("commuting"))
        N = len(ops)
        nc = np.zeros((N, N), dtype=int)
        orth = np.zeros((N, N), dtype=int)
        for a in range(N):
            for b in range(N):
                nc[a, b] = not commuting and sp.notcomm(ops[a], ops[b])
                orth[a, b] = a == b or sp.ortho(ops[a], ops[b])
        _made[key] = (sp, ops, words, nc, orth)
    return _made[key]


def normal(w, nc, orth, commuting_only=False):
    """Non-zero, reduced, and least among its reorderings."""
    out = []
    for i in range(len(w)):
        for j in range(i + 1, len(w)):
            if commuting_only:
                out.append(nc(w[i], w[j]) == 0)
            apart = Or(*[Or(nc(w[i], w[k]) == 1, nc(w[k], w[j]) == 1)
                         for k in range(i + 1, j)])
            out.append(Or(apart, orth(w[i], w[j]) == 0))
            stuck = Or(*[nc(w[k], w[j]) == 1 for k in range(i, j)])
            out.append(Or(stuck, w[i] <= w[j]))
    return And(*out)


def columns(name, opts, spec, maxlen=0):
    opts = dict(opts)

    def fn(e):
        sp, ops, words, nc, orth = setting(name, opts, spec, maxlen)
        e.check(all(k >= 0 for w in words for k in w), "a column contains an "
                "operator that does not exist or is redundant")
        longest = max(len(w) for w in words)
        pats, phys = kinds(spec, len(sp.names), maxlen, longest)
        tn, to = e.table("notcomm", nc), e.table("orthogonal", orth)
        by = {}
        for w in words:
            by.setdefault(len(w), []).append(w)
        party = [x[0] - 1 for x in ops]
        tp = e.table("party", np.array(party))
        for L, ws in sorted(by.items()):
            if L == 0:
                e.check(len(ws) == 1, "the identity is repeated")
                continue
            t = e.table(f"columns of length {L}", np.array(ws))
            k = e.int(f"column{L}", 0, len(ws) - 1)
            w = [t(k, q) for q in range(L)]
            e.check(normal(w, tn, to, phys), "a column is zero or not in "
                    "canonical form" + (", or its operators do not commute"
                                        if phys else ""))
            e.check(Or(*[And(*[tp(x) == q for x, q in zip(w, pat)])
                         for pat in pats if len(pat) == L]), "a column has "
                    "numbers of operators per party that were not asked for")
            m = e.int(f"other{L}", 0, len(ws) - 1)
            e.check(Or(k == m, *[t(k, q) != t(m, q) for q in range(L)]),
                    "a column is repeated")
        of = {}
        for x, q in enumerate(party):
            of.setdefault(q, []).append(x)
        found = False
        for pat in pats:
            if not pat:
                e.check(() in words, "the identity is missing")
                continue
            if not all(q in of for q in pat):
                continue
            tag = "".join(map(str, pat))
            w = [e.int(f"operator{tag}_{k}", of[q][0], of[q][-1])
                 for k, q in enumerate(pat)]
            asked = normal(w, tn, to, phys)
            have = [v for v in by.get(len(pat), [])
                    if tuple(party[x] for x in v) == pat]
            e.check(Or(Not(asked), *[And(*[a == b for a, b in zip(w, v)])
                                     for v in have]),
                    "a product that was asked for is not a column")
            if have and not found:
                e.witness("asked for", asked)
                found = True
    return fn


def obligations(tier):
    big = tier == "thorough"
    A = {"include_all_outcomes": True}
    S = [[], [0], [1], [0, 0], [0, 1]]
    progs = [("bell", {}, "npa2", 0), ("bell", A, "npa3", 0),
             ("bell3", {}, "local21", 0), ("bellinf", {}, "local2", 3),
             ("bellinf", {}, "physical", 4), ("bellinf", {}, "physical2", 0),
             ("bell", A, "physical1", 0), ("bellinf", A, "physical", 2),
             ("bellinf", {}, "physical21", 3), ("bellinf", {}, "physical20", 0),
             ("bilocal", {}, "physical010", 0), ("bilocal", {}, "local011", 0),
             ("bell", {}, S, 0),
             ("bilocal", {}, "npa2", 0), ("bilocal", {}, "physical", 2),
             ("bilocal", {}, "physical1", 0), ("bilocal", {}, "local1", 0),
             ("bilocal", {}, [[], [1], [1, 1, 1], [0, 1, 2]], 0),
             ("triangle", {}, "npa2", 0), ("triangle", {}, "physical", 2),
             ("triangle", {}, "local1", 2), ("triangle", A, "npa2", 0),
             ("bilocal_hybrid", {}, "npa2", 0),
             ("bilocal_hybrid", {}, "physical", 3),
             ("bilocal_hybrid", {}, "local101", 0),
             ("triangle_mixed", {}, "physical1", 0),
             ("bell_c", {}, "npa2", 0), ("bell_c", {}, "physical", 4),
             ("bell_c", {}, "local12", 0),
             ("instrumental", {}, "npa2", 0),
             ("instrumental", {}, "physical", 0),
             ("instrumental_inf", {}, "npa2", 0),
             ("instrumental_inf", {}, "physical11", 0),
             ("evans", {}, "local1", 2), ("evans", {}, "physical", 2),
             ("latent_c", {}, "npa1", 0), ("bell", {}, "npa3", 2)]
    if big:
        progs += [("bellinf", {}, "physical", 0), ("bell_c", {}, "physical", 0),
                  ("bell", {}, "npa4", 0), ("bellinf", {}, "npa3", 0),
                  ("bilocal", {}, "npa3", 0), ("triangle", {}, "npa3", 0),
                  ("bilocal", {}, "physical2", 0),
                  ("triangle", {}, "physical2", 4),
                  ("triangle", {}, "local1", 0),
                  ("collider", {}, "npa2", 0), ("chain", {}, "npa2", 0),
                  ("collider", {}, "physical1", 0), ("chain", {}, "local1", 0),
                  ("triangle_mixed", {}, "npa2", 0),
                  ("bellinf", A, "physical", 0),
                  ("triangle", {"supports_problem": True}, "physical1", 0)]
    obs = []
    for name, opts, spec, maxlen in progs:
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        obs.append(Obligation(
            f"{name} {spec}" + (f" max={maxlen}" if maxlen else "") + tail,
            "columns", dict(name=name, opts=list(opts.items()), spec=spec,
                            maxlen=maxlen),
            ["InflationSDP.build_columns",
             "InflationSDP._build_cols_from_specs",
             "InflationProblem.all_and_maximal_compatible_templates"],
            "all columns of this specification, all products of this kind"))
    return obs
