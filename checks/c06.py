"""C06: moments are identified exactly by relabellings of copies."""
import itertools
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib.symnp import arr
from vlib import scen
from vlib.env import mod
import inflation.sdp.fast_npa as F
import inflation.sdp.quantum_tools as QT
import inflation.utils as U
from inflation import InflationSDP, InflationLP

EXPLANATION = (
    "apply_source_perm, perm_combiner and apply_inflation_symmetries are "
    "executed on symbolic operators, permutations and matrices; the "
    "symmetries and moments of real problems are encoded as tables computed "
    "by the real code on this run, and z3 is asked for a relabelling that is "
    "missing, a permutation that is none, and for two products that are one "
    "moment without being related by a relabelling, commutations (and "
    "conjugation), or the other way round.")
ASSUMPTIONS = [
    "apply_inflation_symmetries is given the permutations of a group (all of "
    "them but possibly the identity) that map entries with equal values to "
    "entries with equal values, as the relaxation does"]
OUTSIDE = "longer products, larger matrices and groups, larger problems"


def iff(e, x, y):
    return Iff(x, y) if e.symbolic else bool(x) == bool(y)


# ------------------------------------------------------------------ functions
def source_perm(L, S, C):
    def fn(e):
        m = [[e.int(f"m{i}_{k}", 0, C if 1 <= k <= S else 2)
              for k in range(S + 3)] for i in range(L)]
        perm = [0] + [e.int(f"p{c}", 1, C) for c in range(C)]
        for i, j in itertools.combinations(range(1, C + 1), 2):
            e.assume(perm[i] != perm[j])
        s = int(e.int("source", 0, S - 1))
        with e.patch(F):
            a = e.arr(m, np.uint8)
            out = F.apply_source_perm(a, s, e.arr(perm, np.intc))
        for i in range(L):
            for k in range(S + 3):
                want = m[i][k]
                if k == 1 + s:
                    want = 0
                    for c in range(C + 1):
                        want = ite(m[i][k] == c, perm[c], want)
                e.check(out[i, k] == want, "relabelling copies of a source "
                        "gives a wrong operator")
                e.check(a[i, k] == m[i][k], "relabelling modifies its input")
        e.witness("reached")
    return fn


def combiner(r1, r2, n):
    def fn(e):
        a = [[e.int(f"a{i}_{k}", 0, n - 1) for k in range(n)]
             for i in range(r1)]
        b = [[e.int(f"b{i}_{k}", 0, n - 1) for k in range(n)]
             for i in range(r2)]
        with e.patch(U):
            out = U.perm_combiner(e.arr(a, np.intc), e.arr(b, np.intc))
        e.check(tuple(out.shape) == (r1 * r2, n),
                "wrong number of combined permutations")
        for x in a:
            for y in b:
                comp = []
                for k in range(n):
                    v = 0
                    for t in range(n):
                        v = ite(y[k] == t, x[t], v)
                    comp.append(v)
                # some row is x after y (or, for another convention, y after x)
                comp2 = []
                for k in range(n):
                    v = 0
                    for t in range(n):
                        v = ite(x[k] == t, y[t], v)
                    comp2.append(v)
                e.check(Or(*[And(*[row[k] == comp[k] for k in range(n)])
                             for row in out],
                           *[And(*[row[k] == comp2[k] for k in range(n)])
                             for row in out]),
                        "a composition of permutations is missing")
        e.witness("reached")
    return fn


def groups(n):
    """All subgroups of S_n, as sorted lists of permutations."""
    perms = list(itertools.permutations(range(n)))

    def close(gens):
        g = {tuple(range(n))}
        new = set(gens) | g
        while new - g:
            g |= new
            new = {tuple(a[b[k]] for k in range(n)) for a in g for b in g}
        return g
    out = {frozenset(close([]))}
    for k in (1, 2):
        for gens in itertools.combinations(perms, k):
            out.add(frozenset(close(gens)))
    return sorted((sorted(g) for g in out), key=lambda g: (len(g), g))


def symmetrise(n, zero=True):
    G = groups(n)
    cells = [(i, j) for i in range(n) for j in range(i, n)]

    def fn(e):
        g = e.pick("group", G)
        order = bool(e.bool("reversed")) if len(g) > 1 else False
        # symmetric matrix, values numbered by first occurrence, 0 = zero
        v = {}
        top = 0
        for (i, j) in cells:
            x = e.int(f"m{i}_{j}", 0 if zero else 1, len(cells))
            e.assume(x <= top + 1)
            x = int(x)
            top = max(top, x)
            v[i, j] = v[j, i] = x
        for p in g:
            # permutations respect equality of entries and zeros
            for a in cells:
                pa = v[p[a[0]], p[a[1]]]
                e.assume((pa == 0) == (v[a] == 0))
                for b in cells:
                    if v[a] == v[b]:
                        e.assume(pa == v[p[b[0]], p[b[1]]])
        M = np.array([[v[i, j] for j in range(n)] for i in range(n)],
                     dtype=np.uint32)
        ident = tuple(range(n))
        perms = [p for p in g if p != ident]
        if order:
            perms = perms[::-1]
        given = M.copy()
        sym, orbits, reps = QT.apply_inflation_symmetries(
            given, np.array(perms, dtype=int).reshape(len(perms), n))
        t = e.table("sym", np.asarray(sym, dtype=int))
        m = e.table("mm", M.astype(int))
        gt = e.table("group_table", np.array(g))
        a, b, c, d = (e.int(k, 0, n - 1) for k in "abcd")
        joined = Or(*[m(gt(k, a), gt(k, b)) == m(c, d)
                      for k in range(len(g))])
        e.check(iff(e, t(a, b) == t(c, d), joined),
                "two entries are merged although no symmetry connects them, "
                "or not merged although one does")
        e.check(iff(e, t(a, b) == 0, m(a, b) == 0),
                "a zero entry is no longer zero or the other way round")
        e.check((given == M).all(), "the matrix given is modified")
        orb = {int(x): int(y) for x, y in orbits.items()}
        reps = [int(x) for x in np.asarray(reps).ravel()]
        used = {int(x) for x in M.ravel()}
        e.check(all(x in orb for x in used), "an old variable has no entry "
                "in the record")
        e.check(all(orb[int(M[i, j])] == int(sym[i, j]) for i in range(n)
                    for j in range(n)),
                "the record of old and new variables is wrong")
        new = {int(x) for x in np.asarray(sym).ravel()}
        mine = [x for x in reps if x in used]
        e.check(sorted(orb[x] for x in mine) == sorted(new),
                "the representatives are not one old variable for each new "
                "one")
        e.witness("reached")
        if len(g) > 1:
            e.witness("merged", And(joined, m(a, b) != m(c, d)))
    return fn


# --------------------------------------------------------------- real problems
CACHE = {}


def make(shape, levels, kind):
    key = (shape, tuple(levels), kind)
    if key not in CACHE:
        kw = scen.kw(shape, inflation_level_per_source=list(levels))
        pr = scen.problem(**kw)
        CACHE[key] = (scen.Spec(**kw), pr, {
            "problem": lambda: None,
            "sdp": lambda: InflationSDP(pr, include_all_outcomes=True),
            "lp": lambda: InflationLP(pr)}[kind]())
    return CACHE[key]


def relabel(lex, S, perms, a, b):
    """Operator b is operator a with the copies relabelled by perms, where
    perms[s][c] is the new copy of copy c."""
    def look(p, c):
        if isinstance(c, int):
            return p[c]
        r = 0
        for k in range(1, len(p)):
            r = ite(c == k, p[k], r)
        return r
    return And(lex(a, 0) == lex(b, 0), lex(a, S + 1) == lex(b, S + 1),
               lex(a, S + 2) == lex(b, S + 2),
               *[lex(b, 1 + s) == look(perms[s], lex(a, 1 + s))
                 for s in range(S)])


def sym_perms(e, inf, tag=""):
    out = []
    for s, n in enumerate(inf):
        p = [0] + [e.int(f"{tag}pi{s}_{c}", 1, n) for c in range(n)]
        for i, j in itertools.combinations(range(1, n + 1), 2):
            e.assume(p[i] != p[j])
        out.append(p)
    return out


def symmetries(shape, hi, kind):
    def fn(e):
        nS = len(scen.SCEN[shape]["inflation_level_per_source"])
        levels = [int(e.int(f"level{s}", 1, hi)) for s in range(nS)]
        sp, pr, c = make(shape, levels, kind)
        if kind == "problem":
            syms = np.asarray(pr.discover_lexorder_symmetries(), dtype=int)
            lexn = np.asarray(pr._lexorder, dtype=int)
        else:
            syms = np.asarray(c.lexorder_symmetries, dtype=int)
            lexn = np.asarray(c._lexorder, dtype=int)
        N, S = len(lexn), nS
        K = len(syms)
        want = 1
        for n in sp.inf:
            want *= int(np.prod(range(1, n + 1)))
        e.check(K == want, "the number of symmetries is not the number of "
                "relabellings")
        t = e.table("symmetries", syms)
        lex = e.table("lexorder", lexn)
        k = e.int("k", 0, K - 1)
        i = e.int("i", 0, N - 1)
        j = e.int("j", 0, N - 1)
        e.check(And(t(k, i) >= 0, t(k, i) < N), "a symmetry names an "
                "operator that does not exist")
        e.check(Implies(i != j, t(k, i) != t(k, j)),
                "a symmetry is not a permutation")
        x, y = t(k, i), t(k, j)
        e.check(And(lex(x, 0) == lex(i, 0), lex(x, S + 1) == lex(i, S + 1),
                    lex(x, S + 2) == lex(i, S + 2)),
                "a symmetry changes a party, setting or outcome")
        for s in range(S):
            e.check(iff(e, lex(x, 1 + s) == lex(y, 1 + s),
                        lex(i, 1 + s) == lex(j, 1 + s)),
                    "a symmetry does not relabel the copies of a source by "
                    "one permutation")
        perms = sym_perms(e, sp.inf)
        e.check(Or(*[And(*[relabel(lex, S, perms, o, int(syms[q, o]))
                           for o in range(N)]) for q in range(K)]),
                "a relabelling of copies is not among the symmetries")
        if K > 1:
            k2 = e.int("k2", 0, K - 1)
            e.check(Implies(k != k2, Or(*[t(k, o) != t(k2, o)
                                          for o in range(N)])),
                    "a symmetry is listed twice")
            e.witness("two symmetries", k != k2)
        e.check(list(syms[0]) == list(range(N)),
                "the first symmetry is not the identity")
        e.witness("reached")
    return fn


def words(shape, kind, L, levels=None):
    """Which words name one moment, as a table made by the real code."""
    key = ("words", shape, kind, L, tuple(levels or ()))
    if key not in CACHE:
        lv = levels or scen.SCEN[shape]["inflation_level_per_source"]
        sp, pr, c = make(shape, lv, kind)
        lexn = np.asarray(pr._lexorder, dtype=int)
        N = len(lexn)
        tab = np.full((N,) * L, -1)
        ids = {}
        for w in itertools.product(range(N), repeat=L):
            ops = [tuple(lexn[x]) for x in w]
            if any(x == y for x, y in itertools.combinations(w, 2)) or any(
                    sp.ortho(x, y) for x, y in itertools.combinations(ops, 2)):
                continue
            if kind == "lp":
                mon = c._sanitise_monomial(np.array(w))
            else:
                mon = c._sanitise_moment(pr._lexorder[list(w)])
            tab[w] = ids.setdefault(mon, len(ids))
        CACHE[key] = (sp, pr, c, tab)
    return CACHE[key]


def moments(shape, kind, L, levels=None):
    def fn(e):
        sp, pr, c, tab = words(shape, kind, L, levels)
        lexn = np.asarray(pr._lexorder, dtype=int)
        N, S = len(lexn), len(sp.sources)
        ops = [tuple(o) for o in lexn]
        # the first word is fixed on each path
        w1 = [int(e.int(f"u{i}", 0, N - 1)) for i in range(L)]
        e.assume(int(tab[tuple(w1)]) >= 0)
        ident = int(tab[tuple(w1)])
        same = np.argwhere(tab == ident)
        w2 = [e.int(f"v{i}", 0, N - 1) for i in range(L)]
        merged = Or(*[And(*[w2[k] == int(r[k]) for k in range(L)])
                      for r in same])
        # related: some relabelling, some admissible reordering, reversal
        alts = []
        for perms in itertools.product(*[
                [(0,) + p for p in itertools.permutations(range(1, n + 1))]
                for n in sp.inf]):
            img = [pos(ops, [o[0]] + [perms[s][o[1 + s]] for s in range(S)]
                       + list(o[-2:])) for o in (ops[x] for x in w1)]
            for v in ([img, img[::-1]] if kind == "sdp" else [img]):
                alts.append(v)
        alts = sorted(set(map(tuple, alts)))
        rel = []
        for v in alts:
            for sig in itertools.permutations(range(L)):
                if all(sig[i] < sig[j] or not (
                        kind == "sdp" and sp.notcomm(ops[v[i]], ops[v[j]]))
                       for i, j in itertools.combinations(range(L), 2)):
                    rel.append(tuple(v[sig.index(k)] for k in range(L)))
        rel = sorted(set(rel))
        related = Or(*[And(*[w2[k] == r[k] for k in range(L)]) for r in rel])
        e.check(Implies(related, merged), "two products related by a "
                "relabelling (and commutations) are different moments")
        e.check(Implies(merged, related), "two products are one moment "
                "although no relabelling (and commutation) relates them")
        e.witness("reached", related)
        e.witness("not related", Not(related))
    return fn


def pos(ops, o):
    return ops.index(tuple(o))


def columns(shape, levels):
    key = ("columns", shape, tuple(levels or ()))
    if key in CACHE:
        return CACHE[key]
    lv = levels or scen.SCEN[shape]["inflation_level_per_source"]
    sp, pr, c = make(shape, lv, "lp")
    ops = [tuple(o) for o in np.asarray(pr._lexorder, dtype=int)]
    S = len(sp.sources)
    raw = [frozenset(np.flatnonzero(r).tolist())
           for r in c._raw_monomials_as_lexboolvecs]
    where = {r: i for i, r in enumerate(raw)}
    inv = np.asarray(c.inverse, dtype=int)
    act = []
    for perms in itertools.product(*[
            [(0,) + p for p in itertools.permutations(range(1, n + 1))]
            for n in sp.inf]):
        op = [pos(ops, [o[0]] + [perms[s][o[1 + s]] for s in range(S)]
                  + list(o[-2:])) for o in ops]
        act.append([where.get(frozenset(op[x] for x in r), -1) for r in raw])
    ok = all((c.Monomial(np.array(sorted(r), dtype=int)) if r else c.One)
             == c.monomials[inv[q]] for q, r in enumerate(raw))
    CACHE[key] = pr, c, raw, inv, np.array(act), ok
    return CACHE[key]


def lp_orbits(shape, levels=None):
    """The columns of a linear program, one for each orbit."""
    def fn(e):
        pr, c, raw, inv, act, ok = columns(shape, levels)
        K = len(act)
        e.check(len(raw) == len(inv), "not every product has a variable")
        e.check(int(inv.max()) + 1 == c.n_columns == len(c.monomials),
                "the number of variables is wrong")
        e.check(ok, "a product is read as another variable than its own")
        e.check((act >= 0).all(), "a relabelled product is missing")
        # the least product of the orbit must be that of the first product
        # with the same variable: then sharing one means being related
        first = {}
        for q, v in enumerate(inv):
            first.setdefault(int(v), q)
        fst = np.array([first[int(v)] for v in inv])
        B = 24
        blk = int(e.int("block", 0, (len(raw) - 1) // B))
        mine = slice(blk * B, blk * B + B)
        i = e.int("i", 0, len(fst[mine]) - 1)
        k = e.int("k", 0, K - 1)
        t = e.table("variable", inv[mine])
        ta = e.table("variable of the relabelled product", inv[act[:, mine]])
        av = e.table("action", act[:, mine])
        fv = e.table("action on the first product", act[:, fst[mine]])
        e.check(ta(k, i) == t(i),
                "two products related by a relabelling do not share a "
                "variable of the linear program")

        def least(tab):
            r = tab(0, i)
            for q in range(1, K):
                r = ite(tab(q, i) < r, tab(q, i), r)
            return r
        e.check(least(av) == least(fv), "two products share a variable "
                "of the linear program without being related")
        if K > 1:
            e.witness("moved", av(k, i) != av(0, i))
        e.witness("reached")
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for L, S, C in [(2, 2, 3)] + ([(3, 3, 4)] if big else []):
        obs.append(Obligation(
            f"apply_source_perm L={L} S={S} C={C}", "source_perm",
            dict(L=L, S=S, C=C), ["fast_npa.apply_source_perm"],
            f"all products of {L} operators, {S} sources with {C} copies, "
            "all permutations", fallback=dict(L=1, S=2, C=2)))
    for r1, r2, n in [(2, 2, 3)] + ([(3, 2, 4)] if big else []):
        obs.append(Obligation(
            f"perm_combiner {r1}x{r2} n={n}", "combiner",
            dict(r1=r1, r2=r2, n=n), ["utils.perm_combiner"],
            f"all lists of {r1} and {r2} maps of {n} positions",
            fallback=dict(r1=1, r2=2, n=2)))
    for n in [3] + ([4] if big else []):
        obs.append(Obligation(
            f"apply_inflation_symmetries n={n}", "symmetrise", dict(n=n),
            ["quantum_tools.apply_inflation_symmetries"],
            f"all symmetric {n}x{n} matrices up to renaming of variables, "
            "all permutation groups they respect", parallel=True, depth=5))
    obs.append(Obligation(
        "apply_inflation_symmetries n=3 no zero", "symmetrise",
        dict(n=3, zero=False), ["quantum_tools.apply_inflation_symmetries"],
        "all symmetric 3x3 matrices without zeros", parallel=True, depth=5))
    for shape, hi, kind in [("bilocal", 3, "problem"),
                            ("triangle", 2, "problem"),
                            ("bilocal", 2, "sdp"), ("bilocal_c", 2, "lp"),
                            ("evans", 2, "problem")] + (
            [("bellinf", 4, "problem"), ("triangle_mixed", 3, "problem"),
             ("latent", 2, "sdp"), ("evans", 2, "sdp")] if big else []):
        obs.append(Obligation(
            f"symmetries {shape} {kind} levels<={hi}", "symmetries",
            dict(shape=shape, hi=hi, kind=kind),
            ["InflationProblem.discover_lexorder_symmetries",
             "utils.perm_combiner", "utils.format_permutations"],
            f"all inflation levels up to {hi}, all operators, all "
            "relabellings", parallel=True, depth=3))
    for shape, kind, L, lv in [
            ("bellinf", "sdp", 2, None), ("bilocal", "sdp", 2, None),
            ("bellinf", "sdp", 2, (3,)),
            ("instrumental_c", "lp", 2, None), ("evans_c", "lp", 2, None),
            ("triangle_mixed", "sdp", 2, None)] + ([
                ("bellinf", "sdp", 3, None),
                ("evans", "sdp", 2, None), ("latent", "sdp", 2, None),
                ("instrumental_inf", "sdp", 2, None),
                ("bell_c", "lp", 3, None),
                ("triangle", "sdp", 3, None)] if big else []):
        obs.append(Obligation(
            f"moments {shape} {kind} L={L}" + (f" levels {lv}" if lv else ""),
            "moments", dict(shape=shape, kind=kind, L=L, levels=lv),
            ["InflationSDP._to_inflation_repr_1d",
             "InflationSDP._inflation_orbit_and_rep_1d",
             "InflationSDP._AtomicMonomial", "InflationSDP.Moment_1d",
             "InflationLP._AtomicMonomial", "InflationLP.Monomial"],
            f"all pairs of products of {L} different, non-orthogonal "
            "operators", parallel=True, depth=2,
            fallback=dict(shape="bellinf" if kind == "sdp" else "bell_c",
                          kind=kind, L=2)))
    for shape, lv in [("bell_c", None), ("bilocal_c", None),
                      ("bell_c", (3,))] + ([
                ("instrumental_c", None), ("triangle_c", None),
                ("evans_c", None)] if big else []):
        obs.append(Obligation(
            f"columns {shape} lp" + (f" levels {lv}" if lv else ""),
            "lp_orbits", dict(shape=shape, levels=lv),
            ["InflationLP._discover_inflation_orbits",
             "InflationLP._generate_lp", "InflationLP._AtomicMonomial"],
            "all pairs of products of the program", parallel=True, depth=3))
    return obs
