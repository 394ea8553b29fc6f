"""C07: entries of the moment matrix."""
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, Iff, ite
from vlib import scen, prog
from vlib.env import mod
from checks.c01 import setup, look, dep, reduced
import inflation.sdp.fast_npa as F
QT = mod("sdp.quantum_tools")

EXPLANATION = (
    "The moment matrix of columns with symbolic operators under a symbolic "
    "commutation relation and symbolic orthogonality classes is computed by "
    "the real code; z3 is asked for entries that are wrongly zero or "
    "non-zero, and for two entries that share a variable although their "
    "products differ, or differ although the products are equal up to "
    "conjugation. The moment "
    "matrices of real programs are compared, at symbolic rows and columns, "
    "with classes of products computed from the causal structure alone.")
ASSUMPTIONS = [
    "letters of one orthogonality class are contiguous in the operator order "
    "and have the same commutation relations",
    "columns are non-zero products (C22)"]
OUTSIDE = "longer columns, larger alphabets, other scenarios"


class Map:
    """A dictionary whose keys may be symbolic."""

    def __init__(self, *a):
        self.rows = []

    def _find(self, k):
        k = tuple(k)
        for row in self.rows:
            if len(row[0]) == len(k):
                same = And(*[x == y for x, y in zip(row[0], k)])
                if bool(same):
                    return row
        return None

    def __getitem__(self, k):
        r = self._find(k)
        if r is None:
            raise KeyError(k)
        return r[1]

    def __setitem__(self, k, v):
        r = self._find(k)
        if r is None:
            self.rows.append([tuple(k), v])
        else:
            r[1] = v

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        r = self._find(k)
        return d if r is None else r[1]

    def setdefault(self, k, d=None):
        r = self._find(k)
        if r is None:
            self[k] = d
            return d
        return r[1]

    def __len__(self):
        return len(self.rows)

    def items(self):
        return [tuple(r) for r in self.rows]


def same_trace(nc, u, ku, w, kw):
    """The kept letters of u and of w are the same product."""
    def occ(ws, kp, i):
        return sum([ite(And(ws[k] == ws[i], kp[k]), 1, 0)
                    for k in range(i)], 0)
    L, M = len(u), len(w)
    ou = [occ(u, ku, i) for i in range(L)]
    ow = [occ(w, kw, j) for j in range(M)]
    match = [[And(ku[i], kw[j], u[i] == w[j], ou[i] == ow[j])
              for j in range(M)] for i in range(L)]
    cond = []
    for i in range(L):
        cond.append(Implies(ku[i], Or(*match[i])))
    for j in range(M):
        cond.append(Implies(kw[j], Or(*[match[i][j] for i in range(L)])))
    pos = [sum([ite(match[i][j], j, 0) for j in range(M)], 0)
           for i in range(L)]
    for i in range(L):
        for k in range(i + 1, L):
            cond.append(Implies(And(ku[i], ku[k], dep(nc, u[i], u[k])),
                                pos[i] < pos[k]))
    return And(*cond)


def entries(n, lengths, commuting=False):
    def fn(e):
        total = sum(lengths)
        nc, om, w = setup(e, n, total)
        if commuting:
            for i in range(1, n + 1):
                for j in range(i + 1, n + 1):
                    e.assume(Not(nc[i][j]))
        cols, at = [], 0
        for k in lengths:
            cols.append(w[at:at + k])
            at += k
        arrs = [e.arr(c, np.intc) if c else np.array([], dtype=np.intc)
                for c in cols]
        extra = dict(dict=Map) if e.symbolic and not e.enum else {}
        with e.patch(F, QT, **extra):
            mm, corr = QT.calculate_momentmatrix_1d_internal(
                arrs, e.arr(nc, bool), e.arr(om, bool), commuting)
        N = len(cols)
        e.check(mm.shape == (N, N), "the matrix has another shape")
        words = {}
        for i in range(N):
            for j in range(N):
                e.check(mm[i, j] == mm[j, i], "the matrix is not symmetric")
                if i <= j:
                    u = cols[i][::-1] + cols[j]
                    words[i, j] = (u, *reduced(nc, om, u))
        iff = (lambda x, y: Iff(x, y)) if e.symbolic else \
            (lambda x, y: bool(x) == bool(y))
        for p, (u, ku, z) in words.items():
            e.check(iff(mm[p] == 0, z), "an entry is zero although its "
                    "product does not vanish, or the other way round")
        ps = list(words)
        for a in range(len(ps)):
            for b in range(a):
                (u, ku, zu), (v, kv, zv) = words[ps[a]], words[ps[b]]
                eq = Or(same_trace(nc, u, ku, v, kv),
                        same_trace(nc, u, ku, v[::-1], kv[::-1]))
                e.check(Or(zu, zv, iff(mm[ps[a]] == mm[ps[b]], eq)),
                        "two entries are the same variable although their "
                        "products differ, or different variables although "
                        "they are equal")
        if not lengths[0]:
            e.check(mm[0, 0] == 1, "the normalisation is not variable 1")
        # the correspondence names the products
        items = list(corr.items())
        for p, (u, ku, z) in words.items():
            named = []
            for key, idx in items:
                key = list(key)
                on = [True] * len(key)
                named.append(And(mm[p] == idx, Or(
                    same_trace(nc, u, ku, key, on),
                    same_trace(nc, u[::-1], ku[::-1], key, on))))
            e.check(Or(z, *named), "the product named for a variable is not "
                    "that of the entry")
        e.witness("zero", Or(*[z for _, _, z in words.values()])
                  if sum(lengths) > 1 else True)
        e.witness("nonzero", Not(words[ps[-1]][2]) if ps else True)
    return fn


_classes = {}


def classes(kind, name, opts, cols):
    """For every entry its class: 0 if zero, else a number for the class of
    products equal up to relabelling and conjugation."""
    key = (name, repr(opts), repr(cols))
    if key not in _classes:
        o = dict(opts)
        kw = scen.kw(name, **o.pop("problem", {}))
        sp = scen.Spec(**kw)
        can = scen.Canon(sp)
        p = prog.fresh("sdp", name, columns=cols, **opts)
        ops = np.asarray(p._lexorder)
        gens = [[tuple(int(v) for v in ops[k]) for k in c]
                for c in p.generating_monomials_1d]
        n = len(gens)
        num = {}
        M = np.zeros((n, n), dtype=int)
        keys = {}
        for i in range(n):
            for j in range(n):
                k = can.key(gens[i][::-1] + gens[j])
                if k is None:
                    continue
                M[i, j] = num.setdefault(k, len(num) + 1)
                keys[M[i, j]] = k
        moments = {}
        for x, k in keys.items():
            moments[x] = can.moment(k)
        _classes[key] = (p, M, keys, moments, can)
    return _classes[key]


def real(name, opts, cols):
    opts = dict(opts)

    def fn(e):
        p, M, keys, moments, can = classes("sdp", name, opts, cols)
        p = prog.fresh("sdp", name, columns=cols, **opts)
        n = len(M)
        mm = np.asarray(p.momentmatrix).astype(int)
        e.check(mm.shape == (n, n), "the matrix has another shape")
        want = e.table("class", M)
        got = e.table("variable", mm)
        i, j, k, m = (e.int(x, 0, n - 1) for x in ("i", "j", "k", "m"))
        iff = (lambda x, y: Iff(x, y)) if e.symbolic else \
            (lambda x, y: bool(x) == bool(y))
        e.check(iff(want(i, j) == 0, got(i, j) == 0), "an entry is zero "
                "although its product does not vanish, or the other way "
                "round")
        e.check(got(i, j) == got(j, i), "the matrix is not symmetric")
        # one variable of every class, and one class of every variable
        V = int(mm.max()) + 1
        first = np.full(V, -1)
        for a, b in zip(mm.ravel(), M.ravel()):
            if first[a] < 0:
                first[a] = b
        fc = np.full(int(M.max()) + 1, -1)
        for a, b in zip(mm.ravel(), M.ravel()):
            if fc[b] < 0:
                fc[b] = a
        tv, tc = e.table("class of variable", first), \
            e.table("variable of class", fc)
        e.check(And(tv(got(i, j)) == want(i, j)), "two entries are the same "
                "variable although their products differ")
        e.check(And(tc(want(i, j)) == got(i, j)), "two entries are different "
                "variables although their products are equal")
        # what the variables are called
        ids = {}
        for idx, mon in p.compmoment_from_idx.items():
            if idx == 0:
                e.check(mon.is_zero, "variable 0 is not zero")
                continue
            ids[idx] = can.product([[tuple(int(v) for v in o)
                                     for o in f.as_2d_array]
                                    for f in mon.factors])
        e.check(set(ids) == set(int(v) for v in np.unique(mm)) - {0},
                "a variable of the matrix has no moment")
        nums = {}
        a = np.zeros(V, dtype=int)
        for idx, kk in ids.items():
            a[idx] = nums.setdefault(kk, len(nums) + 1)
        b = np.zeros(int(M.max()) + 1, dtype=int)
        for x, kk in moments.items():
            b[x] = nums.setdefault(kk, len(nums) + 1)
        ta, tb = e.table("moment of variable", a), e.table("moment", b)
        e.check(ta(got(i, j)) == tb(want(i, j)), "an entry is named as "
                "another moment than its product")
        one = [x for x in range(n) if len(p.generating_monomials_1d[x]) == 0]
        for x in one:
            e.check(mm[x, x] == 1 and p.compmoment_from_idx[1].is_one,
                    "the identity entry is not the normalisation")
        if not M.all():
            e.witness("zero", got(i, j) == 0)
        e.witness("other", And(got(i, j) > 1, i != j))
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for n, ls in [(3, (0, 1, 1)), (3, (1, 2)), (4, (0, 1, 2)), (3, (2, 2))] \
            + ([(4, (1, 1, 1)), (4, (2, 2)), (3, (0, 1, 3)), (3, (1, 1, 2))]
               if big else []):
        for c in (False, True):
            obs.append(Obligation(
                f"entries n={n} lengths={ls}" + (" commuting" if c else ""),
                "entries", dict(n=n, lengths=ls, commuting=c),
                ["quantum_tools.calculate_momentmatrix_1d_internal",
                 "fast_npa.to_canonical_1d_internal", "fast_npa.dot_mon"],
                f"all columns of these lengths over {n} letters, all "
                "commutation relations and orthogonality classes",
                parallel=True, depth=4,
                fallback=dict(n=2, lengths=(0, 1, 1), commuting=c)))
    progs = [("bell", {}, "npa2"), ("bellinf", {}, "npa2"),
             ("bilocal", {}, "npa2"), ("triangle", {}, "npa2"),
             ("bellinf", {"include_all_outcomes": True}, "npa2"),
             ("bilocal_hybrid", {}, "npa2"), ("bell_c", {}, "npa2"),
             ("instrumental_inf", {}, "npa1"), ("latent", {}, "npa2"),
             ("evans", {}, "npa2"), ("bellinf", {}, "physical2"),
             ("bell3", {}, "local2"), ("bell", {}, "npa3")]
    if big:
        progs += [("bellinf", {}, "npa3"), ("instrumental_inf", {}, "npa2"),
                  ("triangle_mixed", {}, "npa2"), ("latent_c", {}, "npa1"),
                  ("bilocal", {}, "local1"), ("triangle", {}, "physical2"),
                  ("chain", {}, "npa2"),
                  ("collider", {}, "npa1"), ("triangle", {}, "local1"),
                  ("direct_latent", {}, "npa2"), ("bilocal_c", {}, "npa2")]
    for name, opts, cols in progs:
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        obs.append(Obligation(
            f"program {name} {cols}{tail}", "real",
            dict(name=name, opts=list(opts.items()), cols=cols),
            ["InflationSDP.generate_relaxation",
             "InflationSDP._build_momentmatrix_1d_internal",
             "InflationSDP._discover_columns_symmetries",
             "quantum_tools.apply_inflation_symmetries",
             "quantum_tools.calculate_momentmatrix_1d_internal"],
            "all rows and columns of this program"))
    return obs
