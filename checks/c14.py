"""C14: certificates mean the same in every form and when evaluated."""
import builtins
import warnings
import numpy as np
import sympy
from vlib.report import Obligation
from vlib.engine import And, Or, Not, Implies, SymReal, is_sym, z3, Float
from vlib.symnp import arr, patched
from vlib import texts
from vlib.symsparse import SpNp
from vlib.texts import Malformed
from vlib.env import mod
from checks.c11 import ctx, number, bound
from checks.c05 import Meaning, table
import inflation.utils as U
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
SDP = mod("sdp.InflationSDP")
MU = mod("sdp.monomial_utils")
PR = mod("InflationProblem")

EXPLANATION = (
    "clean_coefficients runs on symbolic coefficients (rounding gives any "
    "multiple of the last decimal that is near enough); z3 is asked for "
    "coefficients whose cleaned values are not proportional to them. On real "
    "programs a solver certificate with symbolic coefficients is turned into "
    "its dictionary, polynomial and text, which are read back and compared. "
    "Polynomials with symbolic coefficients are evaluated on a symbolic "
    "distribution and compared with the marginals of the operators.")
ASSUMPTIONS = [
    "coefficients, and sums of those of the same moment, are 0 or at least "
    "1/100 in size in the forms and when evaluated (the code treats those "
    "below 1e-8 as 0)",
    "the marginal of a set of parties with all their parents does not depend "
    "on the private settings of the others"]
OUTSIDE = ("other scenarios; certificates with values that no distribution "
           "gives; the precision of floating point arithmetic")


def rounded(e, x, n):
    """A multiple of 10**-n nearest to x."""
    if not isinstance(x, SymReal):
        return np.round(x, n)
    memo = e.__dict__.setdefault("_rounded", {})
    term = z3.simplify(x.e)
    key = (term.get_id(), n)
    if key not in memo:
        k = z3.Int(f"rounded!{len(memo)}_{n}")
        r = z3.ToReal(k) / 10 ** n
        memo[key] = (SymReal(r), term)
        d = term - r
        half = z3.Q(1, 2 * 10 ** n)
        memo[key + ("c",)] = SymReal(r)
        e.assume(_b(z3.And(d <= half, -half <= d)))
    return memo[key][0]


def _b(x):
    from vlib.engine import SymBool
    return SymBool(x)


class RoundNp(SpNp):
    def __init__(self, e):
        super().__init__()
        self._e = e

    def round(self, a, decimals=0, **k):
        if is_sym(a):
            return rounded(self._e, a, decimals)
        a = a if isinstance(a, np.ndarray) else np.asarray(a)
        if a.dtype != object:
            return np.round(a, decimals)
        return arr([rounded(self._e, x, decimals) for x in a.ravel()]
                   ).reshape(a.shape)
    around = round


class Clean:
    """The module with the cleaning, on symbolic numbers."""

    def __init__(self, e):
        self.e = e
        self.p = patched(U, proxy=RoundNp(e), float=Float,
                         round=lambda x, n=0: rounded(e, x, n)
                         if is_sym(x) else builtins.round(x, n)) \
            if e.symbolic and not e.enum else None

    def __enter__(self):
        self.e.__dict__["_rounded"] = {}
        if self.p:
            self.p.__enter__()

    def __exit__(self, *a):
        if self.p:
            self.p.__exit__(*a)


def is_cleaned(e, given, out, tol, dec, what="", other=()):
    """The conditions that cleaning has to meet; `other` are coefficients
    that may be the largest too."""
    half = 0.5 * 10.0 ** -dec * (1 + 1e-9)
    e.check(list(out) == list(given), what + "the cleaned certificate has "
            "other moments")
    big = {k: _above(e, v, tol) for k, v in given.items()}
    for k, v in given.items():
        e.check(Implies(Not(big[k]), e.eq(out[k], 0)), what + "a coefficient "
                "not above the cut-off remains")
    for k, v in given.items():
        # the sign is kept
        e.check(And(Implies(And(big[k], e.le(0, v)), e.le(0, out[k])),
                    Implies(And(big[k], e.le(v, 0)), e.le(out[k], 0))),
                what + "a coefficient changes sign")
    opts = []
    for f in list(given.values()) + list(other):
        # out * |f| is within half * |f| of the coefficient
        size = abs_(e, f)
        opts.append(And(_above(e, f, tol), *[
            Implies(big[k], And(e.le(out[k] * size - v, half * size),
                                e.le(v - out[k] * size, half * size)))
            for k, v in given.items()]))
    e.check(Or(Not(Or(*big.values())), *opts), what + "the relative size of "
            "the coefficients changes")


def _above(e, v, tol):
    if not is_sym(v):
        return abs(v) > tol
    return Or(v > tol, v < -tol)


def abs_(e, v):
    from vlib.engine import ite
    return ite(v >= 0, v, -v) if is_sym(v) else abs(v)


def cleaning(n, tols, decs):
    def fn(e):
        tol = e.pick("cut-off", tols)
        dec = e.pick("decimals", decs)
        given = {f"m{k}": e.coef(f"c{k}") for k in range(n)}
        if tol == 0 or tol == 1e-10:
            for v in given.values():
                e.assume(Or(e.eq(v, 0, tol=0), _above(e, v, 1e-3)))
        copy = dict(given)
        with Clean(e):
            out = U.clean_coefficients(given, tol, dec)
        e.check(list(given) == list(copy) and And(*[
            e.eq(given[k], copy[k]) for k in copy]),
            "the certificate passed is modified")
        is_cleaned(e, copy, out, abs(tol), dec)
        if n:
            e.witness("above", _above(e, copy["m0"], abs(tol)))
        else:
            e.witness("empty")
    return fn


def coefficients_of(e, poly, monos):
    """{index: coefficient} of a sympy polynomial in the moments' symbols."""
    by = {}
    for i, m in monos.items():
        by.setdefault(sympy.sympify(m.symbol), i)
    out = {}
    for term in sympy.Add.make_args(sympy.expand(sympy.sympify(poly))):
        c, rest = 1.0, sympy.S.One
        for f in sympy.Mul.make_args(term):
            if f.is_number:
                c = c * float(f)
            elif isinstance(f, sympy.Symbol) and f.name.startswith("\u00a7"):
                c = c * texts.number(e, f.name)
            else:
                rest = rest * f
        if not is_sym(c) and c == 0:
            continue
        e.check(rest in by, f"the polynomial has the unknown term {rest}")
        i = by[rest]
        out[i] = out[i] + c if i in out else c
    return out


def text_of(e, s, names):
    try:
        d = texts.polynomial(e, s)
    except Malformed as x:
        e.check(False, f"the text cannot be read: {x}")
    out = {}
    for name, c in d.items():
        if name in ("", "0"):
            if name == "0":
                continue
            name = "1"
        e.check(name in names, f"the text has the unknown moment {name}")
        i = names[name]
        out[i] = out[i] + c if i in out else c
    return out


def agree(e, got, want, what):
    for i in set(got) | set(want):
        e.check(e.eq(got.get(i, 0), want.get(i, 0)), what)


CASES = [[], [3], [0, -1], [1, 0, -2], [2, -3, 5], [0, 1, -1, 4]]


def forms(kind, name, opts, cleans, most):
    opts = dict(opts)
    from checks.c11 import Pro

    def fn(e):
        P = Pro(kind, name, opts)
        p = P.p
        idx = e.pick("moments", [c for c in CASES if len(c) <= most])
        clean = e.pick("cleaning", cleans)
        n = len(P.mons)
        idx = list(dict.fromkeys(i % n for i in idx))
        dual, want = {}, {}
        for j, i in enumerate(idx):
            c = bound(e, f"c{j}")
            dual[P.mons[i].name] = c
            want[i] = c
        if kind == "sdp" and (len(idx) in (0, 2) or most > 3 and
                              len(idx) == 3):
            c = bound(e, "constant")
            dual["constant_term"] = c
            if P.one in want:
                c = c + want[P.one]
                e.assume(Or(e.eq(c, 0), c >= 0.01, c <= -0.01)
                         if e.symbolic else c == 0 or abs(c) >= 0.01)
            want[P.one] = c
        zeros = [c for i, c in want.items() if P.mons[i].is_zero]
        want = {i: c for i, c in want.items() if not P.mons[i].is_zero}
        copy = dict(dual)
        p.solution_object = {"dual_certificate": dual, "status": "feasible"}
        names = {m.name.replace(" ", ""): i for i, m in enumerate(P.mons)}
        at = {m: i for i, m in enumerate(P.mons)}
        kw = dict(clean=False) if clean is None else dict(
            clean=True, chop_tol=clean[0], round_decimals=clean[1])
        with warnings.catch_warnings(), ctx(e, LP, LM, SDP, MU, PR), \
                Clean(e):
            warnings.simplefilter("ignore")
            e.texting(True)
            d = p.certificate_as_dict(**kw)
            q = p.certificate_as_probs(**kw)
            s = p.certificate_as_string(**kw)
            e.check(list(dual) == list(copy) and And(*[
                e.eq(dual[k], copy[k]) for k in copy]),
                "the solver's certificate is modified")
            e.check(set(d) <= set(at), "the certificate has an unknown "
                    "moment")
            d = {at[m]: c for m, c in d.items()}
            e.check(len(d) == len({i for i in d}), "a moment occurs twice")
            e.check(not any(P.mons[i].is_zero for i in d), "the zero moment "
                    "is in the certificate")
            if clean is None:
                agree(e, d, want, "the dictionary has another coefficient "
                      "than the solver's certificate")
            else:
                full = dict(want)
                out = {i: d.get(i, 0.) for i in full}
                e.check(set(d) <= set(full), "the certificate has a moment "
                        "that the solver's has not")
                # coefficients of the zero moment count when scaling
                is_cleaned(e, full, out, clean[0], clean[1],
                           other=zeros)
            agree(e, coefficients_of(e, q, dict(enumerate(P.mons))), d,
                  "the polynomial has other coefficients than the dictionary")
            e.check(isinstance(s, str) and s.endswith("< 0"),
                    "the text is not an inequality")
            agree(e, text_of(e, s[:-3], names), d, "the text has other "
                  "coefficients than the dictionary")
            e.texting(False)
        e.witness("form")
    return fn


INPUT = ["object", "name", "symbol", "expression", "product", "constant",
         "certificate"]


def evaluation(kind, name, opts, few):
    opts = dict(opts)

    def fn(e):
        how = e.pick("input", INPUT)
        M = Meaning(kind, name, opts)
        p = M.p
        knowable = [i for i in range(len(M.mons))
                    if M.keys[i] is not None and not M.rest[i]]
        first = e.pick("moments", [0, 1, 2])
        # spread over the moments, so that all kinds occur
        most = 2 if how == "certificate" else few
        step = max(1, len(knowable) // most)
        idx = knowable[first::step][:most]
        one = [i for i, m in enumerate(M.mons) if m.is_one][0]
        idx = list(dict.fromkeys(idx + [one]))
        fixed = how in ("expression", "product", "constant")
        cs = {i: (-1.5 + 0.75 * j if fixed else bound(e, f"c{j}"))
              for j, i in enumerate(idx)}
        if fixed:
            cs = {i: c for i, c in cs.items() if c}
        with warnings.catch_warnings(), ctx(e, LP, LM, SDP, MU, PR), \
                Clean(e):
            warnings.simplefilter("ignore")
            P, array = table(e, M, "none")
            spec = dict(cs)
            if how == "object":
                arg = {M.mons[i]: c for i, c in cs.items()}
            elif how == "name":
                arg = {M.mons[i].name: c for i, c in cs.items()}
            elif how == "symbol":
                arg = {M.mons[i].symbol: c for i, c in cs.items()
                       if i != one}
                spec.pop(one)
            elif how == "expression":
                arg = sympy.S.Zero
                for i, c in cs.items():
                    arg = arg + c * M.mons[i].symbol
            elif how == "constant":
                arg, spec = sympy.Float(1.25), {one: 1.25}
            elif how == "product":
                two = [i for i in cs if i != one][:2]
                arg = (M.mons[two[0]].symbol + 2) * 1.5
                spec = {two[0]: 1.5, one: 3.0}
                if len(two) > 1:
                    arg = arg - M.mons[two[1]].symbol * 0.25
                    spec[two[1]] = -0.25
                arg = sympy.expand(arg) if first else arg
            if how == "certificate":
                p.solution_object = {"dual_certificate": {
                    M.mons[i].name: c for i, c in cs.items()}}
                e.assume(Or(*[_above(e, c, 1e-3) for c in cs.values()]))
                val = p.evaluate_certificate(array)
                # up to the factor and rounding of the default cleaning
                clean = U.clean_coefficients(
                    {i: c for i, c in cs.items()})
                is_cleaned(e, cs, clean, 1e-10, 3)
                spec = {i: c for i, c in clean.items()}
            else:
                val = p.evaluate_polynomial(arg, array)
        want = 0
        for i, c in spec.items():
            v = 1.0
            for ev in M.known[i]:
                v = v * M.marginal(P, ev)
            want = want + c * v
        e.check(e.eq(val, want), "evaluating gives another value than the "
                "coefficients times the values of the distribution")
        e.witness("evaluated")
    return fn


def obligations(tier):
    big = tier == "thorough"
    obs = []
    for n in ([0, 1, 2, 3] + ([4] if big else [])):
        obs.append(Obligation(
            f"cleaning {n} coefficients", "cleaning",
            dict(n=n, tols=[1e-10, 0.5, 0, 2.0, -0.25], decs=[3, 0, 6]),
            ["utils.clean_coefficients"],
            "all coefficients; five cut-offs, three precisions",
            parallel=True, depth=4))
    cleans = [None, (1e-10, 3), (0.5, 2)]
    progs = [("lp", "bellinf", {}), ("sdp", "bellinf", {}),
             ("lp", "instrumental", {}), ("sdp", "bilocal", {}),
             ("sdp", "instrumental", {})]
    if big:
        progs += [("lp", "triangle", {}), ("sdp", "triangle", {}),
                  ("lp", "bell_c", {}), ("sdp", "evans", {}),
                  ("lp", "bilocal", {}), ("lp", "evans", {}),
                  ("sdp", "bell", {"include_all_outcomes": True})]
    for kind, name, opts in progs:
        cls = "InflationLP" if kind == "lp" else "InflationSDP"
        tail = "".join(f" {k}={v}" for k, v in opts.items())
        obs.append(Obligation(
            f"forms {kind} {name}{tail}", "forms",
            dict(kind=kind, name=name, opts=list(opts.items()),
                 most=4 if big else 3,
                 cleans=cleans + ([(0, 3), (1e-10, 0)] if big else [])),
            [f"{cls}.{f}" for f in (
                "certificate_as_dict", "certificate_as_probs",
                "certificate_as_string", "probs_from_dict",
                "string_from_dict", "_sanitise_dict")]
            + ["utils.clean_coefficients"],
            "up to 3 terms (thorough: 4) with all coefficients; several sets of moments",
            parallel=True, depth=4))
        obs.append(Obligation(
            f"evaluation {kind} {name}{tail}", "evaluation",
            dict(kind=kind, name=name, opts=list(opts.items()),
                 few=5 if big else 3),
            [f"{cls}.{f}" for f in (
                "evaluate_polynomial", "evaluate_certificate",
                "_sanitise_dict")] + [
                "CompoundMoment.compute_marginal",
                "monomial_utils.compute_marginal"],
            "up to 4 terms (thorough: 6) with all coefficients and all distributions; "
            "coefficients of symbolic expressions are fixed",
            parallel=True, depth=4))
    return obs
