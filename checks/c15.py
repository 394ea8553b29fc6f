"""C15: exported files contain the same problem that would be solved."""
import itertools
import re
import warnings
from unittest import mock
import numpy as np
from vlib.report import Obligation
from vlib.engine import And, Not, Implies, SymBool, SymReal, is_sym, plain, z3
from vlib import texts
from vlib.texts import Malformed
from vlib.env import mod
from checks.c11 import (Pro, ctx, cases, settings, stated, rows_of, OBJ,
                        VAL, BND, EXT, dot)
LP = mod("lp.InflationLP")
LM = mod("lp.monomial_classes")
LW = mod("lp.writer_utils")
SDP = mod("sdp.InflationSDP")
MU = mod("sdp.monomial_utils")
SW = mod("sdp.writer_utils")

EXPLANATION = (
    "Objective, values, bounds and extra constraints with symbolic numbers "
    "are set on a real program, which is then exported by the real writers. "
    "Every number written is a token of its symbolic term (a path for each "
    "sign; rounding formats give any number within the rounding). The text "
    "is read by readers written from the descriptions of the formats, and z3 "
    "is asked for numbers and a point on which the file and the stated "
    "problem differ.")
ASSUMPTIONS = [
    "in LP and MPS files, at most one of the constraints between known "
    "values is violated",
    "coefficients, values and bounds are 0 or at least 1/100 in size",
    "in CSV and MAT files the signs of the coefficients follow one of a few "
    "patterns and only one coefficient of each row may be 1 or -1",
    "upper bounds are not negative (readers of LP and MPS disagree on them)",
    "the objective of a file in SDPA format is the one to be maximised (the "
    "format itself speaks of minimising)",
    "a MAT file holds the arrays given to scipy's savemat"]
OUTSIDE = "other scenarios, the conversion by MOSEK (lp_to_mps)"


class Files:
    """Files opened by the writers, in memory."""

    def __init__(self):
        self.files, self.mats = {}, {}

    def open(self, name, mode="r", *a, **k):
        files = self.files

        class File:
            parts = []
            closed = False

            def write(self, s):
                assert isinstance(s, str) and not self.closed
                self.parts.append(s)

            def writelines(self, it):
                for s in it:
                    self.write(s)

            def flush(self):
                pass

            def close(self):
                if not self.closed:
                    files[name] = "".join(self.parts)
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
                return False
        f = File()
        f.parts = []
        return f

    def savemat(self, name, mdict=None, *a, **k):
        self.mats[name] = mdict


def export(e, P, names, module, numpy=False):
    """The texts of the files."""
    F = Files()
    out = {}
    e.texting(numpy=numpy)
    patches = [mock.patch.object(module, "open", F.open, create=True)]
    if module is SW:
        patches.append(mock.patch.object(SW, "savemat", F.savemat))
        if e.symbolic:
            patches.append(mock.patch.object(SW, "float", plain,
                                             create=True))
    for q in patches:
        q.__enter__()
    try:
        for n in names:
            P.p.write_to_file(n)
            full = n if "." in n else n + {"lp": ".lp", "sdp": ".dat-s"}[
                P.kind]
            out[n] = F.mats[full] if full.endswith("mat") else F.files[full]
    finally:
        for q in reversed(patches):
            q.__exit__(None, None, None)
    return out


def small(lists, t):
    return [c for c in cases(lists, t)]


ORDERS = ["vbo"]


def nonneg_upper(e, s):
    for v in s["up"].values():
        e.assume(e.le(0, v))


def signs(e, patterns):
    """The signs of the coefficients follow one of some patterns (of which
    every pair of coefficients sees all combinations) and only the first ones
    of a row may be 1 or -1."""
    k = e.pick("signs", range(patterns))
    if not e.symbolic:
        return
    names = [n for n in e.inputs if re.fullmatch(r"[chg]\d*_?\d*(again)?", n)]
    for j, n in enumerate(sorted(names)):
        v = SymReal(e.inputs[n])
        bit = [j & 1, 0, 1, j >> 1 & 1, (j >> 2 ^ j) & 1, ~j & 1][k]
        e.assume(v >= 0 if bit else v <= 0)
        if not n.endswith("_0"):
            e.assume(And(v != 1, v != -1))


def one_violated(e, P, s, eqs, ineqs):
    """At most one of the constraints between known values is violated."""
    v = {i: 0 for i, m in enumerate(P.mons) if m.is_zero}
    v.update(s["known"])
    v[P.one] = 1
    conds = [e.eq(dot(r, v), 0) for r in eqs + s["eq"] if set(r) <= set(v)]
    conds += [e.le(0, dot(r, v)) for r in ineqs + s["ineq"]
              if set(r) <= set(v)]
    conds += [e.le(b, v[i]) for i, b in s["lo"].items() if i in v]
    conds += [e.le(v[i], b) for i, b in s["up"].items() if i in v]
    which = e.pick("violated", range(len(conds) + 1))
    for j, c in enumerate(conds):
        e.assume(Not(c) if j == which else c)


def lp(name, opts, t, ext):
    lists = ([o for o in OBJ if o != "twice"], VAL[:4] + VAL[6:], BND, EXT,
             ORDERS, [False, True])
    combos = small(lists, t)

    def fn(e):
        case = e.pick("case", combos)
        P = Pro("lp", name, dict(opts))
        p = P.p
        if not hasattr(p, "_verif_rows"):
            p._verif_rows = (rows_of(p.minimal_sparse_equalities),
                             rows_of(p.minimal_sparse_inequalities))
        with warnings.catch_warnings(), ctx(e, LP, LM, MU, LW):
            warnings.simplefilter("ignore")
            s = settings(e, P, case)
            nonneg_upper(e, s)
            one_violated(e, P, s, *p._verif_rows)
            order = list(p._prepare_solver_arguments(
                separate_bounds=True)["variables"])
            text = export(e, P, [ext], LW)[ext]
        x = [e.real(f"x{i}") for i in range(P.n)]
        want = stated(e, P, s, x, *p._verif_rows, nonneg=range(P.n))
        try:
            f = (texts.read_mps if ext.endswith("mps")
                 else texts.read_lp)(e, text)
        except Malformed as ex:
            e.check(False, f"the file cannot be read: {ex}")
            return
        pos = {m.name: i for i, m in enumerate(P.mons)}
        pos["constant_term"] = P.one

        def of(v):
            if v in pos:
                return x[pos[v]]
            m = re.fullmatch(r"\D*(\d+)", v)
            return x[pos[order[int(m.group(1))]]]

        def lin(d):
            r = 0
            for v, c in d.items():
                r = r + c * of(v)
            return r
        got = [e.eq(x[P.one], 1)]
        got += [e.eq(x[i], 0) for i, m in enumerate(P.mons) if m.is_zero]
        got += [e.eq(x[i], v) for i, v in s["known"].items()]
        for d, c, r in f.rows:
            v = lin(d)
            got.append(e.eq(v, r) if c == "=" else e.le(r, v) if c == ">"
                       else e.le(v, r))
        low = {}
        for v in f.lower:
            low[of(v).e.get_id() if e.symbolic else id(of(v))] = 1
        for i in range(P.n):
            if (x[i].e.get_id() if e.symbolic else id(x[i])) not in low:
                got.append(e.le(0, x[i]))
        for v, b in f.lower.items():
            if is_sym(b) or np.isfinite(b):
                got.append(e.le(b, of(v)))
        for v, b in f.upper.items():
            if is_sym(b) or np.isfinite(b):
                got.append(e.le(of(v), b))
        sign = s["sign"] * (1 if f.sense == "max" else -1)
        same_problem(e, want, And(*got), sign * dot(s["objective"], x),
                     lin(f.objective) + f.constant, "exported program")
        e.witness("reached")
    return fn


def parts(c):
    """The conditions that are all to hold."""
    if not is_sym(c):
        return [c]
    if z3.is_and(c.e):
        return [SymBool(q) for q in c.e.children()]
    return [c]


def same_problem(e, want, got, wobj, gobj, what):
    have = {c.e.get_id() for c in parts(want) if is_sym(c)}
    for c in parts(got):
        if is_sym(c) and c.e.get_id() in have:
            continue
        e.check(Implies(want, c), what + ": a point of the stated problem is "
                "excluded")
    have = {c.e.get_id() for c in parts(got) if is_sym(c)}
    for c in parts(want):
        if is_sym(c) and c.e.get_id() in have:
            continue
        e.check(Implies(got, c), what + ": a point that violates the stated "
                "problem is allowed")
    d = wobj - gobj             # constants below 1e-8 are left out
    e.check(Implies(want, And(e.le(d, 1e-7), e.le(-1e-7, d))),
            what + ": the objective is not the stated one")


def names_csv(P):
    out = {}
    for i, m in enumerate(P.mons):
        for n in {m.name, m.name.replace(", ", ";")}:
            out[n.replace(" ", "")] = i
    return out


def sdp(name, opts, t, ext, numpy=False, patterns=1):
    lists = ([o for o in OBJ if o != "twice"], VAL[:4] + VAL[6:], BND, EXT,
             ORDERS, [False, True])
    combos = small(lists, t)

    def fn(e):
        case = e.pick("case", combos)
        P = Pro("sdp", name, dict(opts))
        p = P.p
        base = [{P.where[m]: c for m, c in q.items()}
                for q in p.minimal_equalities]
        nonneg = [P.where[m] for m in p.hermitian_moments]
        with warnings.catch_warnings(), ctx(e, SDP, LM, MU, SW):
            warnings.simplefilter("ignore")
            s = settings(e, P, case)
            if s["refused"]:
                return
            for i, v in s["known"].items():
                # the bounds of known moments are not part of the program
                if i in s["lo"]:
                    e.assume(e.le(s["lo"][i], v))
                if i in s["up"]:
                    e.assume(e.le(v, s["up"][i]))
                if i in nonneg:
                    e.assume(e.le(0, v))
            if ext != "out.dat-s":
                signs(e, patterns)
            p._prepare_solver_arguments()
            got = export(e, P, [ext], SW, numpy)[ext]
        x = [e.real(f"x{i}") for i in range(P.n)]
        if ext != "out.mat":    # the values are replaced in the file
            for i, v in s["known"].items():
                x[i] = v
        want = stated(e, P, s, x, base, [], nonneg=nonneg)
        at = {m.idx: i for i, m in enumerate(P.mons)}
        M = [[at[int(v)] for v in r] for r in p.momentmatrix]
        K = [e.eq(x[P.one], 1)]
        K += [e.eq(x[i], 0) for i, m in enumerate(P.mons) if m.is_zero]
        K += [e.eq(x[i], v) for i, v in s["known"].items()]
        # linearised values are equalities of the stated problem
        semi = {P.where[m]: (c, P.where[q]) for m, (c, q)
                in p.semiknown_moments.items()}
        try:
            read = {"csv": csv, "mat": mat}.get(ext.split(".")[-1], sdpa)
            got, obj = read(e, P, M, x, got, K, semi)
        except Malformed as ex:
            e.check(False, f"the file cannot be read: {ex}")
            return
        same_problem(e, want, And(*K, *got), s["sign"] * dot(
            s["objective"], x), obj, "exported program")
        e.witness("reached")
    return fn


def sdpa(e, P, M, x, text, K, semi):
    f = texts.read_sdpa(e, text)
    n = len(M)
    if not f.blocks or f.blocks[0] != n:
        raise Malformed("the first block is not the moment matrix")
    # which moment is a variable of the file?
    var = {}
    known = {i for i in range(P.n) if P.mons[i] in P.p.known_moments
             or P.mons[i].is_zero or i == P.one}
    for i in range(n):
        for j in range(i, n):
            d = f.entries.get((1, i + 1, j + 1), {})
            ks = [k for k in d if k]
            if len(ks) == 1:
                m = M[i][j]
                if m in known:
                    continue
                var.setdefault(ks[0], semi[m][1] if m in semi else m)
    y = {k: x[m] for k, m in var.items()}
    left = [k for k in range(1, len(f.objective) + 1) if k not in y]
    for k in left:              # a variable of no moment: free
        y[k] = e.real(f"other {k}")
    y[0] = -1

    def lin(d):
        r = 0
        for k, c in d.items():
            r = r + c * y[k]
        return r
    got = []
    for i in range(n):
        for j in range(i, n):
            got.append(e.eq(x[M[i][j]],
                            lin(f.entries.get((1, i + 1, j + 1), {}))))
    for b, size in enumerate(f.blocks[1:], 2):
        if size > 1:
            raise Malformed("a second block that is not diagonal")
        for i in range(1, abs(size) + 1):
            got.append(e.le(0, lin(f.entries.get((b, i, i), {}))))
    obj = lin(dict(enumerate(f.objective, 1)))
    # The constant is removed, with a warning and a comment in the file.
    m = re.search(r"constant term of value\s+(\S+)", text)
    if m:
        obj = obj + texts.number(e, m.group(1))
    return got, obj


def csv(e, P, M, x, text, K, semi):
    lines = text.split("\n")
    n = len(M)
    name = names_csv(P)
    shown = set()

    def lin(s, where):
        r = 0
        for k, c in texts.polynomial(e, s).items():
            if k in ("", "1"):
                r = r + c
                continue
            if k not in name:
                raise Malformed(f"{k!r} is no moment")
            if where != "matrix" and name[k] not in shown:
                raise Malformed(f"{k!r} ({where}) is not in the matrix, "
                                "its value is not given")
            if where == "matrix":
                shown.add(name[k])
            r = r + c * x[name[k]]
        return r
    if not lines[0].startswith("Objective:"):
        raise Malformed("no objective")
    got = []
    for i in range(n):
        cells = re.split(r",(?![^<\[{(]*[\])}>])", lines[1 + i])
        if len(cells) != n:
            raise Malformed("a row of another length")
        for j in range(i, n):
            got.append(e.eq(x[M[i][j]], lin(cells[j], "matrix")))
    obj = lin(lines[0].split(":", 1)[1], "objective")
    rest = lines[1 + n:]
    at = {w: [k for k, s in enumerate(rest) if s.lower().startswith(w)]
          for w in ("bounds", "equalities", "inequalities")}
    if any(len(v) != 1 for v in at.values()):
        raise Malformed("sections")
    b, q, g = (at[w][0] for w in ("bounds", "equalities", "inequalities"))
    if not b < q < g or rest[b + 1] != "Variable,lower,upper":
        raise Malformed("order of sections")
    known = {i for i in range(P.n) if P.mons[i] in P.p.known_moments}
    for s in rest[b + 2:q]:
        if not s:
            continue
        v, lo, up = s.rsplit(",", 2)
        if v in name and name[v] in known:
            continue
        v = lin(v, "bound")
        for t, up_ in ((lo, False), (up, True)):
            if t == "None":
                continue
            t = texts.number(e, t)
            got.append(e.le(v, t) if up_ else e.le(t, v))
    for s in rest[q + 1:g]:
        if s:
            got.append(e.eq(lin(s, "equality"), 0))
    for s in rest[g + 1:]:
        if s:
            got.append(e.le(0, lin(s, "inequality")))
    # bounds and rows of moments that were replaced in the matrix
    got += [e.eq(x[i], c * x[j]) for i, (c, j) in semi.items()
            if i not in shown]
    return got, obj


def mat(e, P, M, x, d, K, semi):
    name = {m.name: i for i, m in enumerate(P.mons)}
    at = {}
    for k, v in d["moments_idx2name"]:
        if int(k) in at or v not in name:
            raise Malformed("the names of the moments")
        at[int(k)] = name[v]
    got = []
    cells = np.array(d["momentmatrix"])
    n = len(M)
    if cells.shape != (n, n):
        raise Malformed("shape of the matrix")
    for i in range(n):
        for j in range(n):
            if at.get(int(cells[i, j])) != M[i][j]:
                raise Malformed("a matrix entry is another moment")

    def of(k):
        k = int(k.e.as_long() if is_sym(k) else k)
        if k not in at:
            raise Malformed("a moment without name")
        return x[at[k]]
    for k, v in d["known_moments"]:
        got.append(e.eq(of(k), v))
    for k, c, q in d["semiknown_moments"]:
        got.append(e.eq(of(k), c * of(q)))
    known = {int(k) for k, _ in d["known_moments"]}
    for k, v in d["moment_lowerbounds"]:
        if int(k) not in known:
            got.append(e.le(v, of(k)))
    for k, v in d["moment_upperbounds"]:
        if int(k) not in known:
            got.append(e.le(of(k), v))

    def lin(q):
        r = 0
        if len(q["moments"]) != len(q["coeffs"]):
            raise Malformed("a row of another length")
        for k, c in zip(q["moments"], q["coeffs"]):
            r = r + c * of(k)
        return r
    got += [e.eq(lin(q), 0) for q in d["moment_equalities"]]
    got += [e.le(0, lin(q)) for q in d["moment_inequalities"]]
    obj = 0
    for k, c in d["objective"]:
        obj = obj + c * of(k)
    K.clear()                   # the values are in the file
    return got, obj


def obligations(tier):
    big = tier == "thorough"
    fl = ["lp.writer_utils." + x for x in (
        "write_to_lp", "write_to_mps", "process_arguments",
        "format_constraint_lp")] + ["InflationLP.write_to_file",
                                    "InflationLP._prepare_solver_arguments"]
    fs = ["sdp.writer_utils." + x for x in (
        "write_to_sdpa", "write_to_csv", "write_to_mat",
        "convert_to_human_readable")] + ["InflationSDP.write_to_file"]
    t = 3 if big else 2
    b = (f"objectives of up to 5 terms, 3 free values, 4 bounds, 4 extra "
         f"rows, all with symbolic numbers; every combination of {t} of the "
         f"settings; all points")
    obs = []
    for name, opts in [("bellinf", ()), ("instrumental", ())] + (
            [("triangle", ())] if big else []):
        for ext in ("out.lp", "out.mps"):
            obs.append(Obligation(
                f"{ext} {name}", "lp", dict(
                    name=name, opts=list(opts), t=t, ext=ext), fl, b,
                parallel=True, depth=6, fallback=dict(
                    name=name, opts=list(opts), t=1, ext=ext)))
    for name, opts in [("bellinf", ()), ("bilocal", ())] + (
            [("instrumental", ()), ("evans", ())] if big else []):
        for ext in ("out.dat-s", "out.csv", "out.mat"):
            for numpy in [False, True] if ext == "out.csv" else [False]:
                kw = dict(name=name, opts=list(opts), ext=ext, numpy=numpy,
                          patterns=6 if big else 3)
                if numpy and name != "bellinf" and not big:
                    continue
                if ext != "out.dat-s" and name != "bellinf" and not big:
                    kw["patterns"] = 1
                obs.append(Obligation(
                    f"{ext} {name}" + " numpy numbers" * numpy, "sdp",
                    dict(t=t - numpy, **kw), fs, b, parallel=True, depth=6,
                    fallback=dict(t=1, **kw)))
    return obs
