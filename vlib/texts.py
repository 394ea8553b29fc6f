"""Readers of the exported formats, written from the format descriptions.

Numbers may be tokens (see Engine.texting), which are read back as the terms
they stand for.
"""
import re
from collections import namedtuple
from fractions import Fraction
from .engine import SymReal


class Malformed(Exception):
    """The text is not in the format."""


_NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?"
                  r"|[+-]?\u00a7\d+\u00a7")


def number(e, t):
    """The number a text stands for."""
    if not _NUM.fullmatch(t):
        raise Malformed(f"{t!r} is not a number")
    s, neg = t, False
    if s[0] in "+-":
        neg, s = s[0] == "-", s[1:]
    if s[0] == "\u00a7":
        v = SymReal(e.texts[int(s[1:-1])])
        if len(s) < len(t) and negative(e, v):
            raise Malformed("two signs in a row")
        return -v if neg else v
    v = float(Fraction(s)) if "e" not in s.lower() else float(s)
    return -v if neg else v


def negative(e, v):
    """The text of v starts with a minus sign."""
    return e.branch(v.e < 0)


def integer(t, low=None, high=None):
    if not re.fullmatch(r"[+-]?\d+", t):
        raise Malformed(f"{t!r} is not an integer")
    v = int(t)
    if low is not None and not low <= v <= high:
        raise Malformed(f"{v} is not in {low}..{high}")
    return v


Linear = namedtuple("Linear", "sense objective constant rows lower upper")
"""A linear program: maximise/minimise objective.x + constant such that
rows [(dict, '='|'>'|'<', rhs)] hold and lower <= x <= upper (default >= 0)."""


# ------------------------------------------------------------------- CPLEX LP
_TOK = re.compile(r"\s*(?:(<=|>=|=<|=>|<|>|=)|([+-])|"
                  r"((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|\u00a7\d+\u00a7)"
                  r"|([A-Za-z!\"#$%&(),;?@_`'{}~/.|][\w!\"#$%&(),;?@`'{}~/.|]*)"
                  r"|(:))")


def _tokens(s):
    out, at = [], 0
    while s[at:].strip():
        m = _TOK.match(s, at)
        if not m or m.end() == at:
            raise Malformed(f"cannot read {s[at:at + 30]!r}")
        at = m.end()
        kind = [k for k, g in zip(("cmp", "sign", "num", "name", "colon"),
                                  m.groups()) if g is not None][0]
        out.append((kind, m.group(0).strip()))
    return out


def _linear(e, toks):
    """Terms up to a comparison: (coefficients, constant, rest)."""
    terms, const, at = {}, 0, 0
    neg, coef = False, None

    def sgn(v):
        return -v if neg else v
    while True:
        kind, t = toks[at] if at < len(toks) else ("end", "")
        if kind == "sign":
            if coef is not None:
                const, coef, neg = const + sgn(coef), None, False
            neg ^= t == "-"
        elif kind == "num":
            if coef is not None:
                raise Malformed("two numbers in a row")
            coef = number(e, t)
        elif kind == "name":
            c = sgn(1. if coef is None else coef)
            terms[t] = terms[t] + c if t in terms else c
            neg, coef = False, None
        else:
            if coef is not None:
                const = const + sgn(coef)
            return terms, const, toks[at:]
        at += 1


def read_lp(e, text):
    sections = {"maximize": "obj", "maximise": "obj", "maximum": "obj",
                "max": "obj", "minimize": "obj", "minimise": "obj",
                "minimum": "obj", "min": "obj", "subject to": "rows",
                "such that": "rows", "st": "rows", "s.t.": "rows",
                "bounds": "bounds", "bound": "bounds", "free": "free",
                "end": "end"}
    parts, cur, sense = {}, None, None
    for line in text.split("\n"):
        line = line.split("\\")[0].rstrip()
        key = line.strip().lower()
        if cur == "end":
            if key:
                raise Malformed("text after the end")
            continue
        if key in sections:
            cur = sections[key]
            parts.setdefault(cur, [])
            if cur == "obj":
                sense = key[:3]
        elif key:
            if cur is None:
                raise Malformed(f"{line!r} before the objective")
            parts[cur].append(line)
    if "end" not in parts or "obj" not in parts:
        raise Malformed("no end or no objective")
    toks = _tokens("\n".join(parts["obj"]))
    if len(toks) > 1 and toks[1][0] == "colon":
        toks = toks[2:]
    obj, const, rest = _linear(e, toks)
    if rest:
        raise Malformed("objective")
    rows = []
    toks = _tokens("\n".join(parts.get("rows", [])))
    names = set()
    while toks:
        if len(toks) > 1 and toks[1][0] == "colon":
            if toks[0][1] in names:
                raise Malformed("two rows of one name")
            names.add(toks[0][1])
            toks = toks[2:]
        lhs, c, toks = _linear(e, toks)
        if not toks or toks[0][0] != "cmp":
            raise Malformed("a row without comparison")
        cmp_, toks = toks[0][1], toks[1:]
        neg = False
        while toks and toks[0][0] == "sign":
            neg ^= toks[0][1] == "-"
            toks = toks[1:]
        if not toks or toks[0][0] != "num":
            raise Malformed("a row without number on its right")
        r = number(e, toks[0][1])
        rows.append((lhs, _sense(cmp_), (-r if neg else r) - c))
        toks = toks[1:]
    lower, upper = {}, {}
    toks = _tokens("\n".join(parts.get("bounds", [])))
    at = 0

    def num():
        nonlocal at
        neg = False
        while at < len(toks) and toks[at][0] == "sign":
            neg ^= toks[at][1] == "-"
            at += 1
        if at < len(toks) and toks[at][0] == "name" and \
                toks[at][1].lower() in ("inf", "infinity"):
            at += 1
            return float("-inf") if neg else float("inf")
        if at >= len(toks) or toks[at][0] != "num":
            raise Malformed("a bound without number")
        at += 1
        v = number(e, toks[at - 1][1])
        return -v if neg else v

    def take(kind):
        nonlocal at
        if at >= len(toks) or toks[at][0] != kind:
            raise Malformed(f"a bound without {kind}")
        at += 1
        return toks[at - 1][1]
    while at < len(toks):
        left = left_s = None
        if toks[at][0] in ("num", "sign") or \
                toks[at][1].lower() in ("inf", "infinity"):
            left, left_s = num(), _sense(take("cmp"))
        x = take("name")
        if at < len(toks) and toks[at][0] == "name" and \
                toks[at][1].lower() == "free":
            at += 1
            lower[x] = float("-inf")
            continue
        right = right_s = None
        if at < len(toks) and toks[at][0] == "cmp":
            right_s, right = _sense(take("cmp")), num()
        both = []
        if left is not None:
            both.append(({"<": ">", ">": "<", "=": "="}[left_s], left))
        if right is not None:
            both.append((right_s, right))
        if not both:
            raise Malformed("a bound without number")
        for s, v in both:
            if s in ">=":
                lower[x] = v
            if s in "<=":
                upper[x] = v
    for x in " ".join(parts.get("free", [])).split():
        lower[x] = float("-inf")
    return Linear(sense, obj, const, rows, lower, upper)


def _sense(t):
    return "<" if "<" in t else ">" if ">" in t else "="


# ------------------------------------------------------------------------ MPS
def read_mps(e, text):
    sec, sense = None, "min"
    rows, obj, const = {}, {}, 0
    objective = None
    order, cols = [], []
    lower, upper = {}, {}
    ended = False
    for line in text.split("\n"):
        if line.startswith("*") or not line.strip():
            continue
        if ended:
            raise Malformed("text after the end")
        f = line.split()
        if not line[0].isspace():
            sec = f[0].upper()
            if sec not in ("NAME", "OBJSENSE", "ROWS", "COLUMNS", "RHS",
                           "RANGES", "BOUNDS", "ENDATA"):
                raise Malformed(f"section {sec}")
            if sec == "OBJSENSE" and len(f) > 1:
                sense = f[1][:3].lower()
            ended = sec == "ENDATA"
            continue
        if sec == "OBJSENSE":
            sense = f[0][:3].lower()
        elif sec == "ROWS":
            if len(f) != 2 or f[1] in rows or f[1] == objective:
                raise Malformed(f"row {line!r}")
            if f[0] == "N":
                objective = objective or f[1]
            else:
                rows[f[1]] = ({}, {"E": "=", "G": ">", "L": "<"}[f[0]], [0])
                order.append(f[1])
        elif sec == "COLUMNS":
            if len(f) not in (3, 5):
                raise Malformed(f"column {line!r}")
            if f[0] not in cols:
                cols.append(f[0])
            elif cols[-1] != f[0]:
                raise Malformed("the entries of a column are apart")
            for r, v in zip(f[1::2], f[2::2]):
                d = obj if r == objective else rows[r][0] if r in rows \
                    else None
                if d is None or f[0] in d:
                    raise Malformed(f"column {line!r}")
                d[f[0]] = number(e, v)
        elif sec == "RHS":
            if len(f) not in (3, 5):
                raise Malformed(f"right hand side {line!r}")
            for r, v in zip(f[1::2], f[2::2]):
                if r == objective:
                    const = -number(e, v)
                elif r in rows:
                    rows[r][2][0] = number(e, v)
                else:
                    raise Malformed(f"right hand side {line!r}")
        elif sec == "BOUNDS":
            kind = f[0]
            if len(f) != (3 if kind in ("FR", "MI", "PL") else 4):
                raise Malformed(f"bound {line!r}")
            x = f[2]
            if x not in cols:
                raise Malformed(f"a bound on {x}, which is in no column")
            v = None if len(f) == 3 else number(e, f[3])
            if kind in ("LO", "FX"):
                lower[x] = v
            if kind in ("UP", "FX"):
                upper[x] = v
            if kind in ("FR", "MI"):
                lower[x] = float("-inf")
            if kind not in ("LO", "UP", "FX", "FR", "MI", "PL"):
                raise Malformed(f"bound {line!r}")
        else:
            raise Malformed(f"{line!r} in section {sec}")
    if not ended or objective is None:
        raise Malformed("no end or no objective")
    return Linear(sense, obj, const,
                  [(rows[r][0], rows[r][1], rows[r][2][0]) for r in order],
                  lower, upper)


# ----------------------------------------------------------------------- SDPA
Sparse = namedtuple("Sparse", "objective blocks entries")
"""minimise objective.x such that sum_k x_k F_k - F_0 is positive in every
block; entries[(block, i, j)] = {k: coefficient}, blocks may be negative
(diagonal)."""


def read_sdpa(e, text):
    lines = [x for x in text.split("\n") if x.strip()]
    while lines and lines[0][0] in "\"*":
        lines.pop(0)
    if len(lines) < 4:
        raise Malformed("no header")

    def first(s):
        m = re.match(r"\s*(\d+)", s)
        if not m:
            raise Malformed(f"header {s!r}")
        return int(m.group(1))
    n, nb = first(lines[0]), first(lines[1])
    blocks = [int(x) for x in re.findall(r"[+-]?\d+",
                                         lines[2].split("=")[0])]
    if len(blocks) != nb:
        raise Malformed("the number of blocks is not the stated one")
    if 0 in blocks:
        raise Malformed("a block without entries")
    obj = [number(e, t) for t in
           re.sub(r"[{}(),]", " ", lines[3]).split()]
    if len(obj) != n:
        raise Malformed("the number of variables is not the stated one")
    out = {}
    for line in lines[4:]:
        f = line.split()
        if len(f) != 5:
            raise Malformed(f"entry {line!r}")
        k = integer(f[0], 0, n)
        b = integer(f[1], 1, nb)
        i = integer(f[2], 1, abs(blocks[b - 1]))
        j = integer(f[3], 1, abs(blocks[b - 1]))
        if i > j or blocks[b - 1] < 0 and i != j:
            raise Malformed(f"entry {line!r} is not in the upper triangle")
        d = out.setdefault((b, i, j), {})
        v = number(e, f[4])
        d[k] = d[k] + v if k in d else v
    return Sparse(obj, blocks, out)


# ------------------------------------------------------------------------ CSV
def polynomial(e, s):
    """{name: coefficient} of '0.1*P[A=0]-P[B=0]+0.3' (names without spaces,
    '' is the constant)."""
    s = s.replace(" ", "")
    out, at = {}, 0
    while at < len(s):
        neg = False
        start = at
        while at < len(s) and s[at] in "+-":
            neg ^= s[at] == "-"
            at += 1
        if at - start > 1:
            raise Malformed(f"two signs before {s[at:at + 20]!r}")
        token = at < len(s) and s[at] == "\u00a7"
        if at == start and at and not token:
            raise Malformed(f"no sign before {s[at:at + 20]!r}")
        m = _NUM.match(s, at)
        c, name = 1., ""
        if m and s[at] not in "+-":
            c = number(e, m.group(0))
            if token and at and negative(e, c) != (at == start):
                raise Malformed(f"signs before {s[at:at + 20]!r}")
            at = m.end()
            if at < len(s) and s[at] == "*":
                at += 1
            elif at < len(s) and s[at] not in "+-\u00a7":
                raise Malformed(f"cannot read {s[at:at + 20]!r}")
            else:
                out[""] = out.get("", 0) + (-c if neg else c)
                continue
        depth, b = 0, at
        while at < len(s) and (depth or s[at] not in "+-\u00a7"):
            depth += s[at] in "[(<{"
            depth -= s[at] in "])>}"
            at += 1
        name = s[b:at]
        if not name:
            raise Malformed(f"a sign without term in {s!r}")
        c = -c if neg else c
        out[name] = out[name] + c if name in out else c
    return out
