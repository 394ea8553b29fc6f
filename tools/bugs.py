"""Planted bugs (development only; plant.py turns them into seeded/<id>/)."""
BUGS = []
F = "inflation/sdp/fast_npa.py"
IP = "inflation/InflationProblem.py"
U = "inflation/utils.py"
QT = "inflation/sdp/quantum_tools.py"
MU = "inflation/sdp/monomial_utils.py"
LP = "inflation/lp/InflationLP.py"
SDP = "inflation/sdp/InflationSDP.py"
LM = "inflation/lp/monomial_classes.py"
LU = "inflation/lp/lp_utils.py"
SU = "inflation/sdp/sdp_utils.py"
LW = "inflation/lp/writer_utils.py"
SW = "inflation/sdp/writer_utils.py"
OU = "inflation/optimization_utils.py"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug("c01_lexmin_blocked", "C01", [(F, """                    nc_ops_position = np.where(sub_notcomm[op, :op] == 1)[0]
""", """                    nc_ops_position = np.where(
                        sub_notcomm[op, minimum_idx:op] == 1)[0]
""")],
    "a word of at least three operators where a smaller operator is blocked only by one to the left of the currently smallest",
    "the smallest operator is pulled across one it does not commute with",
    '''
import numpy as np
from inflation.sdp.fast_npa import to_canonical_1d_internal as can
nc = np.zeros((5, 5), dtype=bool)
nc[1, 4] = nc[4, 1] = True
om = np.zeros((5, 5), dtype=bool)
w = np.array([4, 3, 1], dtype=np.intc)
out = can(w, nc, om, False, False).tolist()
assert out.index(4) < out.index(1), out
''')

bug("c03_three_rounds", "C03", [(F, """            while search_next.any():
""", """            for _ in range(3):
""")],
    "a chain of at least five operators in which each is linked to the next only",
    "products linked through a long chain are split into two factors",
    '''
import numpy as np
from inflation.sdp.fast_npa import nb_classify_disconnected_components as cl
n = 5
adj = np.eye(n, dtype=bool)
for i in range(n - 1):
    adj[i, i + 1] = adj[i + 1, i] = True
assert len(set(cl(adj).tolist())) == 1, cl(adj)
''')

bug("c04_first_parent", "C04", [(IP, """            if not np.array_equal(outcomes_of_parent_parties, o_nonprivate_settings):
""", """            if not np.array_equal(outcomes_of_parent_parties[:1], o_nonprivate_settings[:1]):
""")],
    "a party with two parents, whose second parent's outcome differs from the one its setting refers to",
    "an event with contradictory parent outcome counts as observable",
    '''
import numpy as np
from inflation import InflationProblem
p = InflationProblem(dag={"U": ["A", "B", "C"], "A": ["C"], "B": ["C"]},
                     outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1],
                     order=["A", "B", "C"], inflation_level_per_source=[1])
# C's effective setting 1 = (private 0, A=0, B=1)
good = np.array([[1, 1, 0, 0], [2, 1, 0, 1], [3, 1, 1, 0]])
bad = np.array([[1, 1, 0, 0], [2, 1, 0, 0], [3, 1, 1, 0]])
assert p._is_knowable_q_non_networks(good)
assert not p._is_knowable_q_non_networks(bad)
''')

bug("c02_latent_overwrites", "C02", [(IP, """                        self.sources_to_check_for_party_pair_commutation[desc_idx, desc2_idx, source_idx] = max(
                        self.sources_to_check_for_party_pair_commutation[desc_idx, desc2_idx, source_idx],
                            1 + quantum_connection_bonus)
""", """                        self.sources_to_check_for_party_pair_commutation[desc_idx, desc2_idx, source_idx] = \\
                            1 + quantum_connection_bonus
""")],
    "a party that receives a quantum source directly and also through a classical intermediate latent",
    "the classical path overwrites the quantum one, so operators that need not commute are taken to commute",
    '''
from inflation import InflationProblem
p = InflationProblem(dag={"S": ["A", "L"], "L": ["A", "B"]},
                     outcomes_per_party=[2, 2], settings_per_party=[2, 1],
                     order=["A", "B"], inflation_level_per_source=[1],
                     classical_intermediate_latents=["L"])
lex = p._lexorder.tolist()
assert p._default_notcomm[lex.index([1, 1, 0, 0]), lex.index([1, 1, 1, 0])]
''')

bug("c21_parent_order", "C21", [(IP, """                np.ndindex(*settings_per_party_lst[i]))))
""", """                np.ndindex(*(settings_per_party_lst[i][:1]
                             + sorted(settings_per_party_lst[i][1:]))))))
""")],
    "a party with two parents where the first has more outcomes than the second",
    "effective settings refer to outcomes that the parents do not have",
    '''
from inflation import InflationProblem
p = InflationProblem(dag={"U": ["A", "B", "C"], "A": ["C"], "B": ["C"]},
                     outcomes_per_party=[3, 2, 2], settings_per_party=[1, 1, 1],
                     order=["A", "B", "C"], inflation_level_per_source=[1])
got = [tuple(int(x) for x in v) for v in p.effective_to_parent_settings[2].values()]
assert got == [(0, a, b) for a in range(3) for b in range(2)], got
''')

bug("c05_third_power", "C05", [(LM, """                known_value *= (known_monomials[factor] ** power)
""", """                known_value *= (known_monomials[factor] ** min(power, 2))
""")],
    "a product with three copies of one factor",
    "the value of a moment with three equal factors is the square",
    '''
import numpy as np
from inflation import InflationProblem, InflationLP
p = InflationProblem(dag={"U": ["A"]}, outcomes_per_party=[2],
                     settings_per_party=[1], inflation_level_per_source=[3],
                     classical_sources="all")
lp = InflationLP(p)
lp.set_distribution(np.array([[0.25], [0.75]]))
got = sorted(round(float(v), 6) for v in lp.known_moments.values())
for k in range(4):
    assert any(abs(0.25 ** k - v) < 1e-9 or abs(0.75 ** k - v) < 1e-9
               for v in got), (k, got)
''')

bug("c06_no_joint_swaps", "C06", [(IP, """            return reduce(perm_combiner, lexorder_symmetries)
""", """            return np.unique(np.vstack(lexorder_symmetries), axis=0)
""")],
    "a linear program whose moments are related only by relabelling two sources at once",
    "simultaneous relabellings of several sources are not used",
    '''
from inflation import InflationProblem
p = InflationProblem(dag={"U": ["A", "B"], "V": ["B", "C"]},
                     outcomes_per_party=[2, 2, 2],
                     settings_per_party=[1, 1, 1],
                     inflation_level_per_source=[2, 2])
syms = {tuple(int(x) for x in s) for s in p.lexorder_symmetries}
for a in syms:
    for b in syms:
        assert tuple(a[i] for i in b) in syms
assert len(syms) == 4, len(syms)
''')

bug("c07_long_words", "C07", [(QT, """            if len(mon_v1) > 1 and (not commuting):
""", """            if 1 < len(mon_v1) < 5 and (not commuting):
""")],
    "columns of three operators, so entries of five or six operators",
    "long entries are not identified with their conjugates, and the symmetric position takes whichever was found last",
    '''
import numpy as np
from inflation import InflationProblem, InflationSDP
p = InflationProblem(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 2], inflation_level_per_source=[1])
s = InflationSDP(p)
s.generate_relaxation("npa3")
mm = s.momentmatrix
# the moment A0 A1 A0 A1 A0 ... and its reverse are one variable
seen = {}
cols = s.generating_monomials_1d
from inflation.sdp.fast_npa import to_canonical_1d_internal as can
nc = s._notcomm
om = np.zeros_like(nc)
for i, r in enumerate(cols):
    for j, c in enumerate(cols):
        if not mm[i, j]:
            continue
        w = np.concatenate((r[::-1], c)).astype(np.intc)
        f = tuple(can(w, nc, om, False, False).tolist())
        g = tuple(can(w[::-1].copy(), nc, om, False, False).tolist())
        k = min(f, g)
        assert seen.setdefault(k, mm[i, j]) == mm[i, j], (k, seen[k], mm[i, j])
''')

bug("c09_two_last", "C09", [(SDP, """            if last_outcome_ops.sum() > 0:
""", """            if last_outcome_ops.sum() in (1, 2):
""")],
    "columns with three or more last outcomes",
    "the equalities of columns with more than two last outcomes are lost",
    '''
from inflation import InflationProblem, InflationSDP
p = InflationProblem(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 2], inflation_level_per_source=[1])
s = InflationSDP(p, include_all_outcomes=True)
s.generate_relaxation("npa3")
have = set()
for eq in s.minimal_equalities:
    have.add(frozenset((m.name, float(v)) for m, v in eq.items()))
col = {tuple(int(x) for x in c): n
       for n, c in enumerate(s.generating_monomials_1d)}
ops = [tuple(int(v) for v in o) for o in s._lexorder]
mm, mon = s.momentmatrix, s.compmoment_from_idx
seen = 0
for c, n in col.items():
    for k, x in enumerate(c):
        group = [y for y, o in enumerate(ops) if o[:-1] == ops[x][:-1]]
        words = [c[:k] + (y,) + c[k + 1:] for y in group]
        rest = c[:k] + c[k + 1:]
        if rest not in col or any(w not in col for w in words):
            continue
        for r in range(len(mm)):
            idx = [int(mm[r, col[w]]) for w in words]
            if not all(idx):
                continue
            eq = frozenset([(mon[int(mm[r, col[rest]])].name, 1.)]
                           + [(mon[i].name, -1.) for i in idx])
            assert eq in have, eq
            seen += 1
assert seen
''')

bug("c11_negative_lower_bound", "C11", [(SDP, """            lb = {mon.name: 1}
            if not np.isclose(bnd, 0):
""", """            lb = {mon.name: 1}
            if bnd > 0:
""")],
    "a negative lower bound",
    "a negative lower bound is handed to the solver as zero",
    '''
from inflation import InflationProblem, InflationSDP
import inflation.sdp.InflationSDP as mod
got = {}
def fake(**args):
    got.update(args)
    return {"status": "infeasible"}
mod.solveSDP_MosekFUSION = fake
p = InflationProblem(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 2], inflation_level_per_source=[1])
s = InflationSDP(p)
s.generate_relaxation("npa2")
m = next(m for m in s.moments if m not in s.hermitian_moments
         and not m.is_zero and not m.is_one)
s.set_bounds({m: -0.25}, "lo")
s.solve()
rows = [r for r in got["inequalities"] if r.get(m.name) == 1]
assert rows and all(abs(r.get("constant_term", 0) - 0.25) < 1e-9 for r in rows), rows
''')

bug("c12_dual_relax_order", "C12", [(LU, """                if relax_known_vars:
                    bkx.extend([mosek.boundkey.up] * nof_known_vars +
                               [mosek.boundkey.lo] * nof_known_vars)
                bkx.extend([mosek.boundkey.up] * nof_primal_nontriv_bounds)
""", """                bkx.extend([mosek.boundkey.up] * nof_primal_nontriv_bounds)
                if relax_known_vars:
                    bkx.extend([mosek.boundkey.up] * nof_known_vars +
                               [mosek.boundkey.lo] * nof_known_vars)
""")],
    "the dual form with relaxed known values and an explicit bound",
    "the signs of the multipliers of known values and of bounds are exchanged",
    '''
import mosek
got = {}
def optimize(task):
    for j in range(task.getnumvar()):
        n, sub, val = task.getacol(j)
        col = tuple(sorted((int(s), float(v)) for s, v in zip(sub, val) if v))
        got[col] = task.getvarbound(j)[0]
    raise RuntimeError("stop")
mosek.Task.optimize = optimize
from inflation.lp.lp_utils import solveLP
try:
    solveLP(objective={}, known_vars={"a": 0.5}, lower_bounds={"b": -1.},
            upper_bounds={"b": 1.}, equalities=[{"a": 1, "b": -1}],
            inequalities=[], semiknown_vars={}, solve_dual=True,
            relax_known_vars=True, variables=["a", "b"])
except RuntimeError:
    pass
up, lo = mosek.boundkey.up, mosek.boundkey.lo
assert got[((0, 1.0), (2, 1.0))] == up, got
assert got[((0, 1.0), (2, -1.0))] == lo, got
assert got[((1, 1.0),)] == up and got[((1, -1.0),)] == up, got
''')

bug("c13_semiknown_overwrite", "C13", [(SU, """                inequality[x2] = inequality.get(x2, 0) + c * val
""", """                inequality[x2] = c * val if val else inequality.get(x2, 0)
""")],
    "an inequality that contains a linearised moment and also the moment it is proportional to",
    "the coefficient of the remaining moment is overwritten",
    '''
import mosek
import os
import tempfile
from mosek.fusion import Model
got = {}
d = tempfile.mkdtemp()
def solve(self):
    f = os.path.join(d, "m.ptf")
    self.writeTask(f)
    got["text"] = open(f).read()
    with mosek.Env() as env, env.Task() as t:
        t.readdata(f)
        for i in range(t.getnumcon()):
            n, sub, val = t.getarow(i)
            got.setdefault("rows", []).append(
                {t.getvarname(s): v for s, v in zip(sub, val)})
    raise RuntimeError("stop")
Model.solve = solve
from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
solveSDP_MosekFUSION(objective={"b": 1}, semiknown_vars={"a": (2, "b")},
                     inequalities=[{"a": 1, "b": -3, "one": 5}],
                     known_vars={"one": 1}, solve_dual=False)
import shutil
shutil.rmtree(d)
row, = got["rows"]
assert sorted(row.values()) == [-1, 5], row
''')

bug("c15_mps_rhs_accumulates", "C15", [(LW, """    for i, c in enumerate(constraints):
        rhs = 0
        for x""", """    rhs = 0
    for i, c in enumerate(constraints):
        for x""")],
    "two constraints with known values",
    "the constant of one constraint is added to those of the constraints after it",
    '''
import os
import shutil
import tempfile
from inflation.lp.writer_utils import write_to_mps
d = tempfile.mkdtemp()
f = os.path.join(d, "p.mps")
write_to_mps({"objective": {"a": 1}, "known_vars": {"one": 1},
              "semiknown_vars": {}, "variables": ["one", "a"],
              "equalities": [{"a": 1, "one": -0.5}, {"a": 2, "one": -1.0}],
              "inequalities": [], "lower_bounds": {}, "upper_bounds": {}}, f)
text = open(f).read()
shutil.rmtree(d)
rows = dict(ln.split()[1:3] for ln in text.splitlines()
            if ln.split()[:1] == ["rhs"])
assert float(rows["c0"]) == 0.5 and float(rows["c1"]) == 1.0, rows
''')

bug("c17_objective_alias", "C17", [(SDP, """        self._processed_objective = self.objective.copy()
""", """        self._processed_objective = self.objective
""")],
    "an objective, then values of moments in it, then other values or a reset of the values",
    "setting values rewrites the user's objective, which stays so after the values are changed or removed",
    '''
from inflation import InflationProblem, InflationSDP
p = InflationProblem(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 2], inflation_level_per_source=[1])
s = InflationSDP(p)
s.generate_relaxation("npa1")
a, b = [m for m in s.moments if not m.is_one and not m.is_zero][:2]
s.set_objective({a: 2, b: 3})
s.set_values({a: 0.5})
s.set_values({b: 0.25})
got = {k: float(v) for k, v in s._prepare_solver_arguments()["objective"].items()
       if v}
known = s._prepare_solver_arguments()["known_vars"]
const = sum(v * known[k] for k, v in got.items() if k in known)
free = {k: v for k, v in got.items() if k not in known}
assert free == {a.name: 2.0} and abs(const - 0.75) < 1e-9, (got, known)
''')

bug("c18_precision_floor", "C18", [(OU, """        bisect_kwargs["xtol"] = precision
""", """        bisect_kwargs["xtol"] = max(precision, 1e-4)
""")],
    "a precision below the default one",
    "a requested precision below 1e-4 is ignored by the bisection",
    '''
import sympy
from inflation.optimization_utils import max_within_feasible
class Program:
    def set_values(self, values, **kwargs):
        self.v = float(next(iter(values.values())))
    def solve(self, **kwargs):
        self.objective_value = 0.123456789 - self.v
        self.success = True
        self.status = "feasible"
    def certificate_as_dict(self, **kwargs):
        return {}
v = sympy.Symbol("v")
try:
    got = max_within_feasible(Program(), {"x": v}, "bisection",
                              precision=1e-7)
except Exception:
    from inflation.optimization_utils import _maximize_via_bisect
    got = _maximize_via_bisect(Program(), {"x": v}, v, precision=1e-7)
assert abs(got - 0.123456789) < 2e-7, got
''')

bug("c19_sandwich_outcome", "C19", [(F, """                while len(factor) and np.array_equal(factor[0], factor[-1]):
""", """                while len(factor) and np.array_equal(factor[0, :-1], factor[-1, :-1]):
""")],
    "a product whose two ends are different outcomes of the same measurement",
    "a product with different outcomes at its ends counts as positive",
    '''
import numpy as np
from inflation.sdp.fast_npa import nb_is_physical
one = np.array([1, 1, 0, 0], dtype=np.uint16)
def op(x, a):
    return [1, 1, x, a]
good = np.array([op(0, 0), op(1, 0), op(0, 0)], dtype=np.uint16)
bad = np.array([op(0, 0), op(1, 0), op(0, 1)], dtype=np.uint16)
assert nb_is_physical(good)
assert not nb_is_physical(bad)
''')

bug("c22_zero_cap", "C22", [(SDP, """                            if not cap == None:
""", """                            if cap:
""")],
    "a physical set with zero operators of one party",
    "a party asked to appear zero times is not limited",
    '''
from inflation import InflationProblem, InflationSDP
p = InflationProblem(dag={"U": ["A", "B"]}, outcomes_per_party=[2, 2],
                     settings_per_party=[2, 2], inflation_level_per_source=[1])
s = InflationSDP(p)
s.generate_relaxation("physical10")
parties = {int(s._lexorder[i][0])
           for m in s.generating_monomials_1d for i in m}
assert parties == {1}, parties
''')
