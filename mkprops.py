"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=a, where=b) for a, b in mech],
                      observe_at=observe or [], hook_needed=None)))
F = "inflation/sdp/fast_npa.py"; QT = "inflation/sdp/quantum_tools.py"
IP = "inflation/InflationProblem.py"; LP = "inflation/lp/InflationLP.py"
SDP = "inflation/sdp/InflationSDP.py"; LM = "inflation/lp/monomial_classes.py"
SM = "inflation/sdp/monomial_classes.py"; MU = "inflation/sdp/monomial_utils.py"
LU = "inflation/lp/lp_utils.py"; SU = "inflation/sdp/sdp_utils.py"
LW = "inflation/lp/writer_utils.py"; SW = "inflation/sdp/writer_utils.py"
OU = "inflation/optimization_utils.py"; U = "inflation/utils.py"
prop("C01", "Operator products reduce to a unique and faithful canonical form",
 "Two products of measurement operators get the same canonical form exactly when one turns into the other by exchanging commuting neighbours, and a canonical form is always equal to the product it came from. A product is declared zero exactly when commutations bring two orthogonal operators next to each other, and repeated operators are merged exactly when commutations bring them next to each other. Canonicalising a canonical form changes nothing, and the all-commuting mode agrees with the general one.",
 ["inputs"], "all words of operators, all commutation and orthogonality relations",
 "Tests compare a handful of fixed words in fixed scenarios; the statement is about every word and every commutation relation.",
 [F], [("rewriting to lexicographic normal form", F + ": nb_lexmon_to_canonical, to_canonical_1d_internal"), ("zero and square detection", F + ": lexmon_is_zero, remove_projector_squares")])
prop("C02", "Operators commute and are orthogonal exactly as the causal structure says",
 "Two operators are assumed not to commute exactly when some nonclassical source connects their parties quantumly (directly for one party, through a common nonclassical intermediate latent for two) with equal copy index, unless all copy indices of the sources they share agree and they belong to different parties or to the same setting of one party. With only classical sources everything commutes, the relation is symmetric, and operators differing only in the outcome have the same relations. A product of two operators is assumed to vanish exactly when they are different outcomes of one measurement (same party, same copies, same setting).",
 ["inputs", "configurations"], "all pairs of operators, all patterns of classical and quantum sources and intermediate latents",
 "Tests list the commutation relations of a few scenarios; the statement is about all pairs and all mixes of classical, quantum and intermediate nodes.",
 [F, IP, SDP], [("pairwise rule", F + ": nb_operators_commute, commutation_matrix"), ("source codes per party pair", IP + ": InflationProblem.__init__"), ("orthogonality matrix", SDP + ": InflationSDP.__init__")])
prop("C03", "Products factorise exactly into their source-disconnected parts",
 "A product of operators is split into factors so that two operators are in the same factor exactly when a chain of operators of the product, each sharing a copy of a source with the next, links them. Every operator lands in exactly one factor, with the order of operators inside a factor as in the product. No split is made and none is missed for any inflation level, including problems where only some sources are copied.",
 ["inputs", "configurations"], "all products of operators, all networks",
 "Tests factorise a few named products; connectivity must be right for every product.",
 [F, IP], [("overlap graph", F + ": nb_exists_shared_source, nb_overlap_matrix"), ("components", F + ": nb_classify_disconnected_components"), ("splitting", IP + ": factorize_monomial_1d, factorize_monomial_2d")])
prop("C04", "A moment is knowable exactly when the observed distribution fixes it",
 "A product of operators is marked as knowable exactly when it is an observable event of the original scenario: at most one operator per party, one copy of every source involved, and, when parties have parents, every parent of an involved party is involved with the outcome that the child's effective setting refers to. Its value then is the marginal of the observed distribution for the private settings. A moment is knowable, partly knowable or unknowable as all, some or none of its factors are.",
 ["inputs", "configurations"], "all products of operators, all parent structures and cardinalities",
 "Tests check knowability of a few monomials in a few scenarios; a wrong mark elsewhere makes the program assign wrong values silently.",
 [F, IP, LM], [("network rule", F + ": nb_is_knowable"), ("parents", IP + ": _is_knowable_q_non_networks, rectify_fake_setting"), ("status", LM + ": InternalAtomicMonomial, CompoundMoment")])
prop("C05", "Values set from a distribution are its marginals and their products",
 "After a distribution is set, every known moment has the value that distribution gives it: the marginal for a knowable factor and the product of the marginals for a product of knowable factors, and nothing that the distribution does not determine is known. With linearised polynomial constraints a partly knowable moment is tied to its unknown part by the product of its known factors. This holds for every distribution array, whatever the number of parties, outcomes and settings, in linear and semidefinite programs, with and without shared randomness.",
 ["inputs"], "all probability arrays",
 "Tests set a few fixed distributions; symmetric ones hide exchanged indices.",
 [MU, LM, LP, SDP, IP], [("marginals", MU + ": compute_marginal"), ("products and linearisation", LM + ": CompoundMoment.evaluate"), ("assignment", LP + ": set_distribution, update_values; " + SDP + ": set_distribution, update_values")])
prop("C06", "Moments are identified exactly when a relabelling of copies relates them",
 "The symmetries used are exactly the relabellings of copies of each source, and they form a group. Two moments become the same variable exactly when such a relabelling (followed by commutations, and in semidefinite programs possibly conjugation) turns one into the other. Symmetrising a moment matrix with any set of column permutations merges exactly the entries these permutations connect, leaves the zero entries zero, and keeps a faithful record of which old variable became which new one.",
 ["inputs", "configurations"], "all networks and inflation levels, all matrices and permutation groups",
 "Tests compare variable counts for a few networks; one wrong merge adds a false equality and one missing merge only weakens results, silently.",
 [F, IP, QT, U, LP, SDP], [("relabelling", F + ": apply_source_perm; " + U + ": perm_combiner, format_permutations"), ("operator symmetries", IP + ": discover_lexorder_symmetries"), ("orbits", QT + ": apply_inflation_symmetries; " + LP + ": _discover_inflation_orbits; " + SDP + ": _inflation_orbit_and_rep_1d")])
prop("C07", "Every moment-matrix entry is the moment of its row and column product",
 "The entry of the moment matrix in a row and a column is zero exactly when the product of the reversed row operators and the column operators vanishes, and otherwise names the moment of that product. Two entries carry the same variable exactly when their products are equal up to commutation, projector rules, conjugation and relabelling of copies. The matrix is symmetric and its identity entry is the normalisation moment.",
 ["inputs", "configurations"], "all generating sets, all commutation relations, all strategies",
 "Tests check sizes and a few entries; a wrong entry elsewhere makes the relaxation exclude physical distributions or lose power.",
 [QT, SDP], [("matrix", QT + ": calculate_momentmatrix_1d_internal"), ("relaxation", SDP + ": generate_relaxation")])
prop("C08", "The linear program describes exactly the inflated distributions",
 "Every equality and inequality generated for a linear program holds for every inflated deterministic strategy, so no compatible distribution is excluded. Conversely the constraints force every probability of every maximal set of compatible measurements to be non-negative and all of them to be normalised and consistent, so nothing weaker is imposed. This holds with reduced (last outcome dropped) and with all outcomes, for networks and for scenarios with parents.",
 ["inputs", "configurations"], "all strategies, all points allowed by the constraints",
 "Tests solve a few programs whose answers are known; a missing or wrong sign of one row need not show there.",
 [LP, "inflation/lp/numbafied.py"], [("variables", LP + ": _raw_monomials_as_lexboolvecs, _maximal_event_as_lexboolvecs"), ("rows", LP + ": minimal_sparse_equalities, minimal_sparse_inequalities")])
prop("C09", "Normalisation equalities of semidefinite programs are true and present",
 "When all outcomes of a measurement are kept in a semidefinite program, the equalities stating that the moments of the outcomes of one measurement add up to the moment without it are imposed, for every column and row of the moment matrix where all these moments occur. Each imposed equality is true for every strategy. None is missing because another one could not be formed.",
 ["inputs", "configurations"], "all generating sets and measurements",
 "Tests look at one or two scenarios with parents.",
 [SDP, QT], [("column equalities", SDP + ": _discover_normalization_eqns"), ("moment equalities", QT + ": construct_normalization_eqs, expand_moment_normalisation")])
prop("C10", "All sets of compatible measurements are found, once, and maximal ones too",
 "For any compatibility graph the enumeration lists every set of mutually compatible measurements exactly once, including the empty one, and lists as maximal exactly those that cannot be enlarged. With a size cut-off, exactly the sets up to that size are listed.",
 ["inputs"], "all compatibility graphs, all cut-offs",
 "Tests run it on the graphs of a few scenarios only through program sizes.",
 [U, IP], [("enumeration", U + ": all_and_maximal_cliques"), ("compatibility", IP + ": all_and_maximal_compatible_templates")])
prop("C11", "What is handed to the solver is the problem the user stated",
 "The objective (with its direction), known values, linearised constraints, lower and upper bounds, and extra equalities and inequalities that a user sets, by name, symbol or moment, are all part of the problem handed to the solver, with the stated coefficients, in linear and in semidefinite programs. Nothing else is added except the constraints the program itself generates. The reported optimum is the optimum of the stated objective, in the stated direction.",
 ["inputs", "histories"], "all coefficients, bounds and values",
 "Tests set a few objectives with coefficient one; sign errors, dropped terms and dropped constraints for other inputs remain unseen.",
 [LP, SDP], [("setters", LP + ": set_objective, set_bounds, set_values, set_extra_equalities; " + SDP + ": the same"), ("solver arguments", LP + ": _prepare_solver_matrices; " + SDP + ": _prepare_solver_arguments, _update_objective")])
prop("C12", "The linear program given to the solver is the described one, or its dual",
 "For every objective, set of known values, equalities, inequalities and bounds, the task given to the LP solver has exactly the feasible points and objective of the described problem in primal form, and is exactly the linear dual of it in dual form. This also holds for the relaxed forms that measure by how much inequalities or known values must be violated. The reported certificate is the one the solver's multipliers give for the known values.",
 ["inputs", "configurations"], "all coefficients; all combinations of bounds, known values and flags",
 "Tests solve a few programs; combinations of bounds, non-negativity default and relaxations are barely touched.",
 [LU], [("task", LU + ": solveLP_sparse"), ("certificate", LU + ": solveLP_sparse")])
prop("C13", "The semidefinite program given to the solver is the described one, or its dual",
 "For every set of mask matrices, objective, known and linearised values, equalities and inequalities, the model given to the SDP solver has exactly the feasible points and objective of the described problem in primal form, and is exactly its conic dual in dual form. The reported certificate collects, for each known variable, all contributions of the dual solution and of the objective, so it bounds the objective for every value assignment.",
 ["inputs", "configurations"], "all coefficients, all combinations of arguments",
 "Tests solve a few programs and check one certificate.",
 [SU], [("model", SU + ": solveSDP_MosekFUSION"), ("certificate", SU + ": solveSDP_MosekFUSION")])
prop("C14", "Certificates mean the same in every form and when evaluated",
 "The dictionary, polynomial and text forms of a certificate have the same coefficients on the same moments, equal to the solver's certificate up to one positive overall factor and the requested rounding. Evaluating a certificate or polynomial on a distribution gives the sum of the coefficients times the values the distribution gives to the moments. Cleaning never changes the sign or relative size of a coefficient above the cut-off beyond the rounding, and does not modify its input.",
 ["inputs"], "all coefficients and distributions",
 "Tests print a few certificates.",
 [U, LP, SDP], [("cleaning", U + ": clean_coefficients"), ("forms", LP + ": certificate_as_dict, probs_from_dict, string_from_dict, evaluate_polynomial; " + SDP + ": the same")])
prop("C15", "Exported files contain the same problem that would be solved",
 "Reading back a file written in any supported format gives the same objective, constraints, known values and bounds as the problem held in memory, whatever the coefficients. No constraint, bound or coefficient is lost, altered in sign or attached to another variable.",
 ["inputs"], "all coefficients, values, bounds and extra constraints",
 "Tests compare a few files with stored text.",
 [LW, SW], [("LP formats", LW + ": write_to_lp, write_to_mps"), ("SDP formats", SW + ": write_to_sdpa, write_to_csv, write_to_mat")])
prop("C16", "Dictionary, matrix and mixed descriptions of a program are equivalent",
 "Describing a linear program by dictionaries, by sparse matrices or by a mixture of both gives the solver the same problem. Turning bounds and fixed values into rows, stacking matrices, dropping empty rows and sorting entries preserve the solution set of the system, for all entries including negative bounds and entries on the constant column.",
 ["inputs"], "all coefficients and sparsity patterns within the stated sizes",
 "Tests use a few matrices.",
 [U, LU], [("conversion", LU + ": to_sparse, convert_dicts, solveLP"), ("rows", U + ": expand_sparse_vec, vstack; " + LU + ": drop_zero_rows, canonical_order")])
prop("C17", "A program's state depends on its current settings, not on its past",
 "Setting a distribution, values, bounds or an objective, or resetting them, leaves the program in the state a freshly generated program would have after only the settings still in force. The inputs a user passes are not modified, and a solution of an earlier problem is not reported for a later one.",
 ["histories", "inputs"], "all short sequences of set, update and reset calls, all values",
 "Tests run one or two sequences.",
 [LP, SDP], [("resets", LP + ": reset, _reset_*; " + SDP + ": reset, _reset_*, _update_bounds, _update_objective")])
prop("C18", "The critical parameter returned lies at the feasibility threshold",
 "For a one-parameter family of values with a single feasibility threshold inside the bounds, the critical parameter returned by bisection is within the requested precision of that threshold, whatever the solver's objective values are. The one returned by the dual method is never below the threshold, and is where a new certificate would improve it by less than the precision. Each value tried is evaluated with exactly the parameter that is claimed and solved with the options requested, and the certificate returned is the one obtained at the critical parameter, up to the precision. Moments without an expression whose values follow from the given ones take part with those values.",
 ["inputs", "fault_sequences"], "all thresholds and all solver responses consistent with a threshold",
 "Tests run one family with a real solver.",
 [OU, U], [("bisection", OU + ": max_within_feasible, _maximize_via_bisect"), ("dual method", OU + ": _maximize_via_dual"), ("evaluation", U + ": make_numerical")])
prop("C19", "Moments are forced non-negative only where positivity is guaranteed",
 "A moment of a semidefinite program gets the default lower bound of zero only if its operator is positive in every quantum strategy, and every moment of pairwise commuting operators gets it. The physicality test accepts a product only if, within each factor and party, at most one operator remains after matching operators at both ends are removed.",
 ["inputs", "configurations"], "all products of operators, all commutation relations",
 "Tests count the non-negative moments of a few relaxations; one wrong bound makes results invalid.",
 [SDP, SM, F], [("hermiticity", SM + ": is_hermitian; " + SDP + ": _conjugate_lexmon, generate_relaxation"), ("physicality", F + ": nb_is_physical, nb_indices_of_more_than_one_op_per_party_per_factor")])
prop("C20", "Names of moments identify them and are read back as the same moment",
 "Different moments have different names, and a name, symbol or array form of a moment passed by a user is understood as that moment.",
 ["inputs", "configurations"], "all moments and all party names",
 "Tests use a few names.",
 [LP, SDP, LM, IP], [("names", LM + ": _name, _raw_name"), ("parsing", LP + ": _sanitise_monomial, _interpret_name")])
prop("C21", "The operators of a scenario are exactly its inflated measurement outcomes",
 "The operator list contains exactly one operator for every party, every combination of copies of the sources it depends on (directly or through latents), every effective setting and every outcome. Effective settings correspond one to one to a private setting together with outcomes of all parents, in a fixed readable order. The lookup between operators and their positions is a bijection.",
 ["configurations"], "all cardinalities, parent structures, hypergraphs and inflation levels",
 "Tests look at a few scenarios.",
 [IP], [("enumeration", IP + ": InflationProblem.__init__"), ("settings", IP + ": effective_to_parent_settings")])
prop("C22", "Generating sets contain exactly the products their specification asks for",
 "Each named or listed generating set yields, without repetition, exactly the non-zero canonical products with the stated number of operators per party, leaving out redundant last outcomes; hierarchy levels are nested; the physical set consists of exactly the products of mutually commuting operators, with the stated number per party.",
 ["inputs", "configurations"], "all specifications and scenarios within the stated sizes",
 "Tests compare a few lists and counts.",
 [SDP], [("columns", SDP + ": build_columns, _build_cols_from_specs")])
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
