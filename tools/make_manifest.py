"""Writes MANIFEST.json and known_findings.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = {
 'C01': ('monitored calls of linear_program and its solvers, direct and nested; oracle: optimality certificate recomputed from the returned multipliers, construction of infeasible/unbounded programs',
         'duality gap, feasibility and complementarity recomputed from the answer alone; HiGHS only where the answer is None. The drake back end is not importable here.'),
 'C02': ('monitored calls of quadratic_program and its solvers, direct and nested; oracle: KKT certificate recomputed from the returned multipliers, infeasibility by construction or LP',
         'strict convexity makes the certificate complete. The nnls-based solver is exercised with equalities in up to 4 variables only.'),
 'C03': ('monitored MIQP calls; oracle: enumeration of all binary assignments with a certified continuous solution each',
         'up to 5 binaries; optimality up to the relative gap of the solver.'),
 'C04': ('monitored construction histories; oracle: shadow list of the constraints kept outside the object, membership at chosen points',
         'membership at sampled, boundary and just-outside points.'),
 'C05': ('monitored emptiness/boundedness verdicts; oracle: sets known by construction, metamorphic redescriptions, LPs with a margin',
         'sets within 1e-3 of the edge of emptiness are judged only when the constraints state them exactly.'),
 'C06': ('monitored radius/center queries; oracle: geometric definition and an LP in the subspace of the equalities', 'trusts HiGHS for the value of the radius.'),
 'C07': ('monitored vertices queries; oracle: brute-force enumeration of the bases', 'dimension up to 4; nearly singular bases are skipped.'),
 'C08': ('monitored reductions and normalisations; oracle: one LP per dropped and per kept row, row multiset of the given description', 'trusts HiGHS; rows within the tolerance of being redundant are not judged.'),
 'C09': ('monitored set operations; oracle: membership in the operands, one LP per constraint for inclusion', 'verdicts within 1e-4 of the tolerance are judged only when exact.'),
 'C10': ('monitored projections and hulls; oracle: support functions and completion LPs on the original polytope, extreme points of the projected vertices', 'dimension up to 6.'),
 'C11': ('online comparison of every live polyhedron of a random history with one freshly built from a shadow log of the mutations', 'histories of up to 14 operations over up to 5 live objects.'),
 'C12': ('monitored helper calls; oracle: defining equations and matrices of known rank', 'ranks with a clear gap.'),
 'C13': ('monitored simulations and condensations; oracle: recursion written out step by step', 'horizons up to 12.'),
 'C14': ('monitored discretisations and symbolic constructions; oracle: high-order integration of the ODE, composition of half steps, numerical evaluation of the expressions', 'time steps up to 2.'),
 'C15': ('monitored LQR and controllability calls; oracle: Riccati residual, value iteration, summed closed-loop cost, competing gains, steering', 'well-conditioned pairs.'),
 'C16': ('monitored invariant-set computations and their LP events; oracle: trajectory definition with a norm bound on the tail, mutual inclusion by LPs, replayed trajectories', 'spectral radius up to .97; trusts HiGHS for inclusion.'),
 'C17': ('monitored mode queries and simulations; oracle: raw domain data, largest inscribed ball of the intersections', 'points within 1e-4 of a boundary are not judged.'),
 'C18': ('monitored pointwise solutions and critical regions; oracle: certified QP and separately solved KKT system', 'degenerate (LICQ-violating) active sets only where the code documents an answer.'),
 'C19': ('monitored explicit solutions; oracle: certified QP at each parameter, implicit controller, count of regions containing a parameter', 'regions thinner than the documented exploration step are not judged.'),
 'C20': ('monitored feasible sets; oracle: LP depth at each parameter, whether solve answers, support functions', 'trusts HiGHS; parameters within the tolerance of the boundary are not judged.'),
 'C21': ('monitored controllers; oracle: replay of the inputs on the raw system, certified solution of a separately written optimal control problem, competitors', 'horizons up to 7, 4 states.'),
 'C22': ('monitored closed loops; trace specification: admissibility, recursive feasibility, cost decrease by the stage cost at each step, bounded arrival in the terminal set, LQR law inside', 'loops of bounded length; tolerances of the QP solver.'),
 'C23': ('monitored hybrid feedback; oracle: replay of every returned trajectory against the raw data of the system', 'up to 4 modes and horizon 4.'),
 'C24': ('monitored hybrid feedback; oracle: enumeration of the mode sequences with a certified QP each', 'up to 4 modes and horizon 4; sequences feasible by a margin.'),
 'C25': ('snapshot monitor over histories of public calls: content of every held object before and after each call, answers asked again in another order and on fresh equal objects', 'content is compared, not identity of the arrays.'),
 'C26': ('fault injection in the arguments of each public entry point; monitor: ValueError raised, receiver and arguments unchanged, neighbouring well-formed call accepted', 'the documented checks only.'),
 'C27': ('monitored matplotlib artists; oracle: brute-force projections, given data, critical regions', 'the Agg back end; the drawn data, not the pixels.'),
}
manifest = {'version': 1, 'setup_cmd': 'python3 check.py C12 --cases 40 --no-evidence',
            'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s --tier quick' % k, 'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
                        'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': 'Held on every observed execution; not a proof. ' + n,
                        'evidence_file': 'evidence/%s.json' % k} for k, (t, n) in sorted(T.items())],
            'not_applicable': [],
            'notes': 'Instrumentation is applied from the harness at import time (pmon/instrument.py); /repo needs no hooks. The commits in /repo are repairs only (known_findings.json).'}

FIXED = [
 ('C04', '3c5b7b6', 'contains accepted points off one of several equalities and failed without inequalities'),
 ('C04', 'eb27f96', 'constraints on x[indices] ignored the order of the indices'),
 ('C08', 'f20b37d', 'normalize wrote in the arrays of the caller and truncated integer data'),
 ('C09', '0bff443', 'is_included_in for empty and unbounded polyhedra'),
 ('C06', '90f15b7', 'Chebyshev radius of unbounded polyhedra with equalities'),
 ('C10', 'a91ba7f', 'the convex-hull method normalized b of the caller instead of the facet'),
 ('C10', 'af941f6', 'vertices of orthogonal projections included interior points of the hull'),
 ('C12', 'd7360a6', 'same_rows modified its arguments and failed with repeated rows'),
 ('C12', 'c97b4c6', 'linearly_independent_rows returned too few rows'),
 ('C25', '296e0f4', 'PieceWiseAffineSystem replaced the systems in the list of the caller'),
 ('C17', '3a81e20', 'is_well_posed called unbounded full-dimensional intersections well posed'),
 ('C27', '3bf8d16', 'the text of plot_state_space_trajectory ignored dim'),
 ('C05', '285b414', 'programs and polyhedra without constraints (also C01, C02)'),
 ('C21', '92d1710', 'controllers ignored the equality constraints of D, D_i and X_N (also C23, C24)'),
 ('C19', '2f44e60', 'explicit_solve failed if the origin of the parameter space is infeasible'),
 ('C10', '51e176b', 'projections raised QhullError on valid polytopes'),
 ('C07', 'd8c3c94', 'vertices listed degenerate vertices more than once'),
 ('C10', '3c25e62', 'vertices of projections included points that are not extreme'),
 ('C19', '68e1e64', 'explicit_solve could find the same critical region forever'),
 ('C26', '86065e8', 'refused add_inequality and add_equality modified the polyhedron'),
 ('C26', '4e07af8', 'refused add_bounds added the lower bound'),
 ('C26', '426c4a7', 'the gurobi back end ignored equalities given without C or d'),
 ('C27', '0b3c67f', 'plot_optimal_value_function failed if the grid leaves the feasible set'),
 ('C05', 'bd69bfb', 'boundedness of polyhedra with badly scaled rows'),
 ('C19', '9c812b0', 'facet_center kept the facet as an inequality made of rounding errors, so that explicit_solve missed regions'),
]
findings = {'open': [], 'fixed': ['fixed: property=%s %s %s' % f for f in FIXED]}
for name, data in (('MANIFEST.json', manifest), ('known_findings.json', findings)):
    with open(os.path.join(ROOT, name), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')
