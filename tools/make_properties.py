"""Writes /verif/properties.jsonl (the properties live here; MANIFEST.json refers to their ids)."""
import json, os
G = 'pympc/geometry/polyhedron.py'
U = 'pympc/geometry/utils.py'
S = 'pympc/dynamics/discrete_time_systems.py'
Z = 'pympc/dynamics/discretization_methods.py'
CU = 'pympc/dynamics/utils.py'
M = 'pympc/optimization/parametric_programs.py'
PN = 'pympc/optimization/solvers/pnnls.py'
GU = 'pympc/optimization/solvers/gurobi.py'
PR = 'pympc/optimization/programs.py'
C = 'pympc/control/controllers.py'
PL = 'pympc/plot.py'
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'observe_at': observe, 'hook_needed': None}})

prop('C01', 'Linear programs: certified optimum, None iff infeasible or unbounded',
 'For every linear program, each available solver returns a feasible point of minimum cost together with its cost, and inequality and equality multipliers that satisfy the optimality conditions (nonnegativity, stationarity, complementarity); the reported active set lists only tight inequalities and includes all those with a positive multiplier. When the program is infeasible or unbounded every field of the solution is None (never a point, never an exception), and the multipliers of the equalities are None when there are no equalities. Different solvers agree on the optimal cost.',
 ['inputs', 'configurations'], 'Every dimension, number of inequalities and equalities (including none), scaling of rows, degenerate vertices, duplicated or all-zero rows, free variables and unbounded or infeasible directions; both solvers and the front end that selects among them.',
 'The tests solve a handful of hand-written programs; an optimum is a statement about every other feasible point, and only a certificate per solved program settles it.',
 [PR, PN, GU], [('KKT system solved as partially nonnegative least squares', PN + ':linear_program'), ('Gurobi model and duals', GU + ':linear_program'), ('solver selection', PR + ':linear_program')],
 ['pympc.optimization.programs.linear_program', 'pympc.optimization.solvers.pnnls.linear_program', 'pympc.optimization.solvers.gurobi.linear_program'])

prop('C02', 'Quadratic programs: certified optimum, None iff infeasible',
 'For every strictly convex quadratic program, each available solver returns the unique feasible minimiser, its cost, and multipliers that satisfy the optimality conditions (nonnegativity, stationarity, complementarity); the reported active set lists only tight inequalities and includes all those with a positive multiplier. When the program is infeasible every field of the solution is None, and the multipliers of the equalities are None when there are no equalities. Different solvers agree on minimiser and cost.',
 ['inputs', 'configurations'], 'Every dimension, positive definite Hessian (any conditioning short of numerical singularity), linear term, number of inequalities and equalities (including none), redundant or degenerate constraints; both solvers and the front end.',
 'The tests solve a handful of hand-written programs; optimality must hold for every program a controller will ever pose.',
 [PR, PN, GU], [('nonnegative least squares on the dual', PN + ':quadratic_program'), ('Gurobi model and duals', GU + ':quadratic_program'), ('solver selection', PR + ':quadratic_program')],
 ['pympc.optimization.programs.quadratic_program', 'pympc.optimization.solvers.pnnls.quadratic_program', 'pympc.optimization.solvers.gurobi.quadratic_program'])

prop('C03', 'Mixed-integer quadratic programs are solved to the global optimum',
 'For every mixed-integer quadratic program whose leading variables are continuous and whose remaining variables are binary, the returned point is feasible, takes values zero or one in the binary variables, and its cost (which is the reported one) is the smallest over all the binary assignments, up to the optimality gap of the solver. Cost and point are None exactly when no binary assignment is feasible.',
 ['inputs'], 'Every number of continuous and binary variables, Hessian (semidefinite in the binaries), linear term, inequalities and equalities, feasible for all, some or none of the binary assignments.',
 'One program is tested; global optimality quantifies over the 2^n assignments of every program.',
 [PR, GU], [('binary variable types after the first nc', GU + ':mixed_integer_quadratic_program'), ('solver selection', PR + ':mixed_integer_quadratic_program')],
 ['pympc.optimization.programs.mixed_integer_quadratic_program', 'pympc.optimization.solvers.gurobi.mixed_integer_quadratic_program'])

prop('C04', 'A polyhedron is exactly the set of points its constraints describe',
 'However a polyhedron is built (matrices, lower and upper bounds, bounds on selected components in any order, symbolic expressions, constraints added later one group at a time), a point is reported to be contained if and only if it satisfies every inequality and every equality that was given, within the tolerance of the query. The order of the constraints and of the selected components never matters beyond pairing each bound with its component.',
 ['inputs', 'histories'], 'Every dimension, matrix, set of indices (unsorted, partial), sequence of additions, symbolic affine expression, query point (inside, outside, near the boundary, violating any single constraint or equality from either side) and tolerance.',
 'Tests check the stored matrices of a few polyhedra with sorted indices and one equality; membership is a statement about all points and all ways of building the set.',
 [G], [('constraint stacking and selection matrix', G + ':Polyhedron.add_inequality, add_equality, add_lower_bound, add_upper_bound, from_bounds, from_symbolic'), ('membership', G + ':Polyhedron.contains')],
 ['Polyhedron.contains', 'Polyhedron.A, b, C, d'])

prop('C05', 'Emptiness and boundedness verdicts are correct',
 'A polyhedron is reported to be empty if and only if no point satisfies its constraints, and to be bounded if and only if it contains no half-line (empty polyhedra are bounded). Both verdicts are the same for every description of the same set (scaled, permuted, duplicated or redundant rows, equalities written as pairs of inequalities) and whichever of the two is asked first.',
 ['inputs', 'configurations'], 'Every polyhedron that is empty or non-empty by a numerically clear margin: full dimensional, flat, with equalities, cones, strips, subspaces, the whole space; any scaling of the rows.',
 'Tests use a few two-dimensional sets; the verdicts must hold for every set because controllers and invariant-set computations branch on them.',
 [G, U], [('minimum-norm QP', G + ':Polyhedron.empty'), ('kernel plus theorem of alternatives', G + ':Polyhedron.bounded'), ('nullspace', U + ':nullspace_basis')],
 ['Polyhedron.empty', 'Polyhedron.bounded'])

prop('C06', 'Chebyshev radius and center are those of the largest inscribed ball',
 'For every polyhedron, the radius is the radius of the largest ball inscribed in it (within the affine subspace of the equalities, if any) and the center is the center of such a ball: it satisfies the equalities and is at distance at least the radius from every inequality. The radius is negative when the inequalities cannot be satisfied, and radius and center are None when balls of any size fit.',
 ['inputs'], 'Every polyhedron with linearly independent equalities: bounded or not, any scaling of the rows, full-dimensional in the subspace or empty.',
 'Tests check three sets; maximality is a statement about all other balls.',
 [G], [('LP over center and radius, elimination of the equalities', G + ':Polyhedron._chebyshev, _remove_equalities')],
 ['Polyhedron.radius', 'Polyhedron.center'])

prop('C07', 'Vertices are exactly the extreme points of the polytope',
 'For every bounded full-dimensional polyhedron (relative to the subspace of its equalities), the list of vertices contains every extreme point of the set and nothing else, each one once. It is None when the polyhedron is unbounded, empty, or has no interior.',
 ['inputs'], 'Every bounded polyhedron of any dimension with any redundant, duplicated, scaled or degenerate description and any linearly independent equalities, including one-dimensional sets.',
 'Tests enumerate the vertices of five sets; completeness of an enumeration must hold for every set.',
 [G], [('halfspace intersection around the Chebyshev center, 1-d special case, change of coordinates for the equalities', G + ':Polyhedron.vertices')],
 ['Polyhedron.vertices'])

prop('C08', 'Redundancy removal and normalisation never change the set',
 'Removing redundant inequalities leaves the same set described by a subset of the given inequalities none of which can be dropped, and the reported minimal facets are the indices of such a subset (an empty polyhedron is reported or rejected as such, never altered). Normalising a polyhedron leaves the same set, gives unit norm to every row that is not negligible, and does not change the number or order of the rows.',
 ['inputs'], 'Every polyhedron (bounded or not, with or without equalities) with strictly redundant, weakly redundant, duplicated, scaled or negligible rows.',
 'Tests check four descriptions; redundancy is a statement about all the points of the set and each of its facets.',
 [G], [('one LP per facet with the facet relaxed', G + ':Polyhedron.minimal_facets, remove_redundant_inequalities'), ('row normalisation', G + ':Polyhedron.normalize')],
 ['Polyhedron.minimal_facets', 'Polyhedron.remove_redundant_inequalities', 'Polyhedron.normalize'])

prop('C09', 'Intersection, Cartesian product and inclusion are the set operations',
 'The intersection of two polyhedra contains exactly the points contained in both, and their Cartesian product exactly the pairs of a point of the first and a point of the second. A polyhedron is reported to be included in another if and only if each of its points belongs to the other within the tolerance of the query, for bounded, unbounded and empty operands with or without equalities. None of these operations modifies its operands.',
 ['inputs'], 'Every pair of polyhedra of compatible dimensions, disjoint, touching, overlapping, nested or equal, with inequalities and equalities on either side, and every query point.',
 'Tests use one pair per operation; the operations are defined by all the points of all pairs of sets.',
 [G], [('stacking of the constraints', G + ':Polyhedron.intersection, cartesian_product'), ('one LP per facet', G + ':Polyhedron.is_included_in')],
 ['Polyhedron.intersection', 'Polyhedron.cartesian_product', 'Polyhedron.is_included_in'])

prop('C10', 'Orthogonal projections and convex hulls are exact',
 'For every bounded full-dimensional polyhedron and every ordered choice of residual coordinates, the projection contains a point if and only if that point can be completed to a point of the polyhedron, and its reported vertices are exactly the extreme points of the projection. The polyhedron built as the convex hull of a set of points contains exactly the convex combinations of those points.',
 ['inputs'], 'Every bounded full-dimensional polyhedron of dimension up to the sizes explored, with redundant and degenerate facets, every subset and order of residual coordinates (one, several, all), every finite set of points that affinely spans the space.',
 'Tests project two polytopes; exactness quantifies over all the points of the projection of every polytope.',
 [G, U], [('convex-hull method: two vertices, inner simplex, expansion of the facets', G + ':convex_hull_method, _get_two_vertices, _get_inner_simplex, _expand_simplex'), ('plane through points', U + ':plane_through_points'), ('Qhull', G + ':Polyhedron.from_convex_hull')],
 ['Polyhedron.project_to', 'Polyhedron.from_convex_hull', 'projection.vertices'])

prop('C11', 'Answers of a polyhedron depend on its current set, not on its history',
 'After any sequence of queries, additions of inequalities, equalities or bounds, redundancy removals, normalisations, copies and combinations with other polyhedra, every query on every live polyhedron (emptiness, boundedness, radius, center, vertices, membership, inclusion) gives the answer that a polyhedron freshly built from the same constraints gives. Asking twice gives the same answer, in whatever order the queries are asked.',
 ['histories'], 'Every interleaving of queries and modifications on a family of polyhedra that are copies, intersections, products or projections of each other.',
 'Tests query each polyhedron once in a fixed order; stale cached answers only show in specific histories.',
 [G], [('cached answers and their invalidation', G + ':Polyhedron._delete_attributes, empty, bounded, radius, center, vertices'), ('shallow copies', G + ':Polyhedron.intersection')],
 ['all queries of Polyhedron after each step of the history'])

prop('C12', 'Linear-algebra helpers satisfy their defining equations',
 'The nullspace basis of a matrix has independent columns that span exactly its kernel; the selected independent rows of a matrix are independent and as many as its rank; the plane through given points contains all of them, with unit normal and nonnegative offset. Two matrices (or lists of vectors) are reported to have the same rows if and only if one is a reordering of the other, rows counted with multiplicity and, when asked, up to positive scaling.',
 ['inputs'], 'Every matrix (tall, wide, square, rank deficient, integer, zero rows), set of affinely independent points (also on planes through the origin), pair of matrices or lists with repeated, permuted, scaled or slightly different rows.',
 'Tests use one or two matrices per function; rank-deficient and degenerate inputs are a matter of the whole input space.',
 [U], [('SVD', U + ':nullspace_basis'), ('QR', U + ':linearly_independent_rows'), ('random offset and linear solve', U + ':plane_through_points'), ('row matching', U + ':same_rows, same_vectors')],
 ['pympc.geometry.utils functions'])

prop('C13', 'Simulation and condensed dynamics reproduce the recursion exactly',
 'The trajectory simulated from any initial state under any input sequence (or under a linear feedback in closed loop) starts at that state and obeys the update equation at every step. The condensed matrices, for linear, affine and piecewise-affine systems and any mode sequence, map initial state and stacked inputs to that same stacked trajectory.',
 ['inputs'], 'Every number of states and inputs, horizon, system matrices (unstable and singular included), offset, mode sequence (with repetitions, in any order), initial state and inputs.',
 'Tests use one or two systems with small horizons; the identity must hold for every mode sequence because controllers are built on it.',
 [S], [('recursion', S + ':LinearSystem.simulate, AffineSystem.simulate, simulate_closed_loop'), ('products of the matrices along the mode sequence', S + ':condense_pwa_system, productory')],
 ['simulate, simulate_closed_loop and condense of LinearSystem, AffineSystem, PieceWiseAffineSystem'])

prop('C14', 'Discretisation is exact; symbolic systems match their expressions',
 'Zero-order-hold discretisation gives, for every continuous-time affine system, initial state, constant input and time step, the state of the differential equation after one step; it composes (two half steps give one step) and is the default method. Explicit Euler gives the state plus the time step times its derivative. Systems built from symbolic expressions, in discrete or continuous time, evaluate to those expressions at every point, and a linear system is refused when the expressions have an offset.',
 ['inputs', 'configurations'], 'Every number of states and inputs, system matrices (singular, defective, stiff, unstable), offset, nonnegative time step, method, affine symbolic expression with any ordering of the symbols.',
 'Tests discretise one double integrator and one pendulum; exactness must hold for every system.',
 [Z, S], [('augmented matrix exponential', Z + ':zero_order_hold'), ('Euler step', Z + ':explicit_euler'), ('Jacobians', S + ':get_state_transition_matrices, from_symbolic, from_symbolic_continuous'), ('method selection', S + ':LinearSystem.from_continuous, AffineSystem.from_continuous')],
 ['zero_order_hold, explicit_euler, from_continuous, from_symbolic, from_symbolic_continuous'])

prop('C15', 'The LQR cost and gain solve the infinite-horizon problem',
 'For every controllable linear system and every stage cost with positive definite weights, the returned cost-to-go matrix is symmetric positive definite and satisfies the Riccati equation, the returned gain stabilises the system, achieves exactly the cost predicted by the matrix from every initial state, and no other policy achieves less. A system is reported to be controllable if and only if every state can be reached from the origin, and uncontrollable systems are refused.',
 ['inputs'], 'Every number of states and inputs, controllable or uncontrollable pair (by a numerically clear margin), positive definite weights, initial state and competing gain or input sequence.',
 'Tests solve one two-dimensional problem; optimality is over all policies and initial states.',
 [S], [('Riccati solver and gain', S + ':LinearSystem.solve_dare'), ('reachability matrix', S + ':LinearSystem.controllable')],
 ['LinearSystem.solve_dare', 'LinearSystem.controllable'])

prop('C16', 'The maximal admissible invariant set is admissible, invariant and maximal',
 'For every stable closed loop and every bounded set of inequality constraints with the origin in its interior, a state belongs to the returned set if and only if the closed-loop trajectory from it satisfies the state and input constraints at every time; in particular the set is contained in the constraint set and is mapped into itself by the dynamics. The returned description has no redundant inequality and the computation terminates. An unstable system, an unbounded constraint set, or one without the origin is refused.',
 ['inputs', 'histories'], 'Every stable matrix (complex, slow, defective or nilpotent modes), feedback gain, constraint polyhedron, initial state inside, outside or near the boundary, and every time along its trajectory.',
 'Tests check two systems on a grid of a few states; maximality and invariance quantify over all states and all times.',
 [S, G], [('iterated LPs over the constraints at increasing times', S + ':mcais'), ('closed-loop constraints', S + ':LinearSystem.mcais')],
 ['mcais', 'LinearSystem.mcais'])

prop('C17', 'Piecewise-affine systems follow the dynamics of the active domain',
 'The mode reported for a state and input is the first domain that contains them, and none when no domain does; a simulation applies at each step the dynamics of that mode, reports the sequence of modes, and is refused as soon as the state and input leave all the domains. A system is reported to be well posed if and only if no two of its domains share an interior point. Linear systems given as modes behave as affine systems with no offset.',
 ['inputs', 'histories'], 'Every number of modes, states and inputs, domains (overlapping, touching, disjoint, unbounded, nested), state, input and input sequence, including trajectories that cross or leave the domains at any step.',
 'Tests simulate one system along a few steps; mode selection must be right at every point and step.',
 [S, G], [('mode selection', S + ':PieceWiseAffineSystem.get_mode'), ('simulation', S + ':PieceWiseAffineSystem.simulate'), ('Chebyshev radius of pairwise intersections', S + ':PieceWiseAffineSystem.is_well_posed')],
 ['PieceWiseAffineSystem.get_mode, simulate, is_well_posed'])

prop('C18', 'Parametric QP: pointwise solution and critical regions satisfy the KKT system',
 'For every multiparametric quadratic program and parameter, the pointwise solution is the constrained minimiser with the full cost (terms in the parameter and constant included), or None if the parameter is infeasible. The critical region of an active set contains a parameter if and only if the affine primal and dual solutions of that region are optimal there, and there the region evaluates to the minimiser, its multipliers and its cost; asking for the region of a parameter gives one that contains it and solves it, whatever active set is guessed, None when infeasible.',
 ['inputs'], 'Every number of parameters, variables and constraints, cost blocks (linear and constant terms included), active set satisfying linear independence, guess (right, wrong, dependent, empty), parameter inside or outside the region.',
 'Tests check a scalar program with three regions; the identity must hold for every program, active set and parameter.',
 [M], [('KKT solution for an active set', M + ':MultiParametricQuadraticProgram.explicit_solve_given_active_set'), ('pointwise solution', M + ':MultiParametricQuadraticProgram.solve, explicit_solve_given_point'), ('evaluation', M + ':CriticalRegion.u, p, V, contains')],
 ['MultiParametricQuadraticProgram.solve, explicit_solve_given_active_set, explicit_solve_given_point', 'CriticalRegion.contains, u, p, V'])

prop('C19', 'The explicit solution equals the implicit one at every parameter',
 'For every non-degenerate multiparametric quadratic program (in particular those of linear MPC), the explicit solution covers every feasible parameter and no infeasible one, and evaluates everywhere to the minimiser, multipliers and cost that the online optimisation gives; the explicit controller returns the same inputs and cost as the implicit one. Interiors of distinct critical regions do not overlap and the exploration terminates.',
 ['inputs', 'histories'], 'Every program with bounded feasible set whose optimal active sets satisfy linear independence (numerically clearly), every parameter clear of region boundaries by a small margin, programs infeasible at the origin included.',
 'Tests compare the two solutions for one controller at sampled states; coverage of every feasible state is the guarantee of explicit MPC.',
 [M, C], [('exploration across facets', M + ':MultiParametricQuadraticProgram.explicit_solve'), ('facet centers', M + ':CriticalRegion.facet_center'), ('lookup', M + ':ExplicitSolution.get_critical_region'), ('explicit controller', C + ':ModelPredictiveController.feedforward_explicit, feedback_explicit')],
 ['ExplicitSolution.u, p, V, critical_regions', 'ModelPredictiveController.feedforward_explicit, feedback_explicit'])

prop('C20', 'The feasible set contains exactly the feasible parameters',
 'The feasible set of a multiparametric program or of a linear MPC problem contains a parameter if and only if the optimisation problem is feasible for that parameter, i.e. if and only if the online controller returns a solution.',
 ['inputs'], 'Every program with a bounded full-dimensional constraint set and every parameter clear of the boundary by a small margin.',
 'Tests check one feasible set; the equivalence is over all parameters.',
 [M, G], [('projection of the constraint set', M + ':MultiParametricQuadraticProgram.get_feasible_set')],
 ['MultiParametricQuadraticProgram.get_feasible_set', 'ModelPredictiveController.feedforward'])

prop('C21', 'Linear MPC solves the finite-horizon optimal control problem',
 'For every linear system, horizon, cost and constraint polyhedra (inequalities and equalities) and every state, the returned input sequence has one input per step, generates a trajectory that satisfies the stage constraints at every step and the terminal constraint at the end, and has the minimum cost among all such sequences; the returned value is that cost. The feedback is the first input of the sequence. Both are None if and only if no admissible input sequence exists.',
 ['inputs', 'configurations'], 'Every number of states and inputs, horizon from one up, positive (semi)definite costs, coupled state-input constraints, terminal set, state inside, outside or near the boundary of the feasible set.',
 'Tests solve one double integrator; optimality and feasibility quantify over all input sequences at every state.',
 [C, M, S], [('condensed program', C + ':condense_optimal_control_problem, ModelPredictiveController._condense_program'), ('solution split per step', C + ':ModelPredictiveController.feedforward, feedback')],
 ['ModelPredictiveController.feedforward, feedback'])

prop('C22', 'MPC with the LQR terminal cost and set is recursively feasible and stable',
 'For every controller built as documented (terminal cost and terminal set from the LQR problem and its maximal admissible invariant set), from every feasible state the closed loop remains feasible forever, satisfies the constraints at every step, and the optimal cost decreases at each step by at least the stage cost until the state reaches the origin; inside the terminal set the controller coincides with the LQR gain and cost.',
 ['histories', 'inputs'], 'Every controllable system, horizon, positive definite costs, bounded constraint set with the origin inside, feasible initial state (also close to the boundary of the feasible set) and every step of the closed loop.',
 'Tests simulate one closed loop; recursive feasibility and stability are statements about all closed-loop histories.',
 [C, S, G, M], [('terminal ingredients', S + ':LinearSystem.solve_dare, LinearSystem.mcais'), ('controller', C + ':ModelPredictiveController.feedback')],
 ['closed loop of ModelPredictiveController.feedback with LinearSystem.simulate'])

prop('C23', 'Hybrid MPC returns valid trajectories of the piecewise-affine system',
 'Whenever the hybrid controller returns a solution for a state, the state trajectory starts at that state and has one more element than the input sequence and the mode sequence; at each step the state and input belong to the domain of the reported mode (inequalities and equalities), the next state is that of the dynamics of that mode, and the last state belongs to the terminal set. The reported cost is the cost of that trajectory and the feedback is the first input.',
 ['inputs', 'configurations'], 'Every number of modes, states and inputs, horizon, domains (of different numbers of inequalities, overlapping or with gaps), offsets, terminal set and initial state, in particular trajectories that switch mode.',
 'Tests solve one two-mode system; validity must hold for every mode sequence the solver may pick.',
 [C, M], [('big-M reformulation', C + ':HybridModelPredictiveController._get_bigM_dynamics, _get_bigM_domains, _build_inequalities'), ('reconstruction of trajectory and modes', C + ':HybridModelPredictiveController.feedforward')],
 ['HybridModelPredictiveController.feedforward, feedback'])

prop('C24', 'Hybrid MPC is globally optimal over all mode sequences',
 'The cost returned by the hybrid controller is the smallest over all mode sequences and admissible inputs (up to the optimality gap of the solver), and a solution is returned if and only if some mode sequence admits one. The parametric program obtained for a fixed mode sequence has, at every state, the cost and inputs of the optimal control problem restricted to that sequence.',
 ['inputs', 'configurations'], 'Every piecewise-affine system with bounded domains, horizon, cost, terminal set, initial state (feasible for all, some or no mode sequences) and every mode sequence.',
 'Tests compare with one explicit enumeration; big-M bounds that are slightly too tight cut optimal trajectories only for specific systems and states.',
 [C, M], [('tight big-M bounds', C + ':HybridModelPredictiveController._get_bigM_dynamics, _get_bigM_domains'), ('fixed-sequence program', C + ':HybridModelPredictiveController.get_mpqp, condense_optimal_control_problem')],
 ['HybridModelPredictiveController.feedforward, get_mpqp'])

prop('C25', 'No call modifies its arguments, and answers are repeatable',
 'Except for the documented mutators of a polyhedron (and then only that polyhedron), no function, constructor or method of the library modifies an array, list, dictionary, polyhedron, system or program passed to it or reachable from the object it is called on, as far as later use can observe. Calling it again with the same arguments, in any order with respect to other calls, gives the same result up to numerical tolerance.',
 ['histories', 'inputs'], 'Every public entry point, valid argument (integer and read-only arrays included), and interleaving of calls that share arguments: controllers, systems and polyhedra built from the same matrices.',
 'Tests use fresh arguments for each call; corruption through aliasing only shows in histories that reuse an argument.',
 [G, U, S, M, C, PN, GU], [('copies before modification', G + ':Polyhedron.intersection, add_inequality, normalize'), ('pure numerics', U + ':same_rows'), ('parametric programs shared by queries', M + ':MultiParametricQuadraticProgram.solve')],
 ['byte-level snapshots of arguments and receivers around every public call'])

prop('C26', 'Malformed input is refused with a ValueError and leaves no trace',
 'Constructors and methods refuse with a ValueError the inputs that their documentation excludes: matrices and vectors of incompatible sizes, an equality matrix without its right-hand side or vice versa, two-dimensional right-hand sides or offsets, negative time steps, bounds of different sizes, bounds on selected components of an unspecified dimension, unknown solvers or discretisation methods, projections of empty, unbounded or equality-constrained polyhedra, systems and domains of inconsistent numbers or dimensions, explicit queries before the explicit solution is stored. The refused call leaves the object it was made on unchanged, and well-formed input close to the malformed one is accepted.',
 ['inputs', 'histories'], 'Every public entry point with a documented check, every way of violating it (each argument too small or too large), on fresh and on already queried objects.',
 'Tests try a few wrong sizes; each guard must fire on every violation and on nothing else.',
 [G, S, CU, PR, PN, C], [('size checks', G + ':Polyhedron._same_number_rows, __init__'), ('system checks', CU + ':check_affine_system'), ('consistency of modes and domains', S + ':PieceWiseAffineSystem.__init__'), ('solver names', PR)],
 ['exceptions raised at the public entry points'])

prop('C27', 'Plots show the data they are given',
 'A plotted polyhedron is the polygon of its projection on the requested coordinates; plotted state, input and output trajectories have the given values at the right times and components, with the given bounds; the plot of the state-space partition has one polygon per critical region, equal to that region, and the plot of the optimal value function shows the feasible set and its level sets.',
 ['inputs'], 'Every bounded polyhedron of dimension two or more, pair of coordinates in either order, trajectory, time step, output matrix and bounds.',
 'Plotting is not tested at all.',
 [PL, G, C], [('ordering of projected vertices', G + ':Polyhedron.plot'), ('time axes', PL), ('partition', C + ':ModelPredictiveController.plot_state_space_partition')],
 ['artists on the matplotlib axes after the call'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
