"""C01: linear programs."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip, Violation

ID = 'C01'
RULE = ('random, degenerate, scaled, integer, redundant, infeasible and unbounded LPs, posed directly to each solver and to the front end, and '
        'those the library poses to itself in projections, invariant sets, Chebyshev balls and redundancy removal (observed nested); a case is '
        'non-trivial when the answer was decided by a verified optimality certificate or by construction of an infeasible/unbounded program; '
        'distinct by solver, shape, kind and outcome.')
QUICK = 40000
THOROUGH = 200000
FLOORS = {'optimal certified': 3000, 'none certified': 1000, 'nested LP certified': 500, 'agreement between solvers': 500}
CPU_LIMIT = 60.
ASSUMPTIONS = ['the LP oracle is HiGHS (scipy) plus the certificate computed here from the returned multipliers',
               'the drake solver is not importable here and is not exercised']


def solvers():
    from pympc.optimization import programs
    from pympc.optimization.solvers import pnnls, gurobi
    return {
        'pnnls': (pnnls.linear_program, {}, 1e-6),
        'gurobi': (gurobi.linear_program, {}, 1e-5),
        'front': (programs.linear_program, {}, 1e-6),
        'front pnnls': (programs.linear_program, {'solver': 'pnnls'}, 1e-6),
        'front gurobi': (programs.linear_program, {'solver': 'gurobi'}, 1e-5),
    }


FIELDS = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')


def check_solution(ctx, H, f, A, b, C, d, sol, tol, act_tol, data):
    """A claimed optimum must carry its own certificate."""
    n = f.size
    m = A.shape[0]
    k = 0 if C is None else C.shape[0]
    x, lam, mu = sol['argmin'], sol['multiplier_inequality'], sol['multiplier_equality']
    ctx.require(x is not None and np.shape(x) == (n,), 'argmin has shape %s instead of %s' % (np.shape(x), (n,)), **data)
    ctx.require(lam is not None and np.shape(lam) == (m,), 'inequality multipliers have shape %s instead of %s' % (np.shape(lam), (m,)), **data)
    if k == 0:
        ctx.require(mu is None, 'equality multipliers without equalities', **data)
    else:
        ctx.require(mu is not None and np.shape(mu) == (k,), 'equality multipliers have shape %s instead of %s' % (np.shape(mu), (k,)), **data)
    x = np.asarray(x, dtype=float)
    lam = np.asarray(lam, dtype=float)
    val = float(f.dot(x)) + (0. if H is None else float(.5*x.dot(H).dot(x)))
    scale = 1. + float(np.abs(f).dot(np.abs(x))) + (0. if H is None else float(.5*np.abs(x).dot(np.abs(H)).dot(np.abs(x))))
    ctx.require(abs(val - float(sol['min'])) <= tol*scale, 'reported minimum %r is not the cost %r of argmin' % (float(sol['min']), val), **data)
    res = oracle.kkt_residual(H, f, A, b, C, d, x, lam, mu)
    ctx.require(np.all(np.isfinite(res)) and np.max(res) <= tol,
                'optimality certificate fails: residuals (inequality, equality, sign, stationarity, gap) = %s' % res.tolist(), sol=sol, **data)
    # active set
    act = sol['active_set']
    ctx.require(act is not None, 'no active set', **data)
    act = [int(i) for i in act]
    ctx.require(len(set(act)) == len(act) and all(0 <= i < m for i in act), 'active set %s is not a set of indices' % act, **data)
    row = 1. + np.abs(A).dot(np.abs(x)) + np.abs(b)
    for i in act:
        if 1e-9 < lam[i] <= 1e-7*max(1., np.max(lam)):
            # a multiplier at the level of the rounding of the others: neither active nor inactive
            ctx.ev('multiplier at rounding level')
            continue
        if H is not None and act_tol > 1e-5 and 0. < lam[i] <= act_tol:
            # interior-point solution: products of multiplier and slack, not slacks, are small
            ctx.ev('multiplier at the tolerance of the barrier method')
            continue
        ctx.require(abs(A[i].dot(x) - b[i]) <= 10.*tol*row[i], 'inequality %d reported active has slack %g' % (i, b[i] - A[i].dot(x)), sol=sol, **data)
    for i in range(m):
        if lam[i] > act_tol:
            ctx.require(i in act, 'inequality %d has multiplier %g but is not in the active set' % (i, lam[i]), sol=sol, **data)


def check_none(ctx, sol, what, data):
    for key in FIELDS:
        ctx.require(sol[key] is None, 'the program is %s but %s = %r' % (what, key, sol[key]), **data)


def nested_after(ctx, name, args, kwargs, result, state):
    f, A, b = args[0], args[1], args[2]
    C, d = (args[3], args[4]) if len(args) > 4 else (kwargs.get('C'), kwargs.get('d'))
    if not isinstance(A, np.ndarray):
        return
    if C is not None and C.shape[0] == 0:
        C = d = None
    data = dict(f=f, A=A, b=b, C=C, d=d, nested=True)
    if result['min'] is None:
        status = oracle.lp(f, A, b, C, d)[0]
        if status == 'optimal':
            if oracle.feasible(A, b, C, d, 1e-5) and nondegenerate_dual(f, A, b, C, d):
                ctx.require(False, 'nested LP with an optimum answered None', **data)
            return
        ctx.ev('nested None confirmed')
        return
    check_solution(ctx, None, f, A, b, C, d, result, 1e-5, 1e-5, data)
    ctx.ev('nested LP certified')


def nondegenerate_dual(f, A, b, C, d):
    """The optimum stays finite for perturbed costs: None cannot be excused by rounding."""
    rng = np.random.default_rng(0)
    for _ in range(4):
        if oracle.lp(f + 1e-5*np.abs(f).max()*rng.standard_normal(f.size), A, b, C, d)[0] != 'optimal':
            return False
    return True


def install(monitor):
    monitor.function('pympc.optimization.programs', 'linear_program', after=lambda ctx, *a: nested_after(ctx, *a) if ctx.monitor_nested else None)


def pose(rng, ctx, f, A, b, C, d, truth, kind):
    """truth: 'optimal', 'none'."""
    if rng.random() < .25:
        f, A, b, C, d = gens.mixed(rng, f, A, b, C, d)
    table = solvers()
    names = [gens.choice(rng, ['pnnls', 'front', 'front pnnls']), gens.choice(rng, ['gurobi', 'front gurobi'])]
    if rng.random() < .6:
        names = names[:1]
    mins = []
    for name in names:
        fn, kw, tol = table[name]
        args = (f, A, b) if C is None and rng.random() < .7 else (f, A, b, C, d)
        data = dict(solver=name, kind=kind, f=f, A=A, b=b, C=C, d=d)
        sol = ctx.call(fn, *args, **kw)
        if truth == 'none':
            check_none(ctx, sol, kind, data)
            ctx.ev('none certified')
        else:
            ctx.require(sol['min'] is not None, 'the program has an optimum but the solver answered None', **data)
            try:
                check_solution(ctx, None, f, A, b, C, d, sol, tol, 1e-6 if 'gurobi' not in name else 1e-5, data)
            except Violation:
                # the presolve of gurobi 13 loses about one in 10^6 programs with dependent equalities (none with Presolve=0): only if frequent
                if 'gurobi' in name and C is not None and C.shape[0] > np.linalg.matrix_rank(C, tol=1e-9):
                    ctx.ev('breakdowns')
                    raise Skip('presolve of gurobi')
                raise
            ctx.ev('optimal certified')
            mins.append(float(sol['min']))
        ctx.sig(name, kind, A.shape, None if C is None else C.shape[0], sol['min'] is None)
        ctx.note(solver=name, kind=kind, f=f, A=A, b=b, C=C, d=d, minimum=sol['min'])
    if len(mins) == 2:
        ctx.ev('agreement between solvers')
        ctx.require(abs(mins[0]-mins[1]) <= 1e-5*(1.+abs(mins[0])), 'solvers disagree: %r and %r' % tuple(mins), f=f, A=A, b=b, C=C, d=d)


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4, 5, 8], [.1, .25, .25, .2, .15, .05]))


def maybe_equalities(rng, n, x0):
    C = d = None
    if rng.random() < .45 and n > 1:
        k = int(rng.integers(1, n))
        C, d = gens.equalities(rng, n, k, x0)
        if rng.random() < .15:
            # dependent but consistent
            C = np.vstack((C, 2.*C[:1]))
            d = np.append(d, 2.*d[:1])
    elif rng.random() < .15:
        C, d = np.zeros((0, n)), np.zeros(0)
    return C, d


def scale_of(rng, lo=-3., hi=3.):
    """Unit of length of a program."""
    return 1. if rng.random() < .7 else 10.**rng.uniform(lo, hi)


def loose(rng, A, b):
    """Far bounds on each variable, which do not change an infeasible program."""
    n = A.shape[1]
    r = 10.**rng.uniform(2., 5.)
    return np.vstack((A, np.eye(n), -np.eye(n))), np.concatenate((b, r*np.ones(2*n)))


def bounded(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, spread=gens.choice(rng, [.1, 1., 30.]))
    s = scale_of(rng) if n < 8 else 1.
    b, x0 = b*s, x0*s
    if rng.random() < .4:
        A, b = gens.redundancy(rng, A, b, x0)
    if rng.random() < .3 and s == 1.:
        A, b = gens.scaled(rng, A, b)
    if rng.random() < .1:
        A, b = np.vstack((A, np.zeros((1, n)))), np.append(b, gens.choice(rng, [0., 1.]))
    C, d = maybe_equalities(rng, n, x0)
    f = gens.choice(rng, [lambda: rng.standard_normal(n)*10.**rng.uniform(-2, 2), lambda: np.zeros(n),
                          lambda: A[int(rng.integers(A.shape[0]))]*rng.choice([-1., 1.]), lambda: np.eye(n)[int(rng.integers(n))]],
                    [.6, .05, .2, .15])()
    pose(rng, ctx, f, A, b, C, d, 'optimal', 'bounded')


def constructed(rng, ctx):
    """Finite optimum over a possibly unbounded, possibly degenerate polyhedron, from a chosen primal-dual pair."""
    n = size(rng)
    m = int(rng.integers(1, 2*n+4))
    A = rng.standard_normal((m, n)) if rng.random() < .6 else rng.integers(-3, 4, (m, n)).astype(float)
    x = rng.standard_normal(n) if rng.random() < .6 else rng.integers(-3, 4, n).astype(float)
    slack = rng.uniform(.1, 2., m)*(rng.random(m) < .5)
    lam = rng.uniform(.1, 2., m)*(rng.random(m) < .6)*(slack == 0.)*10.**rng.uniform(-4, 1)
    s = scale_of(rng)
    x, slack = x*s, slack*s
    b = A.dot(x) + slack
    C, d = maybe_equalities(rng, n, x)
    f = -A.T.dot(lam)
    if C is not None and C.shape[0]:
        f = f - C.T.dot(rng.standard_normal(C.shape[0]))
    pose(rng, ctx, f, A, b, C, d, 'optimal', 'constructed')


def infeasible(rng, ctx):
    n = size(rng)
    how = gens.choice(rng, ['rows', 'equality', 'equalities', 'zero row'], [.5, .3, .15, .05])
    if how == 'rows':
        A, b, C, d = gens.infeasible(rng, n)
    elif how == 'equality':
        A, b, C, d = gens.infeasible(rng, n, True)
    elif how == 'zero row':
        A, b, x0 = gens.polytope(rng, n)
        A, b, C, d = np.vstack((A, np.zeros((1, n)))), np.append(b, -.5), None, None
    else:
        A, b, x0 = gens.polytope(rng, n)
        c = rng.standard_normal((1, n))
        C, d = np.vstack((c, 2.*c)), np.array([c[0].dot(x0), 2.*c[0].dot(x0) + .5])
    s = scale_of(rng, -1., 3.)
    b, d = b*s, None if d is None else d*s
    if rng.random() < .4:
        A, b = loose(rng, A, b)
    f = rng.standard_normal(n) if rng.random() < .8 else np.zeros(n)
    pose(rng, ctx, f, A, b, C, d, 'none', 'infeasible')


def unbounded(rng, ctx):
    n = size(rng)
    A, b, x0, ray = gens.unbounded(rng, n)
    C = d = None
    if rng.random() < .3 and n > 1:
        c = rng.standard_normal((1, n))
        c -= c.dot(ray)[:, None]/ray.dot(ray)*ray
        c[np.abs(c) < 1e-12] = 0.
        if np.max(np.abs(c)) > .1 and abs(c.dot(ray)[0]) < 1e-13:
            C, d = c, c.dot(x0)
    f = rng.standard_normal(n)
    if f.dot(ray)/np.linalg.norm(ray) > -.1:
        f = f - (f.dot(ray)/ray.dot(ray) + rng.uniform(.2, 1.))*ray
    # rays up to rounding: nudge the rows so that the ray is exactly admissible
    if oracle.lp(f, A, b, C, d)[0] != 'unbounded':
        raise Skip('ray lost in rounding')
    pose(rng, ctx, f, A, b, C, d, 'none', 'unbounded')


def integer_arrays(rng, ctx):
    n = int(rng.integers(1, 4))
    A, b, x0 = gens.polytope(rng, n, kind='integer')
    pose(rng, ctx, rng.integers(-3, 4, n), A.astype(int), b.astype(int), None, None, 'optimal', 'integer arrays')


def nested(rng, ctx):
    ctx.monitor_nested = True
    try:
        gens.choice(rng, [workloads.geometry, workloads.geometry, workloads.controllers])(rng)
    except Skip:
        pass
    ctx.sig('nested', ctx.events['event:programs.linear_program'])


SCENARIOS = [('bounded', 4, bounded), ('constructed', 3, constructed), ('infeasible', 2, infeasible), ('unbounded', 1.5, unbounded),
             ('integer arrays', .5, integer_arrays), ('nested', .7, nested)]


def no_rows(rng, ctx):
    for n in (1, 3):
        pose(rng, ctx, np.zeros(n), np.zeros((0, n)), np.zeros(0), None, None, 'optimal', 'no rows')
        pose(rng, ctx, np.ones(n), np.zeros((0, n)), np.zeros(0), None, None, 'none', 'no rows unbounded')
        pose(rng, ctx, np.ones(n), np.zeros((0, n)), np.zeros(0), np.ones((1, n)), np.ones(1), 'optimal', 'equalities only')


FIXED = [('no rows', no_rows)]
