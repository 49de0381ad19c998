"""C02: strictly convex quadratic programs."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip
from pmon.props import c01

ID = 'C02'
RULE = ('random, constructed (chosen active set, degenerate, tiny multipliers), redundant, integer and infeasible strictly convex QPs of different units of length and distances from the unconstrained minimiser, posed directly '
        'to each solver and to the front end, and those the library poses to itself in MPC, emptiness tests and explicit solutions (observed nested); '
        'non-trivial when decided by a verified certificate or by construction; distinct by solver, shape, kind, size of the active set and outcome.')
QUICK = 40000
THOROUGH = 200000
FLOORS = {'optimal certified': 900, 'none certified': 250, 'nested QP certified': 100, 'agreement between solvers': 150}
CPU_LIMIT = 60.
ASSUMPTIONS = ['the certificate is computed here from the returned multipliers; infeasibility is certified by construction or by HiGHS',
               'the solver based on nnls is exercised with equalities in up to 4 variables only',
               'the drake solver is not importable here and is not exercised']


def solvers():
    from pympc.optimization import programs
    from pympc.optimization.solvers import pnnls, gurobi
    return {
        'pnnls': (pnnls.quadratic_program, {}, 1e-6),
        'gurobi': (gurobi.quadratic_program, {}, 2e-5),
        'front': (programs.quadratic_program, {}, 1e-6),
        'front pnnls': (programs.quadratic_program, {'solver': 'pnnls'}, 1e-6),
        'front gurobi': (programs.quadratic_program, {'solver': 'gurobi'}, 2e-5),
    }


def nested_after(ctx, name, args, kwargs, result, state):
    if not ctx.monitor_nested:
        return
    H, f, A, b = args[:4]
    C, d = (args[4], args[5]) if len(args) > 5 else (kwargs.get('C'), kwargs.get('d'))
    if C is not None and C.shape[0] == 0:
        C = d = None
    data = dict(H=H, f=f, A=A, b=b, C=C, d=d, nested=True)
    if result['min'] is None:
        if A.shape[0]:
            ctx.require(oracle.feasible(A, b, C, d, 1e-5) is not True, 'nested feasible QP answered None', **data)
        ctx.ev('nested None confirmed')
        return
    c01.check_solution(ctx, H, f, A, b, C, d, result, 1e-5, 1e-5, data)
    ctx.ev('nested QP certified')


def install(monitor):
    monitor.function('pympc.optimization.programs', 'quadratic_program', after=nested_after)


def pose(rng, ctx, H, f, A, b, C, d, truth, kind, size=1.):
    if rng.random() < .25:
        H, f, A, b, C, d = gens.mixed(rng, H, f, A, b, C, d)
    table = solvers()
    if f.size > 4 and C is not None and C.shape[0] > 0:
        # outside the claim for the solver based on nnls: about one in 10^3 of these programs (n = 8) is lost in the arithmetic of scipy's nnls,
        # which cannot tell opposite columns; not reproducibly under a permutation of the rows
        names = [gens.choice(rng, ['gurobi', 'front gurobi'])]
    else:
        names = [gens.choice(rng, ['pnnls', 'front', 'front pnnls']), gens.choice(rng, ['gurobi', 'front gurobi'])]
        if rng.random() < .6:
            names = names[:1]
    out = []
    for name in names:
        fn, kw, tol = table[name]
        args = (H, f, A, b) if C is None and rng.random() < .7 else (H, f, A, b, C, d)
        data = dict(solver=name, kind=kind, H=H, f=f, A=A, b=b, C=C, d=d)
        sol = ctx.call(fn, *args, **kw)
        if truth == 'none':
            c01.check_none(ctx, sol, kind, data)
            ctx.ev('none certified')
        else:
            ctx.require(sol['min'] is not None, 'the program is feasible but the solver answered None', **data)
            # the error of nnls grows with the distance from the unconstrained minimiser
            c01.check_solution(ctx, H, f, A, b, C, d, sol, tol*max(1., size/1e2), 1e-6 if 'gurobi' not in name else 1e-4, data)
            ctx.ev('optimal certified')
            out.append((float(sol['min']), np.asarray(sol['argmin'], dtype=float)))
        ctx.sig(name, kind, A.shape, None if C is None else C.shape[0], None if sol['active_set'] is None else len(sol['active_set']))
        ctx.note(solver=name, kind=kind, H=H, f=f, A=A, b=b, C=C, d=d, minimum=sol['min'])
    if len(out) == 2:
        ctx.ev('agreement between solvers')
        e = np.linalg.eigvalsh(H)
        s = 1. + abs(out[0][0]) + np.max(np.abs(out[0][1]))
        if size > 1e2:
            return
        ctx.require(abs(out[0][0]-out[1][0]) <= 1e-4*s, 'solvers disagree on the cost: %r and %r' % (out[0][0], out[1][0]), H=H, f=f, A=A, b=b, C=C, d=d)
        if e[0] > 1e-2:
            ctx.close(out[0][1], out[1][1], 1e-3*s, 'solvers disagree on the minimiser', H=H, f=f, A=A, b=b, C=C, d=d)


def hessian(rng, n):
    if rng.random() < .3:
        return gens.sparse_spd(rng, n, 10.**rng.uniform(-1, 1))
    return gens.spd(rng, n, gens.choice(rng, [1., 1e1, 1e3]), 10.**rng.uniform(-1, 1))


def bounded(rng, ctx):
    n = c01.size(rng)
    A, b, x0 = gens.polytope(rng, n, spread=gens.choice(rng, [.1, 1., 10.]))
    s = c01.scale_of(rng, -3., .5)
    b, x0 = b*s, x0*s
    if rng.random() < .4:
        A, b = gens.redundancy(rng, A, b, x0)
    if rng.random() < .3:
        A, b = gens.scaled(rng, A, b, -1., 1.)
    if rng.random() < .1:
        A, b = np.vstack((A, np.zeros((1, n)))), np.append(b, gens.choice(rng, [0., 1.]))
    C, d = c01.maybe_equalities(rng, n, x0)
    H = hessian(rng, n)
    # unconstrained minimiser inside, outside, far away
    f = -H.dot(x0 + s*rng.standard_normal(n)*gens.choice(rng, [.05, 1., 20.]))
    pose(rng, ctx, H, f, A, b, C, d, 'optimal', 'bounded', s)


def far(rng, ctx):
    """Feasible set far from the unconstrained minimiser."""
    n = int(rng.integers(1, 5))
    s = 10.**rng.uniform(1., 5.)
    A, b, x0 = gens.polytope(rng, n, center=rng.standard_normal(n)*s, kind=gens.choice(rng, ['box', 'gauss', 'simplex']))
    H = gens.spd(rng, n, 10.)
    f = rng.standard_normal(n)
    pose(rng, ctx, H, f, A, b, None, None, 'optimal', 'far', s)


def constructed(rng, ctx):
    n = c01.size(rng)
    m = int(rng.integers(0, 2*n+4))
    A = rng.standard_normal((m, n)) if rng.random() < .6 else rng.integers(-3, 4, (m, n)).astype(float)
    x = rng.standard_normal(n) if rng.random() < .6 else rng.integers(-3, 4, n).astype(float)
    slack = rng.uniform(.1, 2., m)*(rng.random(m) < .5)
    lam = rng.uniform(.1, 2., m)*(rng.random(m) < .6)*(slack == 0.)*10.**rng.uniform(-3, 1)
    b = A.dot(x) + slack
    C, d = c01.maybe_equalities(rng, n, x)
    if m:
        t = oracle.depth(A, b, C, d)[0]
        if t is None or t < 1e-3:
            raise Skip('no interior')
    H = hessian(rng, n)
    f = -H.dot(x) - A.T.dot(lam)
    if C is not None and C.shape[0]:
        f = f - C.T.dot(rng.standard_normal(C.shape[0]))
    pose(rng, ctx, H, f, A, b, C, d, 'optimal', 'constructed')


def infeasible(rng, ctx):
    n = c01.size(rng)
    how = gens.choice(rng, ['rows', 'equality', 'equalities', 'zero row'], [.5, .3, .15, .05])
    if how == 'rows':
        A, b, C, d = gens.infeasible(rng, n)
    elif how == 'equality':
        A, b, C, d = gens.infeasible(rng, n, True)
    elif how == 'zero row':
        A, b, x0 = gens.polytope(rng, n)
        A, b, C, d = np.vstack((A, np.zeros((1, n)))), np.append(b, -.5), None, None
    else:
        A, b, x0 = gens.polytope(rng, n)
        c = rng.standard_normal((1, n))
        C, d = np.vstack((c, 2.*c)), np.array([c[0].dot(x0), 2.*c[0].dot(x0) + .5])
    s = c01.scale_of(rng, -1., 3.)
    b, d = b*s, None if d is None else d*s
    if rng.random() < .4:
        A, b = c01.loose(rng, A, b)
    pose(rng, ctx, hessian(rng, n), rng.standard_normal(n)*gens.choice(rng, [0., 1., 10.]), A, b, C, d, 'none', 'infeasible')


def integer_arrays(rng, ctx):
    n = int(rng.integers(1, 4))
    A, b, x0 = gens.polytope(rng, n, kind='integer')
    L = rng.integers(-1, 2, (n, n))
    H = L.dot(L.T) + np.eye(n, dtype=int)
    pose(rng, ctx, H, rng.integers(-5, 6, n), A.astype(int), b.astype(int), None, None, 'optimal', 'integer arrays')


def nested(rng, ctx):
    ctx.monitor_nested = True
    try:
        workloads.controllers(rng)
        A, b, x0 = gens.polytope(rng, int(rng.integers(2, 5)))
        from pympc.geometry.polyhedron import Polyhedron
        p = Polyhedron(A, b)
        p.empty
        p.add_equality(*gens.equalities(rng, x0.size, 1, x0))
        p.empty
    except Skip:
        pass
    ctx.sig('nested', ctx.events['event:programs.quadratic_program'])


SCENARIOS = [('bounded', 4, bounded), ('far', .5, far), ('constructed', 3, constructed), ('infeasible', 2, infeasible),
             ('integer arrays', .5, integer_arrays), ('nested', 1.2, nested)]


def no_rows(rng, ctx):
    for n in (1, 3):
        H = hessian(rng, n)
        pose(rng, ctx, H, rng.standard_normal(n), np.zeros((0, n)), np.zeros(0), None, None, 'optimal', 'no rows')
        pose(rng, ctx, H, rng.standard_normal(n), np.zeros((0, n)), np.zeros(0), np.ones((1, n)), np.ones(1), 'optimal', 'equalities only')


FIXED = [('no rows', no_rows)]
