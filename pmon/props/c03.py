"""C03: mixed-integer quadratic programs."""
import itertools

import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C03'
RULE = ('random MIQPs with 0-5 continuous and 0-7 binary variables (any units; convex quadratic or purely linear costs, inequalities, equalities, coupled and '
        'pure-binary constraints, infeasible and barely satisfiable ones) plus those posed by the hybrid controller; the oracle enumerates all the '
        'binary assignments and solves each continuous program with a verified certificate; distinct by sizes, kind, feasible assignments and outcome.')
QUICK = 20000
THOROUGH = 30000
FLOORS = {'optimum confirmed by enumeration': 2500, 'none confirmed by enumeration': 500}
CPU_LIMIT = 60.
ASSUMPTIONS = ['optimality is checked up to the relative gap 1e-4 of the solver', 'only the Gurobi back end is installed']

GAP = 3e-4
FEAS = 2e-5


def front(rng):
    from pympc.optimization import programs
    from pympc.optimization.solvers import gurobi
    return gens.choice(rng, [
        ('gurobi', gurobi.mixed_integer_quadratic_program, {}),
        ('front', programs.mixed_integer_quadratic_program, {}),
        ('front gurobi', programs.mixed_integer_quadratic_program, {'solver': 'gurobi'})])


def enumerate_binaries(nc, H, f, A, b, C, d):
    """Best value over the assignments, number of feasible ones; Skip when an assignment is neither clearly feasible nor infeasible."""
    n = f.size
    best, arg, feasible = np.inf, None, 0
    for z in itertools.product([0., 1.], repeat=n-nc):
        z = np.array(z)
        bb = b - A[:, nc:].dot(z)
        CC = dd = None
        if C is not None and C.shape[0]:
            CC, dd = C[:, :nc], d - C[:, nc:].dot(z)
        g = .5*z.dot(H[nc:, nc:]).dot(z) + f[nc:].dot(z)
        if nc == 0:
            slack = np.min(bb) if bb.size else 1.
            if -1e-3 < slack < -1e-9:
                raise Skip('edge')
            ok = slack >= -1e-9
            if dd is not None:
                e = np.max(np.abs(dd))
                if 1e-9 < e < 1e-3:
                    raise Skip('edge')
                ok = ok and e <= 1e-9
            if not ok:
                continue
            val = g
            x = np.zeros(0)
        else:
            Ac = A[:, :nc]
            # rows without continuous part
            zero = np.all(Ac == 0., axis=1)
            s = bb[zero]
            if np.any((s < -1e-9) & (s > -1e-3)):
                raise Skip('edge')
            if np.any(s < -1e-9):
                continue
            if CC is not None:
                zc = np.all(CC == 0., axis=1)
                if np.any((np.abs(dd[zc]) > 1e-9) & (np.abs(dd[zc]) < 1e-3)):
                    raise Skip('edge')
                if np.any(np.abs(dd[zc]) > 1e-9):
                    continue
                CC, dd = CC[~zc], dd[~zc]
                if CC.shape[0] == 0:
                    CC = dd = None
            Ac, bb = Ac[~zero], bb[~zero]
            if Ac.shape[0]:
                t, _ = oracle.depth(Ac, bb, CC, dd)
                if t is None:
                    continue
                if abs(t) < 1e-3:
                    raise Skip('edge')
                if t < 0.:
                    continue
            elif CC is not None and np.linalg.matrix_rank(CC) < np.linalg.matrix_rank(np.column_stack((CC, dd))):
                continue
            fc = f[:nc] + H[:nc, nc:].dot(z)
            Hc = H[:nc, :nc]
            if np.any(Hc):
                v, x = oracle.qp(Hc, fc, Ac, bb, CC, dd)
                if v is None:
                    raise Skip('edge')
            else:
                status, v, x = oracle.lp(fc, Ac, bb, CC, dd)
                if status != 'optimal':
                    raise Skip('unbounded')
            val = v + g
        feasible += 1
        if val < best:
            best, arg = val, np.concatenate((x, z))
    return best, arg, feasible


def check(ctx, name, nc, H, f, A, b, C, d, sol, kind):
    best, arg, feasible = enumerate_binaries(nc, H, f, A, b, C, d)
    data = dict(solver=name, kind=kind, nc=nc, H=H, f=f, A=A, b=b, C=C, d=d, best=best, best_at=arg, got=sol)
    if feasible == 0:
        ctx.require(sol['min'] is None and sol['argmin'] is None, 'no binary assignment is feasible but a solution is returned', **data)
        ctx.ev('none confirmed by enumeration')
        ctx.sig(name, kind, nc, f.size-nc, 'none', None if C is None else C.shape[0])
        return
    ctx.require(sol['min'] is not None and sol['argmin'] is not None, 'a binary assignment is feasible but no solution is returned', **data)
    x = np.asarray(sol['argmin'], dtype=float)
    ctx.require(x.shape == f.shape, 'wrong number of variables in argmin', **data)
    z = np.round(x[nc:])
    if z.size:
        ctx.require(np.max(np.abs(x[nc:] - z)) <= 1e-4 and set(z) <= {0., 1.}, 'the binary variables are %s' % x[nc:], **data)
    if A.shape[0]:
        r = np.max((A.dot(x) - b)/(1. + np.abs(A).dot(np.abs(x)) + np.abs(b)))
        ctx.require(r <= FEAS, 'the returned point violates the inequalities by %g' % r, **data)
    if C is not None and C.shape[0]:
        r = np.max(np.abs(C.dot(x) - d)/(1. + np.abs(C).dot(np.abs(x)) + np.abs(d)))
        ctx.require(r <= FEAS, 'the returned point violates the equalities by %g' % r, **data)
    val = .5*x.dot(H).dot(x) + f.dot(x)
    scale = 1. + np.abs(f).dot(np.abs(x)) + .5*np.abs(x).dot(np.abs(H)).dot(np.abs(x))
    ctx.require(abs(val - sol['min']) <= 1e-5*scale, 'reported cost %r, cost of the point %r' % (sol['min'], val), **data)
    ctx.require(abs(sol['min'] - best) <= GAP*scale, 'cost %r, smallest cost over the binary assignments %r' % (sol['min'], best), **data)
    ctx.ev('optimum confirmed by enumeration')
    ctx.sig(name, kind, nc, f.size-nc, feasible, tuple(z.astype(int)), None if C is None else C.shape[0])
    ctx.note(nc=nc, H=H, f=f, A=A, b=b, C=C, d=d, best=best, feasible_assignments=feasible)


def pose(rng, ctx, nc, H, f, A, b, C, d, kind):
    name, fn, kw = front(rng)
    if rng.random() < .35:
        # units of the cost, of the continuous variables and of the constraints; order of the constraints
        k = 10.**rng.uniform(-2., 3.)
        t = np.append(10.**rng.uniform(-1., 1.5, nc), np.ones(f.size-nc))
        r = gens.row_scales(rng, len(b), -1., 2.)
        H, f = k*H*np.outer(t, t), k*f*t
        A, b = A*t*r[:, None], b*r
        if C is not None:
            C = C*t
        i = rng.permutation(len(b))
        A, b = A[i], b[i]
        kind = kind + ' scaled'
    args = (nc, H, f, A, b) if C is None and rng.random() < .7 else (nc, H, f, A, b, C, d)
    sol = ctx.call(fn, *args, **kw)
    check(ctx, name, nc, H, f, A, b, C, d, sol, kind)


def sizes(rng):
    nc = int(rng.integers(0, 4))
    nb = int(rng.integers(0 if nc else 1, 6))
    if rng.random() < .06:
        nc, nb = int(rng.integers(0, 6)), int(rng.integers(4, 8))
    return nc, nb


def cost(rng, nc, nb):
    n = nc + nb
    kind = gens.choice(rng, ['full', 'continuous', 'coupled', 'linear'], [.4, .25, .2, .15])
    H = np.zeros((n, n))
    if kind in ('full', 'coupled'):
        H = gens.spd(rng, n, 1e1)
        if kind == 'coupled':
            H[nc:, nc:] += np.diag(rng.uniform(0., 2., nb))
    elif nc and kind == 'continuous':
        H[:nc, :nc] = gens.spd(rng, nc, 1e1)
    f = rng.standard_normal(n)*gens.choice(rng, [.3, 1., 5.])
    return H, f


def box(rng, nc, n):
    # keep the continuous part bounded, so that linear costs have a minimum
    A = np.zeros((2*nc, n))
    A[:nc, :nc] = np.eye(nc)
    A[nc:, :nc] = -np.eye(nc)
    return A, rng.uniform(.5, 4., 2*nc)


def random(rng, ctx):
    nc, nb = sizes(rng)
    n = nc + nb
    H, f = cost(rng, nc, nb)
    A, b = box(rng, nc, n)
    m = int(rng.integers(0, 5)) if rng.random() < .9 else int(rng.integers(5, 30))
    E = rng.standard_normal((m, n))
    x = np.concatenate((rng.uniform(-.4, .4, nc), rng.integers(0, 2, nb)))
    e = E.dot(x) + rng.uniform(.05, 1., m)
    A, b = np.vstack((A, E)), np.concatenate((b, e))
    C = d = None
    if rng.random() < .35:
        k = int(rng.integers(0, 2)) if n == 1 else 1 if nc < 2 or rng.random() < .7 else 2
        C = rng.standard_normal((k, n)) if nc else rng.integers(-1, 2, (k, n)).astype(float)
        d = C.dot(x)
    pose(rng, ctx, nc, H, f, A, b, C, d, 'random')


def combinatorial(rng, ctx):
    """Exactly-one, at-most-k, knapsack and implication constraints among the binaries, big-M coupling to the continuous ones."""
    nc, nb = sizes(rng)
    nb = max(nb, 2)
    n = nc + nb
    H, f = cost(rng, nc, nb)
    A, b = box(rng, nc, n)
    C = d = None
    for _ in range(int(rng.integers(1, 4))):
        k = gens.choice(rng, ['one', 'most', 'least', 'implies', 'bigM', 'forbid'])
        r = np.zeros((1, n))
        if k == 'one':
            r[0, nc:] = 1.
            if rng.random() < .5:
                C, d = r, np.ones(1)
                continue
            A, b = np.vstack((A, r, -r)), np.concatenate((b, [1., -1.]))
            continue
        if k == 'most':
            r[0, nc:] = 1.
            s = float(rng.integers(0, nb))
        elif k == 'least':
            r[0, nc:] = -1.
            s = -float(rng.integers(1, nb+1))
        elif k == 'implies':
            i, j = nc + rng.choice(nb, 2, replace=False)
            r[0, i], r[0, j] = 1., -1.
            s = 0.
        elif k == 'bigM' and nc:
            r[0, int(rng.integers(nc))] = gens.choice(rng, [-1., 1.])
            r[0, nc + int(rng.integers(nb))] = 5.
            s = 5. - .3
        else:
            z = rng.integers(0, 2, nb)
            r[0, nc:] = np.where(z == 1, 1., -1.)
            s = float(np.sum(z)) - 1.
        A, b = np.vstack((A, r)), np.append(b, s)
    pose(rng, ctx, nc, H, f, A, b, C, d, 'combinatorial')


def infeasible(rng, ctx):
    nc, nb = sizes(rng)
    nb = max(nb, 1)
    n = nc + nb
    H, f = cost(rng, nc, nb)
    A, b = box(rng, nc, n)
    how = gens.choice(rng, ['halfway', 'sum', 'continuous', 'equality'])
    C = d = None
    if how == 'halfway':
        # fractional values only
        r = np.zeros((2, n))
        j = nc + int(rng.integers(nb))
        r[0, j], r[1, j] = 1., -1.
        A, b = np.vstack((A, r)), np.concatenate((b, [.7, -.3]))
    elif how == 'sum':
        r = np.zeros((1, n))
        r[0, nc:] = -1.
        A, b = np.vstack((A, r)), np.append(b, -nb - .5)
    elif how == 'continuous' and nc:
        r = np.zeros((1, n))
        r[0, :nc] = -1.
        A, b = np.vstack((A, r)), np.append(b, -np.sum(b[:nc]) - .5)
    else:
        r = np.zeros((1, n))
        r[0, nc:] = 1.
        C, d = r, np.array([.5])
    pose(rng, ctx, nc, H, f, A, b, C, d, 'infeasible')


SCENARIOS = [('random', 4, random), ('combinatorial', 3, combinatorial), ('infeasible', 1.3, infeasible)]
