"""C18: pointwise solution and critical regions of multiparametric quadratic programs."""
import itertools

import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip

ID = 'C18'
RULE = ('multiparametric QPs with 1-3 parameters and 1-4 variables, linear and constant terms, scaled and permuted constraints, and condensed MPC problems; (a) pointwise '
        'solutions against a certified QP solution; (b) regions of optimal, random, empty and full active sets against a separately solved KKT system: membership of points '
        'clear of the boundary, primal, dual and cost there; (c) regions asked for a point with right, wrong, dependent, empty, nearly right and no guess; distinct by sizes, size of the '
        'active set, kind of guess and outcome.')
QUICK = 36000
THOROUGH = 120000
FLOORS = {'pointwise confirmed': 2500, 'infeasible confirmed': 600, 'members confirmed': 5000, 'non members confirmed': 5000, 'regions of points confirmed': 1500,
          'evaluations confirmed': 4000, 'wrong guesses': 600, 'near misses confirmed': 1500}
CPU_LIMIT = 60.


def program(rng, ctx):
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    if rng.random() < .15:
        c, _ = workloads.mpc_mpqp(rng, nx=int(rng.integers(1, 3)), nu=1, N=int(rng.integers(1, 4)))
        m = c.mpqp
        H, f, g, A, b = m.H, m.f, m.g, m.A, m.b
        z0 = np.zeros(A['x'].shape[1] + A['u'].shape[1])
        return m, H, f, g, A, b, z0, 'mpc'
    H, f, g, A, b, z0 = workloads.mpqp(rng)
    m = ctx.call(MultiParametricQuadraticProgram, H, f, g, A, b)
    return m, H, f, g, A, b, z0, 'random'


def cost(H, f, g, x, u):
    return .5*u.dot(H['uu']).dot(u) + u.dot(H['ux']).dot(x) + .5*x.dot(H['xx']).dot(x) + f['u'].dot(u) + f['x'].dot(x) + g


def truth(H, f, g, A, b, x):
    """(min, u) by a certified QP, or (None, None)."""
    v, u = oracle.qp(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x))
    if v is None:
        return None, None
    return v + .5*x.dot(H['xx']).dot(x) + f['x'].dot(x) + g, u


def depth_at(A, b, x):
    return oracle.depth(A['u'], b - A['x'].dot(x))[0] if np.all(np.linalg.norm(A['u'], axis=1) > 1e-9) else _depth(A, b, x)


def _depth(A, b, x):
    """With rows that do not involve u."""
    r = b - A['x'].dot(x)
    n = np.linalg.norm(A['u'], axis=1)
    free = n <= 1e-9
    if np.any(free):
        w = np.min(r[free]/np.maximum(1e-9, np.linalg.norm(A['x'][free], axis=1)))
        t = oracle.depth(A['u'][~free], r[~free])[0]
        return min(w, t)
    return oracle.depth(A['u'], r)[0]


def parameter(rng, A, b, z0):
    nx = A['x'].shape[1]
    return z0[:nx] + rng.standard_normal(nx)*gens.choice(rng, [.1, .5, 1., 3.])


def pointwise(rng, ctx):
    m, H, f, g, A, b, z0, kind = program(rng, ctx)
    for _ in range(3):
        x = parameter(rng, A, b, z0)
        t = depth_at(A, b, x)
        if t is None or abs(t) < 1e-4:
            continue
        sol = ctx.call(m.solve, x)
        info = dict(H=H, f=f, g=g, A=A, b=b, x=x)
        if t < 0.:
            for key in ('min', 'argmin', 'active_set', 'multiplier_inequality'):
                ctx.require(sol[key] is None, 'infeasible parameter: %s is %s' % (key, sol[key]), **info)
            ctx.ev('infeasible confirmed')
            continue
        v, u = truth(H, f, g, A, b, x)
        ctx.require(sol['min'] is not None, 'feasible parameter: no solution', **info)
        s = 1. + abs(v) + np.max(np.abs(u))
        ctx.close(sol['argmin'], u, 1e-4*s, 'pointwise minimiser', **info)
        ctx.close(sol['min'], v, 1e-6*s*(1. + np.max(np.abs(x)))**2, 'pointwise cost', **info)
        ua = np.asarray(sol['argmin'], dtype=float)
        ctx.close(sol['min'], cost(H, f, g, x, ua), 1e-6*s*(1. + np.max(np.abs(x)))**2, 'the cost is not that of the minimiser', **info)
        lam = np.asarray(sol['multiplier_inequality'], dtype=float)
        res = oracle.kkt_residual(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x), None, None, ua, lam, None)
        ctx.require(np.max(res) < 1e-5, 'the multipliers do not certify the minimiser: %s' % res, **info)
        slack = (b - A['x'].dot(x) - A['u'].dot(ua))
        act = set(int(i) for i in sol['active_set'])
        for i in range(len(b)):
            if lam[i] > 1e-5*(1. + np.max(lam)):
                ctx.require(i in act, 'inequality %d has a positive multiplier and is not in the active set' % i, lam=lam, active=sorted(act), **info)
            if slack[i] > 1e-4*(1. + abs(b[i])):
                ctx.require(i not in act, 'inequality %d is in the active set and is not tight' % i, active=sorted(act), **info)
        ctx.ev('pointwise confirmed')
        ctx.sig('pointwise', kind, A['x'].shape, A['u'].shape[1], len(act))


def kkt_maps(H, f, A, b, act):
    """Affine u(x), p(x) of an active set, from the assembled KKT matrix; None when dependent."""
    nu, nx = H['ux'].shape
    k = len(act)
    G = A['u'][act].reshape(k, nu)
    if k:
        sv = np.linalg.svd(G/np.maximum(1e-12, np.linalg.norm(G, axis=1))[:, None])[1]
        if k > nu or sv[-1] < 2e-2 or np.min(np.linalg.norm(G, axis=1)) < 1e-2:
            return None
    K = np.block([[H['uu'], G.T], [G, np.zeros((k, k))]]) if k else H['uu']
    rhs = np.vstack((np.hstack((-H['ux'], -f['u'][:, None])), np.hstack((-A['x'][act].reshape(k, nx), b[act].reshape(k, 1)))))
    S = np.linalg.solve(K, rhs)
    return S[:nu], S[nu:]          # each [linear | constant]


def region_rows(A, b, act, U, L):
    """Conditions of the region as affine functions >= 0: multipliers and inactive slacks, normalised by their gradients."""
    m = len(b)
    inact = [i for i in range(m) if i not in act]
    nx = A['x'].shape[1]
    W = np.vstack((L[:, :nx], -(A['u'][inact].dot(U[:, :nx]) + A['x'][inact]))) if True else None
    w = np.concatenate((L[:, nx], b[inact] - A['u'][inact].dot(U[:, nx])))
    return W, w


def member(W, w, x):
    """Signed slack after normalisation; None when not decisive."""
    r = np.linalg.norm(W, axis=1)
    worst = np.inf
    for a, c, n in zip(W, w, r):
        v = a.dot(x) + c
        if n > 1e-5:
            v = v/n
            if abs(v) < 1e-5:
                return None
        elif n > 1e-9 or abs(v) < 1e-5:
            # negligible gradient: rounding decides on one side only
            if abs(v) < 1e-4:
                return None
        worst = min(worst, v)
    return worst


def evaluate(ctx, cr, H, f, g, A, b, x, what, info):
    """At a point of the region: the minimiser, its multipliers and its cost."""
    v, u = truth(H, f, g, A, b, x)
    ctx.require(v is not None, what + ': the region contains an infeasible parameter', **info)
    s = 1. + abs(v) + np.max(np.abs(u))
    uc, pc, Vc = ctx.call(cr.u, x), ctx.call(cr.p, x), ctx.call(cr.V, x)
    ctx.close(uc, u, 1e-4*s, what + ': primal solution', **info)
    ctx.require(np.shape(pc) == np.shape(b), what + ': %s multipliers for %d inequalities' % (np.shape(pc), len(b)), **info)
    res = oracle.kkt_residual(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x), None, None, np.asarray(uc, dtype=float), np.asarray(pc, dtype=float), None)
    ctx.require(np.max(res) < 1e-5, what + ': the primal and dual solutions do not satisfy the KKT conditions: %s' % res, **info)
    ctx.close(Vc, v, 1e-5*s*(1. + np.max(np.abs(x)))**2, what + ': cost', **info)
    ctx.ev('evaluations confirmed')


def active_at(H, f, g, A, b, x):
    """Strictly complementary optimal active set at x, by the certified solution; None when degenerate."""
    v, u = truth(H, f, g, A, b, x)
    if v is None:
        return None
    slack = b - A['x'].dot(x) - A['u'].dot(u)
    n = np.maximum(1e-9, np.linalg.norm(np.hstack((A['x'], A['u'])), axis=1))
    act = [i for i in range(len(b)) if slack[i]/n[i] < 1e-7]
    if any(1e-7 <= slack[i]/n[i] < 1e-4 for i in range(len(b))):
        return None
    if act:
        G = A['u'][act]/np.maximum(1e-12, np.linalg.norm(A['u'][act], axis=1))[:, None]
        if len(act) > G.shape[1] or np.linalg.svd(G)[1][-1] < 1e-3:
            return None
        lam = np.linalg.lstsq(A['u'][act].T, -(H['uu'].dot(u) + H['ux'].dot(x) + f['u']), rcond=None)[0]
        if np.min(lam) < 1e-4:
            return None
    return act


def regions(rng, ctx):
    m, H, f, g, A, b, z0, kind = program(rng, ctx)
    nu, nx = H['ux'].shape
    M = len(b)
    how = gens.choice(rng, ['optimal', 'optimal', 'random', 'empty', 'neighbour'])
    if how in ('optimal', 'neighbour'):
        x = parameter(rng, A, b, z0)
        t = depth_at(A, b, x)
        if t is None or t < 1e-3:
            x = z0[:nx] + .1*rng.standard_normal(nx)
        act = active_at(H, f, g, A, b, x)
        if act is None:
            raise Skip('degenerate')
        if how == 'neighbour':
            i = int(rng.integers(M))
            act = sorted(set(act) ^ {i})
    elif how == 'empty':
        act = []
    else:
        k = int(rng.integers(1, min(nu, 3)+1))
        act = sorted(int(i) for i in rng.permutation(M)[:k])
        if rng.random() < .2:
            act = act[::-1]
    maps = kkt_maps(H, f, A, b, act)
    if maps is None:
        raise Skip('dependent active set')
    U, L = maps
    if max(np.max(np.abs(U)), np.max(np.abs(L)) if L.size else 0.) > 1e3:
        raise Skip('badly scaled')
    cr = ctx.call(m.explicit_solve_given_active_set, list(act))
    info = dict(H=H, f=f, g=g, A=A, b=b, active_set=act)
    ctx.require(cr is not None, 'no region for an active set that satisfies linear independence', **info)
    ctx.require(sorted(int(i) for i in cr.active_set) == sorted(act), 'the region of %s reports the active set %s' % (act, cr.active_set), **info)
    W, w = region_rows(A, b, act, U, L)
    # points: around the region (its center when it is not empty), random ones
    An, bn = oracle.normalize(-W, w)
    try:
        t, xc = oracle.depth(-W, w)
    except Skip:
        t, xc = -1., None
    pts = [parameter(rng, A, b, z0) for _ in range(3)]
    if t is not None and t > 1e-4:
        pts += [xc] + [xc + rng.standard_normal(nx)*t*gens.choice(rng, [.3, 1., 3.]) for _ in range(4)]
        for _ in range(3):
            # along a ray to just before and after the boundary
            v = rng.standard_normal(nx)
            sl, gr = bn - An.dot(xc), An.dot(v)
            k = (gr > 1e-9) & (np.linalg.norm(W, axis=1) > 1e-5)
            if np.any(k):
                s = np.min(sl[k]/gr[k])
                if s < 1e3:
                    pts += [xc + v*s*.999, xc + v*s*1.001]
    for x in pts:
        s = member(W, w, x)
        if s is None:
            continue
        got = bool(ctx.call(cr.contains, x))
        ctx.require(got == (s > 0.), 'the region %s a parameter where its solution is %s (slack %g)' % (
            'contains' if got else 'does not contain', 'optimal' if s > 0. else 'not optimal', s), x=x, **info)
        if s > 0.:
            ctx.ev('members confirmed')
            evaluate(ctx, cr, H, f, g, A, b, x, 'region', dict(x=x, **info))
            ctx.close(cr.u(x), U[:, :nx].dot(x) + U[:, nx], 1e-5*(1. + np.max(np.abs(U))*(1.+np.max(np.abs(x)))), 'primal solution of the region', x=x, **info)
            p = np.zeros(M)
            p[act] = L[:, :nx].dot(x) + L[:, nx]
            ctx.close(cr.p(x), p, 1e-5*(1. + np.max(np.abs(p))), 'multipliers of the region', x=x, **info)
        else:
            ctx.ev('non members confirmed')
    ctx.sig('region', kind, how, nx, nu, M, len(act), t is not None and t > 1e-4)
    ctx.note(active_set=act, how=how, depth=t)


def points(rng, ctx):
    m, H, f, g, A, b, z0, kind = program(rng, ctx)
    nu, nx = H['ux'].shape
    M = len(b)
    x = parameter(rng, A, b, z0)
    t = depth_at(A, b, x)
    if t is None or abs(t) < 1e-4:
        raise Skip('close to the boundary')
    guess = gens.choice(rng, ['none', 'empty', 'random', 'right', 'dependent', 'too many', 'neighbour'])
    act = None
    if t > 0.:
        act = active_at(H, f, g, A, b, x)
        if act is None:
            raise Skip('degenerate')
    base = list(act) if act is not None else []
    G = {'none': None, 'empty': [], 'right': base,
         'random': sorted(int(i) for i in rng.permutation(M)[:int(rng.integers(1, nu+1))]),
         'too many': sorted(int(i) for i in rng.permutation(M)[:min(M, nu+1)]),
         'neighbour': sorted(set(base) ^ {int(rng.integers(M))}),
         'dependent': None}[guess]
    if guess == 'dependent':
        # two parallel rows in u
        P = oracle.normalize(A['u'], b)[0]
        pairs = [(i, j) for i, j in itertools.combinations(range(M), 2) if np.max(np.abs(A['u'][i] + A['u'][j])) == 0. and np.any(A['u'][i])]
        if not pairs:
            raise Skip('no dependent rows')
        G = list(pairs[int(rng.integers(len(pairs)))])
    if guess not in ('none', 'empty', 'right') and G:
        # a guess that is dependent up to rounding is neither
        k = len(G)
        sv = np.linalg.svd(A['u'][G].reshape(k, nu))[1]
        if guess != 'dependent' and k <= nu and sv[-1] < 1e-3:
            raise Skip('nearly dependent guess')
    args = (x,) if guess == 'none' and rng.random() < .5 else (x, None if G is None else list(G))
    cr = ctx.call(m.explicit_solve_given_point, *args)
    info = dict(H=H, f=f, g=g, A=A, b=b, x=x, guess=G)
    if t < 0.:
        ctx.require(cr is None, 'a region is returned for an infeasible parameter', **info)
        ctx.ev('infeasible confirmed')
    else:
        ctx.require(cr is not None, 'no region is returned for a feasible parameter', **info)
        ctx.require(bool(ctx.call(cr.contains, x)), 'the region returned for the parameter does not contain it', **info)
        evaluate(ctx, cr, H, f, g, A, b, x, 'region of a point (guess: %s)' % guess, info)
        # non degenerate: only one active set is right
        ctx.require(sorted(int(i) for i in cr.active_set) == sorted(act), 'active set %s instead of %s' % (sorted(cr.active_set), act), **info)
        ctx.ev('regions of points confirmed')
        if G is not None and sorted(G) != sorted(act):
            ctx.ev('wrong guesses')
    ctx.sig('point', kind, guess, nx, nu, None if act is None else len(act))


def near_miss(rng, ctx):
    """A guess whose region ends just before the parameter."""
    m, H, f, g, A, b, z0, kind = program(rng, ctx)
    nu, nx = H['ux'].shape
    x = parameter(rng, A, b, z0)
    t = depth_at(A, b, x)
    if t is None or t < 1e-3:
        x = z0[:nx] + .1*rng.standard_normal(nx)
    act = active_at(H, f, g, A, b, x)
    if act is None:
        raise Skip('degenerate')
    maps = kkt_maps(H, f, A, b, act)
    if maps is None or max(np.max(np.abs(maps[0])), np.max(np.abs(maps[1])) if maps[1].size else 0.) > 1e3:
        raise Skip('dependent or badly scaled active set')
    W, w = region_rows(A, b, act, *maps)
    r = np.linalg.norm(W, axis=1)
    k = r > 1e-3
    for _ in range(6):
        v = rng.standard_normal(nx)
        v /= np.linalg.norm(v)
        slack, speed = (W[k].dot(x) + w[k])/r[k], -W[k].dot(v)/r[k]
        ok = speed > 1e-2
        if not np.any(ok) or np.any(slack < 0.):
            continue
        s = slack[ok]/speed[ok]
        i = int(np.argmin(s))
        if s[i] > 1e3:
            continue
        miss = 10.**rng.uniform(-4.5, -2.)
        if miss*r[k][ok][i] < 1e-6:
            # the library compares with its own tolerance before normalising
            continue
        y = x + (s[i] + miss/speed[ok][i])*v
        t = depth_at(A, b, y)
        if t is None or t < 1e-4:
            continue
        info = dict(H=H, f=f, g=g, A=A, b=b, x=y, guess=act, miss=miss)
        cr = ctx.call(m.explicit_solve_given_point, y, list(act))
        if cr is None or not bool(ctx.call(cr.contains, y)):
            # without a guess the library may have no answer either (degenerate parameter): then the guess is not to blame
            free = ctx.call(m.explicit_solve_given_point, y)
            ctx.require(not(free is not None and bool(ctx.call(free.contains, y))), 'with a guess whose region ends %g before the parameter %s, without a guess its region is found' % (
                miss, 'no region is returned' if cr is None else 'the region of %s is returned, that does not contain it' % (cr.active_set,)), **info)
            ctx.ev('near misses undecided')
            continue
        ctx.require(sorted(int(i) for i in cr.active_set) != sorted(act), 'the region of a guess that misses the parameter by %g is returned' % miss, **info)
        evaluate(ctx, cr, H, f, g, A, b, y, 'region of a point just outside the region of the guess', info)
        ctx.ev('near misses confirmed')
        ctx.sig('near miss', kind, nx, nu, len(act), len(cr.active_set))


SCENARIOS = [('pointwise', 3, pointwise), ('regions', 4, regions), ('points', 4, points), ('near miss', 2, near_miss)]
