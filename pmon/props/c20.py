"""C20: feasible sets of multiparametric programs and MPC problems."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip
from pmon.props import c18

ID = 'C20'
RULE = ('feasible sets of random multiparametric programs (1-3 parameters, up to 8 variables) and of linear MPC problems; parameters drawn around '
        'the set, just inside and outside its boundary along rays, and at its vertices; membership against the largest depth reachable in the variables (LP) and against whether '
        'the pointwise solution or the controller answers; support of the set in random directions against LPs; distinct by sizes and number of facets.')
QUICK = 4000
THOROUGH = 50000
FLOORS = {'sets confirmed': 1000, 'feasible confirmed': 12000, 'infeasible confirmed': 9000, 'controllers': 250, 'supports confirmed': 4000}
CPU_LIMIT = 90.
CHUNK = 10


def condensed(rng):
    """(mpqp object, A, b, answer(x) -> bool, kind)."""
    k = rng.random()
    if k < .6:
        from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
        nx = int(gens.choice(rng, [1, 2, 3], [.25, .5, .25]))
        nu = int(rng.integers(1, 4 if nx < 3 else 3))
        if nx < 3 and rng.random() < .15:
            nu = int(rng.integers(4, 9))
        H, f, g, A, b, z0 = workloads.mpqp(rng, nx=nx, nu=nu, extra=int(rng.integers(0, 5)))
        if rng.random() < .2:
            # some rows in a larger unit
            s = 10.**np.where(rng.random(b.size) < .4, rng.uniform(-2., -.5, b.size), 0.)
            A, b = {'x': A['x']*s[:, None], 'u': A['u']*s[:, None]}, b*s
        m = MultiParametricQuadraticProgram(H, f, g, A, b)
        return m, A, b, (lambda x: m.solve(x)['min'] is not None), z0, 'random'
    c, (S, K, P, Q, R, D, X_N, N) = workloads.mpc_mpqp(rng, nx=int(gens.choice(rng, [1, 2, 3], [.3, .6, .1])), nu=1, N=int(rng.integers(1, 4) if rng.random() < .85 else rng.integers(4, 9)))
    nx = S.nx
    data = lambda x: oracle.ocp(x, [0]*N, [S.A], [S.B], [np.zeros(nx)], Q, R, P, [oracle.poly(D)], oracle.poly(X_N))
    H0, f0, g0, A0, b0, _, _ = data(np.zeros(nx))
    A = {'u': A0, 'x': np.array([b0 - data(e)[4] for e in np.eye(nx)]).T.reshape(len(b0), nx)}
    return c.mpqp, A, b0, (lambda x: c.feedback(x) is not None), np.zeros(nx + A0.shape[1]), 'mpc'


def feasible_set(rng, ctx):
    m, A, b, answers, z0, kind = condensed(rng)
    nx, nu = A['x'].shape[1], A['u'].shape[1]
    F = np.hstack((A['x'], A['u']))
    t, zc = oracle.depth(F, b)
    if t is None or t < 1e-2:
        raise Skip('thin constraint set')
    S = ctx.call(m.get_feasible_set)
    info = dict(A=A, b=b, kind=kind)
    ctx.require(S.A.shape[1] == nx and S.C.shape[0] == 0, 'the feasible set has the wrong dimension', **info)
    xc = zc[:nx]
    pts = [xc + rng.standard_normal(nx)*gens.choice(rng, [.2, 1., 3.]) for _ in range(10)]
    scale = 1.
    for _ in range(6):
        v = rng.standard_normal(nx)
        v /= np.linalg.norm(v)
        # support in that direction
        h = oracle.support(np.concatenate((v, np.zeros(nu))), F, b)
        k = oracle.support(v, S.A, S.b)
        scale = max(scale, abs(h))
        ctx.require(k is not None and abs(h - k) <= 1e-5*(1. + abs(h)), 'the feasible set extends to %s in a direction, the feasible parameters to %s' % (k, h), direction=v, **info)
        ctx.ev('supports confirmed')
        # ray from the center: how far is it feasible
        status, val, z = oracle.lp(np.concatenate((np.zeros(nu), [-1.])), np.hstack((A['u'], A['x'].dot(v)[:, None])), b - A['x'].dot(xc))
        if status == 'optimal':
            s = -val
            pts += [xc + v*s*.998, xc + v*s*1.002]
    V = ctx.call(lambda: S.vertices)
    if V is not None:
        for v in [np.asarray(w, dtype=float) for w in V[:6]]:
            pts += [xc + (v - xc)*.998, xc + (v - xc)*1.002]
    n_in = n_out = 0
    for x in pts:
        d = c18.depth_at(A, b, x)
        if d is None or abs(d) < 1e-4:
            continue
        got = bool(ctx.call(S.contains, x))
        ctx.require(got == (d > 0.), 'a parameter that is %s (by %g) is %s the feasible set' % ('feasible' if d > 0. else 'infeasible', abs(d), 'in' if got else 'not in'), x=x, **info)
        on = bool(ctx.call(answers, x))
        ctx.require(on == got, 'a parameter is %s the feasible set and the optimisation %s' % ('in' if got else 'not in', 'answers' if on else 'does not answer'), x=x, **info)
        ctx.ev('feasible confirmed' if got else 'infeasible confirmed')
    ctx.ev('sets confirmed')
    if kind == 'mpc':
        ctx.ev('controllers')
    ctx.sig(kind, nx, nu, len(b), S.A.shape[0])
    ctx.note(kind=kind, nx=nx, nu=nu, constraints=len(b), facets=int(S.A.shape[0]))


SCENARIOS = [('feasible set', 1, feasible_set)]
