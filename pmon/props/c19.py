"""C19: the explicit solution equals the implicit one."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip
from pmon.props import c18

ID = 'C19'
RULE = ('explicit solutions of random multiparametric QPs (1-3 parameters, origin feasible or not, linear and constant terms) and of documented MPC controllers; parameters drawn '
        'around the feasible set, inside every region, along segments between regions and outside; minimiser, multipliers and cost of the explicit solution and the inputs of the '
        'explicit controller against a certified QP solution and the implicit controller; number of regions whose interior contains a parameter; distinct by sizes and number of '
        'regions.  A miss is a violation only when the missed region is thick and shares a thick facet, one constraint away, with a region that was found.')
QUICK = 2500
THOROUGH = 12000
FLOORS = {'explicit solutions': 450, 'regions': 3500, 'evaluations confirmed': 15000, 'infeasible confirmed': 4000, 'explicit controllers': 120, 'origin infeasible': 60}
CPU_LIMIT = 90.
CHUNK = 6
ASSUMPTIONS = ['degenerate programs and regions thinner than the exploration step are outside the claim (the code documents the facet-to-facet assumption)']


def strictly_inside(cr, x):
    A, b = oracle.normalize(cr.polyhedron.A, cr.polyhedron.b)
    return np.min(b - A.dot(x)) > 1e-5


def thick_miss(H, f, g, A, b, ex, x, found):
    """The parameter x is feasible and not covered.  Decisive when the first uncovered region met from a found one is thick and so is their common facet."""
    nx = A['x'].shape[1]
    y = found
    lo, hi = 0., 1.
    if ex.u(y) is None:
        return False
    for _ in range(60):
        mid = .5*(lo + hi)
        if ex.u(y + mid*(x - y)) is None:
            hi = mid
        else:
            lo = mid
    # points a little before and after
    d = np.linalg.norm(x - y)
    eps = 3e-4/max(d, 1e-6)
    p, q = y + max(0., lo - eps)*(x - y), y + min(1., hi + eps)*(x - y)
    a, c = c18.active_at(H, f, g, A, b, p), c18.active_at(H, f, g, A, b, q)
    if a is None or c is None or len(set(a) ^ set(c)) != 1 or ex.u(q) is not None:
        return False
    rows = []
    for act in (a, c):
        maps = c18.kkt_maps(H, f, A, b, act)
        if maps is None:
            return False
        W, w = c18.region_rows(A, b, act, *maps)
        t, _ = oracle.depth(-W, w)
        if t is None or t < 2e-3:
            return False
        rows.append((W, w))
    # the facet: both regions, slightly inflated, have a common slice of codimension one
    W, w = np.vstack([r[0] for r in rows]), np.concatenate([r[1] for r in rows])
    n = np.linalg.norm(W, axis=1)
    k = n > 1e-6
    W, w = W[k]/n[k][:, None], w[k]/n[k]
    # opposite rows define the facet
    for i in range(len(w)):
        for j in range(i):
            if np.max(np.abs(W[i] + W[j])) < 1e-5 and abs(w[i] + w[j]) < 1e-5:
                others = [m for m in range(len(w)) if min(np.max(np.abs(W[m] - W[i])), np.max(np.abs(W[m] + W[i]))) > 1e-5]
                if nx == 1:
                    return True
                r, _ = gens.subspace_depth(-W[others], w[others], W[i:i+1], -w[i:i+1])
                return r > 2e-3
    return False


def sample(rng, ctx, ex, H, f, g, A, b, z0, K, controller=None, strict=True):
    nx, nu = A['x'].shape[1], A['u'].shape[1]
    crs = ex.critical_regions
    pts = [z0[:nx] + rng.standard_normal(nx)*gens.choice(rng, [.3, 1., 2.]) for _ in range(K)]
    inside = []
    for cr in [crs[int(i)] for i in rng.permutation(len(crs))[:12]]:
        c = cr.polyhedron.center
        r = cr.polyhedron.radius
        if c is not None and r is not None and r > 1e-4:
            inside.append(np.asarray(c, dtype=float))
            pts.append(inside[-1] + rng.standard_normal(nx)*r*.4)
    for _ in range(10):
        if len(inside) > 1:
            i, j = rng.choice(len(inside), 2, replace=False)
            w = rng.uniform(-.2, 1.2)
            pts.append(inside[i]*(1.-w) + inside[j]*w)
    for x in pts:
        t = c18.depth_at(A, b, x)
        if t is None or abs(t) < 1e-4:
            continue
        info = dict(H=H, f=f, g=g, A=A, b=b, x=x, regions=[list(map(int, c.active_set)) for c in crs][:60])
        u, p, V = ctx.call(ex.u, x), ctx.call(ex.p, x), ctx.call(ex.V, x)
        ctx.require((u is None) == (p is None) == (V is None), 'inconsistent answers: u %s, p %s, V %s' % (u, p, V), **info)
        if t < 0.:
            ctx.require(u is None, 'the explicit solution covers an infeasible parameter (by %g)' % -t, **info)
            ctx.ev('infeasible confirmed')
            if controller is not None:
                got = ctx.call(controller.feedforward_explicit, x)
                ctx.require(got[0] is None and got[1] is None and ctx.call(controller.feedback_explicit, x) is None, 'the explicit controller answers outside the feasible set', **info)
            continue
        v, us = c18.truth(H, f, g, A, b, x)
        if v is None:
            raise Skip('oracles disagree')
        if u is None:
            if strict and t > 1e-3 and any(thick_miss(H, f, g, A, b, ex, x, y) for y in inside[:4]):
                ctx.require(False, 'the explicit solution does not cover a feasible parameter', **info)
            ctx.ev('misses not decisive')
            continue
        s = 1. + abs(v) + np.max(np.abs(us))
        ctx.close(u, us, 2e-4*s, 'explicit minimiser', **info)
        ctx.close(V, v, 1e-4*s, 'explicit cost', **info)
        res = oracle.kkt_residual(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x), None, None, np.asarray(u, dtype=float), np.asarray(p, dtype=float), None)
        ctx.require(np.max(res) < 1e-4, 'explicit primal and dual solutions do not satisfy the KKT conditions: %s' % res, **info)
        n = sum(1 for c in crs if strictly_inside(c, x))
        ctx.require(n <= 1, 'the interiors of %d regions contain the parameter' % n, **info)
        ctx.ev('evaluations confirmed')
        if controller is not None:
            N, m = controller.N, controller.S.nu
            ue, Ve = ctx.call(controller.feedforward_explicit, x)
            ui, Vi = ctx.call(controller.feedforward, x)
            ctx.require(ui is not None, 'the implicit controller has no solution', **info)
            ctx.require(len(ue) == N and all(np.shape(w) == (m,) for w in ue), 'malformed explicit input sequence', **info)
            ctx.close(np.concatenate(ue), us, 2e-4*s, 'explicit input sequence', **info)
            ctx.close(np.concatenate(ui), np.concatenate(ue), 2e-4*s, 'explicit and implicit input sequences', **info)
            ctx.close(Ve, Vi, 2e-4*s, 'explicit and implicit costs', **info)
            ctx.close(ctx.call(controller.feedback_explicit, x), us[:m], 2e-4*s, 'explicit feedback', **info)


def parametric(rng, ctx):
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    nx = int(gens.choice(rng, [1, 2, 3], [.25, .55, .2]))
    nu = int(rng.integers(1, 4 if nx < 3 else 3))
    H, f, g, A, b, z0 = workloads.mpqp(rng, nx=nx, nu=nu, extra=int(rng.integers(0, 6 if nx < 3 else 3)))
    m = ctx.call(MultiParametricQuadraticProgram, H, f, g, A, b)
    t0 = c18.depth_at(A, b, np.zeros(nx))
    if t0 is not None and abs(t0) < 1e-3:
        raise Skip('origin on the boundary')
    if t0 is None or t0 < 0.:
        ctx.ev('origin infeasible')
    # steps as small as the tolerance of the QP solver may miss regions; they must still terminate and not overlap
    kw = gens.choice(rng, [{}, {}, {'step_size': 1e-4}, {'step_size': 1e-6}])
    ex = ctx.call(m.explicit_solve, **kw)
    ctx.require(len(ex.critical_regions) > 0, 'no region found for a feasible program', H=H, f=f, A=A, b=b)
    ctx.ev('explicit solutions')
    ctx.ev('regions', len(ex.critical_regions))
    sample(rng, ctx, ex, H, f, g, A, b, z0, 40, strict=kw.get('step_size', 1e-5) > 5e-6)
    ctx.sig('parametric', nx, nu, len(b), len(ex.critical_regions))
    ctx.note(nx=nx, nu=nu, constraints=len(b), regions=len(ex.critical_regions))


def mpc(rng, ctx):
    c, (S, K, P, Q, R, D, X_N, N) = workloads.mpc_mpqp(rng, nx=int(gens.choice(rng, [1, 2], [.3, .7])), nu=int(gens.choice(rng, [1, 2], [.8, .2])), N=int(rng.integers(1, 4)))
    ctx.call(c.store_explicit_solution)
    ex = c.explicit_solution
    # the raw problem, condensed by the harness
    nx, nu = S.nx, S.nu
    I = np.eye(nx)
    dom, term = oracle.poly(D), oracle.poly(X_N)
    data = lambda x: oracle.ocp(x, [0]*N, [S.A], [S.B], [np.zeros(nx)], Q, R, P, [dom], term)
    H0, f0, g0, A0, b0, _, _ = data(np.zeros(nx))
    cols = [data(e) for e in I]
    H = {'uu': H0, 'ux': np.array([k[1] - f0 for k in cols]).T.reshape(N*nu, nx), 'xx': None}
    X = np.zeros((nx, nx))
    for i in range(nx):
        for j in range(nx):
            X[i, j] = data(I[i] + I[j])[2] - cols[i][2] - cols[j][2] + g0
    H['xx'] = X
    A = {'u': A0, 'x': np.array([b0 - k[4] for k in cols]).T.reshape(len(b0), nx)}
    ctx.ev('explicit solutions')
    ctx.ev('explicit controllers')
    ctx.ev('regions', len(ex.critical_regions))
    sample(rng, ctx, ex, H, {'u': f0, 'x': np.zeros(nx)}, g0, A, b0, np.zeros(nx), 30, c)
    ctx.sig('mpc', nx, nu, N, len(b0), len(ex.critical_regions))


SCENARIOS = [('parametric', 3, parametric), ('mpc', 1.4, mpc)]
