"""C16: maximal constraint-admissible invariant sets."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C16'
RULE = ('stable matrices (random, rotations, defective, nilpotent, slow, non-normal; spectral radius up to .97) and LQR or pole-shrinking closed loops, with bounded '
        'constraint sets (boxes, random polytopes, scaled, redundant and duplicated rows, far from symmetric); the returned set is compared with the trajectory definition: '
        'rows pushed through the dynamics until a norm bound shows that no later time matters, mutual inclusion by LPs, trajectories from points just inside and just '
        'outside along random rays and from the vertices, image of the set, irredundancy of the description, number of LPs; refusals; distinct by kind, sizes and horizon.')
QUICK = 6000
THOROUGH = 80000
FLOORS = {'sets confirmed': 1800, 'points inside': 6000, 'points outside': 6000, 'refusals': 400, 'index two or more': 700}
CPU_LIMIT = 90.


def install(monitor):
    monitor.function('pympc.optimization.programs', 'linear_program', step=True)
    monitor.function('pympc.optimization.programs', 'quadratic_program', step=True)


def stable(rng, nx):
    kind = gens.choice(rng, ['gauss', 'gauss', 'rotation', 'defective', 'nilpotent', 'slow', 'nonnormal', 'zero', 'diagonal'])
    rho = rng.uniform(.1, .93)
    if kind == 'gauss':
        A = rng.standard_normal((nx, nx))
        A *= rho/max(1e-3, np.max(np.abs(np.linalg.eigvals(A))))
    elif kind == 'rotation':
        A = gens.orthogonal(rng, nx)*rho
    elif kind == 'defective':
        A = rho*np.eye(nx) + np.diag(rng.uniform(.2, 1.5, nx-1), 1) if nx > 1 else np.array([[rho]])
    elif kind == 'nilpotent':
        A = np.triu(rng.integers(-2, 3, (nx, nx)).astype(float), 1)
        if rng.random() < .5:
            T, Ti = gens.unimodular(rng, nx)
            A = T.dot(A).dot(Ti)
    elif kind == 'slow':
        q = gens.orthogonal(rng, nx)
        A = (q*rng.uniform(.9, .97, nx)*rng.choice([-1., 1.], nx)).dot(q.T)
    elif kind == 'nonnormal':
        q = rng.standard_normal((nx, nx)) + 1.5*np.eye(nx)
        A = q.dot(np.diag(rng.uniform(-.9, .9, nx))).dot(np.linalg.inv(q))
    elif kind == 'zero':
        A = np.zeros((nx, nx))
    else:
        A = np.diag(rng.uniform(-.95, .95, nx))
    r = np.max(np.abs(np.linalg.eigvals(A)))
    if not np.isfinite(r) or r > .975 or np.max(np.abs(A)) > 20.:
        raise Skip('not clearly stable')
    return A, kind


def horizon(A, Dn, en, R):
    """First T such that from any |x| <= R, at all times t >= T, D x(t) <= e strictly."""
    inner = np.min(en)
    M = np.eye(A.shape[0])
    T = 0
    # contraction over blocks of k steps: |A^k| <= 1/2
    k, P = 1, A
    while np.linalg.norm(P, 2) > .5:
        P = P.dot(A)
        k += 1
        if k > 600:
            raise Skip('slow')
    peak, Q = 1., np.eye(A.shape[0])
    for _ in range(k):
        peak = max(peak, np.linalg.norm(Q, 2))
        Q = Q.dot(A)
    while np.linalg.norm(M, 2)*R*peak > .5*inner:
        M = M.dot(A)
        T += 1
        if T > 150:
            raise Skip('slow')
    return T


def constraints(rng, n):
    """Bounded {A x <= b} with the origin well inside."""
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), center=np.zeros(n), kind=gens.choice(rng, ['box', 'gauss', 'simplex', 'integer', 'corner']))
    if rng.random() < .3:
        A, b = gens.redundancy(rng, A, b, x0)
    if rng.random() < .4:
        A, b = gens.scaled(rng, A, b, -1., 1.)
    if rng.random() < .3:
        A, b = gens.permuted(rng, A, b)
    if rng.random() < .3:
        b = b*10.**rng.uniform(-1., 1.5)
    return A, b


def confirm(rng, ctx, A, D, e, O, info):
    """O = {x : D A^t x <= e for all t >= 0}."""
    nx = A.shape[0]
    Dn, en = oracle.normalize(D, e)
    if np.min(np.linalg.norm(D, axis=1)) < 3e-2:
        raise Skip('rows comparable with the absolute tolerances')
    depth0, _ = oracle.depth(D, e)
    if depth0 < 1e-2 or np.min(en) < 2e-2*depth0:
        raise Skip('origin close to the boundary')
    R = 0.
    for v in np.vstack((np.eye(nx), -np.eye(nx))):
        s = oracle.support(v, D, e)
        if s is None:
            raise Skip('unbounded')
        R = max(R, s)
    R *= np.sqrt(nx)
    T = horizon(A, Dn, en, R)
    return Dn, en, R, T


def inspect(rng, ctx, A, Dn, en, R, T, O, info):
    nx = A.shape[0]
    OA, Ob, OC, Od = oracle.poly(O)
    ctx.require(OC.shape[0] == 0, 'the invariant set has equalities', **info)
    ctx.require(OA.ndim == 2 and OA.shape[1] == nx and OA.shape[0] == Ob.size, 'malformed set', **info)
    rows, rhs, Ps = [], [], []
    P = np.eye(nx)
    for t in range(T+1):
        rows.append(Dn.dot(P))
        rhs.append(en)
        Ps.append(P)
        P = P.dot(A)
    Z, z = np.vstack(rows), np.concatenate(rhs)
    time = np.repeat(np.arange(T+1), len(en))
    # rows that nothing in the constraint set can violate
    keep = (np.linalg.norm(Z, axis=1)*R > z) | (time == 0)
    Z, z, time = Z[keep], z[keep], time[keep]
    # points just inside and outside along rays
    scale = R
    dirs = [rng.standard_normal(nx) for _ in range(6)] + [v for v in np.eye(nx)[:2]]
    V = None
    if nx <= 3:
        V = ctx.call(lambda: O.vertices)
        ctx.require(V is not None, 'the invariant set has no vertices', **info)
        V = [np.asarray(v, dtype=float) for v in V]
        dirs += [V[int(rng.integers(len(V)))] for _ in range(4)]
    for v in dirs:
        w = Z.dot(v)
        if not np.any(w > 0.):
            continue
        s = np.min(z[w > 1e-12]/w[w > 1e-12])
        for f in (.999, 1.001, .5, 2.):
            x = f*s*v
            slack = np.min(z - Z.dot(x))
            if abs(slack) < 2e-5:
                continue
            inside = slack > 0.
            got = bool(ctx.call(O.contains, x))
            ctx.require(got == inside, 'a state whose trajectory %s the constraints is %s the set' % ('satisfies' if inside else 'violates', 'in' if got else 'not in'),
                        x=x, slack=slack, first_time=int(time[np.argmin(z - Z.dot(x))]), **info)
            ctx.ev('points inside' if inside else 'points outside')
    # as sets
    worst = oracle.included(OA, Ob, None, None, Z, z, None, None)
    ctx.require(worst <= 1e-5*(1. + R), 'the set has states whose trajectory violates the constraints by %g' % worst, **info)
    lack = oracle.included(Z, z, None, None, OA, Ob, None, None)
    ctx.require(lack <= 1e-5*(1. + R), 'the set misses admissible states by %g' % lack, **info)
    # maps into itself: implied, asked of the real objects too
    image = oracle.included(OA, Ob, None, None, OA.dot(A), Ob, None, None) if np.all(np.linalg.norm(OA.dot(A), axis=1) > 1e-6) else None
    if image is not None:
        ctx.require(image <= 1e-5*(1. + R), 'the set is not mapped into itself: %g' % image, **info)
    # irredundant
    for i in range(OA.shape[0]):
        m = oracle.redundant_margin(OA, Ob, i)
        ctx.require(m > -1e-6, 'inequality %d of the set is redundant by %g' % (i, m), **info)
    On, on = oracle.normalize(OA, Ob)
    for i in range(OA.shape[0]):
        for j in range(i):
            ctx.require(np.max(np.abs(On[i]-On[j])) + abs(on[i]-on[j]) > 1e-11, 'inequalities %d and %d of the set are the same' % (j, i), **info)
    # determinedness index seen in the description
    Zn, zn = oracle.normalize(Z, z)
    idx = 0
    for i in range(OA.shape[0]):
        m = np.where(np.max(np.abs(Zn - On[i]), axis=1) + np.abs(zn - on[i]) < 1e-6)[0]
        if m.size:
            idx = max(idx, int(np.min(time[m])))
    if idx >= 2:
        ctx.ev('index two or more')
    ctx.ev('sets confirmed')
    return idx


def budget(nc, T):
    return 6*(T + 3)*(nc + 2) + 300


def matrix(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import mcais
    nx = int(gens.choice(rng, [1, 2, 3, 4], [.2, .4, .3, .1]))
    A, kind = stable(rng, nx)
    D, e = constraints(rng, nx)
    info = dict(A=A, D=D, e=e)
    Dn, en, R, T = confirm(rng, ctx, A, D, e, None, info)
    X = Polyhedron(D.copy(), e.copy())
    ctx.monitor.limit(budget(D.shape[0], T))
    O = ctx.call(mcais, A, X)
    ctx.monitor.limit(10**9)
    idx = inspect(rng, ctx, A, Dn, en, R, T, O, dict(O=O, **info))
    ctx.sig('matrix', kind, nx, D.shape[0], idx)
    ctx.note(kind=kind, nx=nx, index=idx, horizon=T, facets=int(O.A.shape[0]))


def closed_loop(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem
    nx, nu = int(gens.choice(rng, [1, 2, 3], [.2, .5, .3])), int(rng.integers(1, 3))
    A, B = gens.system(rng, nx, nu, rho=rng.uniform(.3, 1.5), kind=gens.choice(rng, ['gauss', 'orth', 'shift']))
    S = LinearSystem(A, B)
    if np.linalg.svd(np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)]))[1][nx-1] < 5e-2:
        raise Skip('poorly controllable')
    P, K = S.solve_dare(gens.spd(rng, nx, 1e1), gens.spd(rng, nu, 1e1)*gens.choice(rng, [.1, 1., 10.]))
    if rng.random() < .4:
        K = K + rng.standard_normal(K.shape)*.05
    F = A + B.dot(K)
    if np.max(np.abs(np.linalg.eigvals(F))) > .95 or np.max(np.abs(K)) > 30.:
        raise Skip('slow closed loop')
    DA, Db = constraints(rng, nx+nu)
    D = DA[:, :nx] + DA[:, nx:].dot(K)
    if np.any(np.linalg.norm(D, axis=1) < 1e-2*np.linalg.norm(DA, axis=1)):
        raise Skip('vanishing row')
    info = dict(A=A, B=B, K=K, D=DA, e=Db)
    Dn, en, R, T = confirm(rng, ctx, F, D, Db, None, info)
    poly = Polyhedron(DA.copy(), Db.copy())
    ctx.monitor.limit(budget(D.shape[0], T))
    O = ctx.call(S.mcais, K, poly)
    ctx.monitor.limit(10**9)
    idx = inspect(rng, ctx, F, Dn, en, R, T, O, dict(O=O, **info))
    # the real closed loop from points of the set
    x = np.asarray(O.center, dtype=float)
    starts = [x]
    if nx <= 3:
        starts += [.999*np.asarray(v, dtype=float) + .001*x for v in O.vertices[:6]]
    scale = 1. + R
    for x0 in starts:
        for x in ctx.call(S.simulate_closed_loop, x0, min(2*T+5, 200), K):
            xu = np.concatenate((x, K.dot(x)))
            r = np.max((DA.dot(xu) - Db)/np.maximum(1e-12, np.linalg.norm(DA, axis=1)))
            ctx.require(r <= 1e-5*scale, 'a closed-loop trajectory from the set violates the constraints by %g' % r, x0=x0, **info)
    ctx.sig('closed loop', nx, nu, D.shape[0], idx)


def refused(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    nx = int(rng.integers(1, 4))
    A, kind = stable(rng, nx)
    D, e = constraints(rng, nx)
    why = gens.choice(rng, ['unstable', 'unstable gain', 'unbounded', 'origin', 'unbounded gain'])
    ctx.monitor.limit(4000)
    if why == 'unstable':
        M = rng.standard_normal((nx, nx))
        r = np.max(np.abs(np.linalg.eigvals(M)))
        if r < 1e-2:
            raise Skip('nilpotent')
        A = M*(gens.choice(rng, [1.01, 1.2, 3.])/r)
        ctx.rejects(ValueError, mcais, A, Polyhedron(D, e))
    elif why == 'unstable gain':
        nu = 1
        A, B = gens.system(rng, nx, nu, rho=rng.uniform(.5, .9))
        K = rng.standard_normal((nu, nx))*3.
        if np.max(np.abs(np.linalg.eigvals(A + B.dot(K)))) < 1.01:
            raise Skip('stable')
        DA, Db = constraints(rng, nx+nu)
        ctx.rejects(ValueError, LinearSystem(A, B).mcais, K, Polyhedron(DA, Db))
    elif why in ('unbounded', 'unbounded gain'):
        # halfspaces that leave a direction open
        U, r, _, ray = gens.unbounded(rng, nx, m=int(rng.integers(1, 2*nx+1)))
        r = rng.uniform(.2, 2., r.size)*np.linalg.norm(U, axis=1)
        U, r = U[np.linalg.norm(U, axis=1) > 1e-6], r[np.linalg.norm(U, axis=1) > 1e-6]
        if U.shape[0] == 0:
            raise Skip('no constraints')
        M = oracle.normalize(U, r)[0]
        if M.shape[0] >= nx and np.linalg.svd(M)[1][nx-1] < 1e-2 and np.linalg.svd(M)[1][nx-1] > 1e-12:
            raise Skip('kernel up to rounding')
        if why == 'unbounded':
            ctx.rejects(ValueError, mcais, A, Polyhedron(U, r))
        else:
            B = rng.standard_normal((nx, 1))
            DA = np.hstack((U, np.zeros((U.shape[0], 1))))
            ctx.rejects(ValueError, LinearSystem(A, B).mcais, np.zeros((1, nx)), Polyhedron(DA, r))
    else:
        i = int(rng.integers(D.shape[0]))
        e = e.copy()
        e[i] = -.05*np.linalg.norm(D[i])
        ctx.rejects(ValueError, mcais, A, Polyhedron(D, e))
    ctx.ev('refusals')
    ctx.sig('refused', why, nx, kind)


SCENARIOS = [('matrix', 5, matrix), ('closed loop', 3, closed_loop), ('refused', 1.5, refused)]
