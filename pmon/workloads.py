"""
Whole-library workloads, used by the properties that observe events nested in other computations.
"""
import numpy as np

from pmon import gens
from pmon.core import Skip


def geometry(rng):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(2, 5))
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), kind=gens.choice(rng, ['box', 'gauss', 'simplex']))
    A, b = gens.redundancy(rng, A, b, x0)
    p = Polyhedron(A, b)
    p.bounded
    p.radius
    p.minimal_facets()
    p.remove_redundant_inequalities()
    q = int(rng.integers(1, min(n, 3)+1))
    p.project_to([int(i) for i in rng.permutation(n)[:q]])
    C, d = gens.equalities(rng, n, 1, x0)
    p.add_equality(C, d)
    p.radius
    p.minimal_facets()
    p.is_included_in(Polyhedron(A, b))


def linear_mpc(rng, nx=None, nu=None, N=None, equality=False):
    """A documented linear MPC set-up: (S, K, P, Q, R, D, X_N, N)."""
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem
    nx = int(rng.integers(1, 4)) if nx is None else nx
    nu = int(rng.integers(1, 3)) if nu is None else nu
    N = int(rng.integers(1, 5)) if N is None else N
    A, B = gens.system(rng, nx, nu, rho=rng.uniform(.3, 1.2), kind=gens.choice(rng, ['gauss', 'orth', 'shift']))
    S = LinearSystem(A, B)
    R_ = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
    if np.linalg.svd(R_)[1][nx-1] < 5e-2:
        raise Skip('poorly controllable')
    Q = gens.spd(rng, nx, 1e1)
    R = gens.spd(rng, nu, 1e1)
    P, K = S.solve_dare(Q, R)
    if np.max(np.abs(np.linalg.eigvals(A + B.dot(K)))) > .9 or np.max(np.abs(K)) > 30.:
        raise Skip('slow closed loop')
    lo, hi = rng.uniform(.5, 5., nx+nu), rng.uniform(.5, 5., nx+nu)
    D = Polyhedron.from_bounds(-lo, hi)
    if rng.random() < .4:
        a = rng.standard_normal((int(rng.integers(1, 3)), nx+nu))
        D.add_inequality(a, rng.uniform(.5, 4., a.shape[0]))
    if rng.random() < .25:
        # rows in any unit
        D = Polyhedron(*gens.scaled(rng, D.A, D.b, -1., 2.5))
    X_N = S.mcais(K, D)
    return S, K, P, Q, R, D, X_N, N


def controllers(rng):
    from pympc.control.controllers import ModelPredictiveController
    S, K, P, Q, R, D, X_N, N = linear_mpc(rng)
    c = ModelPredictiveController(S, N, Q, R, P, D, X_N)
    for _ in range(4):
        c.feedforward(rng.standard_normal(S.nx)*gens.choice(rng, [.1, 1., 3.]))


def pwa(rng, nx=None, nu=None, s=None, same_rows=False, margin=0., gap=False, affine=True):
    """
    Piecewise-affine system with bounded domains that partition a box along one direction of the state-input space.
    Returns raw data (As, Bs, cs, domains as (A, b)).
    """
    nx = int(rng.integers(1, 3)) if nx is None else nx
    nu = int(rng.integers(1, 3)) if nu is None else nu
    s = int(rng.integers(1, 4)) if s is None else s
    As, Bs, cs = [], [], []
    for i in range(s):
        A, B = gens.system(rng, nx, nu, rho=rng.uniform(.3, 1.3))
        As.append(A)
        Bs.append(B)
        cs.append(rng.standard_normal(nx)*.5 if affine and rng.random() < .7 else np.zeros(nx))
    n = nx + nu
    lo, hi = rng.uniform(1., 4., n), rng.uniform(1., 4., n)
    box_A = np.vstack((np.eye(n), -np.eye(n)))
    box_b = np.concatenate((hi, lo))
    a = rng.standard_normal(n)
    if rng.random() < .5:
        a[nx:] = 0.
    if rng.random() < .4:
        a = np.zeros(n)
        a[int(rng.integers(nx))] = 1.
    a /= np.linalg.norm(a)
    cuts = np.sort(rng.uniform(-.8, .8, s-1)) if s > 1 else np.zeros(0)
    cuts = cuts + .15*np.arange(s-1)
    domains = []
    for i in range(s):
        A, b = box_A, box_b
        if i > 0:
            A = np.vstack((A, -a))
            b = np.append(b, -cuts[i-1])
        if i < s-1:
            A = np.vstack((A, a))
            b = np.append(b, cuts[i])
        if rng.random() < .3:
            e = rng.standard_normal((1, n))
            A = np.vstack((A, e))
            b = np.append(b, rng.uniform(1., 3.))
        domains.append((A.copy(), b.copy()))
    return As, Bs, cs, domains


def mpqp(rng, nx=None, nu=None, extra=None, origin=None, linear=None):
    """
    Raw multiparametric QP with bounded full-dimensional constraint set: (H, f, g, A, b, z0), z0 = (x0, u0) well inside.
    """
    nx = int(rng.integers(1, 4)) if nx is None else nx
    nu = int(rng.integers(1, 5)) if nu is None else nu
    n = nx + nu
    extra = int(rng.integers(0, 7)) if extra is None else extra
    z0 = np.zeros(n) if (rng.random() < .5 if origin is None else origin) else rng.standard_normal(n)*gens.choice(rng, [.5, 3.])
    I = np.eye(n)
    M = np.vstack((I, -I, rng.standard_normal((extra, n))))
    if rng.random() < .3:
        q = gens.orthogonal(rng, n)
        M = np.vstack((q, -q, rng.standard_normal((extra, n))))
    r = M.dot(z0) + rng.uniform(.3, 2., M.shape[0])*np.linalg.norm(M, axis=1)
    k = rng.random()
    if k < .45:
        M, r = gens.scaled(rng, M, r, *((-.7, .7) if k < .3 else (-1., 2.5) if k < .4 else (-3.5, .5)))
    if rng.random() < .5:
        M, r = gens.permuted(rng, M, r)
    J = gens.spd(rng, n, 1e2, 10.**rng.uniform(-.5, .5))
    lin = rng.random() < .7 if linear is None else linear
    H = {'uu': J[nx:, nx:].copy(), 'ux': J[nx:, :nx].copy(), 'xx': J[:nx, :nx].copy()}
    f = {'u': rng.standard_normal(nu)*2. if lin else np.zeros(nu), 'x': rng.standard_normal(nx) if lin else np.zeros(nx)}
    g = float(rng.standard_normal())*(1. if rng.random() < .85 else 10.**rng.uniform(1., 4.)) if lin else 0.
    A = {'x': M[:, :nx].copy(), 'u': M[:, nx:].copy()}
    return H, f, g, A, r, z0


def mpc_mpqp(rng, **kwargs):
    """The condensed program of a documented linear MPC controller, as raw data, and the controller."""
    from pympc.control.controllers import ModelPredictiveController
    S, K, P, Q, R, D, X_N, N = linear_mpc(rng, **kwargs)
    c = ModelPredictiveController(S, N, Q, R, P, D, X_N)
    return c, (S, K, P, Q, R, D, X_N, N)
