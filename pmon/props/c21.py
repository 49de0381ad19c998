"""C21: linear MPC solves the finite-horizon optimal control problem."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip

ID = 'C21'
RULE = ('linear systems (1-4 states, 1-3 inputs, stable and unstable, singular), horizons 1-7, semidefinite state and terminal costs, coupled and unbounded constraint sets with '
        'and without equalities, arbitrary terminal sets; at states inside, outside and near the boundary of the feasible set the returned inputs are simulated and checked '
        'against the constraints, the cost against a certified solution of a separately written optimal control problem, refusals against infeasibility by a margin; distinct by '
        'sizes, horizon, constraints active and outcome.')
QUICK = 15000
THOROUGH = 80000
FLOORS = {'solutions confirmed': 4000, 'infeasible confirmed': 1500, 'with equalities': 300, 'constrained solutions': 1000, 'competitors': 4000}
CPU_LIMIT = 60.
ASSUMPTIONS = ['equalities are exercised in up to 4 decision variables: see C02']


def problem(rng):
    """Raw data of an optimal control problem."""
    nx, nu, N = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 8)) if rng.random() < .9 else int(rng.integers(8, 15))
    if nx*N > 16:
        N = max(1, 16//nx)
    A, B = gens.system(rng, nx, nu, rho=rng.uniform(.2, 1.4))
    if rng.random() < .1:
        A = A.copy()
        A[:, 0] = 0.
    n = nx + nu
    R = gens.spd(rng, nu, 1e1, 10.**rng.uniform(-1., .5))
    Q = gens.choice(rng, [gens.spd(rng, nx, 1e1), gens.psd(rng, nx, 1), np.zeros((nx, nx))], [.6, .3, .1])
    P = gens.choice(rng, [gens.spd(rng, nx, 1e1), gens.psd(rng, nx, 1), np.zeros((nx, nx))], [.6, .2, .2])
    # stage set: bounds on everything, on inputs only, polytopes
    kind = gens.choice(rng, ['box', 'input box', 'polytope', 'coupled', 'integer box'])
    I = np.eye(n)
    if kind in ('box', 'coupled', 'integer box'):
        DA, Db = np.vstack((I, -I)), rng.uniform(.5, 4., 2*n)
        if kind == 'integer box':
            Db = np.ceil(Db)
        if kind == 'coupled':
            k = int(rng.integers(1, 4))
            E = rng.standard_normal((k, n))
            DA, Db = np.vstack((DA, E)), np.concatenate((Db, rng.uniform(.5, 3., k)))
    elif kind == 'input box':
        DA, Db = np.vstack((I[nx:], -I[nx:])), rng.uniform(.5, 3., 2*nu)
    else:
        DA, Db, _ = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), center=np.zeros(n), kind=gens.choice(rng, ['gauss', 'simplex']), spread=2.)
    C, d = np.zeros((0, n)), np.zeros(0)
    eq = rng.random() < .15 and nu > 1
    if eq:
        # scipy's nnls loses about one in 10^3 of the larger programs with equalities (see C02)
        N = min(N, 4//nu)
        # couples inputs (and states): leaves freedom
        C = rng.standard_normal((1, n))
        if rng.random() < .5:
            C[:, :nx] = 0.
        d = np.zeros(1) if rng.random() < .6 else rng.uniform(-.2, .2, 1)
    # terminal set
    J = np.eye(nx)
    t = gens.choice(rng, ['box', 'polytope', 'halfspace', 'small'], [.5, .2, .15, .15])
    if t == 'box':
        TA, Tb = np.vstack((J, -J)), rng.uniform(.3, 4., 2*nx)
    elif t == 'small':
        TA, Tb = np.vstack((J, -J)), rng.uniform(.05, .3, 2*nx)
    elif t == 'halfspace':
        TA, Tb = rng.standard_normal((1, nx)), rng.uniform(.1, 2., 1)
    else:
        TA, Tb, _ = gens.polytope(rng, nx, extra=2, center=np.zeros(nx), kind='gauss')
    TC, Td = np.zeros((0, nx)), np.zeros(0)
    if eq and rng.random() < .3 and nx > 1 and nu*N > nx:
        TC, Td = rng.standard_normal((1, nx)), np.zeros(1)
    if rng.random() < .35:
        # constraints are written in any units: each row up to a positive factor
        k = gens.row_scales(rng, len(Db), -1., 3.)
        DA, Db = DA*k[:, None], Db*k
        k = gens.row_scales(rng, len(Tb), -1., 3.)
        TA, Tb = TA*k[:, None], Tb*k
    return A, B, Q, R, P, N, (DA, Db, C, d), (TA, Tb, TC, Td), (kind, t)


def poly(data):
    from pympc.geometry.polyhedron import Polyhedron
    A, b, C, d = data
    return Polyhedron(A.copy(), b.copy(), C.copy(), d.copy()) if C.shape[0] else Polyhedron(A.copy(), b.copy())


def violation(data, z):
    A, b, C, d = data
    An, bn = oracle.normalize(A, b)
    v = np.max(An.dot(z) - bn) if len(bn) else -np.inf
    if C.shape[0]:
        Cn, dn = oracle.normalize(C, d)
        v = max(v, np.max(np.abs(Cn.dot(z) - dn)))
    return v


def slack_of(x, A, B, D, T, N):
    """Largest uniform slack of the inequalities of the problem over the input sequences that satisfy the equalities; None when these are inconsistent."""
    nx, nu = B.shape
    Z = np.zeros((nu*N, nu*N))
    # rows normalised in (x, u), which is what the library's tolerance sees up to a factor
    Dn, dn = oracle.normalize(D[0], D[1])
    Tn, tn = oracle.normalize(T[0], T[1])
    _, _, _, F, g, C, d = oracle.ocp(x, [0]*N, [A], [B], [np.zeros(nx)], np.zeros((nx, nx)), np.eye(nu), np.zeros((nx, nx)), [(Dn, dn, D[2], D[3])], (Tn, tn, T[2], T[3]))
    n = F.shape[1]
    M = np.vstack((np.hstack((F, np.ones((F.shape[0], 1)))), np.hstack((np.zeros((1, n)), np.ones((1, 1))))))
    c = np.zeros(n+1)
    c[-1] = -1.
    CC = None if C is None else np.hstack((C, np.zeros((C.shape[0], 1))))
    status, val, z = oracle.lp(c, M, np.append(g, 1.), CC, d)
    if status == 'infeasible':
        return None
    if status != 'optimal':
        raise Skip('slack oracle')
    return -val


def trajectory_cost(A, B, Q, R, P, x, u):
    V, xs = 0., [x]
    for v in u:
        V += .5*(x.dot(Q).dot(x) + v.dot(R).dot(v))
        x = A.dot(x) + B.dot(v)
        xs.append(x)
    return V + .5*x.dot(P).dot(x), xs


def optimal_control(rng, ctx):
    from pympc.control.controllers import ModelPredictiveController
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, Q, R, P, N, D, T, kind = problem(rng)
    nx, nu = B.shape
    sx = su = 1.
    if rng.random() < .2:
        # other units of the states and of the inputs
        sx, su = 10.**rng.uniform(-1., 1.5), 10.**rng.uniform(-.7, 1.)
        B, Q, P, R = B*sx/su, Q/sx**2, P/sx**2, R/su**2
        w = np.concatenate((np.full(nx, sx), np.full(nu, su)))
        D, T = (D[0]/w, D[1], D[2]/w, D[3]), (T[0]/sx, T[1], T[2]/sx, T[3])
    S = LinearSystem(A, B)
    c = ctx.call(ModelPredictiveController, S, N, Q, R, P, poly(D), poly(T))
    eq = D[2].shape[0] + T[2].shape[0] > 0
    tol = 1e-5
    previous = None
    for _ in range(5):
        x = sx*rng.standard_normal(nx)*gens.choice(rng, [.05, .3, 1., 3.])
        if rng.random() < .1:
            x = np.zeros(nx)
        if previous is not None and rng.random() < .4:
            # close to the state before, further out or further in
            x = previous + sx*rng.standard_normal(nx)*10.**rng.uniform(-3., -.5)
            if rng.random() < .5:
                x = previous*gens.choice(rng, [.5, .9, .99, 1.01, 1.1, 1.5])
        previous = x
        t = slack_of(x, A, B, D, T, N)
        if t is not None and t < 0. and rng.random() < .6:
            # towards the boundary of the feasible set, from inside or outside
            lo, hi, keep = 0., 1., None
            for _ in range(9):
                mid = .5*(lo + hi)
                r = slack_of(mid*x, A, B, D, T, N)
                if r is None:
                    break
                lo, hi = (mid, hi) if r > 0. else (lo, mid)
                if abs(r) > 1e-3 and (keep is None or abs(r) < abs(keep[1])):
                    keep = (mid, r)
            if keep is not None:
                x, t = keep[0]*x, keep[1]
        if t is not None and abs(t) < (1e-3 if eq else 1e-4):
            continue
        if t is None and eq:
            # inconsistent equalities: by how much is not known
            continue
        info = dict(A=A, B=B, Q=Q, R=R, P=P, N=N, D=D, X_N=T, x=x)
        u, V = ctx.call(c.feedforward, x)
        fb = ctx.call(c.feedback, x)
        if t is None or t < 0.:
            ctx.require(u is None and V is None, 'a solution is returned, no input sequence is admissible (margin %s)' % t, u=u, V=V, **info)
            ctx.require(fb is None, 'a feedback is returned, no input sequence is admissible', **info)
            ctx.ev('infeasible confirmed')
            ctx.sig('infeasible', nx, nu, N, kind)
            continue
        ctx.require(u is not None and V is not None, 'no solution is returned, an input sequence is admissible (margin %g)' % t, **info)
        ctx.require(fb is not None, 'no feedback is returned, an input sequence is admissible', **info)
        ctx.require(len(u) == N and all(np.shape(v) == (nu,) for v in u), '%d inputs for %d steps' % (len(u), N), **info)
        ctx.close(fb, u[0], 1e-8*(1. + np.max(np.abs(u[0]))), 'the feedback is not the first input', **info)
        cost, xs = trajectory_cost(A, B, Q, R, P, x, u)
        s = 1. + abs(cost)
        big = 1. + max(np.max(np.abs(z)) for z in xs)
        for k in range(N):
            v = violation(D, np.concatenate((xs[k], u[k])))
            ctx.require(v <= tol*big, 'step %d violates the stage constraints by %g' % (k, v), u=u, **info)
        v = violation(T, xs[N])
        ctx.require(v <= tol*big, 'the terminal constraint is violated by %g' % v, u=u, **info)
        ctx.close(V, cost, 1e-5*s, 'the value is not the cost of the returned inputs', u=u, **info)
        # optimal
        H, f, g, F, b, C, d = oracle.ocp(x, [0]*N, [A], [B], [np.zeros(nx)], Q, R, P, [D], T)
        val, us = oracle.qp(H, f, F, b, C, d)
        if val is None:
            raise Skip('oracles disagree')
        ctx.require(abs(V - (val + g)) <= 2e-5*(s + abs(g)), 'the value is %.9g, the optimum %.9g' % (V, val + g), u=u, optimal=us, **info)
        if np.linalg.eigvalsh(H)[0] > 1e-3:
            ctx.close(np.concatenate(u), us, 2e-3*(1. + np.max(np.abs(us))), 'the inputs are not the optimal ones', **info)
        ctx.ev('solutions confirmed')
        if eq:
            ctx.ev('with equalities')
        act = int(np.sum(b - F.dot(us) < 1e-6))
        if act:
            ctx.ev('constrained solutions')
        # competitors: feasible points between the optimum and others
        for _ in range(2):
            w = us + rng.standard_normal(us.size)*10.**rng.uniform(-3., 0.)
            if C is not None:
                N_ = np.linalg.svd(C)[2][np.linalg.matrix_rank(C):].T
                w = us + N_.dot(N_.T.dot(w - us))
            if np.max(F.dot(w) - b) < 0.:
                k2, _ = trajectory_cost(A, B, Q, R, P, x, w.reshape(N, nu))
                ctx.require(k2 >= V - 1e-5*s, 'admissible inputs cost %g, less than the value %g' % (k2, V), w=w, **info)
                ctx.ev('competitors')
        ctx.sig('solved', nx, nu, N, kind, eq, min(act, 5))
        ctx.note(nx=nx, nu=nu, N=N, kind=kind, active=act, value=float(V))


SCENARIOS = [('optimal control', 1, optimal_control)]
