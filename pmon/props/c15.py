"""C15: LQR cost-to-go and gain, controllability."""
import numpy as np

from pmon import gens
from pmon.core import Skip

ID = 'C15'
RULE = ('controllable pairs (stable, unstable, singular, integer chains, one or several inputs) with positive definite weights of several scales: symmetry, definiteness and '
        'Riccati residual of P, agreement with a separate value iteration, spectral radius of the closed loop, cost summed along the closed-loop trajectory of the real '
        'simulation, cost of competing gains and of perturbed input sequences; pairs that are uncontrollable by construction (integer block-triangular forms under '
        'unimodular changes of coordinates) and controllable ones, against reachability tested by steering; distinct by sizes, kind and verdict.')
QUICK = 20000
THOROUGH = 120000
FLOORS = {'riccati equations confirmed': 2500, 'costs confirmed': 2500, 'competitors': 8000, 'uncontrollable refused': 500, 'controllable verdicts': 2500}
CPU_LIMIT = 30.


def margin(A, B):
    """Clear controllability: the smallest singular value of the reachability matrix with its columns scaled."""
    nx = A.shape[0]
    s = max(1., np.max(np.abs(np.linalg.eigvals(A))))
    R = np.hstack([np.linalg.matrix_power(A/s, i).dot(B) for i in range(nx)])
    sv = np.linalg.svd(R)[1]
    if len(sv) < nx or sv[0] == 0.:
        return 0.
    full = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
    sf = np.linalg.svd(full)[1]
    return min(sv[nx-1]/sv[0], 1e3*sf[nx-1]/sf[0])


def pair(rng):
    nx, nu = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    if rng.random() < .1:
        nx, nu = int(rng.integers(1, 8)), int(rng.integers(1, 7))
    kind = gens.choice(rng, ['gauss', 'orth', 'shift', 'int', 'chain', 'singular', 'scalar'])
    if kind == 'chain':
        A = np.eye(nx) + np.diag(np.full(nx-1, gens.choice(rng, [.1, .5, 1.])), 1) if nx > 1 else np.eye(1)
        B = np.zeros((nx, nu))
        B[-1, 0] = 1.
        if nu > 1:
            B[:, 1:] = rng.standard_normal((nx, nu-1))*(rng.random() < .7)
    elif kind == 'singular':
        A, B = gens.system(rng, nx, nu, rho=rng.uniform(.2, 1.5), kind='gauss')
        A = A.copy()
        A[:, int(rng.integers(nx))] = 0.
    elif kind == 'scalar':
        nx = 1
        A, B = np.array([[rng.uniform(-3., 3.)]]), rng.standard_normal((1, nu))
    else:
        A, B = gens.system(rng, nx, nu, rho=rng.uniform(.2, 1.8) if kind != 'int' else None, kind=kind)
    if kind == 'int' and rng.random() < .5:
        A, B = A.astype(int), rng.integers(-2, 3, (nx, nu))
    return A, B, kind


def value_iteration(A, B, Q, R):
    P = Q.copy()
    for k in range(4000):
        G = R + B.T.dot(P).dot(B)
        N = Q + A.T.dot(P).dot(A) - A.T.dot(P).dot(B).dot(np.linalg.solve(G, B.T.dot(P).dot(A)))
        N = .5*(N + N.T)
        d = np.max(np.abs(N - P))
        P = N
        if d < 1e-12*np.max(np.abs(P)):
            return P
    return None


def policy_cost(A, B, Q, R, K):
    """x'Mx/2 is the cost of u = Kx; None if unstable."""
    F = A + B.dot(K)
    if np.max(np.abs(np.linalg.eigvals(F))) > .995:
        return None
    M, S, T = np.zeros_like(Q), Q + K.T.dot(R).dot(K), F.copy()
    # doubling
    M = S
    for _ in range(40):
        N = M + T.T.dot(M).dot(T)
        T = T.dot(T)
        if np.max(np.abs(N - M)) <= 1e-14*np.max(np.abs(N)):
            return N
        M = N
    return M


def riccati(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, kind = pair(rng)
    nx, nu = B.shape
    if margin(A, B) < 2e-2:
        raise Skip('poorly controllable')
    Q = gens.spd(rng, nx, 10.**rng.uniform(0., 2.), 10.**rng.uniform(-1., 1.))
    R = gens.spd(rng, nu, 10.**rng.uniform(0., 2.), 10.**rng.uniform(-1., 1.))
    if rng.random() < .3:
        # unit of the cost
        k = 10.**rng.uniform(-3., 3.)
        Q, R = k*Q, k*R
    if rng.random() < .2:
        # unit of the inputs
        k = 10.**rng.uniform(-1., 1.)
        B, R = k*B, k*k*R
    W = value_iteration(np.asarray(A, dtype=float), np.asarray(B, dtype=float), Q, R)
    if W is None or np.max(np.abs(W)) > 1e5*min(np.max(np.abs(Q)), np.max(np.abs(R))):
        raise Skip('ill conditioned')
    S = ctx.call(LinearSystem, A, B)
    ctx.require(S.controllable, 'a controllable system is reported not to be', A=A, B=B)
    ctx.ev('controllable verdicts')
    P, K = ctx.call(S.solve_dare, Q, R)
    info = dict(A=A, B=B, Q=Q, R=R, P=P, K=K)
    ctx.require(P.shape == (nx, nx) and K.shape == (nu, nx), 'P and K have shapes %s and %s' % (P.shape, K.shape), **info)
    s = np.max(np.abs(W))
    ctx.close(P, P.T, 1e-6*s, 'P is not symmetric', **info)
    ctx.require(np.min(np.linalg.eigvalsh(.5*(P+P.T))) > 0., 'P is not positive definite', **info)
    G = R + B.T.dot(P).dot(B)
    res = Q + A.T.dot(P).dot(A) - A.T.dot(P).dot(B).dot(np.linalg.solve(G, B.T.dot(P).dot(A))) - P
    amp = (1. + np.max(np.abs(A)))**2
    ctx.close(res, np.zeros((nx, nx)), 1e-6*s*amp, 'P does not satisfy the Riccati equation', **info)
    ctx.close(P, W, 1e-5*s, 'P is not the limit of the value iteration', **info)
    ctx.ev('riccati equations confirmed')
    K0 = -np.linalg.solve(R + B.T.dot(W).dot(B), B.T.dot(W).dot(A))
    ctx.close(K, K0, 1e-4*(np.max(np.abs(K0)) + 1e-3*np.max(np.abs(A))/np.max(np.abs(B))), 'the gain is not the optimal one', **info)
    F = A + B.dot(K)
    rho = np.max(np.abs(np.linalg.eigvals(F)))
    ctx.require(rho < 1., 'the gain does not stabilise the system: spectral radius %g' % rho, **info)
    if rho < .98:
        # cost along the real closed loop
        T = min(1500, int(np.ceil(np.log(1e-8)/np.log(max(rho, .05)))) + 30)
        x0 = rng.standard_normal(nx)*gens.choice(rng, [.1, 1., 5.])
        x = ctx.call(S.simulate_closed_loop, x0, T, K)
        cost = .5*sum(z.dot(Q).dot(z) + K.dot(z).dot(R).dot(K.dot(z)) for z in x[:-1])
        pred = .5*x0.dot(P).dot(x0)
        ctx.require(abs(cost - pred) <= 1e-5*(1e-3*s*x0.dot(x0) + abs(pred)), 'the gain achieves %g, P predicts %g' % (cost, pred), x0=x0, **info)
        ctx.ev('costs confirmed')
        M = policy_cost(A, B, Q, R, K)
        if M is not None:
            ctx.close(M, P, 1e-5*s, 'the cost of the gain is not P', **info)
    # competitors
    for _ in range(4):
        if rng.random() < .5:
            K2 = K + rng.standard_normal(K.shape)*10.**rng.uniform(-4., 0.)*(1e-2 + np.max(np.abs(K)))
            M = policy_cost(A, B, Q, R, K2)
            if M is None:
                continue
            low = np.min(np.linalg.eigvalsh(.5*(M + M.T) - .5*(P + P.T)))
            ctx.require(low >= -1e-6*s, 'another gain costs less from some state by %g' % -low, K2=K2, **info)
        else:
            n = int(rng.integers(1, 5))
            x = x0 = rng.standard_normal(nx)
            cost = 0.
            for t in range(n):
                u = K.dot(x) + rng.standard_normal(nu)*10.**rng.uniform(-3., 0.)
                cost += .5*(x.dot(Q).dot(x) + u.dot(R).dot(u))
                x = A.dot(x) + B.dot(u)
            # the remainder is followed by the optimal policy, whose cost is W
            cost += .5*x.dot(W).dot(x)
            ctx.require(cost >= .5*x0.dot(P).dot(x0) - 1e-6*s*(1. + x0.dot(x0)), 'an input sequence costs less than P predicts', x0=x0, **info)
        ctx.ev('competitors')
    ctx.sig('riccati', kind, nx, nu, bool(np.max(np.abs(np.linalg.eigvals(A))) > 1.), A.dtype.kind)
    ctx.note(kind=kind, nx=nx, nu=nu, rho_closed_loop=float(rho))


def semidefinite(rng, ctx):
    """Q only semidefinite but observable through the dynamics: the documented assumption."""
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, kind = pair(rng)
    nx, nu = B.shape
    if margin(A, B) < 5e-2:
        raise Skip('poorly controllable')
    L = rng.standard_normal((1, nx))
    O = np.vstack([L.dot(np.linalg.matrix_power(A, i)) for i in range(nx)])
    sv = np.linalg.svd(O)[1]
    if sv[-1] < 5e-2*sv[0]:
        raise Skip('poorly observable')
    Q, R = L.T.dot(L), gens.spd(rng, nu, 1e1)
    W = value_iteration(np.asarray(A, dtype=float), np.asarray(B, dtype=float), Q, R)
    if W is None or np.max(np.abs(W)) > 1e4:
        raise Skip('ill conditioned')
    S = ctx.call(LinearSystem, A, B)
    P, K = ctx.call(S.solve_dare, Q, R)
    ctx.close(P, W, 1e-5*(1. + np.max(np.abs(W))), 'P is not the limit of the value iteration', A=A, B=B, Q=Q, R=R)
    F = A + B.dot(K)
    ctx.require(np.max(np.abs(np.linalg.eigvals(F))) < 1., 'the gain does not stabilise the system', A=A, B=B, Q=Q, R=R)
    K0 = -np.linalg.solve(R + B.T.dot(W).dot(B), B.T.dot(W).dot(A))
    ctx.close(K, K0, 1e-4*(1. + np.max(np.abs(K0))), 'the gain is not the optimal one', A=A, B=B, Q=Q, R=R)
    ctx.ev('riccati equations confirmed')
    ctx.sig('semidefinite', kind, nx, nu)


def uncontrollable(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    r = int(rng.integers(0, nx))
    # A = [[A11, A12], [0, A22]], B = [B1; 0]
    A = rng.integers(-2, 3, (nx, nx)).astype(float)
    A[r:, :r] = 0.
    B = rng.integers(-2, 3, (nx, nu)).astype(float)
    B[r:] = 0.
    T, Ti = gens.unimodular(rng, nx)
    A, B = T.dot(A).dot(Ti), T.dot(B)
    R = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
    if np.max(np.abs(R)) > 1e4:
        raise Skip('large integers')
    if rng.random() < .3:
        A, B = A.astype(int), B.astype(int)
    S = ctx.call(LinearSystem, A, B)
    first = rng.random() < .5
    if first:
        ctx.require(not S.controllable, 'an uncontrollable system is reported to be controllable', A=A, B=B)
        ctx.require(not S.controllable, 'an uncontrollable system is reported to be controllable at the second request', A=A, B=B)
    ctx.rejects(ValueError, S.solve_dare, np.eye(nx), np.eye(nu))
    ctx.require(not S.controllable, 'an uncontrollable system is reported to be controllable', A=A, B=B)
    ctx.ev('uncontrollable refused')
    ctx.sig('uncontrollable', nx, nu, r, first)


def reachable(rng, ctx):
    """Controllable verdicts confirmed by steering: the real simulation reaches a random state from the origin."""
    from pympc.dynamics.discrete_time_systems import LinearSystem
    A, B, kind = pair(rng)
    nx, nu = B.shape
    m = margin(A, B)
    S = ctx.call(LinearSystem, A, B)
    if m > 1e-3:
        ctx.require(bool(ctx.call(lambda: S.controllable)), 'a controllable system is reported not to be', A=A, B=B)
        if rng.random() < .5:
            ctx.require(bool(S.controllable), 'the second request differs', A=A, B=B)
        R = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])
        target = rng.standard_normal(nx)
        v = np.linalg.lstsq(R, target, rcond=None)[0].reshape(nx, nu)
        x = ctx.call(S.simulate, np.zeros(nx), [v[nx-1-t] for t in range(nx)])
        ctx.close(x[-1], target, 1e-5*(1. + np.max(np.abs(v))), 'steering the controllable system does not reach the target', A=A, B=B)
        ctx.ev('controllable verdicts')
        ctx.sig('reachable', kind, nx, nu)
    elif np.issubdtype(A.dtype, np.integer) or kind == 'int':
        # exact verdict over the rationals
        import sympy
        if not np.all(np.asarray(B) == np.round(B)) or nx > 4:
            raise Skip('not exact')
        M = sympy.Matrix([[int(v) for v in row] for row in np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(nx)])])
        if M.rank() == nx:
            raise Skip('poorly controllable')
        ctx.require(not S.controllable, 'an uncontrollable system is reported to be controllable', A=A, B=B)
        ctx.ev('uncontrollable verdicts')
        ctx.sig('unreachable', nx, nu)
    else:
        raise Skip('poorly controllable')


SCENARIOS = [('riccati', 6, riccati), ('semidefinite', 1, semidefinite), ('uncontrollable', 1.5, uncontrollable), ('reachable', 2, reachable)]
