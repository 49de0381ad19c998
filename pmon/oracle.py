"""
Reference computations, independent of pympc: HiGHS for linear programs, optimality and infeasibility
certificates for quadratic programs, brute force for vertices and mode sequences.

Nothing here imports pympc.
"""
import itertools
import os

import numpy as np
from scipy.linalg import block_diag
from scipy.optimize import linprog, nnls

from pmon.core import Skip, Violation


def _rows(A, b, n):
    if A is None:
        return np.zeros((0, n)), np.zeros(0)
    return np.asarray(A, dtype=float), np.asarray(b, dtype=float).reshape(-1)


def lp(f, A, b, C=None, d=None):
    """min f'x s.t. A x <= b, C x = d.  Returns (status, value, x), status in 'optimal', 'infeasible', 'unbounded', 'unknown'."""
    f = np.asarray(f, dtype=float)
    n = f.size
    A, b = _rows(A, b, n)
    C, d = _rows(C, d, n)
    r = linprog(f, A if A.shape[0] else None, b if A.shape[0] else None,
                C if C.shape[0] else None, d if C.shape[0] else None, bounds=(None, None), method='highs', options={'time_limit': 5.})
    status = {0: 'optimal', 2: 'infeasible', 3: 'unbounded'}.get(r.status, 'unknown')
    if status == 'optimal':
        return status, float(r.fun), r.x
    return status, None, None


def normalize(A, b):
    A = np.array(A, dtype=float)
    b = np.array(b, dtype=float)
    r = np.linalg.norm(A, axis=1)
    r = np.where(r > 1e-12, r, 1.)
    return A / r[:, None], b / r


def depth(A, b, C=None, d=None, cap=1.):
    """
    max t <= cap s.t. (A_i/|A_i|) x + t <= b_i/|A_i|, C x = d: the (capped) Chebyshev depth.
    Negative: infeasible by that margin.  None: the equalities alone are inconsistent.  Returns (t, x).
    """
    A = np.asarray(A, dtype=float)
    n = A.shape[1]
    An, bn = normalize(A, b)
    F = np.vstack((np.hstack((An, np.ones((An.shape[0], 1)))), np.hstack((np.zeros((1, n)), np.ones((1, 1))))))
    g = np.concatenate((bn, [cap]))
    CC = dd = None
    if C is not None and np.shape(C)[0] > 0:
        Cn, dn = normalize(C, d)
        CC = np.hstack((Cn, np.zeros((Cn.shape[0], 1))))
        dd = dn
    f = np.zeros(n+1)
    f[-1] = -1.
    status, val, x = lp(f, F, g, CC, dd)
    if status == 'infeasible':
        return None, None
    if status != 'optimal':
        raise Skip('depth oracle: ' + status)
    return -val, x[:-1]


def depth_raw(A, b, cap=1.):
    """Like depth, for rows that are part of longer, already normalised ones (some possibly zero): no scaling."""
    n = A.shape[1]
    F = np.vstack((np.hstack((A, np.ones((A.shape[0], 1)))), np.hstack((np.zeros((1, n)), np.ones((1, 1))))))
    f = np.zeros(n+1)
    f[-1] = -1.
    status, val, x = lp(f, F, np.concatenate((b, [cap])))
    if status != 'optimal':
        raise Skip('depth oracle: ' + status)
    return -val, x[:-1]


def support(a, A, b, C=None, d=None):
    """max a'x over the polyhedron; None if unbounded; Skip if infeasible or unknown."""
    status, val, x = lp(-np.asarray(a, dtype=float), A, b, C, d)
    if status == 'unbounded':
        return None
    if status != 'optimal':
        raise Skip('support oracle: ' + status)
    return -val


def feasible(A, b, C=None, d=None, margin=1e-6):
    """True / False when clear by the margin, None when within it."""
    t, _ = depth(A, b, C, d)
    if t is None:
        return False
    if t > margin:
        return True
    if t < -margin:
        return False
    # flat or on the edge: ask HiGHS directly, believe it only if the equalities are not what decides
    return None


# --- certificates ----------------------------------------------------------------------------------------------

def kkt_residual(H, f, A, b, C, d, x, lam, mu):
    """
    Residuals of the optimality conditions of min 1/2 x'Hx + f'x s.t. A x <= b, C x = d (H None for an LP):
    (primal inequality, primal equality, dual sign, stationarity, duality gap), each relative to the scale of its terms.
    Together they are a certificate: small residuals prove that x is feasible and optimal.
    """
    x = np.asarray(x, dtype=float)
    lam = np.asarray(lam, dtype=float)
    n = x.size
    C, d = _rows(C, d, n)
    mu = np.zeros(0) if mu is None else np.asarray(mu, dtype=float)
    grad = np.asarray(f, dtype=float) + (0. if H is None else H.dot(x))
    st = grad + A.T.dot(lam) + C.T.dot(mu)
    scale_x = 1. + (np.max(np.abs(x)) if n else 0.)
    scale_l = 1. + max(np.max(np.abs(lam)) if lam.size else 0., np.max(np.abs(mu)) if mu.size else 0.)
    r = A.dot(x) - b
    row = 1. + np.abs(A).dot(np.abs(x)) + np.abs(b)
    primal = float(np.max(np.maximum(r, 0.) / row)) if r.size else 0.
    eq = C.dot(x) - d
    primal_eq = float(np.max(np.abs(eq) / (1. + np.abs(C).dot(np.abs(x)) + np.abs(d)))) if eq.size else 0.
    sign = float(np.max(np.maximum(-lam, 0.)) / scale_l) if lam.size else 0.
    g_scale = 1. + np.abs(np.asarray(f, dtype=float)) + (0. if H is None else np.abs(H).dot(np.abs(x))) + np.abs(A).T.dot(np.abs(lam)) + np.abs(C).T.dot(np.abs(mu))
    stat = float(np.max(np.abs(st) / g_scale)) if n else 0.
    gap = float(np.abs(lam.dot(r))) / (1. + np.abs(lam).dot(np.abs(A).dot(np.abs(x)) + np.abs(b))) if lam.size else 0.
    return np.array([primal, primal_eq, sign, stat, gap])


def qp(H, f, A, b, C=None, d=None, tol=1e-7):
    """
    Strictly convex QP.  Returns (value, x) with a verified optimality certificate, or (None, None) with a verified
    infeasibility; raises Skip when neither can be certified.
    """
    H = np.asarray(H, dtype=float)
    f = np.asarray(f, dtype=float)
    n = f.size
    A, b = _rows(A, b, n)
    C, d = _rows(C, d, n)
    val = lambda x: float(.5*x.dot(H).dot(x) + f.dot(x))
    for propose in (_qp_active_set, _qp_gurobi):
        try:
            out = propose(H, f, A, b, C, d)
        except (np.linalg.LinAlgError, RuntimeError, ValueError, ZeroDivisionError):
            out = None
        if out is None:
            continue
        x, lam, mu = out
        if np.all(np.isfinite(x)) and np.max(kkt_residual(H, f, A, b, C, d, x, lam, mu)) < tol:
            return val(x), x
    if A.shape[0] + C.shape[0] > 0:
        if feasible(A, b, C, d) is False:
            return None, None
    raise Skip('qp oracle: no certificate')


def _qp_active_set(H, f, A, b, C, d):
    """Proposal: dual problem by nonnegative least squares (equalities by elimination), then polishing on the active set."""
    n = f.size
    if C.shape[0] > 0:
        U, s, Vt = np.linalg.svd(C)
        rank = int(np.sum(s > 1e-10*max(1., s[0])))
        x0 = np.linalg.lstsq(C, d, rcond=None)[0]
        Z = Vt[rank:].T
        if Z.shape[1] == 0:
            x = x0
            lam = np.zeros(A.shape[0])
            G = np.vstack((A[np.abs(A.dot(x)-b) < 1e-9], C)) if A.shape[0] else C
            mu = np.linalg.lstsq(C.T, -(H.dot(x)+f), rcond=None)[0]
            return x, lam, mu
    else:
        x0 = np.zeros(n)
        Z = np.eye(n)
    Hz = Z.T.dot(H).dot(Z)
    fz = Z.T.dot(f + H.dot(x0))
    Az = A.dot(Z)
    bz = b - A.dot(x0)
    if A.shape[0] == 0:
        active = []
    else:
        L = np.linalg.cholesky(Hz)
        # min 1/2|v|^2 s.t. M v <= m, with v = L'z + L^-1 fz
        M = np.linalg.solve(L, Az.T).T
        m = bz + Az.dot(np.linalg.solve(Hz, fz))
        sc = max(1., np.max(np.abs(m)))
        E = np.vstack((-M.T, -m[None, :]/sc))
        e = np.zeros(Z.shape[1]+1)
        e[-1] = 1.
        y, r = nnls(E, e, maxiter=50*max(E.shape))
        active = list(np.where(y > 1e-12*max(1., np.max(y)))[0])
    # polish
    for _ in range(3):
        G = Az[active]
        K = np.block([[Hz, G.T], [G, np.zeros((len(active), len(active)))]]) if active else Hz
        rhs = np.concatenate((-fz, bz[active])) if active else -fz
        sol = np.linalg.lstsq(K, rhs, rcond=None)[0]
        z, la = sol[:Z.shape[1]], sol[Z.shape[1]:]
        drop = [i for i, l in zip(active, la) if l < -1e-9]
        if not drop:
            break
        active = [i for i in active if i not in drop]
    lam = np.zeros(A.shape[0])
    lam[active] = np.maximum(la, 0.)
    x = x0 + Z.dot(z)
    mu = np.zeros(0)
    if C.shape[0]:
        mu = np.linalg.lstsq(C.T, -(H.dot(x) + f + A.T.dot(lam)), rcond=None)[0]
    return x, lam, mu


_ENV = {}


def _qp_gurobi(H, f, A, b, C, d):
    import gurobipy as grb
    pid = os.getpid()
    if pid not in _ENV:
        env = grb.Env(empty=True)
        env.setParam('OutputFlag', 0)
        env.start()
        _ENV[pid] = env
    m = grb.Model(env=_ENV[pid])
    m.setParam('BarConvTol', 1e-12)
    m.setParam('FeasibilityTol', 1e-9)
    m.setParam('OptimalityTol', 1e-9)
    m.setParam('Threads', 1)
    x = m.addMVar(f.size, lb=-grb.GRB.INFINITY)
    ci = m.addMConstr(A, x, '<', b) if A.shape[0] else None
    ce = m.addMConstr(C, x, '=', d) if C.shape[0] else None
    m.setMObjective(.5*H, f, 0.)
    m.optimize()
    if m.Status != grb.GRB.OPTIMAL:
        return None
    lam = -np.array([c.Pi for c in ci.tolist()]) if ci is not None else np.zeros(0)
    mu = -np.array([c.Pi for c in ce.tolist()]) if ce is not None else np.zeros(0)
    xs = np.array(x.X)
    # polish on the active set
    act = np.where((lam > 1e-6) & (b - A.dot(xs) < 1e-5))[0] if A.shape[0] else np.array([], dtype=int)
    G = np.vstack((A[act], C))
    g = np.concatenate((b[act], d))
    n = f.size
    K = np.block([[H, G.T], [G, np.zeros((G.shape[0], G.shape[0]))]])
    sol = np.linalg.lstsq(K, np.concatenate((-f, g)), rcond=None)[0]
    lam2 = np.zeros(A.shape[0])
    lam2[act] = np.maximum(sol[n:n+len(act)], 0.)
    if np.max(kkt_residual(H, f, A, b, C, d, sol[:n], lam2, sol[n+len(act):])) < 1e-7:
        return sol[:n], lam2, sol[n+len(act):]
    return xs, np.maximum(lam, 0.), mu


# --- geometry --------------------------------------------------------------------------------------------------

def vertices(A, b, C=None, d=None, tol=1e-8):
    """
    Brute-force vertex enumeration.  Returns (V, clean): clean is False when the geometry is too close to degenerate
    for the comparison to be decisive.
    """
    n = A.shape[1]
    A, b = normalize(A, b)
    keep = np.linalg.norm(A, axis=1) > 1e-9
    A, b = A[keep], b[keep]
    if C is not None and np.shape(C)[0]:
        C, d = normalize(C, d)
    else:
        C, d = np.zeros((0, n)), np.zeros(0)
    k = n - C.shape[0]
    V = []
    clean = True
    idx = np.array(list(itertools.combinations(range(A.shape[0]), k)), dtype=int).reshape(-1, k)
    if idx.shape[0] == 0:
        return np.zeros((0, n)), clean
    M = np.concatenate((A[idx], np.repeat(C[None], idx.shape[0], 0)), axis=1)
    r = np.concatenate((b[idx], np.repeat(d[None], idx.shape[0], 0)), axis=1)
    dets = np.abs(np.linalg.det(M))
    ok = dets > 1e-9
    if np.any(ok):
        X = np.linalg.solve(M[ok], r[ok][:, :, None])[:, :, 0]
        res = np.max(A.dot(X.T) - b[:, None], axis=0)
        inside = res <= tol*(1. + np.max(np.abs(X), axis=1))
        border = (~inside) & (res <= 1e-5)
        if np.any(border) or np.any(inside & (dets[ok] < 1e-5)):
            clean = False
        V = X[inside]
    V = np.asarray(V).reshape(-1, n)
    out = []
    for v in V:
        if not any(np.max(np.abs(v-w)) < 1e-7*(1.+np.max(np.abs(v))) for w in out):
            out.append(v)
    out = np.array(out).reshape(-1, n)
    # distinct but very close vertices: not decisive either
    for i in range(len(out)):
        for j in range(i):
            if np.max(np.abs(out[i]-out[j])) < 1e-4:
                clean = False
    return out, clean


def hausdorff(V, W):
    V = np.asarray(V, dtype=float)
    W = np.asarray(W, dtype=float)
    if len(V) == 0 or len(W) == 0:
        return 0. if len(V) == len(W) else np.inf
    D = np.max(np.abs(V[:, None, :] - W[None, :, :]), axis=2)
    return float(max(D.min(0).max(), D.min(1).max()))


def included(A1, b1, C1, d1, A2, b2, C2, d2):
    """Largest violation of the constraints of P2 (rows normalised) over P1; inf when unbounded."""
    worst = -np.inf
    A2, b2 = normalize(A2, b2) if np.shape(A2)[0] else (np.zeros((0, A1.shape[1])), np.zeros(0))
    rows = [(a, r) for a, r in zip(A2, b2)]
    if C2 is not None and np.shape(C2)[0]:
        C2, d2 = normalize(C2, d2)
        rows += [(c, r) for c, r in zip(C2, d2)] + [(-c, -r) for c, r in zip(C2, d2)]
    for a, r in rows:
        s = support(a, A1, b1, C1, d1)
        if s is None:
            return np.inf
        worst = max(worst, s - r)
    return worst


def redundant_margin(A, b, i, C=None, d=None):
    """max A_i x - b_i (row normalised) over the other inequalities: < 0 strictly redundant, > 0 irredundant."""
    A, b = normalize(A, b)
    keep = [j for j in range(A.shape[0]) if j != i]
    s = lp(-A[i], A[keep] if keep else None, b[keep] if keep else None, C, d)
    if s[0] == 'unbounded':
        return np.inf
    if s[0] != 'optimal':
        raise Skip('redundancy oracle: ' + s[0])
    return -s[1] - b[i]


# --- optimal control -------------------------------------------------------------------------------------------

def response(modes, As, Bs, cs):
    """
    Affine maps of the trajectory x_bar = (x(0), ..., x(N)) in x(0) and u_bar, built by forward recursion.
    """
    nx = As[0].shape[0]
    nu = Bs[0].shape[1]
    N = len(modes)
    X = [np.eye(nx)]
    U = [np.zeros((nx, nu*N))]
    c = [np.zeros(nx)]
    for t, m in enumerate(modes):
        X.append(As[m].dot(X[-1]))
        u = As[m].dot(U[-1])
        u[:, nu*t:nu*(t+1)] += Bs[m]
        U.append(u)
        c.append(As[m].dot(c[-1]) + cs[m])
    return X, U, c


def ocp(x0, modes, As, Bs, cs, Q, R, P, domains, X_N):
    """
    The optimal control problem for a fixed mode sequence, as a QP in u_bar: (H, f, g, A, b, C, d).
    domains: list of (A, b, C, d) over (x, u); X_N: (A, b, C, d) over x.
    """
    X, U, c = response(modes, As, Bs, cs)
    N = len(modes)
    nu = Bs[0].shape[1]
    nx = As[0].shape[0]
    H = np.zeros((nu*N, nu*N))
    f = np.zeros(nu*N)
    g = 0.
    Ai, bi, Ce, de = [], [], [], []
    for t in range(N):
        s = X[t].dot(x0) + c[t]
        E = np.zeros((nu, nu*N))
        E[:, nu*t:nu*(t+1)] = np.eye(nu)
        H += U[t].T.dot(Q).dot(U[t]) + E.T.dot(R).dot(E)
        f += U[t].T.dot(Q).dot(s)
        g += .5*s.dot(Q).dot(s)
        A, b, C, d = domains[modes[t]]
        Ai.append(A[:, :nx].dot(U[t]) + A[:, nx:].dot(E))
        bi.append(b - A[:, :nx].dot(s))
        if C is not None and C.shape[0]:
            Ce.append(C[:, :nx].dot(U[t]) + C[:, nx:].dot(E))
            de.append(d - C[:, :nx].dot(s))
    s = X[N].dot(x0) + c[N]
    H += U[N].T.dot(P).dot(U[N])
    f += U[N].T.dot(P).dot(s)
    g += .5*s.dot(P).dot(s)
    A, b, C, d = X_N
    Ai.append(A.dot(U[N]))
    bi.append(b - A.dot(s))
    if C is not None and C.shape[0]:
        Ce.append(C.dot(U[N]))
        de.append(d - C.dot(s))
    A = np.vstack(Ai)
    b = np.concatenate(bi)
    C = np.vstack(Ce) if Ce else None
    d = np.concatenate(de) if Ce else None
    return H, f, g, A, b, C, d


def poly(p):
    return (np.asarray(p.A, dtype=float), np.asarray(p.b, dtype=float), np.asarray(p.C, dtype=float), np.asarray(p.d, dtype=float))
