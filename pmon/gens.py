"""
Workload generators: raw data only (numpy), no pympc.
"""
import numpy as np
from scipy.linalg import null_space

from pmon.core import Skip
from pmon import oracle


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def row_scales(rng, m, lo=-2., hi=2.):
    return 10.**rng.uniform(lo, hi, m)


def scaled(rng, A, b, lo=-2., hi=2.):
    s = row_scales(rng, A.shape[0], lo, hi)
    return A*s[:, None], b*s


def permuted(rng, A, b):
    p = rng.permutation(A.shape[0])
    return A[p], b[p]


def orthogonal(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q*np.sign(np.diag(r))


def unimodular(rng, n, steps=3):
    """Integer matrix with integer inverse, and the inverse."""
    T = np.eye(n)
    Ti = np.eye(n)
    for _ in range(steps):
        if n == 1:
            break
        i, j = rng.choice(n, 2, replace=False)
        k = int(rng.integers(-2, 3))
        E = np.eye(n)
        E[i, j] = k
        Ei = np.eye(n)
        Ei[i, j] = -k
        T = E.dot(T)
        Ti = Ti.dot(Ei)
    p = rng.permutation(n)
    return T[p], Ti[:, p]


def spd(rng, n, cond=1e2, scale=1.):
    q = orthogonal(rng, n)
    e = 10.**(rng.uniform(-.5, .5, n)*np.log10(cond))
    H = (q*e).dot(q.T)*scale
    return .5*(H + H.T)


def sparse_spd(rng, n, scale=1.):
    """Positive definite, with few elements out of the diagonal (tridiagonal, one coupled pair, one row, blocks)."""
    kind = choice(rng, ['diagonal', 'pair', 'pair', 'tridiagonal', 'arrow', 'blocks'])
    M = np.zeros((n, n))
    if kind == 'pair' and n > 1:
        i, j = rng.choice(n, 2, replace=False)
        M[i, j] = rng.uniform(.3, 2.)*rng.choice([-1., 1.])
    elif kind == 'tridiagonal':
        M += np.diag(rng.standard_normal(n-1), 1)
    elif kind == 'arrow':
        M[int(rng.integers(n))] = rng.standard_normal(n)
    elif kind == 'blocks':
        k = int(rng.integers(0, n+1))
        M[:k, :k] = rng.standard_normal((k, k))
        M[k:, k:] = rng.standard_normal((n-k, n-k))
    M = M + M.T
    M[np.arange(n), np.arange(n)] = 0.
    M += np.diag(np.abs(M).sum(1) + rng.uniform(.2, 2., n))
    return M*scale


def mixed(rng, *arrays):
    """Arrays of integer values stored as integers, each one or not."""
    out = []
    for a in arrays:
        if a is not None and a.size and rng.random() < .6 and np.max(np.abs(a)) < 1e6 and np.array_equal(a, np.round(a)):
            a = a.astype(int)
        out.append(a)
    return out


def psd(rng, n, rank, scale=1.):
    L = rng.standard_normal((n, rank))
    H = L.dot(L.T)*scale
    return .5*(H + H.T)


def polytope(rng, n, extra=None, kind=None, center=None, spread=1.):
    """
    Bounded, full-dimensional {A x <= b}.  Returns A, b, x0 with x0 interior (distance at least .05*spread from each facet).
    """
    kind = kind or choice(rng, ['box', 'gauss', 'gauss', 'simplex', 'integer', 'cross', 'corner'])
    x0 = (rng.standard_normal(n)*choice(rng, [0., 1., 3.]) if center is None else np.asarray(center, dtype=float))
    if extra is None:
        extra = int(rng.integers(0, 6))
    if kind == 'box':
        A = np.vstack((np.eye(n), -np.eye(n)))
        b = np.concatenate((x0 + rng.uniform(.2, 2., n)*spread, -x0 + rng.uniform(.2, 2., n)*spread))
    elif kind == 'gauss':
        q = orthogonal(rng, n) if rng.random() < .5 else np.eye(n)
        A = np.vstack((q, -q, rng.standard_normal((extra, n))))
        b = A.dot(x0) + rng.uniform(.2, 2., A.shape[0])*spread*np.linalg.norm(A, axis=1)
    elif kind == 'simplex':
        q = rng.standard_normal((n, n)) + 2.*np.eye(n)
        A = np.vstack((q, -rng.uniform(.3, 1., n).dot(q)[None, :], rng.standard_normal((extra, n))))
        b = A.dot(x0) + rng.uniform(.2, 2., A.shape[0])*spread*np.linalg.norm(A, axis=1)
    elif kind == 'integer':
        # many constraints through common points
        A = np.vstack((np.eye(n), -np.eye(n), rng.integers(-2, 3, (extra, n)).astype(float)))
        A = A[np.any(A != 0., axis=1)]
        x0 = np.round(x0)
        b = A.dot(x0) + rng.integers(1, 4, A.shape[0])*spread
    elif kind == 'cross':
        # cross polytope: n facets per vertex and more
        import itertools
        A = np.array(list(itertools.product([-1., 1.], repeat=n)))
        b = A.dot(x0) + choice(rng, [.5, 1., 2.])*spread
    elif kind == 'corner':
        # cube with cuts through its corners
        A = np.vstack((np.eye(n), -np.eye(n)))
        b = np.concatenate((x0 + spread, -x0 + spread))
        for _ in range(extra):
            s = rng.choice([-1., 1.], n)
            w = rng.uniform(.5, 1.5, n)*s
            A = np.vstack((A, w))
            b = np.append(b, w.dot(x0 + spread*s))
    return A, b, x0


def redundancy(rng, A, b, x0, count=None):
    """Adds duplicated, scaled, implied (strictly or weakly) rows, then permutes.  Same set."""
    count = int(rng.integers(1, 5)) if count is None else count
    for _ in range(count):
        k = choice(rng, ['dup', 'scaled', 'loose', 'sum'])
        i = int(rng.integers(A.shape[0]))
        if k == 'dup':
            a, r = A[i], b[i]
        elif k == 'scaled':
            # a power of two: exactly parallel (rows parallel up to rounding can break scipy's nnls)
            s = 2.**int(rng.integers(-3, 4))
            a, r = A[i]*s, b[i]*s
        elif k == 'loose':
            a, r = A[i], b[i] + rng.uniform(.1, 2.)*np.linalg.norm(A[i])
        else:
            j = int(rng.integers(A.shape[0]))
            w = rng.uniform(.2, 2., 2)
            a, r = w[0]*A[i] + w[1]*A[j], w[0]*b[i] + w[1]*b[j]
            if np.linalg.norm(a) < .1 or i == j:
                a, r = A[i], b[i] + 1.
        A = np.vstack((A, a))
        b = np.append(b, r)
    return permuted(rng, A, b)


def equalities(rng, n, k, x0, kind=None):
    """k independent equalities through x0."""
    kind = kind or choice(rng, ['gauss', 'coord', 'scaled'])
    if kind == 'coord':
        C = np.eye(n)[rng.permutation(n)[:k]]
    else:
        C = orthogonal(rng, n)[:k]
        if kind == 'gauss':
            C = (orthogonal(rng, k)*rng.uniform(.5, 2., k)).dot(C) if k else C
        else:
            C = C*row_scales(rng, k, -1.5, 1.5)[:, None]
    return C, C.dot(x0)


def cone(rng, n, m, ray):
    """Rows A with A ray <= 0 (some of them zero)."""
    A = rng.standard_normal((m, n))
    s = A.dot(ray)
    A[s > 0] *= -1.
    for i in range(m):
        if rng.random() < .3:
            A[i] -= A[i].dot(ray)/ray.dot(ray)*ray
    return A


def unbounded(rng, n, m=None):
    """Non-empty unbounded {A x <= b}: returns A, b, x0 (interior), ray."""
    ray = rng.standard_normal(n)
    if rng.random() < .4:
        ray = np.round(ray)
        if not np.any(ray):
            ray[int(rng.integers(n))] = 1.
    m = int(rng.integers(0, 2*n+3)) if m is None else m
    A = cone(rng, n, m, ray)
    A[np.abs(A) < 1e-9] = 0.
    x0 = rng.standard_normal(n)
    b = A.dot(x0) + rng.uniform(.2, 2., m)*np.linalg.norm(A, axis=1)
    return A, b, x0, ray


def infeasible(rng, n, equality=False):
    """Empty {A x <= b (, C x = d)}: infeasible by a clear margin, through a combination of k rows."""
    k = int(rng.integers(1, n+1))
    a = rng.standard_normal((k, n))
    w = rng.uniform(.5, 2., k)
    last = -w.dot(a)
    while np.linalg.norm(last) < .2:
        w = rng.uniform(.5, 2., k)
        a = rng.standard_normal((k, n))
        last = -w.dot(a)
    x0 = rng.standard_normal(n)
    r = a.dot(x0)
    gap = choice(rng, [.05, .5, 3.])
    A = np.vstack((a, last[None, :]))
    b = np.append(r, last.dot(x0) - gap)
    m = int(rng.integers(0, 5))
    B = rng.standard_normal((m, n))
    A = np.vstack((A, B))
    b = np.concatenate((b, B.dot(x0) + rng.uniform(.2, 2., m)))
    A, b = permuted(rng, A, b)
    if not equality:
        return A, b, None, None
    # turn some of the first rows into equalities
    e = int(rng.integers(A.shape[0]))
    C, d = A[e:e+1], b[e:e+1]
    keep = [i for i in range(A.shape[0]) if i != e]
    # an equality may have made things worse, never better
    return A[keep], b[keep], C, d


def system(rng, nx, nu, rho=None, kind=None):
    """Discrete-time (A, B); spectral radius rho if given."""
    kind = kind or choice(rng, ['gauss', 'orth', 'shift', 'int'])
    if kind == 'gauss':
        A = rng.standard_normal((nx, nx))
    elif kind == 'orth':
        A = orthogonal(rng, nx)
    elif kind == 'shift':
        A = np.eye(nx) + np.diag(rng.uniform(.1, .5, nx-1), 1) if nx > 1 else np.eye(1)
    else:
        A = rng.integers(-2, 3, (nx, nx)).astype(float)
    if rho is not None:
        r = np.max(np.abs(np.linalg.eigvals(A)))
        A = A*(rho/r) if r > 2e-2 else A
    B = rng.standard_normal((nx, nu))
    return A, B


def subspace_depth(A, b, C, d):
    """Chebyshev depth within the subspace of the equalities: (radius, x) with radius inf if unbounded."""
    n = A.shape[1]
    if C is None or C.shape[0] == 0:
        N = np.eye(n)
        x0 = np.zeros(n)
    else:
        N = null_space(C)
        x0 = np.linalg.lstsq(C, d, rcond=None)[0]
    E = A.dot(N)
    f = b - A.dot(x0)
    r = np.linalg.norm(E, axis=1)
    F = np.hstack((E, r[:, None]))
    c = np.zeros(F.shape[1])
    c[-1] = -1.
    status, val, z = oracle.lp(c, F, f)
    if status == 'unbounded':
        return np.inf, None
    if status != 'optimal':
        raise Skip('subspace depth: ' + status)
    return -val, x0 + N.dot(z[:-1])
