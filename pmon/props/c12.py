"""C12: linear-algebra helpers."""
import numpy as np

from pmon import gens
from pmon.core import Skip

ID = 'C12'
RULE = ('matrices of known rank (zero, full, deficient, integer, tall, wide, empty, with repeated and scaled rows), point sets in general position (through the origin, far '
        'from it, integer), row multisets (permuted, scaled, perturbed, with multiplicities exchanged); every helper compared with its defining equations; distinct by '
        'helper, shape, rank and construction.')
QUICK = 40000
THOROUGH = 300000
FLOORS = {'nullspaces confirmed': 2000, 'row selections confirmed': 2000, 'planes confirmed': 2000, 'same rows confirmed': 1500, 'different rows confirmed': 1500}
CPU_LIMIT = 30.


def ranked(rng):
    """A matrix and its rank, known by construction and numerically clear."""
    top = 7 if rng.random() < .85 else 15
    m, n = int(rng.integers(1, top)), int(rng.integers(1, top))
    kind = gens.choice(rng, ['product', 'integer', 'zero', 'full', 'repeated', 'shuffled'])
    if kind == 'zero':
        return np.zeros((m, n)), 0, kind
    r = int(rng.integers(0, min(m, n)+1)) if kind != 'full' else min(m, n)
    if kind in ('product', 'full'):
        U, V = gens.orthogonal(rng, m)[:, :r], gens.orthogonal(rng, n)[:r]
        A = (U*10.**rng.uniform(-1.5, 1.5, r)).dot(V)
        A[np.abs(A) < 1e-15] = 0.
    elif kind == 'integer':
        A = rng.integers(-2, 3, (m, r)).dot(rng.integers(-2, 3, (r, n))).astype(float)
        r = exact_rank(A)
    elif kind == 'repeated':
        r = max(r, 1)
        B = gens.orthogonal(rng, n)[:r]
        A = np.vstack((B, B[rng.integers(0, r, m-r)]*2.**rng.integers(-2, 3, m-r)[:, None])) if m > r else B
        A = A[rng.permutation(A.shape[0])]
    else:
        # zero rows before, between and after
        B = gens.orthogonal(rng, n)[:r]
        A = np.zeros((m, n))
        A[np.sort(rng.permutation(m)[:r])] = B
    return A, r, kind


def exact_rank(A):
    import sympy as sp
    return sp.Matrix(A.astype(int).tolist()).rank() if A.size else 0


def nullspace(rng, ctx):
    from pympc.geometry.utils import nullspace_basis
    A, r, kind = ranked(rng)
    if rng.random() < .05:
        A, r, kind = np.zeros((0, int(rng.integers(1, 5)))), 0, 'no rows'
    if kind == 'integer' and rng.random() < .5:
        A = A.astype(int)
    elif rng.random() < .4 and A.size:
        # units: the kernel does not depend on them
        A = A*10.**rng.uniform(-8., 6.)
        if rng.random() < .5 and r == A.shape[0]:
            A = A*10.**rng.uniform(-6., 0., A.shape[0])[:, None]
    Z = np.asarray(ctx.call(nullspace_basis, A))
    n = A.shape[1]
    data = dict(A=A, rank=r, kind=kind, Z=Z)
    ctx.require(Z.shape == (n, n-r), 'the nullspace basis has shape %s, the kernel has dimension %d in %d' % (Z.shape, n-r, n), **data)
    if n > r:
        ctx.require(A.shape[0] == 0 or np.max(np.abs(A.dot(Z))) <= 1e-9*np.max(np.abs(A))*max(1., np.max(np.abs(Z))), 'a column of the basis is not in the kernel', **data)
        s = np.linalg.svd(Z)[1]
        ctx.require(s[-1] > 1e-6*s[0], 'the columns of the basis are dependent', **data)
    ctx.ev('nullspaces confirmed')
    ctx.sig('nullspace', A.shape, r, kind)


def rows(rng, ctx):
    from pympc.geometry.utils import linearly_independent_rows
    A, r, kind = ranked(rng)
    if kind == 'product':
        # rows whose independent part is at the level of the tolerance are not judged
        s = np.linalg.svd(A)[1]
        if r and s[r-1] < 1e-1:
            raise Skip('ill conditioned')
    if rng.random() < .3:
        A = A*10.**rng.uniform(0., 3.)
    elif rng.random() < .3 and r == A.shape[0] and r > 0 and np.linalg.svd(A)[1][r-1] > .1:
        # rows of different units
        A = A*10.**rng.uniform(-3., 4., r)[:, None]
    idx = [int(i) for i in ctx.call(linearly_independent_rows, A)]
    data = dict(A=A, rank=r, kind=kind, rows=idx)
    ctx.require(len(set(idx)) == len(idx) and all(0 <= i < A.shape[0] for i in idx), 'not a selection of rows', **data)
    if idx:
        ctx.require(len(idx) <= A.shape[1] and np.linalg.svd(A[idx]/np.linalg.norm(A[idx], axis=1)[:, None])[1][-1] > 1e-8, 'the selected rows are dependent', **data)
    ctx.require(len(idx) == r, '%d rows selected, the rank is %d' % (len(idx), r), **data)
    ctx.ev('row selections confirmed')
    ctx.sig('rows', A.shape, r, kind)


def plane(rng, ctx):
    from pympc.geometry.utils import plane_through_points
    n = int(rng.integers(1, 7)) if rng.random() < .9 else int(rng.integers(7, 11))
    kind = gens.choice(rng, ['general', 'origin', 'integer', 'far', 'coordinate', 'negative'])
    a = rng.standard_normal(n)
    a /= np.linalg.norm(a)
    B = np.linalg.svd(a[None, :])[2][1:]
    d = 0. if kind == 'origin' else rng.uniform(.2, 3.)*(30. if kind == 'far' else 1.)*gens.choice(rng, [-1., 1.])
    if kind == 'coordinate':
        a = np.eye(n)[int(rng.integers(n))]*gens.choice(rng, [-1., 1.])
        B = np.linalg.svd(a[None, :])[2][1:]
    # simplex in the plane
    W = rng.standard_normal((n, n-1))
    if n > 1 and np.linalg.svd(W[1:] - W[0])[1][-1] < .2:
        raise Skip('points nearly in a lower-dimensional plane')
    P = d*a + W.dot(B)
    if kind == 'integer':
        P = rng.integers(-3, 4, (n, n)).astype(float)
        if n > 1 and np.linalg.svd(P[1:] - P[0])[1][-1] < .5:
            raise Skip('points in a lower-dimensional plane')
        a = np.linalg.svd(P[1:] - P[0])[2][-1] if n > 1 else np.ones(1)
        d = a.dot(P[0])
    if kind == 'origin' and n == 1:
        raise Skip('the origin is not a plane through a point at distance zero')
    pts = [p.copy() for p in P]
    got_a, got_d = ctx.call(plane_through_points, pts)
    got_a = np.asarray(got_a, dtype=float)
    got_d = float(np.squeeze(got_d))
    data = dict(kind=kind, points=P, a=got_a, d=got_d)
    scale = 1. + np.max(np.abs(P))
    ctx.require(got_a.shape == (n,), 'normal of shape %s' % (got_a.shape,), **data)
    ctx.require(abs(np.linalg.norm(got_a) - 1.) <= 1e-9, 'the normal has norm %r' % np.linalg.norm(got_a), **data)
    ctx.require(got_d >= -1e-9*scale, 'negative offset %r' % got_d, **data)
    e = np.max(np.abs(P.dot(got_a) - got_d))
    ctx.require(e <= 1e-6*scale, 'a point is at distance %g from the plane' % e, **data)
    ctx.ev('planes confirmed')
    ctx.sig('plane', n, kind)


def distinct_rows(rng, m, n):
    """Rows pairwise apart, also after normalisation."""
    for _ in range(20):
        A = rng.standard_normal((m, n)) if rng.random() < .6 else rng.integers(-3, 4, (m, n)).astype(float)
        k = np.linalg.norm(A, axis=1)
        if np.any(k < .2):
            continue
        B = A/k[:, None]
        D = np.max(np.abs(B[:, None]-B[None]), axis=2) + np.eye(m)
        if np.min(D) > 5e-2:
            return A
    raise Skip('no distinct rows')


def same(rng, ctx):
    from pympc.geometry.utils import same_rows, same_vectors
    m, n = int(rng.integers(1, 7)), int(rng.integers(2, 5))
    if rng.random() < .15:
        m, n = int(rng.integers(1, 20)), int(rng.integers(4, 9))
    A = distinct_rows(rng, m, n)
    if rng.random() < .3:
        A = A*10.**rng.uniform(-1., 4.)
    small = rng.random() < .15
    if small:
        A = A*10.**rng.uniform(-4.3, 0.)/np.max(np.abs(A))
    mult = rng.integers(1, 4, m) if rng.random() < .4 else np.ones(m, dtype=int)
    A1 = np.repeat(A, mult, 0)
    how = gens.choice(rng, ['permuted', 'scaled', 'negated', 'perturbed', 'multiplicity', 'missing', 'extra', 'other scale', 'noise'])
    A2 = A1[rng.permutation(A1.shape[0])]
    i = int(rng.integers(A2.shape[0]))
    if small and how in ('perturbed', 'other scale'):
        how = 'scaled'
    want = {'n': None, 'v': None}
    if how == 'permuted':
        want = {'n': True, 'v': True}
    elif how == 'noise':
        A2 = A2*(1. + 1e-10*rng.standard_normal(A2.shape))
        want = {'n': True, 'v': True}
    elif how == 'scaled':
        A2 = A2*rng.uniform(.3, 3., A2.shape[0])[:, None]
        A2[i] *= 3.5
        want = {'n': True, 'v': False}
    elif how == 'other scale':
        A2[i] = 1.01*A2[i]
        want = {'n': True, 'v': False}
    elif how == 'negated':
        A2[i] = -A2[i]
        if any(np.allclose(A2[i]/np.linalg.norm(A2[i]), a/np.linalg.norm(a), atol=1e-2) for a in A):
            raise Skip('symmetric')
        want = {'n': False, 'v': False}
    elif how == 'perturbed':
        v = rng.standard_normal(n)
        v -= v.dot(A2[i])/A2[i].dot(A2[i])*A2[i]
        if np.linalg.norm(v) < .1:
            raise Skip('parallel')
        A2[i] = A2[i] + gens.choice(rng, [1e-3, 1e-2, 1.])*v/np.linalg.norm(v)*np.linalg.norm(A2[i])
        want = {'n': False, 'v': False}
    elif how == 'multiplicity':
        # same length, same distinct rows, different multiplicities
        if m < 2:
            raise Skip('one row')
        j, k = rng.choice(m, 2, replace=False)
        m2 = mult + 1
        m1 = m2.copy()
        m1[j] += 1
        m2[k] += 1
        A1, A2 = np.repeat(A, m1, 0), np.repeat(A, m2, 0)
        A1, A2 = A1[rng.permutation(len(A1))], A2[rng.permutation(len(A2))]
        want = {'n': False, 'v': False}
    elif how == 'missing':
        if A2.shape[0] < 2:
            raise Skip('one row')
        A2 = np.delete(A2, i, 0)
        want = {'n': False, 'v': False}
    else:
        A2 = np.vstack((A2, A2[i]))
        want = {'n': False, 'v': False}
    if rng.random() < .5:
        A1, A2 = A2, A1
    data = dict(how=how, A1=A1, A2=A2)
    k1, k2 = A1.copy(), A2.copy()
    for key, fn in (('n', lambda: same_rows(A1, A2)), ('n', lambda: same_rows(A1, A2, True)), ('v', lambda: same_rows(A1, A2, False)),
                    ('v', lambda: same_rows(A1, A2, normalize=False)), ('v', lambda: same_vectors([a for a in A1], [a for a in A2]))):
        got = ctx.call(fn)
        ctx.require(bool(got) == want[key], 'rows reported to be %s' % ('the same' if got else 'different'), normalize=key == 'n', **data)
        ctx.ev('same rows confirmed' if want[key] else 'different rows confirmed')
    ctx.require(np.array_equal(A1, k1) and np.array_equal(A2, k2), 'the comparison altered its arguments', **data)
    ctx.sig('same', how, A1.shape, int(np.max(mult)))


SCENARIOS = [('nullspace', 1, nullspace), ('rows', 1, rows), ('plane', 1, plane), ('same', 1.2, same)]
