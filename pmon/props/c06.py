"""C06: Chebyshev radius and center."""
import numpy as np
from scipy.linalg import null_space

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C06'
RULE = ('polytopes, polytopes in subspaces, unbounded sets with and without a largest ball, infeasible sets, in scaled and redundant descriptions; radius '
        'and center asked in both orders and compared with HiGHS in the subspace of the equalities and with the geometric definition (distance of the center '
        'from every inequality, within the subspace); distinct by kind, shape, equalities, order and outcome.')
QUICK = 30000
THOROUGH = 150000
FLOORS = {'finite radius confirmed': 2500, 'no largest ball confirmed': 500, 'negative radius confirmed': 500, 'with equalities': 1500}
CPU_LIMIT = 60.
TOL = 1e-6


def subspace(A, C):
    return np.eye(A.shape[1]) if C is None or C.shape[0] == 0 else null_space(C)


def check(rng, ctx, A, b, C, d, kind):
    from pympc.geometry.polyhedron import Polyhedron
    n = A.shape[1]
    N = subspace(A, C)
    E = A.dot(N)
    norms = np.linalg.norm(E, axis=1)
    full = np.linalg.norm(A, axis=1)
    if np.any((norms < 1e-6*np.maximum(full, 1e-9)) & (full > 0.)):
        raise Skip('an inequality is constant over the subspace')
    r, _ = gens.subspace_depth(A, b, C, d)
    p = ctx.call(Polyhedron, A, b) if C is None else ctx.call(Polyhedron, A, b, C, d)
    order = gens.choice(rng, ['rc', 'cr', 'crr', 'rcc', 'ebrc', 'vcr'])
    data = dict(kind=kind, order=order, A=A, b=b, C=C, d=d, expected_radius=r)
    rad, cen = [], []
    for o in order:
        if o == 'r':
            rad.append(ctx.call(lambda: p.radius))
        elif o == 'c':
            cen.append(ctx.call(lambda: p.center))
        elif o == 'e':
            ctx.call(lambda: p.empty)
        elif o == 'b':
            ctx.call(lambda: p.bounded)
        elif o == 'v':
            ctx.call(p.contains, np.zeros(n))
    if C is not None and C.shape[0]:
        ctx.ev('with equalities')
    if np.isinf(r):
        for v in rad:
            ctx.require(v is None, 'balls of any size fit but the radius is %r' % (v,), **data)
        for v in cen:
            ctx.require(v is None, 'balls of any size fit but the center is %r' % (v,), **data)
        ctx.ev('no largest ball confirmed')
        ctx.sig(kind, order, A.shape, 0 if C is None else C.shape[0], 'inf')
        return
    scale = 1. + abs(r)
    for v in rad:
        ctx.require(v is not None, 'the largest ball has radius %g but none is reported' % r, **data)
        ctx.require(abs(float(v) - r) <= TOL*scale, 'radius %r instead of %r' % (v, r), **data)
    for c in cen:
        ctx.require(c is not None and np.shape(c) == (n,), 'center %r' % (c,), **data)
        s = 1. + np.max(np.abs(c))
        if C is not None and C.shape[0]:
            Cn, dn = oracle.normalize(C, d)
            e = np.max(np.abs(Cn.dot(c) - dn))
            ctx.require(e <= TOL*s, 'the center violates the equalities by %g' % e, center=c, **data)
        k = norms > 0.
        dist = (b[k] - A[k].dot(c))/norms[k]
        if dist.size:
            ctx.require(np.min(dist) >= r - TOL*(s + abs(r)), 'the center is at distance %g from an inequality, the radius is %g' % (np.min(dist), r), center=c, **data)
    if len(cen) == 2:
        ctx.close(cen[1], cen[0], 1e-9*(1.+np.max(np.abs(cen[0]))), 'the center changed between two queries', **data)
    ctx.ev('finite radius confirmed' if r >= 0. else 'negative radius confirmed')
    ctx.sig(kind, order, A.shape, 0 if C is None else C.shape[0], r > 0.)
    ctx.note(kind=kind, A=A, b=b, C=C, d=d, radius=rad[0] if rad else None, center=cen[0] if cen else None)


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4, 5, 6], [.15, .25, .2, .2, .1, .1]))


def maybe_eq(rng, n, x0, p=.45):
    if n > 1 and rng.random() < p:
        return gens.equalities(rng, n, int(rng.integers(1, min(n, 4))), x0)
    return None, None


def polytope(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, spread=gens.choice(rng, [.05, 1., 30.]))
    if rng.random() < .4:
        A, b = gens.redundancy(rng, A, b, x0)
    if rng.random() < .4:
        A, b = gens.scaled(rng, A, b, -1.5, 1.5)
    C, d = maybe_eq(rng, n, x0)
    if C is not None and rng.random() < .3:
        # inequalities combined with the equalities: small or nearly parallel to them
        m = A.shape[0]
        s = np.where(rng.random(m) < .4, 10.**rng.uniform(-2., 0., m), 1.)
        L = rng.standard_normal((m, C.shape[0]))*(rng.random(m) < .5)[:, None]
        A, b = A*s[:, None] + L.dot(C), b*s + L.dot(d)
    check(rng, ctx, A, b, C, d, 'polytope')


def unbounded(rng, ctx):
    n = size(rng)
    A, b, x0, ray = gens.unbounded(rng, n)
    C, d = maybe_eq(rng, n, x0)
    check(rng, ctx, A, b, C, d, 'unbounded')


def slab(rng, ctx):
    """Unbounded with a largest ball: slabs and prisms."""
    n = max(2, size(rng))
    q = gens.orthogonal(rng, n) if rng.random() < .6 else np.eye(n)
    k = int(rng.integers(1, n))
    x0 = rng.standard_normal(n)
    m = int(rng.integers(0, 3))
    A = np.vstack((q[:k], -q[:k], q[k:k+1]*(m > 0)))
    A = A[np.linalg.norm(A, axis=1) > 0.]
    b = A.dot(x0) + rng.uniform(.2, 2., A.shape[0])
    C, d = maybe_eq(rng, n, x0, .3)
    A, b = gens.scaled(rng, A, b, -1., 1.)
    check(rng, ctx, A, b, C, d, 'slab')


def infeasible(rng, ctx):
    n = size(rng)
    A, b, _, _ = gens.infeasible(rng, n)
    C, d = maybe_eq(rng, n, rng.standard_normal(n), .3)
    check(rng, ctx, A, b, C, d, 'infeasible')


def thin(rng, ctx):
    """Wide sets with a small inscribed ball, whose center is not unique."""
    n = max(2, size(rng))
    lo, hi = -rng.uniform(.5, 5., n), rng.uniform(.5, 5., n)
    i = int(rng.integers(n))
    w = 10.**rng.uniform(-4, -1)
    lo[i], hi[i] = 1. - w, 1. + w
    A = np.vstack((np.eye(n), -np.eye(n)))
    b = np.concatenate((hi, -lo))
    C, d = maybe_eq(rng, n, .5*(lo+hi), .3)
    check(rng, ctx, A, b, C, d, 'thin')


SCENARIOS = [('polytope', 5, polytope), ('unbounded', 2, unbounded), ('slab', 1, slab), ('infeasible', 1.5, infeasible), ('thin', 1, thin)]


def no_rows(rng, ctx):
    for n in (1, 3):
        check(rng, ctx, np.zeros((0, n)), np.zeros(0), None, None, 'whole space')
    check(rng, ctx, np.zeros((0, 3)), np.zeros(0), np.ones((1, 3)), np.ones(1), 'plane')


FIXED = [('no rows', no_rows)]
