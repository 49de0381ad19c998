"""C07: vertices."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C07'
RULE = ('full-dimensional polytopes of dimension 1-4 (simple, degenerate, redundant, scaled, translated, in subspaces of 1-3 equalities) against brute-force '
        'enumeration of the bases; unbounded, empty and flat sets, for which there are no vertices; distinct by kind, shape and number of vertices.')
QUICK = 24000
THOROUGH = 80000
FLOORS = {'vertices confirmed': 2200, 'no vertices confirmed': 500, 'degenerate vertices confirmed': 300, 'with equalities': 500}
CPU_LIMIT = 60.
ASSUMPTIONS = ['polytopes with distinct vertices closer than 1e-4 or nearly singular bases are not judged (counted as skipped)']


def check(rng, ctx, A, b, C, d, kind, units=None, shift=None, other=None):
    from pympc.geometry.polyhedron import Polyhedron
    V, clean = oracle.vertices(A, b, C, d)
    if not clean:
        raise Skip('close to degenerate')
    n = A.shape[1]
    An, bn = oracle.normalize(A, b)
    tight = np.sum(np.abs(An.dot(V.T) - bn[:, None]) < 1e-7, axis=0)
    if units is not None:
        # the same polytope with other units in its coordinates
        A, V = A/units, V*units
        C = None if C is None else C/units
        G = np.linalg.norm(V[:, None] - V[None], axis=2) + np.diag(np.full(len(V), np.inf))
        if np.min(G) < 1e-6*(1. + np.max(np.abs(V))):
            raise Skip('vertices closer than the tolerance')
    else:
        units = np.ones(n)
    if shift is not None:
        # the same polytope elsewhere
        b, V = b + A.dot(shift), V + shift
        G = np.linalg.norm(V[:, None] - V[None], axis=2) + np.diag(np.full(len(V), np.inf))
        if np.min(G) < 1e-6*(1. + np.max(np.abs(V))):
            raise Skip('vertices closer than the tolerance')
    if other is not None:
        # the same polytope in other words
        A, b = other
    p = ctx.call(Polyhedron, A, b) if C is None else ctx.call(Polyhedron, A, b, C, d)
    order = gens.choice(rng, ['v', 'vv', 'ev', 'bv', 'cv', 'rvv', 'mv'])
    data = dict(kind=kind, order=order, A=A, b=b, C=C, d=d, expected=V)
    for o in order:
        if o == 'v':
            got = ctx.call(lambda: p.vertices)
        else:
            ctx.call({'e': lambda: p.empty, 'b': lambda: p.bounded, 'c': lambda: p.center, 'r': lambda: p.radius, 'm': p.minimal_facets}[o])
    ctx.require(got is not None, 'no vertices reported, there are %d' % len(V), **data)
    W = np.array([np.asarray(v, dtype=float) for v in got])
    ctx.require(W.ndim == 2 and W.shape[1] == n, 'vertices of wrong size', got=W, **data)
    scale = 1. + np.max(np.abs(V/units))*(1. if shift is None else 1e-2)
    D = np.max(np.abs(V[:, None, :] - W[None, :, :])/units, axis=2)
    ctx.require(np.max(D.min(1)) <= 1e-5*scale, 'an extreme point is missing: %s' % V[int(np.argmax(D.min(1)))], got=W, **data)
    ctx.require(np.max(D.min(0)) <= 1e-5*scale, 'not an extreme point: %s' % W[int(np.argmax(D.min(0)))], got=W, **data)
    ctx.require(len(W) == len(V), '%d vertices reported, there are %d (all of them present, some repeated)' % (len(W), len(V)), got=W, **data)
    ctx.ev('vertices confirmed')
    if np.any(tight > n - (0 if C is None else C.shape[0])):
        ctx.ev('degenerate vertices confirmed')
    if C is not None and C.shape[0]:
        ctx.ev('with equalities')
    ctx.sig(kind, A.shape, 0 if C is None else C.shape[0], len(V), int(np.max(tight)))
    ctx.note(kind=kind, A=A, b=b, C=C, d=d, vertices=V)


def none(rng, ctx, A, b, C, d, kind):
    from pympc.geometry.polyhedron import Polyhedron
    p = ctx.call(Polyhedron, A, b) if C is None else ctx.call(Polyhedron, A, b, C, d)
    for o in gens.choice(rng, ['v', 'ev', 'bv', 'vev']):
        if o == 'v':
            got = ctx.call(lambda: p.vertices)
            ctx.require(got is None, 'vertices reported for %s polyhedron' % kind, A=A, b=b, C=C, d=d, got=got)
        else:
            ctx.call({'e': lambda: p.empty, 'b': lambda: p.bounded}[o])
    ctx.ev('no vertices confirmed')
    ctx.sig(kind, A.shape, 0 if C is None else C.shape[0], 'none')


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4], [.15, .35, .3, .2]))


def polytope(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 5)), spread=gens.choice(rng, [.1, 1., 10.]))
    if rng.random() < .3:
        A, b = gens.redundancy(rng, A, b, x0, count=int(rng.integers(1, 3)))
    if rng.random() < .3:
        A, b = gens.scaled(rng, A, b, -1., 1.)
    check(rng, ctx, A, b, None, None, 'polytope')


def with_equalities(rng, ctx):
    n = int(rng.integers(2, 6))
    k = int(rng.integers(1, min(n, 4)))
    if n - k > 3:
        raise Skip('large')
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), kind=gens.choice(rng, ['box', 'gauss', 'simplex']))
    C, d = gens.equalities(rng, n, k, x0)
    N = np.linalg.norm(A.dot(np.linalg.svd(C)[2][k:].T), axis=1)
    if np.any(N < 1e-2*np.linalg.norm(A, axis=1)):
        raise Skip('an inequality is nearly constant over the subspace')
    if rng.random() < .3:
        A, b = gens.scaled(rng, A, b, -1., 1.)
    other = None
    if rng.random() < .4:
        # inequalities combined with the equalities: small or nearly parallel to them
        m = A.shape[0]
        s = np.where(rng.random(m) < .4, 10.**rng.uniform(-3.5, 0., m), 1.)
        L = rng.standard_normal((m, k))*(rng.random(m) < .5)[:, None]
        other = A*s[:, None] + L.dot(C), b*s + L.dot(d)
    check(rng, ctx, A, b, C, d, 'with equalities', other=other)


def far(rng, ctx):
    """Away from the origin."""
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, kind=gens.choice(rng, ['box', 'gauss', 'simplex']), center=np.zeros(n))
    check(rng, ctx, A, b, None, None, 'far', shift=rng.standard_normal(n)*10.**rng.uniform(1., 3.5))


def units(rng, ctx):
    """Small, large, thin and long polytopes."""
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), kind=gens.choice(rng, ['box', 'gauss', 'simplex', 'integer']), center=rng.standard_normal(n)*gens.choice(rng, [0., .3]))
    if rng.random() < .6:
        u = np.full(n, 10.**rng.uniform(-4., 3.))
    else:
        u = 10.**rng.uniform(-3., 1., n)
    if rng.random() < .5:
        A, b = A/np.min(1./u), b/np.min(1./u)
    check(rng, ctx, A, b, None, None, 'units', u)


def no_vertices(rng, ctx):
    n = size(rng)
    k = gens.choice(rng, ['unbounded', 'empty', 'flat', 'unbounded eq', 'empty eq'])
    C = d = None
    if k.startswith('unbounded'):
        A, b, x0, ray = gens.unbounded(rng, n)
        if k.endswith('eq') and n > 2:
            from scipy.linalg import null_space
            C = null_space(ray[None, :]).T[:1]
            d = C.dot(x0)
            k = 'unbounded'
        M = A if C is None else np.vstack((A, C))
        if M.shape[0] >= n and np.linalg.svd(M)[1][n-1] < 1e-6:
            raise Skip('kernel up to rounding')
    elif k == 'flat':
        A, b, x0 = gens.polytope(rng, n, kind='integer')
        i = int(rng.integers(n))
        e = np.eye(n)[[i]]
        A, b = np.vstack((A, e, -e)), np.concatenate((b, [x0[i], -x0[i]]))
    else:
        A, b, C, d = gens.infeasible(rng, n, k.endswith('eq') and n > 1)
        k = 'empty'
        if C is not None:
            # inequalities must not be constant over the subspace: the radius (and so the interior) would be undefined
            N = np.linalg.svd(C)[2][1:].T
            if np.any(np.linalg.norm(A.dot(N), axis=1) < 1e-3*np.linalg.norm(A, axis=1)):
                raise Skip('constant over the subspace')
    none(rng, ctx, A, b, C, d, k)


SCENARIOS = [('polytope', 5, polytope), ('with equalities', 2, with_equalities), ('far', 1, far), ('units', 2, units), ('no vertices', 1.5, no_vertices)]
