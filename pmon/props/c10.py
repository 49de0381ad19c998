"""C10: orthogonal projections and convex hulls."""
import numpy as np
from scipy.spatial import ConvexHull, QhullError

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C10'
RULE = ('full-dimensional polytopes of dimension 1-6 (simple, degenerate, with redundant and scaled rows, far from the origin) projected on every kind of ordered choice of '
        'coordinates; support functions of the projection in its facet normals and random directions against LPs on the polytope, membership against completion LPs, '
        'vertices against the extreme points of the projected brute-force vertices; hulls of random, repeated, coplanar and interior points against support functions; '
        'distinct by kind, dimensions, order of the coordinates, facets and vertices.')
QUICK = 5000
THOROUGH = 50000
FLOORS = {'projections confirmed': 1500, 'hulls confirmed': 400, 'vertices of projections confirmed': 900, 'completions': 8000, 'unsorted coordinates': 500}
CPU_LIMIT = 60.
TOL = 2e-6


def residual_dims(rng, n, q):
    r = [int(i) for i in rng.permutation(n)[:q]]
    if rng.random() < .3:
        r = sorted(r)
    return r


def extreme(P):
    """Extreme points of the rows of P (q >= 2): (points, clean)."""
    try:
        hull = ConvexHull(P)
    except QhullError:
        raise Skip('flat points')
    E = P[hull.vertices]
    clean = True
    for i in range(len(E)):
        if dist_to_hull(E[i], np.delete(E, i, 0)) < 1e-4:
            clean = False
    rest = np.array([p for i, p in enumerate(P) if i not in set(hull.vertices)])
    return E, clean


def dist_to_hull(x, P):
    """Max-norm distance of x from the convex hull of the rows of P."""
    k, n = P.shape
    # min t: |sum w p - x| <= t
    f = np.zeros(k+1)
    f[-1] = 1.
    A = np.vstack((np.hstack((P.T, -np.ones((n, 1)))), np.hstack((-P.T, -np.ones((n, 1)))), np.hstack((-np.eye(k), np.zeros((k, 1))))))
    b = np.concatenate((x, -x, np.zeros(k)))
    C = np.concatenate((np.ones(k), [0.]))[None, :]
    status, v, _ = oracle.lp(f, A, b, C, np.ones(1))
    if status != 'optimal':
        raise Skip('distance oracle')
    return v


def judge_projection(rng, ctx, A, b, x0, r, proj, data, V=None):
    n = A.shape[1]
    q = len(r)
    An, bn = oracle.normalize(A, b)
    pA, pb, pC, pd = oracle.poly(proj)
    ctx.require(pA.shape[1] == q, 'the projection has dimension %d' % pA.shape[1], **data)
    ctx.require(pC.shape[0] == 0, 'the projection has equalities', **data)

    def lift(a):
        g = np.zeros(n)
        for k, i in enumerate(r):
            g[i] = a[k]
        return g
    scale = 1. + np.max(np.abs(pb))/max(1e-3, np.min(np.linalg.norm(pA, axis=1)))
    # every facet is valid and tight
    for a, c in zip(pA, pb):
        s = np.linalg.norm(a)
        h = oracle.support(lift(a), A, b)
        ctx.require(h is not None and h <= c + TOL*scale*s, 'a facet of the projection cuts the polyhedron (by %s)' % (None if h is None else h-c), facet=(a, c), **data)
        ctx.require(h >= c - TOL*scale*s, 'a facet of the projection is not tight (by %s)' % (c-h), facet=(a, c), **data)
    # no facet is missing
    for _ in range(6):
        a = rng.standard_normal(q)
        a /= np.linalg.norm(a)
        h = oracle.support(lift(a), A, b)
        g = oracle.support(a, pA, pb)
        ctx.require(g is not None and abs(g - h) <= 10.*TOL*scale, 'the projection extends to %s in a direction, the polyhedron to %s' % (g, h), direction=a, **data)
    # membership by completion
    rest = [i for i in range(n) if i not in r]
    for _ in range(6):
        y = x0 + rng.standard_normal(n)*gens.choice(rng, [.1, 1., 3.])
        if V is not None and rng.random() < .4:
            w = rng.dirichlet(np.ones(len(V))*.4)
            y = w.dot(V)
            y = x0 + (y - x0)*gens.choice(rng, [.99, 1.02])
        x = y[r]
        if rest:
            t, _ = oracle.depth_raw(An[:, rest], bn - An[:, r].dot(x))
        else:
            t = np.min(bn - An.dot(y))
        if abs(t) < 1e-3:
            continue
        got = bool(ctx.call(proj.contains, x))
        ctx.require(got == (t > 0.), 'the point %s be completed but is %sin the projection' % ('can' if t > 0. else 'cannot', '' if got else 'not '), x=x, margin=t, **data)
        ctx.ev('completions')


def judge_vertices(ctx, V, r, proj, data):
    q = len(r)
    P = V[:, r]
    got = proj.vertices
    ctx.require(got is not None, 'the projection has no vertices', **data)
    W = np.array([np.asarray(v, dtype=float) for v in got]).reshape(-1, q) if len(got) else np.zeros((0, q))
    scale = 1. + np.max(np.abs(P))
    if q == 1:
        E = np.array([[np.min(P)], [np.max(P)]])
    else:
        E, clean = extreme(P)
        if not clean:
            ctx.ev('vertices too close to call')
            return
    D = np.max(np.abs(E[:, None, :] - W[None, :, :]), axis=2) if len(W) else np.full((len(E), 1), np.inf)
    ctx.require(np.max(D.min(1)) <= 1e-5*scale, 'a vertex of the projection is missing: %s' % E[int(np.argmax(D.min(1)))], got=W, expected=E, **data)
    ctx.require(np.max(D.min(0)) <= 1e-5*scale, 'not a vertex of the projection: %s' % W[int(np.argmax(D.min(0)))], got=W, expected=E, **data)
    # repetitions (two approximations of one vertex, 1e-5 apart at a degenerate vertex, are a matter of precision)
    R = np.max(np.abs(W[:, None, :] - W[None, :, :]), axis=2) + np.eye(len(W))
    ctx.require(np.min(R) > 1e-8*scale, '%d vertices, there are %d' % (len(W), len(E)), got=W, expected=E, **data)
    ctx.ev('vertices of projections confirmed')


def project(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(gens.choice(rng, [1, 2, 3, 4, 5, 6], [.05, .25, .3, .2, .12, .08]))
    q = int(rng.integers(1, min(n, 4)+1)) if rng.random() < .85 else min(n, 4)
    kind = gens.choice(rng, ['box', 'gauss', 'gauss', 'simplex', 'integer', 'corner'] + (['cross'] if n < 5 else []))
    A, b, x0 = gens.polytope(rng, n, kind=kind, extra=int(rng.integers(0, 5)), center=rng.standard_normal(n)*20. if rng.random() < .1 else None)
    if rng.random() < .3:
        A, b = gens.redundancy(rng, A, b, x0, count=2)
    if rng.random() < .25:
        A, b = gens.scaled(rng, A, b, -.7, .7)
    if rng.random() < .2:
        # unit of length
        k = 10.**rng.uniform(0., 2.)
        b, x0 = b*k, x0*k
    r = residual_dims(rng, n, q)
    p = ctx.call(Polyhedron, A, b)
    if rng.random() < .3:
        ctx.call(gens.choice(rng, [lambda: p.empty, lambda: p.bounded, lambda: p.vertices]))
    given = gens.choice(rng, [r, list(r), tuple(r) if False else r])
    if r == list(range(q)) and rng.random() < .5:
        given = range(q)
    data = dict(kind=kind, A=A, b=b, dims=r)
    proj = ctx.call(p.project_to, given)
    data['proj'] = proj
    V = None
    if A.shape[0] <= (16 if n < 5 else 14):
        V, clean = oracle.vertices(A, b)
        if not clean:
            V = None
    judge_projection(rng, ctx, A, b, x0, r, proj, data, V)
    if V is not None:
        judge_vertices(ctx, V, r, proj, data)
    if r != sorted(r):
        ctx.ev('unsorted coordinates')
    ctx.ev('projections confirmed')
    ctx.sig(kind, n, tuple(r), proj.A.shape[0])
    ctx.note(kind=kind, A=A, b=b, dims=r, facets=proj.A.shape[0])


def hull(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(2, 5)) if rng.random() < .93 else 5
    kind = gens.choice(rng, ['gauss', 'grid', 'sphere', 'repeated', 'interior', 'far'])
    m = n + 1 + int(rng.integers(0, 12) if n > 3 or rng.random() < .85 else rng.integers(12, 60))
    if kind == 'gauss':
        P = rng.standard_normal((m, n))
    elif kind == 'far':
        P = rng.standard_normal((m, n)) + rng.standard_normal(n)*50.
    elif kind == 'grid':
        P = rng.integers(-2, 3, (m, n)).astype(float)
    elif kind == 'sphere':
        P = rng.standard_normal((m, n))
        P /= np.linalg.norm(P, axis=1)[:, None]
    elif kind == 'repeated':
        P = rng.standard_normal((n+2, n))
        P = np.vstack((P, P[rng.integers(0, n+2, 3)]))
    else:
        P = rng.standard_normal((n+2, n))
        w = rng.dirichlet(np.ones(n+2), 5)
        P = np.vstack((P, w.dot(P)))
    if np.linalg.svd(P - P.mean(0))[1][-1] < .3:
        raise Skip('flat points')
    P = P[rng.permutation(len(P))]
    if kind != 'grid' and rng.random() < .25:
        P = P*10.**rng.uniform(-1., 2.5)
    given = [v for v in P] if rng.random() < .7 else (P.astype(int) if kind == 'grid' and rng.random() < .5 else P)
    data = dict(kind=kind, points=P)
    p = ctx.call(Polyhedron.from_convex_hull, given)
    A, b, C, d = oracle.poly(p)
    scale = 1. + np.max(np.abs(P))
    ctx.require(C.shape[0] == 0 and A.shape[1] == n, 'the hull has the wrong dimension', **data)
    An, bn = oracle.normalize(A, b)
    h = np.max(An.dot(P.T), axis=1)
    ctx.require(np.max(np.abs(h - bn)) <= 1e-7*scale, 'a facet of the hull is not tight on the points (by %g)' % np.max(np.abs(h - bn)), **data)
    for _ in range(6):
        a = rng.standard_normal(n)
        a /= np.linalg.norm(a)
        g = oracle.support(a, A, b)
        ctx.require(g is not None and abs(g - np.max(P.dot(a))) <= 1e-6*scale, 'the hull extends to %s in a direction, the points to %s' % (g, np.max(P.dot(a))), direction=a, **data)
    c = P.mean(0)
    for _ in range(5):
        w = rng.dirichlet(np.ones(len(P))*.5)
        x = w.dot(P)
        ctx.require(bool(ctx.call(p.contains, x, 1e-7*scale)), 'a convex combination of the points is not in the hull', x=x, **data)
        a = rng.standard_normal(n)
        i = int(np.argmax(P.dot(a)))
        y = c + (P[i] - c)*1.02
        if np.max(An.dot(y) - bn) < 1e-4:
            continue
        ctx.require(not bool(ctx.call(p.contains, y)), 'a point outside the hull of the points is in the polyhedron', x=y, **data)
    ctx.ev('hulls confirmed')
    ctx.sig('hull', kind, n, len(P), A.shape[0])


SCENARIOS = [('project', 5, project), ('hull', 1.3, hull)]
