"""C09: intersection, Cartesian product, inclusion."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C09'
RULE = ('pairs of polyhedra (bounded, unbounded, empty, flat, with and without equalities, nested, overlapping, disjoint, translated, scaled copies, one row moved '
        'by a chosen amount, the same set described differently), with the operands queried before the operation in some cases; membership in the result compared with '
        'membership in the operands, inclusion compared with one LP per constraint (verdicts within 1e-4 of the tolerance are not judged unless exact); the '
        'operands are compared before and after; distinct by operation, kinds, shapes and verdict.')
QUICK = 20000
THOROUGH = 100000
FLOORS = {'intersections confirmed': 500, 'products confirmed': 400, 'included confirmed': 700, 'not included confirmed': 700, 'empty operand': 200, 'unbounded operand': 400}
CPU_LIMIT = 60.


def snapshot(p):
    return [np.array(p.A), np.array(p.b), np.array(p.C), np.array(p.d)]


def same(s, p):
    t = snapshot(p)
    return all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(s, t))


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4, 5, 6], [.2, .35, .28, .12, .03, .02]))


def unit_of(rng):
    return 10.**rng.uniform(0., 2.5) if rng.random() < .2 else 1.


def operand(rng, ctx, n, center=None, kinds=None, unit=1.):
    """(polyhedron, kind, a point of it or None)."""
    from pympc.geometry.polyhedron import Polyhedron
    kind = gens.choice(rng, kinds or ['polytope', 'polytope', 'subspace', 'unbounded', 'empty', 'space'])
    C = d = None
    x0 = None
    if kind in ('polytope', 'subspace'):
        A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)) if rng.random() < .9 else int(rng.integers(4, 25)), center=None if center is None else center/unit)
        if kind == 'subspace' and n > 1:
            C, d = gens.equalities(rng, n, int(rng.integers(1, n)), x0)
    elif kind == 'unbounded':
        A, b, x0, ray = gens.unbounded(rng, n)
        if n > 1 and rng.random() < .3:
            C, d = gens.equalities(rng, n, 1, x0)
    elif kind == 'space':
        A, b, x0 = np.zeros((0, n)), np.zeros(0), np.zeros(n)
    else:
        A, b, C, d = gens.infeasible(rng, n, rng.random() < .3)
    if unit != 1.:
        b = b*unit
        d = None if d is None else d*unit
        x0 = None if x0 is None else x0*unit
    p = ctx.call(Polyhedron, A, b) if C is None else ctx.call(Polyhedron, A, b, C, d)
    for _ in range(int(rng.integers(0, 3))):
        # operands with a past
        ctx.call(gens.choice(rng, [lambda: p.empty, lambda: p.bounded, lambda: p.contains(np.zeros(n))]))
        if kind in ('polytope',) and rng.random() < .3:
            ctx.call(gens.choice(rng, [lambda: p.radius, lambda: p.vertices]))
    return p, kind, x0


def residual(p, x):
    """Largest normalised violation."""
    r = -np.inf
    A, b, C, d = oracle.poly(p)
    if A.shape[0]:
        An, bn = oracle.normalize(A, b)
        r = max(r, np.max(An.dot(x) - bn))
    if C.shape[0]:
        Cn, dn = oracle.normalize(C, d)
        r = max(r, np.max(np.abs(Cn.dot(x) - dn)))
    return r


def sample_points(rng, ps, n, x0s, unit=1.):
    out = []
    for _ in range(4):
        out.append(rng.standard_normal(n)*gens.choice(rng, [.3, 1., 4.])*unit)
    for x0 in x0s:
        if x0 is not None:
            for _ in range(3):
                out.append(x0 + rng.standard_normal(n)*gens.choice(rng, [0., .1, 1.])*unit)
    for p in ps:
        A, b, C, d = oracle.poly(p)
        if C.shape[0]:
            # points of the subspace
            base = np.linalg.lstsq(C, d, rcond=None)[0]
            N = np.linalg.svd(C)[2][np.linalg.matrix_rank(C):].T
            for _ in range(3):
                x = rng.standard_normal(n)*unit
                out.append(base + N.dot(N.T.dot(x - base)))
    # a point of all of them, if any
    A = np.vstack([p.A for p in ps])
    b = np.concatenate([p.b for p in ps])
    C = np.vstack([p.C for p in ps])
    d = np.concatenate([p.d for p in ps])
    status, v, x = oracle.lp(rng.standard_normal(n), np.vstack((A, np.eye(n), -np.eye(n))), np.concatenate((b, 50.*unit*np.ones(2*n))), C, d)
    if status == 'optimal':
        out.append(x)
    return out


def intersection(rng, ctx):
    n, unit = size(rng), unit_of(rng)
    p, k1, x1 = operand(rng, ctx, n, unit=unit)
    q, k2, x2 = operand(rng, ctx, n, center=x1 if x1 is not None and rng.random() < .7 else None, unit=unit)
    if rng.random() < .1:
        q, k2, x2 = p, k1, x1
    sp, sq = snapshot(p), snapshot(q)
    r = ctx.call(p.intersection, q)
    ctx.require(same(sp, p) and same(sq, q), 'intersection altered an operand', p=p, q=q)
    count = [0, 0]
    for x in sample_points(rng, [p, q], n, [x1, x2], unit):
        rp, rq = residual(p, x), residual(q, x)
        worst = max(rp, rq)
        got = bool(ctx.call(r.contains, x, 1e-6))
        if worst <= 1e-8*max(1., unit):
            ctx.require(got, 'a point of both operands is not in the intersection', p=sp, q=sq, x=x)
            count[0] += 1
        elif worst > 1e-3:
            ctx.require(not got or min(row_norm(p), row_norm(q)) < 1e-2, 'a point outside an operand (by %g) is in the intersection' % worst, p=sp, q=sq, x=x)
            count[1] += 1
    # emptiness of the result
    t = None
    A, b, C, d = oracle.poly(r)
    if A.shape[0]:
        t, _ = oracle.depth(np.vstack((sp[0], sq[0])), np.concatenate((sp[1], sq[1])), np.vstack((sp[2], sq[2])), np.concatenate((sp[3], sq[3])))
        if t is not None and abs(t) > 1e-3:
            got = ctx.call(lambda: r.empty)
            ctx.require(bool(got) == (t < 0.), 'emptiness of the intersection', p=sp, q=sq, depth=t, got=got)
    # changing the result must not reach the operands
    ctx.call(r.add_inequality, np.eye(n), np.ones(n)*.1)
    if rng.random() < .5:
        ctx.call(r.normalize)
    ctx.require(same(sp, p) and same(sq, q), 'changing the intersection altered an operand', p=p, q=q)
    ctx.ev('intersections confirmed')
    for k in (k1, k2):
        if k in ('empty', 'unbounded'):
            ctx.ev(k + ' operand')
    ctx.sig('intersection', k1, k2, n, p.A.shape[0], q.A.shape[0], count[0] > 0, count[1] > 0, None if t is None else t > 0.)


def row_norm(p):
    s = [np.linalg.norm(r) for r in np.vstack((p.A, p.C))]
    return min(s) if s else 1.


def product(rng, ctx):
    n, m = size(rng), size(rng)
    u1, u2 = unit_of(rng), unit_of(rng)
    p, k1, x1 = operand(rng, ctx, n, unit=u1)
    q, k2, x2 = operand(rng, ctx, m, unit=u2)
    sp, sq = snapshot(p), snapshot(q)
    r = ctx.call(p.cartesian_product, q)
    ctx.require(same(sp, p) and same(sq, q), 'the Cartesian product altered an operand', p=p, q=q)
    ctx.require(np.shape(r.A)[1] == n + m, 'the product has dimension %s' % np.shape(r.A)[1], p=p, q=q)
    X = sample_points(rng, [p], n, [x1], u1)
    Y = sample_points(rng, [q], m, [x2], u2)
    count = [0, 0]
    for _ in range(15):
        x, y = X[int(rng.integers(len(X)))], Y[int(rng.integers(len(Y)))]
        if rng.random() < .5:
            y = Y[-1]
        if rng.random() < .5:
            x = X[-1]
        worst = max(residual(p, x), residual(q, y))
        got = bool(ctx.call(r.contains, np.concatenate((x, y)), 1e-6))
        if worst <= 1e-8:
            ctx.require(got, 'a pair of points of the operands is not in the product', p=sp, q=sq, x=x, y=y)
            count[0] += 1
        elif worst > 1e-3:
            ctx.require(not got or min(row_norm(p), row_norm(q)) < 1e-2, 'a pair with a point outside its operand (by %g) is in the product' % worst, p=sp, q=sq, x=x, y=y)
            count[1] += 1
    ctx.ev('products confirmed')
    for k in (k1, k2):
        if k in ('empty', 'unbounded'):
            ctx.ev(k + ' operand')
    ctx.sig('product', k1, k2, n, m, p.A.shape[0], q.A.shape[0], count[0] > 0, count[1] > 0)


def raw_included(p, q):
    """Largest violation, over p, of the rows of q (and of its equalities), as given (not normalised): the tolerance of the query is on these."""
    A, b, C, d = oracle.poly(p)
    rows = [(a, r) for a, r in zip(np.vstack((q.A, q.C, -q.C)), np.concatenate((q.b, q.d, -q.d)))]
    worst = -np.inf
    for a, r in rows:
        s = oracle.support(a, A, b, C, d)
        if s is None:
            return np.inf
        worst = max(worst, s - r)
    return worst


def verdict(rng, ctx, p, q, expected, data, tol=None):
    sp, sq = snapshot(p), snapshot(q)
    got = ctx.call(p.is_included_in, q) if tol is None else ctx.call(p.is_included_in, q, tol)
    ctx.require(isinstance(got, (bool, np.bool_)), 'inclusion is %r' % (got,), p=p, q=q, **data)
    ctx.require(bool(got) == expected, 'reported %s, it is %s' % ('included' if got else 'not included', 'included' if expected else 'not included'), p=p, q=q, tol=tol, **data)
    ctx.require(same(sp, p) and same(sq, q), 'the inclusion test altered an operand', p=p, q=q)
    ctx.ev('included confirmed' if expected else 'not included confirmed')


def inclusion(rng, ctx):
    """Arbitrary pairs, judged by LPs."""
    n, unit = size(rng), unit_of(rng)
    p, k1, x1 = operand(rng, ctx, n, unit=unit)
    q, k2, x2 = operand(rng, ctx, n, center=x1 if x1 is not None and rng.random() < .7 else None, unit=unit)
    A, b, C, d = oracle.poly(p)
    expected = None
    if k1 == 'empty':
        expected = True
    else:
        w = raw_included(p, q)
        if w > 1e-3:
            expected = False
        elif w <= 1e-9*unit:
            expected = True
    if expected is None:
        raise Skip('close call')
    tol = gens.choice(rng, [None, None, 1e-7, 1e-5])
    verdict(rng, ctx, p, q, expected, dict(kinds=(k1, k2)), tol)
    for k in (k1, k2):
        if k in ('empty', 'unbounded'):
            ctx.ev(k + ' operand')
    ctx.sig('inclusion', k1, k2, n, p.A.shape[0], q.A.shape[0], expected)
    ctx.note(kinds=(k1, k2), p=p, q=q, included=expected)


def nested(rng, ctx):
    """Subsets by construction: extra rows, shrunk copies, redescriptions, and the same with a single row moved."""
    from pympc.geometry.polyhedron import Polyhedron
    n = size(rng)
    kind = gens.choice(rng, ['polytope', 'subspace', 'unbounded'])
    q, k, x0 = operand(rng, ctx, n, kinds=[kind], unit=unit_of(rng))
    A, b, C, d = oracle.poly(q)
    how = gens.choice(rng, ['same', 'extra', 'shrunk', 'moved', 'equality', 'off equality', 'tolerance'])
    tol = None
    Aq, bq, Cq, dq = A, b, C, d
    if how == 'same':
        A, b = gens.permuted(rng, A, b)
        s = 2.**rng.integers(-2, 3, A.shape[0])
        A, b = A*s[:, None], b*s
        if C.shape[0] and rng.random() < .5:
            A, b = np.vstack((A, C, -C)), np.concatenate((b, d, -d))
            C, d = np.zeros((0, n)), np.zeros(0)
        expected = True
    elif how == 'extra':
        a = rng.standard_normal((2, n))
        A, b = np.vstack((A, a)), np.concatenate((b, a.dot(x0) + rng.uniform(0., 1., 2)))
        expected = True
    elif how == 'shrunk':
        A, b = A, b - rng.uniform(0., .1, b.size)*np.minimum(b - A.dot(x0), 1.)
        expected = True
    elif how == 'equality':
        if n < 2:
            raise Skip('dimension')
        c, e = gens.equalities(rng, n, 1, x0)
        C, d = np.vstack((C, c)), np.concatenate((d, e))
        if np.linalg.matrix_rank(C) < C.shape[0] or C.shape[0] >= n:
            raise Skip('point')
        expected = True
    elif how == 'off equality':
        # q lies in a subspace, p does not quite
        if C.shape[0] == 0:
            raise Skip('no equalities')
        d = d.copy()
        i = int(rng.integers(d.size))
        d[i] += gens.choice(rng, [-1., 1.])*gens.choice(rng, [1e-3, .05])*np.linalg.norm(C[i])
        t, _ = oracle.depth(A, b, C, d)
        if t is None or t < 1e-3:
            raise Skip('empty')
        expected = False
    elif how == 'moved':
        if A.shape[0] == 0:
            raise Skip('no rows')
        i = int(rng.integers(A.shape[0]))
        s = np.linalg.norm(A[i])
        if s < 1e-2:
            raise Skip('small row')
        b = b.copy()
        b[i] += gens.choice(rng, [1e-3, .1, 1.])*s
        if oracle.redundant_margin(A, b, i, C, d) < 1e-9:
            raise Skip('redundant row')
        w = raw_included(Polyhedron(A, b, C, d), q)
        if w < 5e-4:
            raise Skip('close call')
        expected = False
    else:
        # penetration by a known amount, tolerance on either side of it
        if A.shape[0] == 0:
            raise Skip('no rows')
        i = int(rng.integers(A.shape[0]))
        b = b.copy()
        b[i] += gens.choice(rng, [1e-3, .1])
        w = raw_included(Polyhedron(A, b, C, d), q)
        if not 1e-4 < w < 10.:
            raise Skip('close call')
        expected = rng.random() < .5
        tol = w*(1.3 if expected else .7)
    p = ctx.call(Polyhedron, A, b, C, d)
    if how not in ('moved', 'off equality', 'tolerance') and p is not q:
        t, _ = oracle.depth(A, b, C, d)
    verdict(rng, ctx, p, q, expected, dict(how=how, kind=kind), tol)
    ctx.ev(kind + ' operand')
    ctx.sig('nested', how, kind, n, p.A.shape[0], q.A.shape[0], expected)


def translated(rng, ctx):
    """The same set moved away: not included, from several directions; disjoint sets."""
    from pympc.geometry.polyhedron import Polyhedron
    n = size(rng)
    q, k, x0 = operand(rng, ctx, n, kinds=['polytope', 'subspace'], unit=unit_of(rng))
    A, b, C, d = oracle.poly(q)
    v = rng.standard_normal(n)
    v *= gens.choice(rng, [1e-2, 1., 30.])/np.linalg.norm(v)
    p = ctx.call(Polyhedron, A, b + A.dot(v), C, d + C.dot(v))
    if raw_included(p, q) < 1e-3:
        raise Skip('close call')
    verdict(rng, ctx, p, q, False, dict(kind=k))
    verdict(rng, ctx, q, p, False, dict(kind=k))
    ctx.sig('translated', k, n, A.shape[0])


def tiny(rng, ctx):
    """A facet moved outwards by less, or by more, than the default tolerance."""
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(1, 4))
    M = gens.orthogonal(rng, n) if n > 1 and rng.random() < .5 else np.eye(n)
    A = np.vstack((M, -M))
    b = A.dot(rng.standard_normal(n)) + rng.uniform(.5, 2., 2*n)
    i = int(rng.integers(2*n))
    expected = bool(rng.random() < .5)
    w = rng.uniform(1e-8, 5e-8) if expected else 10.**rng.uniform(-6.5, -4.)
    c = b.copy()
    c[i] += w
    p, q = Polyhedron(A.copy(), c), Polyhedron(A.copy(), b)
    verdict(rng, ctx, p, q, expected, dict(how='default tolerance', excess=w))
    verdict(rng, ctx, q, p, True, dict(how='default tolerance', excess=-w))
    ctx.sig('tiny', n, expected)


SCENARIOS = [('intersection', 2, intersection), ('product', 1.5, product), ('inclusion', 3, inclusion), ('nested', 3, nested), ('translated', 1, translated), ('tiny', .5, tiny)]
