"""C05: emptiness and boundedness."""
import numpy as np
from scipy.linalg import null_space

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C05'
RULE = ('sets whose emptiness and boundedness are known by construction (polytopes, polytopes in subspaces, cones, slabs, lines, half-lines, '
        'infeasible systems closed by a positive combination of their rows) and random ones decided by HiGHS with a margin, each asked in both orders and in '
        'several descriptions of the same set (scaled, permuted, duplicated, redundant rows, equalities as pairs of inequalities, unimodular coordinates); '
        'distinct by kind, dimension, rows, description and verdict.')
QUICK = 40000
THOROUGH = 100000
FLOORS = {'empty confirmed': 3000, 'bounded confirmed': 8000, 'unbounded confirmed': 6000, 'redescriptions': 12000}
CPU_LIMIT = 60.
ASSUMPTIONS = ['sets within 1e-3 of the edge of emptiness are not judged, except exactly flat ones that the constraints state exactly']


def recession(A, C):
    """True if only the zero direction satisfies A r <= 0, C r = 0 (exactly or by a clear margin); None if unclear."""
    n = A.shape[1]
    An = oracle.normalize(A, np.zeros(A.shape[0]))[0] if A.shape[0] else A
    M = np.vstack((An, oracle.normalize(C, np.zeros(C.shape[0]))[0])) if C is not None and C.shape[0] else An
    if M.shape[0] < n:
        return False
    s = np.linalg.svd(M)[1]
    if s[n-1] < 1e-9:
        return False
    if s[n-1] < 1e-3:
        return None
    # pointed: maximise each coordinate over the cone intersected with the unit box
    best = 0.
    box = np.vstack((np.eye(n), -np.eye(n)))
    CC = C if C is not None and C.shape[0] else None
    for i in range(n):
        for sign in (1., -1.):
            f = np.zeros(n)
            f[i] = -sign
            status, v, x = oracle.lp(f, np.vstack((An, box)), np.concatenate((np.zeros(An.shape[0]), np.ones(2*n))), CC, None if CC is None else np.zeros(CC.shape[0]))
            if status != 'optimal':
                return None
            best = max(best, -v)
    if best < 1e-9:
        # margin: the origin must be interior to the cone of the rows; perturb the rows
        status, v, x = oracle.lp(np.zeros(n), None, None)
        t = 1e-3
        worst = 0.
        for i in range(n):
            for sign in (1., -1.):
                f = np.zeros(n)
                f[i] = -sign
                status, v, x = oracle.lp(f, np.vstack((An, box)), np.concatenate((t*np.ones(An.shape[0]), np.ones(2*n))), CC, None if CC is None else np.zeros(CC.shape[0]))
                if status != 'optimal':
                    return None
                worst = max(worst, -v)
        return True if worst < .9 else None
    return False if best > .99 else None


def redescribe(rng, A, b, C, d, wide):
    """Another description of the same set."""
    n = A.shape[1]
    has = C is not None and C.shape[0] > 0
    how = gens.choice(rng, ['scaled', 'permuted', 'duplicated', 'implied', 'pairs', 'mixed'])
    if how in ('scaled', 'mixed'):
        # powers of two: parallel rows stay exactly parallel
        w = gens.choice(rng, [3, 3, 8, 14]) if wide else 3
        s = 2.**rng.integers(-w, w+1, A.shape[0])
        A, b = A*s[:, None], b*s
        if has:
            s = -2.**rng.integers(-2, 3, C.shape[0])
            C, d = C*s[:, None], d*s
    if how in ('permuted', 'mixed'):
        A, b = gens.permuted(rng, A, b)
        if has:
            C, d = gens.permuted(rng, C, d)
    if how == 'duplicated' and A.shape[0]:
        i = rng.integers(A.shape[0], size=int(rng.integers(1, 4)))
        A, b = np.vstack((A, A[i])), np.concatenate((b, b[i]))
    if how == 'implied' and A.shape[0]:
        for _ in range(2):
            i = int(rng.integers(A.shape[0]))
            A, b = np.vstack((A, A[i])), np.append(b, b[i] + rng.uniform(0., 1.))
        A, b = np.vstack((A, np.zeros((1, n)))), np.append(b, 1.)
    if how == 'pairs' and has:
        A, b = np.vstack((A, C, -C)), np.concatenate((b, d, -d))
        C = d = None
    return how, A, b, C, d


def ask(rng, ctx, Polyhedron, A, b, C, d, empty, bounded, kind, how):
    p = ctx.call(Polyhedron, A, b) if C is None else ctx.call(Polyhedron, A, b, C, d)
    order = gens.choice(rng, ['eb', 'be', 'ebe', 'bbe', 'veb', 'rbe'])
    data = dict(kind=kind, how=how, order=order, A=A, b=b, C=C, d=d)
    got_e = got_b = None
    for o in order:
        if o == 'e':
            v = ctx.call(lambda: p.empty)
            ctx.require(isinstance(v, (bool, np.bool_)), 'empty is %r' % (v,), **data)
            ctx.require(got_e is None or bool(v) == got_e, 'empty changed from %s to %s' % (got_e, v), **data)
            got_e = bool(v)
        elif o == 'b':
            v = ctx.call(lambda: p.bounded)
            ctx.require(isinstance(v, (bool, np.bool_)), 'bounded is %r' % (v,), **data)
            ctx.require(got_b is None or bool(v) == got_b, 'bounded changed from %s to %s' % (got_b, v), **data)
            got_b = bool(v)
        elif o == 'r' and (C is None or C.shape[0] == 0):
            ctx.call(lambda: p.radius)
        elif o == 'v':
            ctx.call(p.contains, np.zeros(A.shape[1]))
    if empty is not None:
        ctx.require(got_e == empty, 'reported %s but the set is %s' % ('empty' if got_e else 'not empty', 'empty' if empty else 'not empty'), **data)
        ctx.ev('empty confirmed' if empty else 'non-empty confirmed')
    if bounded is not None:
        ctx.require(got_b == bounded, 'reported %s but the set is %s' % ('bounded' if got_b else 'unbounded', 'bounded' if bounded else 'unbounded'), **data)
        ctx.ev('bounded confirmed' if bounded else 'unbounded confirmed')
    ctx.sig(kind, how, order, A.shape, 0 if C is None else C.shape[0], got_e, got_b)
    ctx.note(kind=kind, A=A, b=b, C=C, d=d, empty=got_e, bounded=got_b)


def descriptions(rng, ctx, A, b, C, d, empty, bounded, kind, wide=True):
    from pympc.geometry.polyhedron import Polyhedron
    ask(rng, ctx, Polyhedron, A, b, C, d, empty, bounded, kind, 'given')
    for _ in range(2):
        how, A2, b2, C2, d2 = redescribe(rng, A, b, C, d, wide)
        ctx.ev('redescriptions')
        ask(rng, ctx, Polyhedron, A2, b2, C2, d2, empty, bounded, kind, how)


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4, 5, 6], [.2, .25, .2, .15, .1, .1]))


def polytope(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, spread=gens.choice(rng, [.1, 1., 30.]))
    C = d = None
    if n > 1 and rng.random() < .5:
        C, d = gens.equalities(rng, n, int(rng.integers(1, min(n, 4))), x0)
    if rng.random() < .3:
        # another unit of length
        u = 2.**int(rng.integers(-10, 11))
        b, d = b*u, None if d is None else d*u
    if rng.random() < .4:
        # different units in the coordinates: long and thin sets
        u = 2.**rng.integers(-7, 8, n)
        A, C = A*u, None if C is None else C*u
    descriptions(rng, ctx, A, b, C, d, False, True, 'polytope')


def flat(rng, ctx):
    """Exactly flat sets: opposite rows with opposite offsets, possibly a single point."""
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, kind='integer')
    k = int(rng.integers(1, n+1))
    F = np.eye(n)[rng.permutation(n)[:k]] if rng.random() < .5 else gens.unimodular(rng, n)[0][:k]
    r = F.dot(x0)
    A, b = np.vstack((A, F, -F)), np.concatenate((b, r, -r))
    descriptions(rng, ctx, A, b, None, None, False, True, 'flat')


def unbounded(rng, ctx):
    n = size(rng)
    A, b, x0, ray = gens.unbounded(rng, n)
    C = d = None
    if n > 1 and rng.random() < .4:
        k = int(rng.integers(1, min(n, 4)))
        C = null_space(ray[None, :]).T
        C = C[rng.permutation(n-1)[:k]]
        d = C.dot(x0)
    M = oracle.normalize(A, b)[0] if C is None else np.vstack((oracle.normalize(A, b)[0], C))
    s = np.linalg.svd(M)[1]
    if M.shape[0] >= n and s[n-1] < 1e-6:
        # a kernel up to rounding: the verdict depends on the last bits of the rows (exact kernels are drawn in slab)
        raise Skip('kernel up to rounding')
    descriptions(rng, ctx, A, b, C, d, False, False, 'unbounded')


def slab(rng, ctx):
    """Bounded in some directions only: exact kernels, half-lines, lines, orthants."""
    n = size(rng)
    T, _ = gens.unimodular(rng, n)
    kinds = [gens.choice(rng, ['box', 'half', 'free', 'point']) for _ in range(n)]
    if n > 1 and all(k == 'point' for k in kinds):
        kinds[0] = 'half'
    x0 = rng.integers(-3, 4, n).astype(float)
    A, b, C, d = [], [], [], []
    v0 = T.dot(x0)
    for i, k in enumerate(kinds):
        if k in ('box', 'half'):
            A.append(T[i])
            b.append(v0[i] + float(rng.integers(1, 4)))
        if k == 'box':
            A.append(-T[i])
            b.append(-v0[i] + float(rng.integers(1, 4)))
        if k == 'point':
            C.append(T[i])
            d.append(v0[i])
    A = np.array(A).reshape(-1, n)
    b = np.array(b)
    if C:
        C, d = np.array(C), np.array(d)
    else:
        C = d = None
    bounded = all(k in ('box', 'point') for k in kinds)
    descriptions(rng, ctx, A, b, C, d, False, bounded, 'slab')


def nearly(rng, ctx):
    """Simplicial cones closed (or not) by one last facet: boundedness hinges on a single row."""
    n = size(rng)
    q = rng.standard_normal((n, n)) + 2.*np.eye(n)
    if np.linalg.svd(q)[1][-1] < .2:
        raise Skip('ill conditioned')
    w = rng.uniform(.3, 1., n)
    closed = rng.random() < .5
    if not closed:
        # the last weight is zero or negative: a ray survives
        w[int(rng.integers(n))] = gens.choice(rng, [-.3, -1.])
    A = np.vstack((q, -w.dot(q)[None, :]))
    x0 = rng.standard_normal(n)
    b = A.dot(x0) + rng.uniform(.2, 2., n+1)
    A, b = gens.permuted(rng, A, b)
    if rng.random() < .5:
        # different units in the coordinates: needles
        A = A*2.**rng.integers(-9, 10, n)
    descriptions(rng, ctx, A, b, None, None, False, closed, 'nearly')


def empty(rng, ctx):
    n = size(rng)
    eq = rng.random() < .4
    A, b, C, d = gens.infeasible(rng, n, eq)
    descriptions(rng, ctx, A, b, C, d, True, True, 'empty')


def inconsistent(rng, ctx):
    """Infeasible through the equalities, or through an equality and one inequality."""
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n)
    if rng.random() < .5:
        c = rng.standard_normal((1, n))
        C = np.vstack((c, 2.*c))
        d = np.array([c[0].dot(x0), 2.*c[0].dot(x0) + .5])
    else:
        i = int(rng.integers(A.shape[0]))
        C, d = A[i:i+1].copy(), b[i:i+1] + .3*np.linalg.norm(A[i])
    descriptions(rng, ctx, A, b, C, d, True, True, 'inconsistent')


def random(rng, ctx):
    n = size(rng)
    m = int(rng.integers(0, 2*n+3))
    A = rng.standard_normal((m, n)) if rng.random() < .6 else rng.integers(-2, 3, (m, n)).astype(float)
    b = rng.standard_normal(m)*gens.choice(rng, [.3, 1., 3.]) + gens.choice(rng, [0., 1.])
    C = d = None
    if rng.random() < .3 and n > 1:
        C, d = gens.equalities(rng, n, int(rng.integers(1, min(n, 4))), rng.standard_normal(n))
    A = A[np.linalg.norm(A, axis=1) > 1e-3] if m else A
    b = b[:A.shape[0]]
    e = None
    if A.shape[0] == 0:
        e = False
    else:
        t, _ = oracle.depth(A, b, C, d)
        if t is None:
            raise Skip('equalities')
        e = None if abs(t) < 1e-3 else t < 0.
    if e is None:
        raise Skip('edge of emptiness')
    bnd = True if e else recession(A, C)
    descriptions(rng, ctx, A, b, C, d, e, bnd, 'random')


SCENARIOS = [('polytope', 2, polytope), ('flat', 1, flat), ('unbounded', 2, unbounded), ('slab', 2, slab), ('nearly', 1.5, nearly),
             ('empty', 1.5, empty), ('inconsistent', .8, inconsistent), ('random', 2, random)]


def no_rows(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    for n in (1, 2, 4):
        ask(rng, ctx, Polyhedron, np.zeros((0, n)), np.zeros(0), None, None, False, False, 'whole space', 'given')
        ask(rng, ctx, Polyhedron, np.zeros((1, n)), np.ones(1), None, None, False, False, 'zero row', 'given')
        ask(rng, ctx, Polyhedron, np.zeros((1, n)), -np.ones(1), None, None, True, True, 'false zero row', 'given')
        ask(rng, ctx, Polyhedron, np.zeros((0, n)), np.zeros(0), np.eye(n), np.ones(n), False, True, 'point', 'given')


FIXED = [('no rows', no_rows)]
