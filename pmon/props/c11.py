"""C11: the answers of a polyhedron depend on its current constraints, not on its history."""
import copy

import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C11'
RULE = ('random histories of 4-14 operations over a pool of up to 5 live polyhedra (queries in any order, additions of inequalities, equalities and bounds with or without '
        'selected components, redundancy removal, normalisation, shallow and deep copies, intersections, products, inclusion tests, projections, plots of caches by '
        'repeated queries); a shadow list of constraints is kept for each one, and after every mutation all the live polyhedra are asked in a random order and '
        'compared with a polyhedron freshly built from the shadow; distinct by sequence of operations.')
QUICK = 4000
THOROUGH = 40000
FLOORS = {'answers compared': 60000, 'mutations': 8000, 'answers after a cached answer': 20000, 'other live polyhedra compared': 15000}
CPU_LIMIT = 90.
QUERIES = ('empty', 'bounded', 'radius', 'center', 'vertices', 'contains', 'included')


class Live(object):
    def __init__(self, p, A, b, C, d, x0, origin):
        self.p, self.A, self.b, self.C, self.d, self.x0 = p, np.array(A, dtype=float), np.array(b, dtype=float), np.array(C, dtype=float), np.array(d, dtype=float), x0
        self.asked = set()
        self.origin = origin
        self.changed = False

    @property
    def n(self):
        return self.A.shape[1]

    def fresh(self, Polyhedron):
        return Polyhedron(self.A.copy(), self.b.copy(), self.C.copy(), self.d.copy()) if self.C.shape[0] else Polyhedron(self.A.copy(), self.b.copy())

    def decisive(self):
        """Clearly feasible or infeasible, with independent equalities: fresh answers are not a matter of rounding."""
        if self.C.shape[0]:
            s = np.linalg.svd(self.C)[1]
            if self.C.shape[0] >= self.n or s[-1] < 1e-3*s[0]:
                return False
            N = np.linalg.svd(self.C)[2][self.C.shape[0]:].T
            k = np.linalg.norm(self.A, axis=1) > 0.
            if np.any(np.linalg.norm(self.A[k].dot(N), axis=1) < 1e-3*np.linalg.norm(self.A[k], axis=1)):
                return False
        if self.A.shape[0] == 0:
            return True
        try:
            r, _ = gens.subspace_depth(self.A, self.b, self.C, self.d)
        except Skip:
            return False
        return abs(r) > 1e-2


def answer(ctx, p, q, x, other):
    if q == 'empty':
        return bool(ctx.call(lambda: p.empty))
    if q == 'bounded':
        return bool(ctx.call(lambda: p.bounded))
    if q == 'radius':
        return ctx.call(lambda: p.radius)
    if q == 'center':
        return ctx.call(lambda: p.center)
    if q == 'vertices':
        v = ctx.call(lambda: p.vertices)
        return None if v is None else np.array([np.asarray(w, dtype=float) for w in v])
    if q == 'contains':
        return bool(ctx.call(p.contains, x, 1e-6))
    if q == 'included':
        return bool(ctx.call(p.is_included_in, other))


def compare(ctx, L, Polyhedron, q, got, want, history, x):
    data = dict(query=q, history=history, A=L.A, b=L.b, C=L.C, d=L.d, live=L.p, x=x, got=got, fresh=want)
    msg = 'after its history the polyhedron answers %s' % q
    ctx.ev('answers compared')
    if q in ('empty', 'bounded', 'contains', 'included'):
        ctx.require(got == want, msg + ' = %s, a fresh one %s' % (got, want), **data)
    elif want is None or got is None:
        ctx.require(got is None and want is None, msg + ' = %s, a fresh one %s' % (type(got).__name__, type(want).__name__), **data)
    elif q == 'radius' and float(want) < 0.:
        # of an empty set: its size depends on the rows dropped before the set became empty
        ctx.require(float(got) < 0., msg + ' = %r, a fresh one %r' % (got, want), **data)
    elif q == 'radius':
        ctx.require(abs(float(got) - float(want)) <= 1e-5*(1.+abs(float(want))), msg + ' = %r, a fresh one %r' % (got, want), **data)
    elif q == 'center':
        # not unique: must be the center of a largest ball of the current set
        r, _ = gens.subspace_depth(L.A, L.b, L.C, L.d)
        if r < 0.:
            return
        N = np.eye(L.n) if L.C.shape[0] == 0 else np.linalg.svd(L.C)[2][L.C.shape[0]:].T
        norms = np.linalg.norm(L.A.dot(N), axis=1)
        k = norms > 1e-9
        c = np.asarray(got, dtype=float)
        ctx.require(c.shape == (L.n,), msg + ' of the wrong size', **data)
        s = 1. + np.max(np.abs(c)) + abs(r)
        dist = np.min((L.b[k] - L.A[k].dot(c))/norms[k]) if np.any(k) else r
        ctx.require(dist >= r - 1e-5*s, msg + ' at distance %g, the radius is %g' % (dist, r), **data)
        if L.C.shape[0]:
            ctx.require(np.max(np.abs(L.C.dot(c) - L.d)) <= 1e-5*s*max(1., np.max(np.abs(L.C))), msg + ' off the equalities', **data)
    elif q == 'vertices':
        s = 1. + np.max(np.abs(want))
        h = oracle.hausdorff(got, want) if got.shape[1:] == want.shape[1:] else np.inf
        if h > 1e-4*s and L.A.shape[0] < 60:
            # rows equal up to rounding can mislead Qhull (that is C07's concern): is the fresh answer the true one?
            true, clean = oracle.vertices(L.A, L.b, L.C, L.d)
            if len(true) == 0 or oracle.hausdorff(true, want) > 1e-4*s:
                ctx.ev('not decisive')
                return
        ctx.require(h <= 1e-4*s, msg + ' %g away from those of a fresh one' % h, **data)


def audit(rng, ctx, pool, Polyhedron, history, changed):
    for L in pool:
        if not L.decisive():
            ctx.ev('not decisive')
            continue
        qs = [QUERIES[i] for i in rng.permutation(len(QUERIES))]
        qs = qs[:int(rng.integers(2, len(QUERIES)+1))]
        if L not in changed:
            if rng.random() < .5:
                continue
            ctx.ev('other live polyhedra compared')
        if rng.random() < .3:
            qs = qs + qs[:2]
        F = L.fresh(Polyhedron)
        for q in qs:
            x = None
            other = None
            if q == 'contains':
                x = (L.x0 if L.x0 is not None else np.zeros(L.n)) + rng.standard_normal(L.n)*gens.choice(rng, [.05, .7, 2.])
                if L.C.shape[0]:
                    N = np.linalg.svd(L.C)[2][L.C.shape[0]:].T
                    base = np.linalg.lstsq(L.C, L.d, rcond=None)[0]
                    x = base + N.dot(N.T.dot(x - base))
                An, bn = oracle.normalize(L.A, L.b)
                m = np.max(An.dot(x) - bn) if L.A.shape[0] else -1.
                if abs(m) < 1e-3:
                    continue
                want = m < 0.
                got = answer(ctx, L.p, q, x, None)
                compare(ctx, L, Polyhedron, q, got, want, history, x)
                continue
            if q == 'included':
                # in a relaxation of itself, or in a cut of itself
                if L.A.shape[0] == 0:
                    continue
                out = rng.random() < .5
                bb = L.b + (.5 if out else -.05)*np.linalg.norm(L.A, axis=1)
                other = Polyhedron(L.A.copy(), bb)
                r, _ = gens.subspace_depth(L.A, L.b, L.C, L.d)
                if out or r < 0.:
                    want = True
                else:
                    w = oracle.included(L.A, L.b, L.C, L.d, L.A, bb, None, None)
                    if w < 1e-3:
                        continue
                    want = False
                got = answer(ctx, L.p, q, x, other)
                compare(ctx, L, Polyhedron, q, got, want, history, None)
                continue
            if q == 'vertices' and L.n > 3:
                continue
            want = answer(ctx, F, q, x, other)
            got = answer(ctx, L.p, q, x, other)
            if q in L.asked:
                ctx.ev('answers after a cached answer')
            L.asked.add(q)
            compare(ctx, L, Polyhedron, q, got, want, history, x)


def start(rng, ctx, Polyhedron):
    n = int(gens.choice(rng, [1, 2, 3], [.25, .5, .25]))
    kind = gens.choice(rng, ['polytope', 'polytope', 'unbounded', 'subspace', 'empty'], [.4, .2, .2, .15, .05])
    C, d, x0 = np.zeros((0, n)), np.zeros(0), None
    if kind == 'unbounded':
        A, b, x0, ray = gens.unbounded(rng, n)
        M = oracle.normalize(A, b)[0]
        if M.shape[0] >= n and np.linalg.svd(M)[1][n-1] < 1e-3:
            raise Skip('kernel up to rounding')
    elif kind == 'empty':
        A, b, _, _ = gens.infeasible(rng, n)
    else:
        A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 3)), kind=gens.choice(rng, ['box', 'gauss', 'simplex']))
        if kind == 'subspace' and n > 1:
            C, d = gens.equalities(rng, n, 1, x0, kind='gauss')
    p = ctx.call(Polyhedron, A.copy(), b.copy(), C.copy(), d.copy()) if C.shape[0] else ctx.call(Polyhedron, A.copy(), b.copy())
    return Live(p, A, b, C, d, x0, kind)


def mutate(rng, ctx, L):
    """Adds constraints through or away from x0; returns the name of the operation."""
    n = L.n
    x0 = L.x0 if L.x0 is not None else rng.standard_normal(n)
    how = gens.choice(rng, ['inequality', 'inequality i', 'bounds', 'lower i', 'upper i', 'upper', 'lower', 'equality', 'equality i', 'cut', 'kill'],
                      [.15, .1, .12, .08, .08, .06, .06, .12, .06, .12, .05])
    k = int(rng.integers(1, n+1))
    ind = [int(i) for i in rng.permutation(n)[:k]]
    I = np.eye(n)
    w = rng.uniform(.15, 1.5, n)
    if how in ('inequality', 'cut'):
        a = rng.standard_normal((1 if how == 'cut' else int(rng.integers(1, 3)), n))
        r = a.dot(x0) + (.1 if how == 'cut' else rng.uniform(.15, 1.5))*np.linalg.norm(a, axis=1)
        ctx.call(L.p.add_inequality, a, r)
        L.A, L.b = np.vstack((L.A, a)), np.concatenate((L.b, r))
    elif how == 'inequality i':
        a = rng.standard_normal((1, k))
        r = a.dot(x0[ind]) + rng.uniform(.15, 1.5, 1)*np.linalg.norm(a)
        ctx.call(L.p.add_inequality, a, r, ind)
        L.A, L.b = np.vstack((L.A, a.dot(I[ind]))), np.concatenate((L.b, r))
    elif how == 'bounds':
        ctx.call(L.p.add_bounds, x0 - w, x0 + w)
        L.A, L.b = np.vstack((L.A, -I, I)), np.concatenate((L.b, -(x0-w), x0+w))
    elif how in ('lower', 'lower i'):
        if how == 'lower':
            ind = list(range(n))
        args = (x0[ind] - w[ind],) + ((ind,) if how == 'lower i' else ())
        ctx.call(L.p.add_lower_bound, *args)
        L.A, L.b = np.vstack((L.A, -I[ind])), np.concatenate((L.b, -(x0-w)[ind]))
    elif how in ('upper', 'upper i'):
        if how == 'upper':
            ind = list(range(n))
        args = (x0[ind] + w[ind],) + ((ind,) if how == 'upper i' else ())
        ctx.call(L.p.add_upper_bound, *args)
        L.A, L.b = np.vstack((L.A, I[ind])), np.concatenate((L.b, (x0+w)[ind]))
    elif how in ('equality', 'equality i'):
        if L.C.shape[0] + 1 >= n:
            raise Skip('no room for equalities')
        if how == 'equality':
            c = rng.standard_normal((1, n))
            r = c.dot(x0)
            ctx.call(L.p.add_equality, c, r)
        else:
            e = rng.standard_normal((1, k))
            r = e.dot(x0[ind])
            ctx.call(L.p.add_equality, e, r, ind)
            c = e.dot(I[ind])
        L.C, L.d = np.vstack((L.C, c)), np.concatenate((L.d, r))
    else:
        # empties it
        a = rng.standard_normal((1, n))
        r = a.dot(x0)
        A2, b2 = np.vstack((a, -a)), np.concatenate((r - 1., -r - 1.))
        ctx.call(L.p.add_inequality, A2, b2)
        L.A, L.b = np.vstack((L.A, A2)), np.concatenate((L.b, b2))
        L.x0 = None
    return how


def history(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    pool = [start(rng, ctx, Polyhedron)]
    if rng.random() < .4:
        pool.append(start(rng, ctx, Polyhedron))
    past = [L.origin for L in pool]
    audit(rng, ctx, pool, Polyhedron, past, set(pool))
    for _ in range(int(rng.integers(4, 15))):
        L = pool[int(rng.integers(len(pool)))]
        op = gens.choice(rng, ['mutate', 'reduce', 'normalise', 'copy', 'deepcopy', 'intersection', 'product', 'project', 'query', 'plain'],
                         [.38, .1, .1, .08, .04, .08, .05, .05, .07, .05])
        changed = set()
        i = pool.index(L)
        if op == 'mutate':
            try:
                name = mutate(rng, ctx, L)
            except Skip:
                continue
            changed.add(L)
            ctx.ev('mutations')
            op = 'add ' + name
        elif op == 'reduce':
            if not L.decisive():
                continue
            if L.fresh(Polyhedron).empty:
                ctx.rejects(ValueError, L.p.remove_redundant_inequalities)
                op = 'reduce (refused)'
            else:
                ctx.call(L.p.remove_redundant_inequalities)
            changed.add(L)
            ctx.ev('mutations')
        elif op == 'normalise':
            ctx.call(L.p.normalize)
            changed.add(L)
            ctx.ev('mutations')
        elif op in ('copy', 'deepcopy'):
            if len(pool) >= 5:
                continue
            q = (copy.copy if op == 'copy' else copy.deepcopy)(L.p)
            M = Live(q, L.A, L.b, L.C, L.d, L.x0, op)
            M.asked = set(L.asked)
            pool.append(M)
            changed.add(M)
        elif op == 'intersection':
            same = [M for M in pool if M.n == L.n and M.C.shape[0] + L.C.shape[0] < L.n]
            if not same or len(pool) >= 5:
                continue
            M = same[int(rng.integers(len(same)))]
            q = ctx.call(L.p.intersection, M.p)
            A, b = np.vstack((M.A, L.A)), np.concatenate((M.b, L.b))
            C, d = np.vstack((M.C, L.C)), np.concatenate((M.d, L.d))
            x0 = L.x0 if L is M or M.x0 is None or L.x0 is None or np.allclose(L.x0, M.x0) else None
            R = Live(q, A, b, C, d, x0, op)
            pool.append(R)
            changed.add(R)
            i = (i, pool.index(M))
        elif op == 'product':
            small = [M for M in pool if M.n + L.n <= 3]
            if not small or len(pool) >= 5:
                continue
            M = small[int(rng.integers(len(small)))]
            q = ctx.call(L.p.cartesian_product, M.p)
            from scipy.linalg import block_diag
            Z = lambda E, F: np.vstack((np.hstack((E, np.zeros((E.shape[0], F.shape[1])))), np.hstack((np.zeros((F.shape[0], E.shape[1])), F))))
            x0 = None if L.x0 is None or M.x0 is None else np.concatenate((L.x0, M.x0))
            R = Live(q, Z(L.A, M.A), np.concatenate((L.b, M.b)), Z(L.C, M.C), np.concatenate((L.d, M.d)), x0, op)
            pool.append(R)
            changed.add(R)
        elif op == 'project':
            if not L.decisive() or L.C.shape[0] or len(pool) >= 5 or L.A.shape[0] == 0:
                continue
            F = L.fresh(Polyhedron)
            if F.empty or not F.bounded:
                ctx.rejects(ValueError, L.p.project_to, [0])
                continue
            k = int(rng.integers(1, L.n+1))
            dims = [int(j) for j in rng.permutation(L.n)[:k]]
            q = ctx.call(L.p.project_to, dims)
            R = Live(q, q.A, q.b, q.C, q.d, None if L.x0 is None else L.x0[dims], op)
            pool.append(R)
            changed.add(R)
        elif op == 'query':
            for q in [QUERIES[j] for j in rng.permutation(5)[:3]]:
                if L.decisive():
                    answer(ctx, L.p, q, None, None)
                    L.asked.add(q)
        else:
            if L.decisive():
                ctx.call(L.p.minimal_facets)
        past.append('%s %s' % (op, i))
        audit(rng, ctx, pool, Polyhedron, past, changed)
    ctx.sig(tuple(past))
    ctx.note(history=past, live=len(pool))


SCENARIOS = [('history', 1, history)]
