"""C04: a polyhedron is exactly the set its constraints describe."""
import numpy as np
import sympy as sp

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C04'
RULE = ('random construction programs (constructor, from_* builders, add_* with and without indices in any order, symbolic expressions over shuffled '
        'symbols, scalar bounds, interleaved queries) with a shadow list of the constraints kept by the harness; membership of random, boundary and '
        'just-outside points with several tolerances compared with the shadow; distinct by sequence of operations, dimension and verdicts.')
QUICK = 20000
THOROUGH = 150000
FLOORS = {'inside confirmed': 15000, 'outside confirmed': 15000, 'on the boundary': 4000, 'just outside': 4000, 'built from selected components': 2000, 'built from symbols': 500}
CPU_LIMIT = 60.


class Shadow(object):
    """Constraints as given: rows (a, r, equality)."""

    def __init__(self, n):
        self.n = n
        self.rows = []

    def ineq(self, A, b):
        for a, r in zip(A, b):
            self.rows.append((np.asarray(a, dtype=float), float(r), False))

    def eq(self, C, d):
        for a, r in zip(C, d):
            self.rows.append((np.asarray(a, dtype=float), float(r), True))

    def residuals(self, x):
        """Raw and normalised residual of each row."""
        out = []
        for a, r, e in self.rows:
            v = a.dot(x) - r
            v = abs(v) if e else v
            out.append((v, v/max(np.linalg.norm(a), 1e-12)))
        return np.array(out).reshape(-1, 2)


def expand(A, indices, n):
    out = np.zeros((A.shape[0], n))
    for k, i in enumerate(indices):
        out[:, i] += A[:, k]
    return out


def indices_for(rng, n):
    k = int(rng.integers(1, n+1))
    ind = [int(i) for i in rng.permutation(n)[:k]]
    if rng.random() < .1:
        # the same component more than once, as numpy indexing allows
        ind = [int(i) for i in rng.integers(n, size=int(rng.integers(1, n+2)))]
    how = gens.choice(rng, ['list', 'tuple', 'array', 'sorted'])
    if how == 'tuple':
        return tuple(ind), ind
    if how == 'array':
        return np.array(ind), ind
    if how == 'sorted':
        return sorted(ind), sorted(ind)
    return ind, ind


def ints(rng, *shape):
    return rng.integers(-3, 4, shape)


def matrix(rng, m, n):
    k = rng.random()
    if k < .25:
        return ints(rng, m, n).astype(float)
    A = rng.standard_normal((m, n))
    if k < .5:
        A *= gens.row_scales(rng, m, -2., 2.)[:, None]
    elif k < .65:
        A *= (rng.random((m, n)) < .5)
    return A


def symbolic(rng, n, A, b):
    """The constraints A x - b as a sympy expression in n symbols declared in some order, terms in another."""
    x = sp.Matrix([sp.Symbol('s%d' % i) for i in rng.permutation(n)])
    rows = []
    for a, r in zip(A, b):
        t = [sp.Float(a[i])*x[i] if rng.random() < .7 else sp.Rational(float(a[i]))*x[i] for i in rng.permutation(n)]
        e = sum(t, sp.Integer(0)) - sp.Float(r)
        if rng.random() < .2:
            e = 2*e - e
        rows.append(e)
    return x, sp.Matrix(rows)


def build(rng, ctx, Polyhedron, n, x0, ops):
    """Starts a polyhedron around x0; returns it with its shadow."""
    S = Shadow(n)
    how = gens.choice(rng, ['matrices', 'matrices+eq', 'lower', 'upper', 'bounds', 'lower i', 'upper i', 'bounds i', 'symbolic', 'symbolic+eq', 'hullfree'])
    ops.append(how)
    m = int(rng.integers(0, 4))
    if how in ('matrices', 'matrices+eq', 'hullfree'):
        A = matrix(rng, m, n)
        b = A.dot(x0) + rng.uniform(0., 2., m)*np.linalg.norm(A, axis=1)
        S.ineq(A, b)
        if how == 'matrices+eq':
            k = int(rng.integers(0, 3))
            C = matrix(rng, k, n)
            d = C.dot(x0)
            S.eq(C, d)
            p = ctx.call(Polyhedron, A, b, C, d)
        else:
            p = ctx.call(Polyhedron, A, b)
    elif how.startswith('symbolic'):
        m = max(m, 1)
        A = matrix(rng, m, n)
        b = A.dot(x0) + rng.uniform(0., 2., m)*np.linalg.norm(A, axis=1)
        x, e = symbolic(rng, n, A, b)
        S.ineq(A, b)
        ctx.ev('built from symbols')
        if how == 'symbolic+eq':
            C = matrix(rng, 1, n)
            d = C.dot(x0)
            _, q = symbolic(rng, n, C, d)
            q = q.subs({a: c for a, c in zip(_, x)}, simultaneous=True)
            S.eq(C, d)
            p = ctx.call(Polyhedron.from_symbolic, x, e, q)
        else:
            p = ctx.call(Polyhedron.from_symbolic, x, e)
    else:
        if how.endswith(' i'):
            given, ind = indices_for(rng, n)
            kw = {'indices': given, 'n': n}
            ctx.ev('built from selected components')
        else:
            ind, kw = list(range(n)), {}
        lo = x0[ind] - rng.uniform(0., 2., len(ind))
        hi = x0[ind] + rng.uniform(0., 2., len(ind))
        I = np.eye(n)[ind]
        args = []
        if how.startswith('lower') or how.startswith('bounds'):
            S.ineq(-I, -lo)
            args.append(lo)
        if how.startswith('upper') or how.startswith('bounds'):
            S.ineq(I, hi)
            args.append(hi)
        fn = {'l': Polyhedron.from_lower_bound, 'u': Polyhedron.from_upper_bound, 'b': Polyhedron.from_bounds}[how[0]]
        if how.endswith(' i') and rng.random() < .3:
            p = ctx.call(fn, *(args + [kw['indices'], n]))
        else:
            p = ctx.call(fn, *args, **kw)
    return p, S


def extend(rng, ctx, p, S, x0, ops):
    n = S.n
    how = gens.choice(rng, ['ineq', 'ineq i', 'eq', 'eq i', 'lower', 'lower i', 'upper', 'upper i', 'bounds', 'bounds i', 'scalar', 'sym ineq', 'sym eq'])
    ops.append(how)
    kw = {}
    ind = list(range(n))
    if how.endswith(' i'):
        given, ind = indices_for(rng, n)
        kw = {'indices': given}
        ctx.ev('built from selected components')
    m = int(rng.integers(1, 4))
    if how.startswith('ineq') or how == 'sym ineq':
        A = matrix(rng, m, len(ind))
        b = A.dot(x0[ind]) + rng.uniform(0., 2., m)*np.linalg.norm(A, axis=1)
        S.ineq(expand(A, ind, n), b)
        if how == 'sym ineq':
            ctx.ev('built from symbols')
            ctx.call(p.add_symbolic_inequality, *symbolic(rng, n, A, b))
        else:
            ctx.call(p.add_inequality, A, b, **kw)
    elif how.startswith('eq') or how == 'sym eq':
        m = int(rng.integers(1, 3))
        C = matrix(rng, m, len(ind))
        d = C.dot(x0[ind])
        S.eq(expand(C, ind, n), d)
        if how == 'sym eq':
            ctx.ev('built from symbols')
            ctx.call(p.add_symbolic_equality, *symbolic(rng, n, C, d))
        else:
            ctx.call(p.add_equality, C, d, **kw)
    elif how == 'scalar':
        i = int(rng.integers(n))
        v = float(x0[i]) + rng.uniform(0., 2.)
        w = float(x0[i]) - rng.uniform(0., 2.)
        I = np.eye(n)[[i]]
        k = gens.choice(rng, ['up', 'lo', 'both'])
        if k != 'lo':
            S.ineq(I, [v])
        if k != 'up':
            S.ineq(-I, [-w])
        if k == 'up':
            ctx.call(p.add_upper_bound, v, [i])
        elif k == 'lo':
            ctx.call(p.add_lower_bound, w, [i])
        else:
            ctx.call(p.add_bounds, w, v, [i])
    else:
        lo = x0[ind] - rng.uniform(0., 2., len(ind))
        hi = x0[ind] + rng.uniform(0., 2., len(ind))
        I = np.eye(n)[ind]
        if how.startswith('lower'):
            S.ineq(-I, -lo)
            ctx.call(p.add_lower_bound, lo, **kw)
        elif how.startswith('upper'):
            S.ineq(I, hi)
            ctx.call(p.add_upper_bound, hi, **kw)
        else:
            S.ineq(-I, -lo)
            S.ineq(I, hi)
            ctx.call(p.add_bounds, lo, hi, **kw)


def membership(rng, ctx, p, S, x, tol, data):
    """Compares with the shadow when the verdict does not depend on rounding or on the scaling of the rows."""
    kw = {} if tol is None else {'tol': tol}
    t = 1e-7 if tol is None else tol
    r = S.residuals(x)
    eps = 1e-11*(1. + np.max(np.abs(x)))*10. + 1e-4*t
    got = ctx.call(p.contains, x, **kw)
    ctx.require(isinstance(got, (bool, np.bool_)), 'contains returned %r' % (got,), x=x, **data)
    if r.shape[0] == 0 or np.max(r) <= t - eps:
        ctx.require(bool(got), 'the point satisfies all the constraints (largest residual %g, tolerance %g) but is not contained' % (np.max(r) if r.size else 0., t), x=x, **data)
        ctx.ev('inside confirmed')
    elif np.any(np.min(r, axis=1) >= t + eps):
        i = int(np.argmax(np.min(r, axis=1)))
        ctx.require(not bool(got), 'the point violates constraint %s by %g (tolerance %g) but is contained' % (i, r[i, 0], t), x=x, row=S.rows[i], **data)
        ctx.ev('outside confirmed')
    else:
        ctx.ev('membership undecided')
    return bool(got)


def points(rng, S, x0):
    """Random points, points on the boundary of chosen rows, and points slightly beyond one row."""
    n = S.n
    out = [('base', x0)]
    C = np.array([a for a, r, e in S.rows if e]).reshape(-1, n)
    Z = np.eye(n)
    if C.shape[0]:
        u, s, vt = np.linalg.svd(C)
        rank = int(np.sum(s > 1e-9*max(1., s[0])))
        Z = vt[rank:].T
    for _ in range(5):
        out.append(('random', x0 + rng.standard_normal(n)*gens.choice(rng, [1e-2, .5, 3.])))
        if Z.shape[1]:
            out.append(('in subspace', x0 + Z.dot(rng.standard_normal(Z.shape[1]))*gens.choice(rng, [1e-2, .5, 3.])))
    ineq = [(a, r) for a, r, e in S.rows if not e]
    if ineq and Z.shape[1]:
        for _ in range(4):
            # walk from x0 along the subspace until the first row becomes tight
            v = Z.dot(rng.standard_normal(Z.shape[1]))
            v /= max(np.linalg.norm(v), 1e-9)
            speed = np.array([a.dot(v) for a, r in ineq])
            slack = np.array([r - a.dot(x0) for a, r in ineq])
            with np.errstate(divide='ignore', invalid='ignore'):
                t = np.where(speed > 1e-6*np.array([max(np.linalg.norm(a), 1e-9) for a, r in ineq]), slack/speed, np.inf)
            k = np.min(t)
            if np.isfinite(k) and k < 1e3:
                out.append(('boundary', x0 + k*v))
                out.append(('beyond', x0 + (k + gens.choice(rng, [1e-5, 1e-3, .1]))*v))
    for a, r, e in S.rows:
        if e and rng.random() < .5:
            # off one equality, on either side
            N = np.vstack([c for c in C])
            g = np.linalg.lstsq(N, np.array([1. if c is a else 0. for c, _, q in S.rows if q]), rcond=None)[0]
            out.append(('off equality', x0 + gens.choice(rng, [-1., 1.])*gens.choice(rng, [1e-5, 1e-3, 1.])*g))
    return out


def program(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(1, 6))
    x0 = rng.standard_normal(n) if rng.random() < .6 else ints(rng, n).astype(float)
    ops = []
    p, S = build(rng, ctx, Polyhedron, n, x0, ops)
    for _ in range(int(rng.integers(0, 4))):
        if rng.random() < .3:
            # queries in between must not freeze anything
            ctx.call(gens.choice(rng, [lambda: p.empty, lambda: p.contains(x0), lambda: p.bounded]))
        extend(rng, ctx, p, S, x0, ops)
    data = dict(ops=ops, rows=[(a.tolist(), r, e) for a, r, e in S.rows])
    if rng.random() < .25:
        # permuted twin
        k = rng.permutation(len(S.rows))
        rows = [S.rows[i] for i in k]
        A = np.array([a for a, r, e in rows if not e]).reshape(-1, n)
        b = np.array([r for a, r, e in rows if not e])
        C = np.array([a for a, r, e in rows if e]).reshape(-1, n)
        d = np.array([r for a, r, e in rows if e])
        twin = ctx.call(Polyhedron, A, b, C, d)
    else:
        twin = None
    verdicts = []
    for kind, x in points(rng, S, x0):
        tol = gens.choice(rng, [None, None, None, 1e-9, 1e-4, 1e-2, .5, 0.]) if kind != 'boundary' else gens.choice(rng, [None, None, 1e-4])
        if kind == 'boundary':
            ctx.ev('on the boundary')
        if kind in ('beyond', 'off equality'):
            ctx.ev('just outside')
        verdicts.append(membership(rng, ctx, p, S, x, tol, data))
        if twin is not None:
            membership(rng, ctx, twin, S, x, tol, data)
    ctx.sig(tuple(ops), n, sum(verdicts), len(verdicts))
    ctx.note(ops=ops, n=n, rows=len(S.rows), inside=sum(verdicts), queried=len(verdicts))


def integer_data(rng, ctx):
    """Integer arrays, as a user types them."""
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(1, 4))
    x0 = ints(rng, n)
    m = int(rng.integers(1, 5))
    A = ints(rng, m, n)
    b = A.dot(x0) + rng.integers(0, 4, m)
    C = ints(rng, int(rng.integers(0, 3)), n)
    d = C.dot(x0)
    S = Shadow(n)
    S.ineq(A, b)
    S.eq(C, d)
    p = ctx.call(Polyhedron, A, b, C, d)
    if rng.random() < .5:
        lo, hi = x0 - rng.integers(0, 3, n), x0 + rng.integers(0, 3, n)
        S.ineq(-np.eye(n), -lo)
        S.ineq(np.eye(n), hi)
        ctx.call(p.add_bounds, lo, hi)
    data = dict(ops=['integer'], rows=[(a.tolist(), r, e) for a, r, e in S.rows])
    if rng.random() < .4:
        ctx.call(p.normalize)
    count = 0
    for _ in range(25):
        x = x0 + rng.integers(-3, 4, n)
        count += membership(rng, ctx, p, S, x, None, data)
        count += membership(rng, ctx, p, S, x + rng.choice([-.5, 0., .5], n), None, data)
    ctx.sig('integer', n, m, C.shape[0], count)


SCENARIOS = [('program', 5, program), ('integer data', 1, integer_data)]
