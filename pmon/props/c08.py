"""C08: redundancy removal and normalisation."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip

ID = 'C08'
RULE = ('descriptions with duplicated, scaled, implied, weakly redundant and degenerate rows, with and without equalities, bounded, unbounded, flat and empty; '
        'the reduced description must be a subset of the given rows, describe the same set (one LP per dropped row) and contain no row that can be dropped '
        '(one LP per kept row); normalisation must return positive multiples of the given rows, in the same order; distinct by kind, shape, rows kept.')
QUICK = 24000
THOROUGH = 80000
FLOORS = {'reductions confirmed': 1200, 'empty confirmed': 200, 'normalisations confirmed': 700, 'rows dropped': 3000, 'rows kept': 6000}
CPU_LIMIT = 60.


def rows_equal(A, b, Ar, br):
    return A.shape == Ar.shape and b.shape == br.shape and np.array_equal(A, Ar) and np.array_equal(b, br)


def match_subset(A, b, Ar, br):
    """Indices (in order) of the rows of (A, b) that make up (Ar, br), None if they do not."""
    out = []
    used = set()
    for a, r in zip(Ar, br):
        k = [i for i in range(A.shape[0]) if i not in used and np.allclose(A[i], a, rtol=1e-12, atol=1e-14) and abs(b[i]-r) <= 1e-12*(1.+abs(r))]
        if not k:
            return None
        used.add(k[0])
        out.append(k[0])
    return out


def reduction(rng, ctx, A, b, C, d, kind, size=None):
    from pympc.geometry.polyhedron import Polyhedron
    p = ctx.call(Polyhedron, A.copy(), b.copy()) if C is None else ctx.call(Polyhedron, A.copy(), b.copy(), C.copy(), d.copy())
    data = dict(kind=kind, A=A, b=b, C=C, d=d)
    how = gens.choice(rng, ['facets', 'remove', 'both', 'queried'])
    if how == 'queried':
        ctx.call(lambda: (p.empty, p.bounded))
    if how == 'facets':
        keep = ctx.call(p.minimal_facets)
        ctx.require(keep is not None, 'the polyhedron is not empty but has no minimal facets', **data)
        ctx.require(rows_equal(p.A, p.b, A, b), 'asking for the minimal facets altered the inequalities', **data)
    else:
        if how == 'both':
            keep = ctx.call(p.minimal_facets)
            ctx.require(keep is not None, 'the polyhedron is not empty but has no minimal facets', **data)
        ctx.call(p.remove_redundant_inequalities)
        sub = match_subset(A, b, np.asarray(p.A, dtype=float), np.asarray(p.b, dtype=float))
        ctx.require(sub is not None, 'the reduced inequalities are not a subset of the given ones', reduced_A=p.A, reduced_b=p.b, **data)
        if how == 'both':
            ctx.require(len(sub) == len(keep), 'minimal facets and reduction disagree: %s and %s' % (keep, sub), **data)
        keep = sub
    ctx.require(np.array_equal(p.C, np.zeros((0, A.shape[1])) if C is None else C) and np.array_equal(p.d, np.zeros(0) if C is None else d),
                'the equalities were altered', **data)
    keep = [int(i) for i in keep]
    data['kept'] = keep
    ctx.require(len(set(keep)) == len(keep) and all(0 <= i < A.shape[0] for i in keep), 'the minimal facets are not a set of row indices', **data)
    An, bn = oracle.normalize(A, b)
    scale = 1. + np.max(np.abs(bn)) if bn.size else 1.
    if size is not None:
        scale = size
    # same set
    for i in range(A.shape[0]):
        if i in keep or np.linalg.norm(A[i]) < 1e-9:
            continue
        s = oracle.support(An[i], An[keep], bn[keep], C, d) if len(keep) or C is not None else None
        ctx.require(s is not None and s <= bn[i] + 1e-5*scale + 2e-7/np.linalg.norm(A[i]), 'row %d was dropped but the set without it is larger (by %s)' % (i, None if s is None else s - bn[i]), **data)
        ctx.ev('rows dropped')
    # minimal
    for i in keep:
        others = [j for j in keep if j != i]
        if not others and (C is None or C.shape[0] == 0):
            ctx.require(np.linalg.norm(A[i]) > 1e-9, 'a zero row was kept', **data)
            ctx.ev('rows kept')
            continue
        s = oracle.support(An[i], An[others], bn[others], C, d)
        # weakly redundant rows are told from facets only if the LP solver can: not next to long rows
        slack = 1e-9 if np.max(np.linalg.norm(A, axis=1)) <= 50. else -1e-5*scale
        ctx.require(s is None or s - bn[i] > slack, 'row %d was kept but is implied by the others (margin %s)' % (i, None if s is None else bn[i] - s), **data)
        ctx.ev('rows kept')
    ctx.ev('reductions confirmed')
    ctx.sig(kind, how, A.shape, 0 if C is None else C.shape[0], len(keep))
    ctx.note(kind=kind, A=A, b=b, C=C, d=d, kept=keep)


def size(rng):
    return int(gens.choice(rng, [1, 2, 3, 4, 5], [.15, .3, .25, .2, .1]))


def polytope(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n)
    if rng.random() < .8:
        A, b = gens.redundancy(rng, A, b, x0)
    if rng.random() < .15:
        A, b = np.vstack((A, np.zeros((1, n)))), np.append(b, gens.choice(rng, [0., .5]))
        A, b = gens.permuted(rng, A, b)
    C = d = None
    if n > 1 and rng.random() < .4:
        C, d = gens.equalities(rng, n, int(rng.integers(1, min(n, 4))), x0)
    if rng.random() < .2 and C is None:
        w = gens.choice(rng, [3, 3, 7, 11, 14])
        s = 2.**rng.integers(-w, (w if n < 3 else min(w, 7))+1, A.shape[0])
        A, b = A*s[:, None], b*s
    reduction(rng, ctx, A, b, C, d, 'polytope')


def unbounded(rng, ctx):
    n = size(rng)
    A, b, x0, ray = gens.unbounded(rng, n, m=int(rng.integers(1, 2*n+3)))
    A, b = A[np.linalg.norm(A, axis=1) > 1e-3], b[np.linalg.norm(A, axis=1) > 1e-3]
    if not A.shape[0]:
        raise Skip('no rows')
    if rng.random() < .7:
        A, b = gens.redundancy(rng, A, b, x0)
    C = d = None
    if n > 1 and rng.random() < .3:
        C, d = gens.equalities(rng, n, 1, x0)
    reduction(rng, ctx, A, b, C, d, 'unbounded')


def constant_rows(rng, ctx):
    """Inequalities that the equalities make constant."""
    n = max(2, size(rng))
    x0 = rng.integers(-2, 3, n).astype(float)
    i = int(rng.integers(n))
    I = np.eye(n)
    A = np.vstack((I, -I))
    b = np.concatenate((x0 + rng.integers(1, 3, n), -x0 + rng.integers(1, 3, n)))
    C, d = I[[i]], x0[[i]]
    A, b = gens.permuted(rng, A, b)
    reduction(rng, ctx, A, b, C, d, 'constant rows')


def small(rng, ctx):
    """Small sets with rows that cut little of them: the tolerance is a distance."""
    n = int(gens.choice(rng, [2, 3, 4], [.5, .35, .15]))
    A, b, x0 = gens.polytope(rng, n, kind=gens.choice(rng, ['box', 'gauss', 'simplex']), center=rng.standard_normal(n)*gens.choice(rng, [0., 1.]))
    A, b = oracle.normalize(A, b)
    # rows that cut an extreme point
    for _ in range(int(rng.integers(1, 4))):
        a = rng.standard_normal(n)
        a /= np.linalg.norm(a)
        s = oracle.support(a, A, b)
        A, b = np.vstack((A, a)), np.append(b, s + rng.uniform(1e-3, 3e-2)*gens.choice(rng, [-1., -1., 1.]))
    A, b = gens.permuted(rng, A, b)
    s = 10.**rng.uniform(-3., 0.)
    reduction(rng, ctx, A, b*s, None, None, 'small', s)


def flat(rng, ctx):
    n = size(rng)
    A, b, x0 = gens.polytope(rng, n, kind='box', center=rng.integers(-2, 3, n))
    i = int(rng.integers(n))
    e = np.eye(n)[[i]]
    A, b = np.vstack((A, e, -e)), np.concatenate((b, [x0[i], -x0[i]]))
    A, b = gens.permuted(rng, A, b)
    reduction(rng, ctx, A, b, None, None, 'flat')


def empty(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = size(rng)
    A, b, C, d = gens.infeasible(rng, n, rng.random() < .3)
    p = ctx.call(Polyhedron, A.copy(), b.copy()) if C is None else ctx.call(Polyhedron, A.copy(), b.copy(), C.copy(), d.copy())
    data = dict(A=A, b=b, C=C, d=d)
    if rng.random() < .5:
        k = ctx.call(p.minimal_facets)
        ctx.require(k is None, 'minimal facets of an empty polyhedron: %s' % k, **data)
    ctx.rejects(ValueError, p.remove_redundant_inequalities)
    ctx.require(rows_equal(p.A, p.b, A, b), 'the empty polyhedron was altered', **data)
    if C is not None:
        ctx.require(rows_equal(p.C, p.d, C, d), 'the empty polyhedron was altered', **data)
    ctx.ev('empty confirmed')
    ctx.sig('empty', A.shape, 0 if C is None else C.shape[0])


def normalise(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = size(rng)
    integer = rng.random() < .3
    m, k = int(rng.integers(0, 7)), int(rng.integers(0, 4))
    if integer:
        A, b = rng.integers(-4, 5, (m, n)), rng.integers(-4, 5, m)
        C, d = rng.integers(-4, 5, (k, n)), rng.integers(-4, 5, k)
    else:
        A, b = gens.scaled(rng, rng.standard_normal((m, n)), rng.standard_normal(m), -5., 5.)
        C, d = gens.scaled(rng, rng.standard_normal((k, n)), rng.standard_normal(k), -5., 5.)
        if m and rng.random() < .4:
            A[int(rng.integers(m))] = 0.
        if m and rng.random() < .3:
            A[int(rng.integers(m))] = 1e-9*rng.standard_normal(n)
    tol = gens.choice(rng, [None, None, None, 1e-7, 1e-4, 1e-12])
    t = 1e-7 if tol is None else tol
    p = ctx.call(Polyhedron, A.copy(), b.copy(), C.copy(), d.copy())
    if tol is None:
        ctx.call(p.normalize)
    else:
        ctx.call(p.normalize, tol)
    data = dict(A=A, b=b, C=C, d=d, tol=tol, A2=p.A, b2=p.b, C2=p.C, d2=p.d)
    for E, e, E2, e2, what in ((A, b, p.A, p.b, 'inequality'), (C, d, p.C, p.d, 'equality')):
        E2, e2 = np.asarray(E2, dtype=float), np.asarray(e2, dtype=float)
        ctx.require(E2.shape == E.shape and e2.shape == e.shape, 'normalisation changed the number of rows', **data)
        for i in range(E.shape[0]):
            s = np.linalg.norm(E[i])
            if s > 1.01*t and s > 0.:
                ctx.require(abs(np.linalg.norm(E2[i]) - 1.) <= 1e-9, '%s %d has norm %r after normalisation' % (what, i, np.linalg.norm(E2[i])), **data)
                ctx.require(np.max(np.abs(E2[i]*s - E[i])) <= 1e-9*s and abs(e2[i]*s - e[i]) <= 1e-9*(s + abs(e[i])),
                            '%s %d is not a positive multiple of the given one' % (what, i), **data)
            else:
                # negligible: whatever the scaling, the same half-space
                lam = np.linalg.norm(E2[i])/s if s > 0. else (e2[i]/e[i] if e[i] != 0. else 1.)
                ctx.require(lam > 0. and np.isfinite(lam) and np.max(np.abs(E2[i] - lam*E[i])) <= 1e-9*max(lam*s, 1e-300) + 0.
                            and abs(e2[i] - lam*e[i]) <= 1e-9*abs(lam*e[i]), 'the negligible %s %d was altered' % (what, i), **data)
    ctx.ev('normalisations confirmed')
    ctx.sig('normalise', integer, A.shape, C.shape, tol)


SCENARIOS = [('polytope', 5, polytope), ('unbounded', 2, unbounded), ('constant rows', .5, constant_rows), ('flat', .7, flat), ('small', 1., small),
             ('empty', 1., empty), ('normalise', 3, normalise)]
