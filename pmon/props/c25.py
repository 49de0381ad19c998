"""C25: no call modifies its arguments, and answers are repeatable."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip
from pmon.world import World, fresh, same_points

ID = 'C25'
RULE = ('random histories of 10-25 public calls over objects that share arrays (float, integer and read-only): polyhedra built from the same matrices, intersected, multiplied, projected and '
        'then mutated; systems, programs, linear and hybrid controllers built from the same costs and sets; solvers and numerical utilities called on the same vectors. After every call the '
        'content of everything the history holds (arguments, receivers, earlier answers) is compared with its snapshot, except the one object that the call is documented to modify; at the '
        'end the queries are asked again in another order, on the same objects and on equal fresh ones with float arrays; distinct by scenario and pairs of consecutive calls.')
QUICK = 8000
THOROUGH = 30000
FLOORS = {'snapshots compared': 200000, 'repetitions': 4000, 'repetitions on fresh objects': 3000, 'read-only arrays': 5000, 'integer arrays': 3000}
CPU_LIMIT = 120.


def dress(rng, ctx, x):
    """The same values as a read-only array or (rounded) as an integer one."""
    x = np.array(x, dtype=float)
    k = rng.random()
    if k < .25 and x.size and np.all(x == np.round(x)):
        x = x.astype(int)
        ctx.ev('integer arrays')
    elif k > .85 and x.size and not (x.ndim == 2 and x.shape[0] == x.shape[1] and np.array_equal(x, x.T)):
        # entries that a clean-up would round
        i = rng.random(x.shape) < .3
        x[i & (x == 0.)] += gens.choice(rng, [1e-9, -3e-8, 1e-12])
        ctx.ev('arrays with tiny entries')
    if rng.random() < .2:
        # other memory layouts: column major, views of larger arrays
        if rng.random() < .5:
            x = np.asfortranarray(x)
        else:
            y = np.zeros(tuple(2*i for i in x.shape), dtype=x.dtype)
            v = y[tuple(slice(None, None, 2) for _ in x.shape)]
            v[...] = x
            x = v
        ctx.ev('other memory layouts')
    if rng.random() < .5:
        x.setflags(write=False)
        ctx.ev('read-only arrays')
    return x


def pairs(w, ctx, name):
    for a, b in zip(w.log, w.log[1:]):
        ctx.sig(name, a, b)
    ctx.note(scenario=name, history=w.log)


def integer_polytope(rng, n):
    """Bounded {A x <= b} with integer entries and the origin inside."""
    I = np.eye(n)
    A, b = np.vstack((I, -I)), rng.integers(1, 5, 2*n).astype(float)
    k = int(rng.integers(0, 3))
    if k:
        E = rng.integers(-2, 3, (k, n)).astype(float)
        E[np.sum(np.abs(E), axis=1) == 0, 0] = 1.
        A, b = np.vstack((A, E)), np.concatenate((b, rng.integers(2, 7, k)))
    p = rng.permutation(A.shape[0])
    return A[p], b[p]


def polyhedra(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    w = World(ctx, rng)
    n = int(rng.integers(2, 4))
    raw = []
    for k in range(2):
        A, b = integer_polytope(rng, n) if rng.random() < .5 else gens.polytope(rng, n, extra=int(rng.integers(0, 3)), center=np.zeros(n), kind='gauss')[:2]
        raw.append((w.track('matrix A%d' % k, dress(rng, ctx, A)), w.track('vector b%d' % k, dress(rng, ctx, b))))
    a = np.round(rng.standard_normal((1, n))*2.)
    a[0, 0] += a[0, 0] == 0.
    C, d = w.track('matrix C', dress(rng, ctx, a)), w.track('vector d', dress(rng, ctx, np.zeros(1)))
    lo, hi = w.track('lower bound', dress(rng, ctx, -rng.integers(1, 4, n))), w.track('upper bound', dress(rng, ctx, rng.integers(1, 4, n)))
    x = w.track('point', dress(rng, ctx, np.round(rng.standard_normal(n), 1)))
    pool, flat = [], set()

    def make():
        A, b = raw[int(rng.integers(2))]
        k = gens.choice(rng, ['plain', 'equality', 'bounds', 'plain'])
        if k == 'plain':
            p = w.call('Polyhedron', Polyhedron, A, b)
        elif k == 'equality':
            p = w.call('Polyhedron with equalities', Polyhedron, A, b, C, d)
            flat.add(id(p))
        else:
            p = w.call('from_bounds', Polyhedron.from_bounds, lo, hi)
        pool.append(w.track('polyhedron %d' % len(pool), p))
        return p

    for _ in range(3):
        make()
    exact = set()
    for _ in range(int(rng.integers(8, 20))):
        p, q = pool[int(rng.integers(len(pool)))], pool[int(rng.integers(len(pool)))]
        dim = p.A.shape[1]
        # equalities met twice are linearly dependent
        refuse = (ValueError,) if id(p) in flat else ()
        op = gens.choice(rng, ['make', 'empty', 'bounded', 'radius', 'center', 'vertices', 'vertices', 'minimal', 'contains', 'included', 'intersection', 'product', 'project',
                               'inequality', 'equality', 'lower', 'upper', 'bounds', 'normalize', 'normalize', 'redundant', 'hull'])
        if op == 'make':
            make()
        elif op == 'center':
            w.query('Polyhedron.center', center_quality, p, allowed=refuse)
        elif op in ('empty', 'bounded', 'radius'):
            w.query('Polyhedron.' + op, lambda p, op=op: getattr(p, op), p, allowed=refuse)
        elif op == 'vertices':
            w.query('Polyhedron.vertices', lambda p: p.vertices, p, compare=same_points, allowed=refuse)
        elif op == 'minimal':
            w.query('Polyhedron.minimal_facets', lambda p: p.minimal_facets(), p, allowed=refuse)
        elif op == 'contains':
            y = x if dim == n else np.zeros(dim)
            w.query('Polyhedron.contains', lambda p, y: p.contains(y), p, y)
        elif op == 'included' and dim == q.A.shape[1]:
            w.query('Polyhedron.is_included_in', lambda p, q: p.is_included_in(q), p, q, allowed=refuse)
        elif op == 'intersection' and dim == q.A.shape[1]:
            r = w.query('Polyhedron.intersection', lambda p, q: p.intersection(q), p, q)
            pool.append(w.track('intersection', r))
            if id(p) in flat or id(q) in flat:
                flat.add(id(r))
        elif op == 'product' and dim == n and q.A.shape[1] == 2 and dim + 2 <= 4:
            r = w.query('Polyhedron.cartesian_product', lambda p, q: p.cartesian_product(q), p, q)
            if len(pool) < 8 and dim == 2 and rng.random() < .3:
                pool.append(w.track('product', r))
                if id(p) in flat or id(q) in flat:
                    flat.add(id(r))
        elif op == 'project' and id(p) not in flat and dim == n:
            dims = w.track('residual dimensions', [int(i) for i in rng.permutation(dim)[:int(rng.integers(1, 3))]])
            r = w.query('Polyhedron.project_to', lambda p, dims: canonical(p.project_to(dims)), p, dims, tol=1e-5)
        elif op == 'inequality':
            k = int(rng.integers(1, dim+1))
            idx = w.track('indices', [int(i) for i in rng.permutation(dim)[:k]])
            E, f = w.track('rows', dress(rng, ctx, np.round(rng.standard_normal((1, k))*2.) + np.eye(1, k)*3.)), w.track('right-hand side', dress(rng, ctx, np.array([4.])))
            w.call('Polyhedron.add_inequality', p.add_inequality, E, f, idx, mutates=p)
        elif op == 'equality' and dim == n and id(p) not in flat:
            w.call('Polyhedron.add_equality', p.add_equality, C, d, mutates=p)
            flat.add(id(p))
        elif op in ('lower', 'upper', 'bounds') and dim == n:
            if op == 'lower':
                w.call('Polyhedron.add_lower_bound', p.add_lower_bound, lo, mutates=p)
            elif op == 'upper':
                w.call('Polyhedron.add_upper_bound', p.add_upper_bound, hi, mutates=p)
            else:
                w.call('Polyhedron.add_bounds', p.add_bounds, lo, hi, mutates=p)
        elif op == 'normalize':
            w.call('Polyhedron.normalize', p.normalize, mutates=p)
        elif op == 'redundant':
            w.call('Polyhedron.remove_redundant_inequalities', p.remove_redundant_inequalities, mutates=p, allowed=refuse)
        elif op == 'hull':
            pts = w.track('points', [w.track('point', dress(rng, ctx, np.round(v*4.))) for v in rng.standard_normal((n+4, n))])
            if np.linalg.matrix_rank(np.array(pts, dtype=float)[1:] - pts[0]) == n:
                w.query('Polyhedron.from_convex_hull', lambda v: canonical(Polyhedron.from_convex_hull(v)), pts)
    w.again(fresh)
    pairs(w, ctx, 'polyhedra')


def canonical(p):
    """The set, whatever its description: its support in fixed directions."""
    n = p.A.shape[1]
    U = np.random.default_rng(7).standard_normal((8, n))
    U = np.vstack((U, np.eye(n), -np.eye(n)))
    out = []
    for u in U:
        v = oracle.support(u, p.A, p.b, p.C, p.d)
        out.append(np.inf if v is None else v)
    return np.array(out)


def center_quality(p):
    """Centers need not be unique: what is unique is how deep they are."""
    c = p.center
    if c is None:
        return None
    if p.C.shape[0]:
        return bool(p.contains(c, 1e-6))
    return float(np.min((p.b - p.A.dot(c))/np.linalg.norm(p.A, axis=1)))


def systems(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem, mcais
    w = World(ctx, rng)
    nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    A, B = gens.system(rng, nx, nu, rho=rng.uniform(.3, 1.1))
    if rng.random() < .3:
        A, B = rng.integers(-1, 2, (nx, nx)).astype(float), rng.integers(-1, 2, (nx, nu)).astype(float)
    A, B = w.track('A', dress(rng, ctx, A)), w.track('B', dress(rng, ctx, B))
    c = w.track('c', dress(rng, ctx, np.round(rng.standard_normal(nx))))
    Q, R = w.track('Q', dress(rng, ctx, np.eye(nx)*2.)), w.track('R', dress(rng, ctx, np.eye(nu)))
    S = w.track('linear system', w.call('LinearSystem', LinearSystem, A, B))
    T = w.track('affine system', w.call('AffineSystem', AffineSystem, A, B, c))
    lo, hi = w.track('lower bound', dress(rng, ctx, -rng.integers(2, 6, nx+nu))), w.track('upper bound', dress(rng, ctx, rng.integers(2, 6, nx+nu)))
    D = w.track('constraint set', w.call('from_bounds', Polyhedron.from_bounds, lo, hi))
    mid = np.zeros((1, nx+nu))
    mid[0, 0] = 1.
    E = w.call('Polyhedron', Polyhedron, np.vstack((D.A, mid)), np.append(D.b, 0.))
    F = w.call('Polyhedron', Polyhedron, np.vstack((D.A, -mid)), np.append(D.b, 0.))
    E, F = w.track('domain 0', E), w.track('domain 1', F)
    modes = w.track('list of systems', [S, T] if rng.random() < .5 else [T, S])
    doms = w.track('list of domains', [E, F])
    W = w.track('piecewise-affine system', w.call('PieceWiseAffineSystem', PieceWiseAffineSystem, modes, doms))
    x0 = w.track('state', dress(rng, ctx, np.round(rng.standard_normal(nx), 1)))
    us = w.track('inputs', [w.track('input', dress(rng, ctx, np.round(rng.standard_normal(nu)*.3, 1))) for _ in range(3)])
    K = P = None
    for _ in range(int(rng.integers(8, 16))):
        op = gens.choice(rng, ['simulate', 'affine simulate', 'pwa simulate', 'condense', 'affine condense', 'pwa condense', 'controllable', 'dare', 'closed loop', 'mcais', 'free mcais',
                               'mode', 'well posed', 'zoh', 'euler', 'affine zoh'])
        if op == 'simulate':
            w.query('LinearSystem.simulate', lambda S, x, u: S.simulate(x, u), S, x0, us)
        elif op == 'affine simulate':
            w.query('AffineSystem.simulate', lambda S, x, u: S.simulate(x, u), T, x0, us)
        elif op == 'pwa simulate':
            w.query('PieceWiseAffineSystem.simulate', lambda S, x, u: S.simulate(x, u), W, x0, us, allowed=(ValueError,))
        elif op == 'condense':
            w.query('LinearSystem.condense', lambda S, N: S.condense(N), S, int(rng.integers(1, 4)))
        elif op == 'affine condense':
            w.query('AffineSystem.condense', lambda S, N: S.condense(N), T, int(rng.integers(1, 4)))
        elif op == 'pwa condense':
            seq = w.track('mode sequence', [int(i) for i in rng.integers(0, 2, 3)])
            w.query('PieceWiseAffineSystem.condense', lambda S, m: S.condense(m), W, seq)
        elif op == 'controllable':
            w.query('LinearSystem.controllable', lambda S: S.controllable, S)
        elif op == 'dare':
            k = np.hstack([np.linalg.matrix_power(np.array(A, dtype=float), i).dot(B) for i in range(nx)])
            if np.linalg.svd(k)[1][nx-1] > .05:
                P, K = w.query('LinearSystem.solve_dare', lambda S, Q, R: S.solve_dare(Q, R), S, Q, R)
        elif op == 'closed loop' and K is not None:
            w.query('LinearSystem.simulate_closed_loop', lambda S, x, K: S.simulate_closed_loop(x, 3, K), S, x0, K)
        elif op == 'mcais' and K is not None:
            if np.max(np.abs(np.linalg.eigvals(A + B.dot(K)))) < .9:
                w.query('LinearSystem.mcais', lambda S, K, D: S.mcais(K, D), S, K, D)
        elif op == 'free mcais' and np.max(np.abs(np.linalg.eigvals(A))) < .9:
            X = w.track('state constraint', w.call('from_bounds', Polyhedron.from_bounds, lo[:nx], hi[:nx]))
            w.query('mcais', lambda A, X: mcais(A, X), A, X)
        elif op == 'mode':
            w.query('PieceWiseAffineSystem.get_mode', lambda S, x, u: S.get_mode(x, u), W, x0, us[0])
        elif op == 'well posed':
            w.query('PieceWiseAffineSystem.is_well_posed', lambda S: S.is_well_posed(), W)
        elif op in ('zoh', 'euler'):
            m = {'zoh': 'zero_order_hold', 'euler': 'explicit_euler'}[op]
            w.query('LinearSystem.from_continuous ' + op, lambda A, B, m=m: LinearSystem.from_continuous(A, B, .1, m), A, B)
        elif op == 'affine zoh':
            w.query('AffineSystem.from_continuous', lambda A, B, c: AffineSystem.from_continuous(A, B, c, .1), A, B, c)
    w.again(fresh)
    pairs(w, ctx, 'systems')


def controllers(rng, ctx):
    from pympc.control.controllers import ModelPredictiveController
    S, K, P, Q, R, D, X_N, N = workloads.linear_mpc(rng, nx=int(rng.integers(1, 3)), nu=1, N=int(rng.integers(1, 4)))
    w = World(ctx, rng)
    for a in (S.A, S.B, Q, R, P):
        if rng.random() < .5:
            a.setflags(write=False)
            ctx.ev('read-only arrays')
    for l, o in (('Q', Q), ('R', R), ('P', P), ('system', S), ('stage set', D), ('terminal set', X_N)):
        w.track(l, o)
    cs = [w.track('controller %d' % i, w.call('ModelPredictiveController', ModelPredictiveController, S, n, Q, R, P, D, X_N)) for i, n in enumerate([N, max(1, N-1)])]
    ms = [w.track('program %d' % i, c.mpqp) for i, c in enumerate(cs)]
    xs = [w.track('state', dress(rng, ctx, np.round(rng.standard_normal(S.nx)*gens.choice(rng, [.1, .5, 2.]), 2))) for _ in range(3)]
    regions = []
    for _ in range(int(rng.integers(8, 16))):
        i = int(rng.integers(2))
        c, m = cs[i], ms[i]
        x = xs[int(rng.integers(3))]
        op = gens.choice(rng, ['feedforward', 'feedback', 'solve', 'explicit', 'feedforward explicit', 'feedback explicit', 'point', 'set', 'feasible', 'region', 'region'])
        if op == 'feedforward':
            w.query('ModelPredictiveController.feedforward', lambda c, x: c.feedforward(x), c, x)
        elif op == 'feedback':
            w.query('ModelPredictiveController.feedback', lambda c, x: c.feedback(x), c, x)
        elif op == 'solve':
            w.query('MultiParametricQuadraticProgram.solve', lambda m, x: m.solve(x), m, x)
        elif op == 'explicit' and S.nx*N <= 4:
            w.call('ModelPredictiveController.store_explicit_solution', c.store_explicit_solution, mutates=c)
            regions += c.explicit_solution.critical_regions[:6]
            w.track('explicit solution', c.explicit_solution)
        elif op == 'feedforward explicit' and c.explicit_solution is not None:
            w.query('ModelPredictiveController.feedforward_explicit', lambda c, x: stored(c).feedforward_explicit(x), c, x)
        elif op == 'feedback explicit' and c.explicit_solution is not None:
            w.query('ModelPredictiveController.feedback_explicit', lambda c, x: stored(c).feedback_explicit(x), c, x)
        elif op == 'point':
            cr = w.call('MultiParametricQuadraticProgram.explicit_solve_given_point', m.explicit_solve_given_point, x)
            if cr is not None:
                regions.append(w.track('critical region', cr))
        elif op == 'set':
            a = w.track('active set', [])
            cr = w.call('MultiParametricQuadraticProgram.explicit_solve_given_active_set', m.explicit_solve_given_active_set, a)
            if cr is not None:
                regions.append(w.track('critical region', cr))
        elif op == 'feasible' and S.nx + S.nu*N <= 4:
            f = w.query('MultiParametricQuadraticProgram.get_feasible_set', lambda m: canonical(m.get_feasible_set()), m, tol=1e-5)
            p = w.track('feasible set', m.get_feasible_set())
            w.call('Polyhedron.add_inequality', p.add_inequality, np.ones((1, S.nx)), np.ones(1), mutates=p)
        elif op == 'region' and regions:
            cr = regions[int(rng.integers(len(regions)))]
            k = gens.choice(rng, ['contains', 'u', 'p', 'V', 'minimal_facets'])
            if k == 'minimal_facets':
                # cached in the region
                w.query('CriticalRegion.' + k, lambda cr: read(cr, 'minimal_facets'), cr)
            else:
                w.query('CriticalRegion.' + k, lambda cr, x, k=k: getattr(cr, k)(x), cr, x)
    w.again(fresh)
    pairs(w, ctx, 'controllers')


def programs(rng, ctx):
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    w = World(ctx, rng)
    nu, nx = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    m = int(rng.integers(1, 4)) + 2*nu
    I = np.eye(nu)
    Au = np.vstack((I, -I, np.round(rng.standard_normal((m-2*nu, nu))*2.)))
    Au[np.sum(np.abs(Au), axis=1) == 0, 0] = 1.
    k = gens.choice(rng, ['none', 'some', 'all'], [.3, .4, .3])
    Ax = np.round(rng.standard_normal((m, nx))*2.) if k != 'none' else np.zeros((m, nx))
    if k == 'some':
        Ax[rng.random(m) < .6] = 0.
    b = rng.integers(1, 5, m).astype(float)
    b[rng.random(m) < .3] = gens.choice(rng, [0., 1e-9, 1e-7, 1e-6])
    L = rng.standard_normal((nu+nx, nu+nx))
    H = L.dot(L.T) + np.eye(nu+nx)
    if rng.random() < .5:
        H = np.round(H)
    D = lambda l, x: w.track(l, dress(rng, ctx, x))
    Hd = w.track('H', {'uu': D('Huu', H[:nu, :nu]), 'ux': D('Hux', H[:nu, nu:]*(rng.random() < .8)), 'xx': D('Hxx', H[nu:, nu:])})
    fd = w.track('f', {'u': D('fu', np.round(rng.standard_normal(nu))), 'x': D('fx', np.round(rng.standard_normal(nx)))})
    Ad = w.track('A', {'u': D('Au', Au), 'x': D('Ax', Ax)})
    bd = D('b', b)
    if np.linalg.eigvalsh(np.array(Hd['uu'], dtype=float))[0] < .1:
        raise Skip('flat cost')
    g = float(rng.integers(-2, 3))
    P = [w.track('program %d' % i, w.call('MultiParametricQuadraticProgram', MultiParametricQuadraticProgram, Hd, fd, g, Ad, bd)) for i in range(2)]
    xs = [D('parameter', np.round(rng.standard_normal(nx)*gens.choice(rng, [0., .3, 1., 3.]), 1)) for _ in range(3)]
    regions = []
    for _ in range(int(rng.integers(6, 14))):
        p, x = P[int(rng.integers(2))], xs[int(rng.integers(3))]
        op = gens.choice(rng, ['solve', 'solve', 'point', 'set', 'explicit', 'feasible', 'region'])
        if op == 'solve':
            w.query('MultiParametricQuadraticProgram.solve', lambda m, x: m.solve(x), p, x)
        elif op == 'point':
            cr = w.call('MultiParametricQuadraticProgram.explicit_solve_given_point', p.explicit_solve_given_point, x, allowed=(np.linalg.LinAlgError,))
            if cr is not None:
                regions.append(w.track('critical region', cr))
        elif op == 'set':
            a = [int(i) for i in rng.permutation(m)[:int(rng.integers(0, nu+1))]]
            if np.linalg.matrix_rank(np.array(Ad['u'], dtype=float)[a], tol=1e-3) < len(a):
                continue
            a = w.track('active set', a)
            cr = w.call('MultiParametricQuadraticProgram.explicit_solve_given_active_set', p.explicit_solve_given_active_set, a)
            if cr is not None:
                regions.append(w.track('critical region', cr))
        elif op == 'feasible':
            # tiny entries make sets that are bounded only far away
            if np.any(Ax) and np.all(b >= 1.) and not any(np.any((np.abs(M) > 0.) & (np.abs(M) < .1)) for M in Ad.values()):
                w.query('MultiParametricQuadraticProgram.get_feasible_set', lambda m: canonical(m.get_feasible_set()), p, tol=1e-5, allowed=(ValueError,))
        elif op == 'region' and regions:
            cr = regions[int(rng.integers(len(regions)))]
            k = gens.choice(rng, ['contains', 'u', 'p', 'V'])
            w.query('CriticalRegion.' + k, lambda cr, x, k=k: getattr(cr, k)(x), cr, x)
    w.again(fresh)
    pairs(w, ctx, 'programs')


def read(o, name):
    v = getattr(o, name)
    return v() if callable(v) else v


def stored(c):
    if c.explicit_solution is None:
        c.store_explicit_solution()
    return c


def hybrid(rng, ctx):
    from pympc.control.controllers import HybridModelPredictiveController
    from pmon.hybrid import Problem, poly
    p = Problem(rng, small=True)
    if p.s**p.N > 9 or p.eq:
        raise Skip('too large')
    w = World(ctx, rng)
    S = w.track('system', p.system())
    for i, D in enumerate(S.domains):
        w.track('domain %d' % i, D)
    X_N = w.track('terminal set', poly(p.X_N))
    Q, R, P = (w.track(l, dress(rng, ctx, M)) for l, M in (('Q', p.Q), ('R', p.R), ('P', p.P)))
    c = w.track('controller', w.call('HybridModelPredictiveController', HybridModelPredictiveController, S, p.N, Q, R, P, X_N))
    w.track('program', c.mpmiqp)
    xs = [w.track('state', dress(rng, ctx, p.state(rng))) for _ in range(2)]
    for _ in range(int(rng.integers(4, 9))):
        op = gens.choice(rng, ['feedforward', 'feedback', 'mpqp', 'condense', 'mode', 'domain'])
        x = xs[int(rng.integers(2))]
        if op == 'feedforward':
            w.query('HybridModelPredictiveController.feedforward cost', lambda c, x: c.feedforward(x)[3], c, x, tol=1e-3)
        elif op == 'feedback':
            w.call('HybridModelPredictiveController.feedback', c.feedback, x)
        elif op == 'mpqp':
            seq = w.track('mode sequence', [int(i) for i in rng.integers(0, p.s, p.N)])
            m = w.query('HybridModelPredictiveController.get_mpqp', lambda c, s: c.get_mpqp(s), c, seq)
            w.query('program.solve', lambda m, x: m.solve(x)['min'], m, x, tol=1e-5)
        elif op == 'condense':
            seq = w.track('mode sequence', [int(i) for i in rng.integers(0, p.s, p.N)])
            w.query('PieceWiseAffineSystem.condense', lambda S, s: S.condense(s), S, seq)
        elif op == 'domain':
            # a copy of the user's: mutating it touches nothing else
            D = w.track('intersection', w.call('Polyhedron.intersection', S.domains[0].intersection, S.domains[-1]))
            w.call('Polyhedron.normalize', D.normalize, mutates=D)
        else:
            w.query('PieceWiseAffineSystem.get_mode', lambda S, x, u: S.get_mode(x, u), S, x, np.zeros(p.nu))
    w.again(fresh, 6)
    pairs(w, ctx, 'hybrid')


def numerics(rng, ctx):
    from pympc.optimization.programs import linear_program, quadratic_program, mixed_integer_quadratic_program
    from pympc.geometry.utils import nullspace_basis, linearly_independent_rows, plane_through_points, same_rows, same_vectors
    from pympc import plot
    import matplotlib.pyplot as plt
    w = World(ctx, rng)
    n = int(rng.integers(2, 5))
    A, b = integer_polytope(rng, n)
    A, b = w.track('A', dress(rng, ctx, A)), w.track('b', dress(rng, ctx, b))
    C, d = w.track('C', dress(rng, ctx, np.round(rng.standard_normal((1, n))*2.) + np.eye(1, n)*3.)), w.track('d', dress(rng, ctx, np.zeros(1)))
    f = w.track('f', dress(rng, ctx, np.round(rng.standard_normal(n)*3.)))
    H = w.track('H', dress(rng, ctx, np.diag(rng.integers(1, 5, n)) + np.ones((n, n))))
    M = w.track('M', dress(rng, ctx, np.round(rng.standard_normal((3, n))*2.)))
    pts = w.track('points', [w.track('point', dress(rng, ctx, v)) for v in np.round(rng.standard_normal((n, n)) + 3.*np.eye(n))])
    back = w.track('points reversed', list(pts[::-1]))
    x = w.track('trajectory', [w.track('state', dress(rng, ctx, np.round(v, 1))) for v in rng.standard_normal((4, 2))])
    bounds = w.track('bounds', [w.track('bound', dress(rng, ctx, -np.ones(2))), w.track('bound', dress(rng, ctx, np.ones(2)))])
    for _ in range(int(rng.integers(8, 16))):
        op = gens.choice(rng, ['lp', 'lp equality', 'qp', 'qp equality', 'miqp', 'null', 'independent', 'plane', 'rows', 'vectors', 'plots'])
        solver = gens.choice(rng, ['pnnls', 'gurobi'])
        if op == 'lp':
            w.query('linear_program ' + solver, lambda *a, solver=solver: linear_program(*a, solver=solver)['min'], f, A, b)
        elif op == 'lp equality':
            w.query('linear_program with equalities ' + solver, lambda *a, solver=solver: linear_program(*a, solver=solver)['min'], f, A, b, C, d)
        elif op == 'qp':
            w.query('quadratic_program ' + solver, lambda *a, solver=solver: quadratic_program(*a, solver=solver)['argmin'], H, f, A, b, tol=1e-4)
        elif op == 'qp equality':
            w.query('quadratic_program with equalities ' + solver, lambda *a, solver=solver: quadratic_program(*a, solver=solver)['argmin'], H, f, A, b, C, d, tol=1e-4)
        elif op == 'miqp':
            w.query('mixed_integer_quadratic_program', lambda *a: mixed_integer_quadratic_program(1, *a)['min'], H, f, A, b, tol=1e-3)
        elif op == 'null':
            w.query('nullspace_basis', nullspace_basis, M)
        elif op == 'independent':
            w.query('linearly_independent_rows', linearly_independent_rows, M)
        elif op == 'plane':
            P = np.array(pts, dtype=float)
            if np.linalg.matrix_rank(P[1:] - P[0], tol=.1) == n-1 and abs(np.linalg.det(P)) > .5:
                w.query('plane_through_points', lambda v: plane_through_points(v), pts)
        elif op == 'rows':
            w.query('same_rows', lambda a, b: same_rows(a, b), A, A)
            w.query('same_rows not normalized', lambda a, b: same_rows(a, b, False), A, M)
        elif op == 'vectors':
            w.query('same_vectors', lambda a, b: same_vectors(a, b), pts, back)
        else:
            plt.close('all')
            w.call('plot_state_space_trajectory', plot.plot_state_space_trajectory, x)
            w.call('plot_input_sequence', plot.plot_input_sequence, x, .1, bounds)
            w.call('plot_state_trajectory', plot.plot_state_trajectory, x, .1, bounds)
            w.call('plot_output_trajectory', plot.plot_output_trajectory, np.eye(2), x, .1, bounds)
            plt.close('all')
    w.again(fresh)
    pairs(w, ctx, 'numerics')


def neighbours(rng, ctx):
    """An answer does not depend on what was asked before at a point close by."""
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram
    from pympc.geometry.polyhedron import Polyhedron
    H, f, g, A, b, z0 = workloads.mpqp(rng)
    nx = f['x'].size
    new = lambda: ctx.call(MultiParametricQuadraticProgram, H, f, g, A, b)
    m = new()
    x = z0[:nx] + .2*rng.standard_normal(nx)
    points = [x]
    for e in 10.**rng.uniform(-7., -2., 4):
        points.append(x + e*rng.standard_normal(nx))
    first = ctx.call(new().solve, x)
    for y in points:
        got, want = ctx.call(m.solve, y), ctx.call(new().solve, y)
        data = dict(H=H, f=f, g=g, A=A, b=b, points=points, x=y)
        ctx.require((got['min'] is None) == (want['min'] is None), 'the solution depends on earlier queries close by', **data)
        if want['min'] is None or first['min'] is None:
            continue
        for key in ('min', 'argmin', 'multiplier_inequality'):
            u, v, w = (np.atleast_1d(np.asarray(s[key], dtype=float)) for s in (got, want, first))
            ctx.close(u, v, .1*np.max(np.abs(v - w)) + 1e-9*(1. + np.max(np.abs(v))), '%s depends on earlier queries close by' % key, **data)
    ctx.ev('queries close by repeated on fresh objects')
    # membership and mode, whose answers have no memory either
    p = ctx.call(Polyhedron, np.hstack((A['x'], A['u'])), b)
    for _ in range(4):
        z = z0 + rng.standard_normal(z0.size)*10.**rng.uniform(-2., .5)
        r = np.max(np.hstack((A['x'], A['u'])).dot(z) - b)
        if abs(r) > 1e-5:
            ctx.require(bool(ctx.call(p.contains, z)) == (r < 0.), 'membership depends on earlier queries', A=A, b=b, z=z)
    ctx.sig('neighbours', A['u'].shape, nx)


SCENARIOS = [('neighbours', 1, neighbours), ('polyhedra', 5, polyhedra), ('systems', 3, systems), ('controllers', 3, controllers), ('programs', 2, programs), ('hybrid', 1, hybrid), ('numerics', 2, numerics)]
