"""C26: malformed input is refused with a ValueError and leaves no trace."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip, Violation
from pmon.world import difference, observe

ID = 'C26'
RULE = ('every documented check of the public entry points, violated in each argument in each direction (too few, too many, two-dimensional, missing, unknown, negative, inconsistent), on fresh and '
        'on already queried objects of random sizes; the call must raise ValueError, the receiver and the arguments must be unchanged and answer as before, and the well-formed call next to '
        'the malformed one must be accepted; distinct by entry point, violation and sizes.')
QUICK = 30000
THOROUGH = 150000
FLOORS = {'rejections observed': 15000, 'neighbours accepted': 9000, 'receivers compared': 6000, 'answers compared': 2500}
CPU_LIMIT = 60.


class Family(object):
    """Collects malformed and well-formed calls; runs some of them in random order."""

    def __init__(self, rng, ctx, name):
        self.rng, self.ctx, self.name = rng, ctx, name
        self.bad, self.good = [], []

    def refuse(self, label, fn, *args, **kwargs):
        self.bad.append((label, fn, args, kwargs))

    def accept(self, label, fn, *args, **kwargs):
        self.good.append((label, fn, args, kwargs))

    def run(self, receiver=None, answers=None, count=6):
        ctx, rng = self.ctx, self.rng
        before = observe(receiver) if receiver is not None else None
        said = answers() if answers is not None and rng.random() < .7 else None
        order = [('bad', i) for i in rng.permutation(len(self.bad))[:count]]
        for kind, i in order:
            label, fn, args, kwargs = self.bad[i]
            seen = [observe(a) for a in args]
            ctx.rejects(ValueError, fn, *args, **kwargs)
            for a, s in zip(args, seen):
                d = difference(s, observe(a), 1e-13)
                ctx.require(d is None, 'the refused call %s changed an argument: %s' % (label, d))
            if receiver is not None:
                d = difference(before, observe(receiver), 1e-13)
                ctx.require(d is None, 'the refused call %s changed the object: %s' % (label, d), before=before)
                ctx.ev('receivers compared')
            ctx.sig(self.name, label)
            ctx.ev('refused:' + self.name)
        if answers is not None:
            if said is None and receiver is not None:
                # not queried before the refusals: compare with an object that has never seen them
                pass
            else:
                d = difference(said, answers(), 1e-6)
                ctx.require(d is None, 'after refused calls (%s) the object answers differently: %s' % ([self.bad[i][0] for _, i in order], d))
                ctx.ev('answers compared')
        for i in rng.permutation(len(self.good))[:3]:
            label, fn, args, kwargs = self.good[i]
            ctx.call(fn, *args, **kwargs)
            ctx.ev('neighbours accepted')
            ctx.sig(self.name, 'accepted', label)
        ctx.note(family=self.name, refused=[self.bad[i][0] for _, i in order])


def vec(rng, n):
    return rng.uniform(.5, 2., n)


def val(rng, shape):
    """Values of arrays whose sizes are what is judged: any, also all zero."""
    k = rng.random()
    if k < .6:
        return rng.standard_normal(shape)
    if k < .8:
        return np.zeros(shape)
    if k < .9:
        return np.ones(shape)
    return rng.integers(-2, 3, shape)*gens.choice(rng, [1, 1., 1e-9])


def wrong(rng, n):
    """A number of elements that is not n."""
    return int(gens.choice(rng, [k for k in (n-1, n+1, 2*n, n+2) if k >= 0 and k != n]))


def polyhedron_init(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n, m, k = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    A, C = val(rng, (m, n)), val(rng, (k, n))
    b, d = val(rng, m), val(rng, k)
    F = Family(rng, ctx, 'Polyhedron')
    F.refuse('b of wrong size', Polyhedron, A, val(rng, wrong(rng, m)))
    F.refuse('b two-dimensional', Polyhedron, A, b.reshape(-1, 1))
    F.refuse('b two-dimensional row', Polyhedron, A, b.reshape(1, -1))
    F.refuse('C without d', Polyhedron, A, b, C)
    F.refuse('C without d by name', Polyhedron, A, b, C=C)
    F.refuse('d without C', Polyhedron, A, b, d=d)
    F.refuse('d without C by position', Polyhedron, A, b, None, d)
    F.refuse('d of wrong size', Polyhedron, A, b, C, val(rng, wrong(rng, k)))
    F.refuse('d two-dimensional', Polyhedron, A, b, C, d.reshape(-1, 1))
    F.refuse('b of wrong size, with equalities', Polyhedron, A, val(rng, wrong(rng, m)), C, d)
    F.refuse('b two-dimensional, with equalities', Polyhedron, A, b.reshape(-1, 1), C, d)
    F.accept('inequalities', Polyhedron, A, b)
    F.accept('inequalities and equalities', Polyhedron, A, b, C, d)
    F.accept('no inequalities', Polyhedron, np.zeros((0, n)), np.zeros(0), C, d)
    F.run()


def polyhedron_add(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(1, 4))
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 3)), kind=gens.choice(rng, ['box', 'gauss']))
    p = Polyhedron(A, b)
    k, j = int(rng.integers(1, 4)), int(rng.integers(1, n+1))
    E, f = val(rng, (k, n)), val(rng, k)
    idx = [int(i) for i in rng.permutation(n)[:j]]
    Ei = val(rng, (k, j))
    F = Family(rng, ctx, 'Polyhedron.add')
    for name, add in (('add_inequality', p.add_inequality), ('add_equality', p.add_equality)):
        F.refuse(name + ' right-hand side of wrong size', add, E, val(rng, wrong(rng, k)))
        F.refuse(name + ' right-hand side two-dimensional', add, E, f.reshape(-1, 1))
        F.refuse(name + ' right-hand side of wrong size, indices', add, Ei, val(rng, wrong(rng, k)), idx)
        F.refuse(name + ' right-hand side two-dimensional, indices', add, Ei, f.reshape(-1, 1), idx)
        F.refuse(name + ' too many columns', add, val(rng, (k, n+1)), f)
        if n > 1:
            F.refuse(name + ' too few columns', add, val(rng, (k, n-1)), f)
        F.refuse(name + ' columns and indices', add, val(rng, (k, j+1)), f, idx)
    lo, hi = -val(rng, n), val(rng, n)
    li, hj = -val(rng, j), val(rng, j)
    F.refuse('add_lower_bound of wrong size', p.add_lower_bound, -val(rng, wrong(rng, n)))
    F.refuse('add_upper_bound of wrong size', p.add_upper_bound, val(rng, wrong(rng, n)))
    F.refuse('add_lower_bound of wrong size, indices', p.add_lower_bound, -val(rng, wrong(rng, j)), idx)
    F.refuse('add_upper_bound of wrong size, indices', p.add_upper_bound, val(rng, wrong(rng, j)), idx)
    F.refuse('add_bounds lower of wrong size', p.add_bounds, -val(rng, wrong(rng, n)), hi)
    F.refuse('add_bounds upper of wrong size', p.add_bounds, lo, val(rng, wrong(rng, n)))
    F.refuse('add_bounds both of wrong size', p.add_bounds, *(lambda w: (-val(rng, w), val(rng, w)))(wrong(rng, n)))
    F.refuse('add_bounds upper of wrong size, indices', p.add_bounds, li, val(rng, wrong(rng, j)), idx)
    F.refuse('add_bounds lower of wrong size, indices', p.add_bounds, -val(rng, wrong(rng, j)), hj, idx)
    if n != 1:
        F.refuse('add_bounds upper two-dimensional', p.add_bounds, lo, hi.reshape(-1, 1))
    F.accept('add_lower_bound', p.add_lower_bound, x0 - 1.)
    F.accept('add_upper_bound', p.add_upper_bound, x0 + 1.)
    F.accept('add_bounds', p.add_bounds, x0 - 1., x0 + 1.)
    F.accept('add_bounds, indices', p.add_bounds, x0[idx] - 1., x0[idx] + 1., idx)
    F.accept('add_lower_bound, number', p.add_lower_bound, float(x0[0]) - 1., [0])
    F.accept('add_upper_bound, number', p.add_upper_bound, float(x0[0]) + 1., [0])
    F.accept('add_inequality', p.add_inequality, E, E.dot(x0) + 1.)
    F.accept('add_inequality, indices', p.add_inequality, Ei, Ei.dot(x0[idx]) + 1., idx)

    def answers():
        out = [bool(p.empty), bool(p.bounded), float(p.radius)]
        out += [bool(p.contains(x0)), bool(p.contains(x0 + 100.)), p.minimal_facets(), p.A, p.b, p.C, p.d]
        return observe(out)
    F.run(p, answers)


def bounds(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    n = int(rng.integers(1, 5))
    j = int(rng.integers(1, n+1))
    lo, hi, li, hj = -val(rng, n), val(rng, n), -val(rng, j), val(rng, j)
    idx = [int(i) for i in rng.permutation(n)[:j]]
    F = Family(rng, ctx, 'Polyhedron.from_bounds')
    F.refuse('from_lower_bound, indices without n', Polyhedron.from_lower_bound, li, idx)
    F.refuse('from_upper_bound, indices without n', Polyhedron.from_upper_bound, hj, idx)
    F.refuse('from_bounds, indices without n', Polyhedron.from_bounds, li, hj, idx)
    F.refuse('from_bounds, different sizes', Polyhedron.from_bounds, lo, val(rng, wrong(rng, n)))
    F.refuse('from_bounds, different sizes', Polyhedron.from_bounds, -val(rng, wrong(rng, n)), hi)
    F.refuse('from_bounds, different sizes, indices', Polyhedron.from_bounds, li, val(rng, wrong(rng, j)), idx, n)
    F.refuse('from_lower_bound, size and indices', Polyhedron.from_lower_bound, -val(rng, wrong(rng, j)), idx, n)
    F.refuse('from_upper_bound, size and indices', Polyhedron.from_upper_bound, val(rng, wrong(rng, j)), idx, n)
    w = wrong(rng, j)
    F.refuse('from_bounds, size and indices', Polyhedron.from_bounds, -val(rng, w), val(rng, w), idx, n)
    F.accept('from_lower_bound', Polyhedron.from_lower_bound, lo)
    F.accept('from_upper_bound', Polyhedron.from_upper_bound, hi)
    F.accept('from_bounds', Polyhedron.from_bounds, lo, hi)
    F.accept('from_lower_bound, indices', Polyhedron.from_lower_bound, li, idx, n)
    F.accept('from_upper_bound, indices', Polyhedron.from_upper_bound, hj, idx, n)
    F.accept('from_bounds, indices', Polyhedron.from_bounds, li, hj, idx, n)
    F.run()


def geometry(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.geometry.utils import same_vectors
    import matplotlib.pyplot as plt
    n = int(rng.integers(2, 4))
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 3)), kind=gens.choice(rng, ['box', 'gauss']))
    good = Polyhedron(A, b)
    kind = gens.choice(rng, ['empty', 'unbounded', 'equality', 'dependent', 'plot', 'vectors'])
    dims = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n))]]
    F = Family(rng, ctx, 'geometry ' + kind)
    receiver = None
    if kind == 'empty':
        Ae, be, Ce, de = (gens.infeasible(rng, n, equality=False) + (None, None))[:4]
        t, _ = oracle.depth(Ae, be)
        if t is not None and t > -1e-3:
            raise Skip('not clearly empty')
        receiver = Polyhedron(Ae, be)
        F.refuse('project_to, empty', receiver.project_to, dims)
        F.refuse('remove_redundant_inequalities, empty', receiver.remove_redundant_inequalities)
        F.accept('remove_redundant_inequalities', good.remove_redundant_inequalities)
    elif kind == 'unbounded':
        Au, bu, _, ray = gens.unbounded(rng, n)
        M = oracle.normalize(Au, bu)[0]
        if M.shape[0] >= n and np.linalg.svd(M)[1][n-1] < 1e-6:
            raise Skip('kernel up to rounding')
        receiver = Polyhedron(Au, bu)
        F.refuse('project_to, unbounded', receiver.project_to, dims)
    elif kind == 'equality':
        C, d = gens.equalities(rng, n, 1, x0)
        receiver = Polyhedron(A, b, C, d)
        F.refuse('project_to, equalities', receiver.project_to, dims)
    elif kind == 'dependent':
        C, d = gens.equalities(rng, n, 1, x0)
        receiver = Polyhedron(A, b, np.vstack((C, 2.*C)), np.concatenate((d, 2.*d)))
        F.refuse('minimal_facets, dependent equalities', receiver.minimal_facets)
        F.refuse('project_to, equalities', receiver.project_to, dims)
    elif kind == 'plot':
        F.refuse('plot, one dimension', good.plot, [0])
        F.refuse('plot, three dimensions', good.plot, [0, 1, 0])
        F.refuse('plot, no dimension', good.plot, [])
        F.accept('plot', good.plot, [1, 0])
        receiver = good
    else:
        v = [vec(rng, n) for _ in range(3)]
        u = [v[i] for i in rng.permutation(3)]
        two = [w.reshape(-1, 1) for w in v]
        F.refuse('same_vectors, two-dimensional first', same_vectors, two, u)
        F.refuse('same_vectors, two-dimensional second', same_vectors, v, two)
        F.refuse('same_vectors, one two-dimensional', same_vectors, v, u[:2] + [u[2].reshape(1, -1)])
        F.accept('same_vectors', same_vectors, v, u)
    if kind not in ('plot', 'vectors'):
        F.accept('project_to', good.project_to, dims)
    answers = None
    if kind in ('empty', 'unbounded', 'equality'):
        answers = lambda: observe([bool(receiver.empty), bool(receiver.contains(x0)), receiver.A, receiver.b])
    F.run(receiver, answers)
    if kind == 'plot':
        plt.close('all')


def systems(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A, B, c = val(rng, (nx, nx)), val(rng, (nx, nu)), val(rng, nx)
    h = float(rng.uniform(.01, .3))
    M = lambda r, k: val(rng, (r, k))
    F = Family(rng, ctx, 'systems')
    forms = [
        ('LinearSystem', lambda A, B, c: LinearSystem(A, B), False),
        ('AffineSystem', lambda A, B, c: AffineSystem(A, B, c), True),
        ('LinearSystem.from_continuous', lambda A, B, c: LinearSystem.from_continuous(A, B, h), False),
        ('LinearSystem.from_continuous euler', lambda A, B, c: LinearSystem.from_continuous(A, B, h, 'explicit_euler'), False),
        ('AffineSystem.from_continuous', lambda A, B, c: AffineSystem.from_continuous(A, B, c, h), True),
        ('AffineSystem.from_continuous euler', lambda A, B, c: AffineSystem.from_continuous(A, B, c, h, 'explicit_euler'), True)]
    for name, make, affine in forms:
        F.refuse(name + ' A with more rows', make, M(nx+1, nx), B, c)
        F.refuse(name + ' A with more columns', make, M(nx, nx+1), B, c)
        if nx > 1:
            F.refuse(name + ' A with fewer columns', make, M(nx, nx-1), B, c)
        F.refuse(name + ' B with more rows', make, A, M(nx+1, nu), c)
        if nx > 1:
            F.refuse(name + ' B with fewer rows', make, A, M(nx-1, nu), c)
        if affine:
            F.refuse(name + ' c of wrong size', make, A, B, val(rng, wrong(rng, nx)))
            F.refuse(name + ' c two-dimensional', make, A, B, c.reshape(-1, 1))
        F.accept(name, make, A, B, c)
    neg = -float(10.**rng.uniform(-6., 1.))
    for m in ('zero_order_hold', 'explicit_euler'):
        F.refuse('LinearSystem.from_continuous negative step ' + m, LinearSystem.from_continuous, A, B, neg, m)
        F.refuse('AffineSystem.from_continuous negative step ' + m, AffineSystem.from_continuous, A, B, c, neg, m)
    name = gens.choice(rng, ['zoh', 'euler', 'Zero_order_hold', '', 'explicit_euler ', 'implicit_euler', None])
    F.refuse('LinearSystem.from_continuous unknown method', LinearSystem.from_continuous, A, B, h, name)
    F.refuse('AffineSystem.from_continuous unknown method', AffineSystem.from_continuous, A, B, c, h, name)
    F.run(count=10)


def symbolic(rng, ctx):
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    x = sp.Matrix(sp.symbols('x0:%d' % nx))
    u = sp.Matrix(sp.symbols('u0:%d' % nu))
    A, B = np.round(rng.standard_normal((nx, nx)), 2), np.round(rng.standard_normal((nx, nu)), 2)
    c = np.zeros(nx)
    c[int(rng.integers(nx))] = float(gens.choice(rng, [.5, -2., .01]))
    lin = sp.Matrix(A)*x + sp.Matrix(B)*u
    aff = lin + sp.Matrix(c)
    F = Family(rng, ctx, 'symbolic systems')
    F.refuse('LinearSystem.from_symbolic with offset', LinearSystem.from_symbolic, x, u, aff)
    F.refuse('LinearSystem.from_symbolic_continuous with offset', LinearSystem.from_symbolic_continuous, x, u, aff, .1)
    F.refuse('LinearSystem.from_symbolic_continuous unknown method', LinearSystem.from_symbolic_continuous, x, u, lin, .1, 'zoh')
    F.refuse('LinearSystem.from_symbolic_continuous negative step', LinearSystem.from_symbolic_continuous, x, u, lin, -.1)
    F.refuse('AffineSystem.from_symbolic_continuous unknown method', AffineSystem.from_symbolic_continuous, x, u, aff, .1, 'zoh')
    F.refuse('AffineSystem.from_symbolic_continuous negative step', AffineSystem.from_symbolic_continuous, x, u, aff, -.1)
    F.accept('LinearSystem.from_symbolic', LinearSystem.from_symbolic, x, u, lin)
    F.accept('AffineSystem.from_symbolic', AffineSystem.from_symbolic, x, u, aff)
    F.accept('LinearSystem.from_symbolic_continuous', LinearSystem.from_symbolic_continuous, x, u, lin, .1)
    F.accept('AffineSystem.from_symbolic_continuous', AffineSystem.from_symbolic_continuous, x, u, aff, .1)
    F.run()


def pwa(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
    nx, nu, s = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(2, 5))
    def sys_(nx, nu):
        A, B = rng.standard_normal((nx, nx)), rng.standard_normal((nx, nu))
        return LinearSystem(A, B) if rng.random() < .4 else AffineSystem(A, B, rng.standard_normal(nx))
    dom = lambda n: Polyhedron.from_bounds(-vec(rng, n), vec(rng, n))
    S, D = [sys_(nx, nu) for _ in range(s)], [dom(nx+nu) for _ in range(s)]
    i = int(rng.integers(s))
    put = lambda L, x: L[:i] + [x] + L[i+1:]
    F = Family(rng, ctx, 'PieceWiseAffineSystem')
    P = PieceWiseAffineSystem
    F.refuse('fewer domains', P, S, D[:-1])
    F.refuse('fewer systems', P, S[:-1], D)
    F.refuse('more domains', P, S, D + [dom(nx+nu)])
    F.refuse('more systems', P, S + [sys_(nx, nu)], D)
    F.refuse('a system with more states', P, put(S, sys_(nx+1, nu)), D)
    F.refuse('a system with more inputs', P, put(S, sys_(nx, nu+1)), D)
    # same total dimension
    F.refuse('a system with more states and fewer inputs', P, put(S, sys_(nx+1, nu-1)) if nu > 1 else put(S, sys_(nx+1, 1)), D)
    F.refuse('a larger domain', P, S, put(D, dom(nx+nu+1)))
    F.refuse('a smaller domain', P, S, put(D, dom(nx+nu-1)))
    F.refuse('all domains larger', P, S, [dom(nx+nu+1) for _ in range(s)])
    F.refuse('domains of the state only', P, S, [dom(nx) for _ in range(s)])
    F.accept('consistent', P, S, D)
    F.accept('one mode', P, S[:1], D[:1])
    F.run()
    # simulations that leave the domains
    W = P(S, D)
    x, u = np.full(nx, 3.), [np.zeros(nu)]
    G = Family(rng, ctx, 'PieceWiseAffineSystem.simulate')
    G.refuse('state outside of the domains', W.simulate, x, u)
    G.refuse('input outside of the domains', W.simulate, np.zeros(nx), [np.full(nu, 3.)])
    G.accept('origin', W.simulate, np.zeros(nx), [np.zeros(nu)])
    G.run(W, lambda: observe([W.get_mode(np.zeros(nx), np.zeros(nu)), W.get_mode(x, u[0])]))


def programs(rng, ctx):
    from pympc.optimization.programs import linear_program, quadratic_program, mixed_integer_quadratic_program
    n = int(rng.integers(1, 5))
    A, b, x0 = gens.polytope(rng, n, extra=1, kind=gens.choice(rng, ['box', 'gauss']))
    k = 1
    C = rng.standard_normal((1, n))
    d = C.dot(x0)
    f, H = rng.standard_normal(n), gens.spd(rng, n, 1e1)
    F = Family(rng, ctx, 'programs')
    name = gens.choice(rng, ['', 'Gurobi', 'pnnls ', 'cplex', 'nnls', None, 'GUROBI'])
    F.refuse('linear_program, unknown solver', linear_program, f, A, b, solver=name)
    F.refuse('quadratic_program, unknown solver', quadratic_program, H, f, A, b, solver=name)
    F.refuse('mixed_integer_quadratic_program, unknown solver', mixed_integer_quadratic_program, n, H, f, A, b, solver=name)
    F.refuse('mixed_integer_quadratic_program, pnnls', mixed_integer_quadratic_program, n, H, f, A, b, solver='pnnls')
    F.refuse('linear_program with equalities, unknown solver', linear_program, f, A, b, C, d, solver=name)
    F.refuse('quadratic_program with equalities, unknown solver', quadratic_program, H, f, A, b, C, d, solver=name)
    for s in ('pnnls', 'gurobi'):
        F.refuse('linear_program, C without d, ' + s, linear_program, f, A, b, C, solver=s)
        F.refuse('linear_program, d without C, ' + s, linear_program, f, A, b, None, d, solver=s)
        F.refuse('quadratic_program, C without d, ' + s, quadratic_program, H, f, A, b, C, solver=s)
        F.refuse('quadratic_program, d without C, ' + s, quadratic_program, H, f, A, b, None, d, solver=s)
        F.accept('linear_program, ' + s, linear_program, f, A, b, solver=s)
        F.accept('linear_program with equalities, ' + s, linear_program, f, A, b, C, d, solver=s)
        F.accept('quadratic_program, ' + s, quadratic_program, H, f, A, b, solver=s)
        F.accept('quadratic_program with equalities, ' + s, quadratic_program, H, f, A, b, C, d, solver=s)
    F.accept('mixed_integer_quadratic_program', mixed_integer_quadratic_program, n, H, f, A, b)
    F.run()


def control(rng, ctx):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    from pympc.control.controllers import ModelPredictiveController
    import matplotlib.pyplot as plt
    nx = int(rng.integers(1, 4))
    S, K, P, Q, R, D, X_N, N = workloads.linear_mpc(rng, nx=nx, nu=1, N=1)
    c = ModelPredictiveController(S, N, Q, R, P, D, X_N)
    x = rng.standard_normal(nx)*.1
    F = Family(rng, ctx, 'explicit controller')
    F.refuse('feedforward_explicit', c.feedforward_explicit, x)
    F.refuse('feedback_explicit', c.feedback_explicit, x)
    F.refuse('plot_state_space_partition', c.plot_state_space_partition)
    F.refuse('plot_optimal_value_function', c.plot_optimal_value_function)
    F.run(c, lambda: observe([c.feedback(x), c.feedforward(x)]))
    c.store_explicit_solution()
    G = Family(rng, ctx, 'explicit controller, stored, %d states' % nx)
    if nx != 2:
        G.refuse('plot_state_space_partition', c.plot_state_space_partition)
        G.refuse('plot_optimal_value_function', c.plot_optimal_value_function)
    else:
        G.accept('plot_state_space_partition', c.plot_state_space_partition)
    G.accept('feedforward_explicit', c.feedforward_explicit, x)
    G.accept('feedback_explicit', c.feedback_explicit, x)
    G.run(c, lambda: observe([c.feedback(x), c.feedback_explicit(x)]))
    plt.close('all')


def design(rng, ctx):
    """Riccati equations of uncontrollable systems, invariant sets without their assumptions."""
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import LinearSystem, mcais
    from pympc import plot
    nx, nu = int(rng.integers(2, 4)), 1
    T, Ti = gens.unimodular(rng, nx)
    A = np.diag(rng.integers(1, 3, nx).astype(float))
    A[0, 1:] = 0.
    B = np.vstack((np.zeros((1, nu)), rng.integers(1, 3, (nx-1, nu))))
    bad = LinearSystem(T.dot(A).dot(Ti), T.dot(B))
    F = Family(rng, ctx, 'design')
    F.refuse('solve_dare, uncontrollable', bad.solve_dare, np.eye(nx), np.eye(nu))
    ok = LinearSystem(np.diag(np.ones(nx-1), 1) + .5*np.eye(nx), np.eye(nx)[:, -1:])
    F.accept('solve_dare', ok.solve_dare, np.eye(nx), np.eye(nu))
    q = gens.orthogonal(rng, nx)
    X = Polyhedron.from_bounds(-vec(rng, nx), vec(rng, nx))
    F.refuse('mcais, unstable', mcais, q*rng.uniform(1.01, 1.5), X)
    off = Polyhedron.from_bounds(vec(rng, nx), 2. + vec(rng, nx))
    F.refuse('mcais, without the origin', mcais, q*.5, off)
    half = Polyhedron.from_lower_bound(-vec(rng, nx))
    F.refuse('mcais, unbounded', mcais, q*.5, half)
    F.accept('mcais', mcais, q*.5, X)
    xs = [rng.standard_normal(nx) for _ in range(3)]
    F.refuse('plot_state_space_trajectory, one dimension', plot.plot_state_space_trajectory, xs, [0])
    F.refuse('plot_state_space_trajectory, three dimensions', plot.plot_state_space_trajectory, xs, [0, 1, 0])
    F.accept('plot_state_space_trajectory', plot.plot_state_space_trajectory, xs, [1, 0])
    F.run(bad, lambda: observe([bool(bad.controllable), bad.A, bad.B]))
    import matplotlib.pyplot as plt
    plt.close('all')


SCENARIOS = [('Polyhedron', 2, polyhedron_init), ('Polyhedron.add', 3, polyhedron_add), ('bounds', 2, bounds), ('geometry', 2, geometry), ('systems', 3, systems),
             ('symbolic', .3, symbolic), ('pwa', 2, pwa), ('programs', 2, programs), ('control', .7, control), ('design', 1, design)]
