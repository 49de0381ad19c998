"""C14: discretisation and symbolic systems."""
import numpy as np
import sympy as sp
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from pmon import gens
from pmon.core import Skip

ID = 'C14'
RULE = ('continuous-time systems (stable, unstable, singular, nilpotent, oscillating, integer; with and without offset), time steps from 0 and 1e-6 to 4, slow and fast dynamics, any units of inputs and offsets, against an independent '
        'high-order integration of the differential equation and against composition of half steps; explicit Euler against its definition; symbolic systems over '
        'shuffled symbols, with products, parentheses and mixed number types, against numerical evaluation of the expressions; distinct by entry point, method, kind, '
        'sizes and class of time step.')
QUICK = 12000
THOROUGH = 60000
FLOORS = {'exact steps confirmed': 1200, 'compositions confirmed': 500, 'euler confirmed': 500, 'symbolic confirmed': 500, 'offsets refused': 60, 'default method confirmed': 300}
CPU_LIMIT = 60.


def continuous(rng, nx, nu):
    kind = gens.choice(rng, ['gauss', 'singular', 'nilpotent', 'oscillator', 'integer', 'zero'])
    if kind == 'gauss':
        A = rng.standard_normal((nx, nx))
    elif kind == 'singular':
        A = rng.standard_normal((nx, nx))
        A[int(rng.integers(nx))] = 0.
    elif kind == 'nilpotent':
        A = np.triu(rng.standard_normal((nx, nx)), 1)
    elif kind == 'oscillator':
        L = rng.standard_normal((nx, nx))
        A = L - L.T
    elif kind == 'integer':
        A = rng.integers(-2, 3, (nx, nx)).astype(float)
    else:
        A = np.zeros((nx, nx))
    B, c = rng.standard_normal((nx, nu)), rng.standard_normal(nx)
    if rng.random() < .25:
        A = A*10.**rng.uniform(-2., .7)
        B, c = B*10.**rng.uniform(-2., 3.), c*10.**rng.uniform(-2., 3.)
    return kind, A, B, c


def shape(rng):
    return (int(rng.integers(1, 5)), int(rng.integers(1, 4))) if rng.random() < .9 else (int(rng.integers(4, 8)), int(rng.integers(1, 6)))


def step_size(rng):
    if rng.random() < .3:
        return float(10.**rng.uniform(-6., .6))
    return float(gens.choice(rng, [0., 1e-3, .05, .3, 1., 2.]))*float(rng.uniform(.7, 1.))


def exact(A, B, c, x, u, h):
    """State after h by Taylor steps of the differential equation (no matrix exponential)."""
    k = max(1, int(np.ceil(h*(1. + np.linalg.norm(A, 2))*4.)))
    dt = h/k
    for _ in range(k):
        # x(t+dt) = sum of the derivatives
        term = (A.dot(x) + B.dot(u) + c)
        y = x.copy()
        f = dt
        for i in range(1, 16):
            y = y + term*f
            term = A.dot(term)
            f *= dt/(i+1)
        x = y
    return x


def entry(rng, ctx, A, B, c, h, method):
    """Through one of the entry points: (A_d, B_d, c_d, label, default)."""
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from pympc.dynamics.discretization_methods import zero_order_hold, explicit_euler
    kind = gens.choice(rng, ['function', 'linear', 'affine', 'linear symbolic', 'affine symbolic'], [.25, .25, .3, .08, .12])
    kw = {'method': method}
    default = False
    if method == 'zero_order_hold' and rng.random() < .5:
        kw = {}
        default = True
    if kind == 'function':
        out = ctx.call({'zero_order_hold': zero_order_hold, 'explicit_euler': explicit_euler}[method], A, B, c, h)
        return out[0], out[1], out[2], kind, False
    if kind == 'linear':
        S = ctx.call(LinearSystem.from_continuous, A, B, h, **kw)
        return S.A, S.B, None, kind, default
    if kind == 'affine':
        S = ctx.call(AffineSystem.from_continuous, A, B, c, h, **kw)
        return S.A, S.B, S.c, kind, default
    x, u = symbols(rng, A.shape[0], B.shape[1])
    if kind == 'linear symbolic':
        S = ctx.call(LinearSystem.from_symbolic_continuous, x, u, expression(rng, x, u, A, B, 0.*c), h, **kw)
        return S.A, S.B, None, kind, default
    S = ctx.call(AffineSystem.from_symbolic_continuous, x, u, expression(rng, x, u, A, B, c), h, **kw)
    return S.A, S.B, S.c, kind, default


def discretise(rng, ctx):
    nx, nu = shape(rng)
    kind, A, B, c = continuous(rng, nx, nu)
    h = step_size(rng)
    if h*np.linalg.norm(A, 2) > 12.:
        h = 12./np.linalg.norm(A, 2)
    method = gens.choice(rng, ['zero_order_hold', 'zero_order_hold', 'explicit_euler'])
    Ad, Bd, cd, label, default = entry(rng, ctx, A, B, c, h, method)
    if cd is None:
        c = np.zeros(nx)
        cd = np.zeros(nx)
    data = dict(entry=label, method=method, default=default, A=A, B=B, c=c, h=h, A_d=Ad, B_d=Bd, c_d=cd)
    ctx.require(np.shape(Ad) == (nx, nx) and np.shape(Bd) == (nx, nu) and np.shape(cd) == (nx,), 'wrong shapes', **data)
    for _ in range(3):
        x, u = rng.standard_normal(nx)*gens.choice(rng, [0., 1., 10.]), rng.standard_normal(nu)*gens.choice(rng, [0., 1., 10.])
        got = Ad.dot(x) + Bd.dot(u) + cd
        if method == 'zero_order_hold':
            want = exact(A, B, c, x, u, h)
            # what a step of h can move, and rounding on the state itself
            L = np.linalg.norm(A, 2)
            s = np.exp(h*L)*(L*np.max(np.abs(x)) + np.max(np.abs(B))*np.sum(np.abs(u)) + np.max(np.abs(c)))
            ctx.close(got, want, 1e-8*h*s + 1e-12*(1. + h)*(s + np.exp(h*L)*np.max(np.abs(x))), 'not the state of the differential equation after one step', x=x, u=u, **data)
            ctx.ev('exact steps confirmed')
            if default:
                ctx.ev('default method confirmed')
        else:
            want = x + h*(A.dot(x) + B.dot(u) + c)
            ctx.close(got, want, 1e-12*(np.max(np.abs(x)) + h*(np.sum(np.abs(A))*np.max(np.abs(x)) + np.sum(np.abs(B))*np.max(np.abs(u)) + np.max(np.abs(c)))) + 1e-300, 'not an explicit Euler step', x=x, u=u, **data)
            ctx.ev('euler confirmed')
    if method == 'zero_order_hold':
        # composition
        A2, B2, c2, label2, _ = entry(rng, ctx, A, B, c, .5*h, method)
        if c2 is None:
            if np.any(c):
                c2 = None
            else:
                c2 = np.zeros(nx)
        s = np.exp(h*np.linalg.norm(A, 2))
        t = 1e-8*h + 1e-12
        ctx.close(A2.dot(A2), Ad, t*s*(1. + np.max(np.abs(A))), 'two half steps do not make a step (A)', entry2=label2, **data)
        ctx.close(A2.dot(B2) + B2, Bd, t*s*np.max(np.abs(B)), 'two half steps do not make a step (B)', entry2=label2, **data)
        if c2 is not None:
            ctx.close(A2.dot(c2) + c2, cd, t*s*np.max(np.abs(c)), 'two half steps do not make a step (c)', entry2=label2, **data)
        ctx.ev('compositions confirmed')
    ctx.sig(label, method, default, kind, nx, nu, 0 if h == 0. else int(np.floor(np.log10(h))))
    ctx.note(**{k: data[k] for k in ('entry', 'method', 'A', 'B', 'c', 'h')})


def symbols(rng, nx, nu):
    names = ['x%d' % i for i in range(nx)] + ['u%d' % i for i in range(nu)]
    p = rng.permutation(len(names))
    s = [sp.Symbol('q%d' % i) for i in p]
    return sp.Matrix(s[:nx]), sp.Matrix(s[nx:])


def expression(rng, x, u, A, B, c):
    """A x + B u + c as the user might write it."""
    rows = []
    for i in range(A.shape[0]):
        t = [(A[i, j], x[j]) for j in range(A.shape[1])] + [(B[i, j], u[j]) for j in range(B.shape[1])]
        t = [t[k] for k in rng.permutation(len(t))]
        e = sum(((sp.Rational(float(a)) if rng.random() < .3 else sp.Float(float(a)))*s for a, s in t if a != 0. or rng.random() < .5), sp.Integer(0))
        if c[i] != 0.:
            e = e + sp.Float(float(c[i]))
        k = rng.random()
        if k < .15:
            e = sp.Rational(1, 2)*(e + e)
        elif k < .3 and c[i] == 0.:
            e = 3*(e/3)
        rows.append(e)
    return sp.Matrix(rows)


def symbolic(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, get_state_transition_matrices
    nx, nu = shape(rng)
    A = rng.standard_normal((nx, nx))*(rng.random((nx, nx)) < .7)
    B = rng.standard_normal((nx, nu))*(rng.random((nx, nu)) < .7)
    linear = rng.random() < .5
    c = np.zeros(nx) if linear else rng.standard_normal(nx)*(rng.random(nx) < .7)
    if rng.random() < .25:
        A, B, c = A*10.**rng.uniform(-3., 3.), B*10.**rng.uniform(-3., 3.), c*10.**rng.uniform(-3., 3.)
    x, u = symbols(rng, nx, nu)
    e = expression(rng, x, u, A, B, c)
    kind = gens.choice(rng, ['system', 'matrices'])
    if kind == 'matrices':
        Ad, Bd, cd = ctx.call(get_state_transition_matrices, x, u, e)
    elif linear and rng.random() < .6:
        S = ctx.call(LinearSystem.from_symbolic, x, u, e)
        Ad, Bd, cd = S.A, S.B, np.zeros(nx)
        kind = 'linear system'
    else:
        S = ctx.call(AffineSystem.from_symbolic, x, u, e)
        Ad, Bd, cd = S.A, S.B, S.c
    data = dict(x=str(x), u=str(u), expression=str(e), A=Ad, B=Bd, c=cd)
    for _ in range(3):
        vx, vu = rng.standard_normal(nx), rng.standard_normal(nu)
        val = e.subs(dict(list(zip(x, vx)) + list(zip(u, vu))))
        want = np.array(val, dtype=float).flatten()
        ctx.close(Ad.dot(vx) + Bd.dot(vu) + cd, want, 1e-11*(np.sum(np.abs(A))*np.max(np.abs(vx)) + np.sum(np.abs(B))*np.max(np.abs(vu)) + np.max(np.abs(c))), 'the system does not evaluate to its expressions', vx=vx, vu=vu, **data)
    ctx.ev('symbolic confirmed')
    # systems with an offset are not linear
    off = np.zeros(nx)
    off[int(rng.integers(nx))] = gens.choice(rng, [1e-5, -1e-3, 1., -2.])
    if nx > 1 and rng.random() < .4:
        # offsets that cancel, or of many components
        off = off - np.roll(off, 1) if rng.random() < .6 else np.full(nx, off.sum())
    h = step_size(rng)
    if rng.random() < .4:
        f = expression(rng, x, u, A, B, off)
        if rng.random() < .5:
            ctx.rejects(ValueError, LinearSystem.from_symbolic, x, u, f)
        else:
            ctx.rejects(ValueError, LinearSystem.from_symbolic_continuous, x, u, f, h)
        ctx.ev('offsets refused')
    ctx.sig('symbolic', kind, nx, nu, linear)


SCENARIOS = [('discretise', 3, discretise), ('symbolic', 1.2, symbolic)]
