"""C13: simulation and condensed dynamics."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip

ID = 'C13'
RULE = ('linear, affine and piecewise-affine systems (random, integer, nilpotent, unstable, more inputs than states), horizons 0-30, states, inputs and offsets of any unit, random mode sequences; every '
        'simulated step is compared with the update equation written out by the harness, and the condensed matrices with the trajectory of a separate forward '
        'recursion from random initial states and inputs, column by column; distinct by kind of system, sizes, horizon and mode sequence.')
QUICK = 40000
THOROUGH = 150000
FLOORS = {'simulations confirmed': 3000, 'condensed dynamics confirmed': 2500, 'closed loops confirmed': 500, 'steps': 15000}
CPU_LIMIT = 30.


def data(rng, nx, nu, integer=False):
    if integer:
        return rng.integers(-2, 3, (nx, nx)), rng.integers(-2, 3, (nx, nu)), rng.integers(-2, 3, nx)
    A, B = gens.system(rng, nx, nu, rho=rng.uniform(.2, 1.4))
    if rng.random() < .1:
        # sparse
        A, B = A*(rng.random(A.shape) < .5), B*(rng.random(B.shape) < .5)
    return A, B, rng.standard_normal(nx)*(rng.random(nx) < .8)


def sizes(rng):
    if rng.random() < .12:
        return int(rng.integers(4, 9)), int(rng.integers(1, 7))
    return int(rng.integers(1, 5)), int(rng.integers(1, 4))


def unit(rng):
    return 10.**rng.uniform(-4., 4.) if rng.random() < .3 else 1.


def inputs(rng, N, nu, integer=False):
    u = [rng.integers(-3, 4, nu) if integer else rng.standard_normal(nu) for _ in range(N)]
    return u if rng.random() < .7 or N == 0 else np.array(u)


def steps(ctx, traj, x0, N, step, what, mag=1.):
    """traj obeys x(t+1) = step(t, x(t))."""
    ctx.require(len(traj) == N+1, '%s: %d states for %d steps' % (what, len(traj), N))
    ctx.close(traj[0], x0, 0., what + ': the trajectory does not start at the initial state')
    for t in range(N):
        want = step(t, np.asarray(traj[t], dtype=float))
        ctx.close(traj[t+1], want, 1e-9*(mag + np.max(np.abs(want)) + np.max(np.abs(traj[t]))), '%s: step %d does not obey the dynamics' % (what, t), trajectory=traj)
        ctx.ev('steps')


def simulate(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu = sizes(rng)
    integer = rng.random() < .2
    A, B, c = data(rng, nx, nu, integer)
    N = int(rng.integers(0, 13)) if integer or rng.random() < .9 else int(rng.integers(13, 31))
    x0 = rng.integers(-3, 4, nx) if integer else rng.standard_normal(nx)
    u = inputs(rng, N, nu, integer)
    mag = 1.
    if not integer:
        # the recursion is homogeneous in (x, u, c): the tolerance goes with the unit
        mag = unit(rng)
        x0, c = mag*x0, mag*c
        u = [mag*v for v in u] if isinstance(u, list) else mag*u
    kind = gens.choice(rng, ['linear', 'affine', 'closed loop'])
    if kind == 'linear':
        S = ctx.call(LinearSystem, A, B)
        x = ctx.call(S.simulate, x0, u)
        steps(ctx, x, x0, N, lambda t, z: A.dot(z) + B.dot(u[t]), kind, mag)
    elif kind == 'affine':
        S = ctx.call(AffineSystem, A, B, c)
        x = ctx.call(S.simulate, x0, u)
        steps(ctx, x, x0, N, lambda t, z: A.dot(z) + B.dot(u[t]) + c, kind, mag)
    else:
        K = rng.standard_normal((nu, nx))
        S = ctx.call(LinearSystem, A, B)
        x = ctx.call(S.simulate_closed_loop, x0, N, K)
        steps(ctx, x, x0, N, lambda t, z: A.dot(z) + B.dot(K.dot(z)), kind, mag)
        # the same as applying the feedback inputs in open loop
        y = ctx.call(S.simulate, x0, [K.dot(z) for z in x[:-1]])
        for s, t in zip(x, y):
            ctx.close(s, t, 1e-7*(mag + np.max(np.abs(x))), 'closed loop and open loop disagree')
        ctx.ev('closed loops confirmed')
    ctx.require((S.nx, S.nu) == (nx, nu), 'the system has sizes %s instead of %s' % ((S.nx, S.nu), (nx, nu)))
    ctx.ev('simulations confirmed')
    ctx.sig(kind, nx, nu, N, integer)


def condensed(rng, ctx, got, modes, As, Bs, cs, what):
    """got = (A_bar, B_bar[, c_bar]) against a forward recursion."""
    N = len(modes)
    nx, nu = As[0].shape[0], Bs[0].shape[1]
    X, U, c = oracle.response(modes, As, Bs, cs)
    info = dict(what=what, modes=list(modes), As=As, Bs=Bs, cs=cs)
    A_bar, B_bar = got[0], got[1]
    sX, sU, sc = np.vstack(X), np.vstack(U), np.concatenate(c)
    scale = 1. + np.max(np.abs(sX))
    ctx.close(A_bar, sX, 1e-9*scale, what + ': free response', **info)
    ctx.close(B_bar, sU, 1e-9*(scale + np.max(np.abs(sU))), what + ': forced response', **info)
    c_bar = np.zeros(nx*(N+1))
    if len(got) > 2:
        c_bar = np.asarray(got[2], dtype=float)
        ctx.close(c_bar, sc, 1e-9*(scale + np.max(np.abs(sc))), what + ': offset', **info)
    # one trajectory, written out
    x0, u = rng.standard_normal(nx), rng.standard_normal((N, nu))
    z, traj = x0, [x0]
    for t in range(N):
        z = As[modes[t]].dot(z) + Bs[modes[t]].dot(u[t]) + cs[modes[t]]
        traj.append(z)
    traj = np.concatenate(traj)
    ctx.close(np.asarray(A_bar).dot(x0) + np.asarray(B_bar).dot(u.flatten()) + c_bar, traj, 1e-8*(1.+np.max(np.abs(traj))), what + ': trajectory', **info)
    ctx.ev('condensed dynamics confirmed')


def condense(rng, ctx):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem, condense_pwa_system
    from pympc.geometry.polyhedron import Polyhedron
    nx, nu = sizes(rng)
    N = int(rng.integers(1, 11)) if rng.random() < .9 else int(rng.integers(11, 21))
    kind = gens.choice(rng, ['linear', 'affine', 'pwa', 'function'])
    integer = rng.random() < .2
    if kind == 'linear':
        A, B, c = data(rng, nx, nu, integer)
        S = ctx.call(LinearSystem, A, B)
        got = ctx.call(S.condense, N)
        ctx.require(len(got) == 2, 'linear condensation returns %d matrices' % len(got))
        condensed(rng, ctx, got, [0]*N, [A], [B], [np.zeros(nx)], kind)
        modes = ()
    elif kind == 'affine':
        A, B, c = data(rng, nx, nu, integer)
        S = ctx.call(AffineSystem, A, B, c)
        got = ctx.call(S.condense, N)
        ctx.require(len(got) == 3, 'affine condensation returns %d matrices' % len(got))
        condensed(rng, ctx, got, [0]*N, [A], [B], [c], kind)
        modes = ()
    else:
        s = int(rng.integers(1, 5)) if rng.random() < .85 else int(rng.integers(5, 10))
        D = [data(rng, nx, nu, integer) for _ in range(s)]
        lin = rng.random(s) < .25
        As, Bs, cs = [d[0] for d in D], [d[1] for d in D], [np.zeros(nx) if l else d[2] for d, l in zip(D, lin)]
        systems = [LinearSystem(A, B) if l and kind == 'pwa' else AffineSystem(A, B, c) for A, B, c, l in zip(As, Bs, cs, lin)]
        modes = [int(m) for m in rng.integers(0, s, N)]
        if rng.random() < .2:
            modes = tuple(modes)
        if kind == 'pwa':
            box = Polyhedron.from_bounds(-np.ones(nx+nu), np.ones(nx+nu))
            P = ctx.call(PieceWiseAffineSystem, systems, [box]*s)
            got = ctx.call(P.condense, modes)
        else:
            got = ctx.call(condense_pwa_system, systems, modes)
        ctx.require(len(got) == 3, 'piecewise-affine condensation returns %d matrices' % len(got))
        condensed(rng, ctx, got, modes, As, Bs, cs, kind)
    ctx.sig('condense', kind, nx, nu, N, tuple(modes))
    ctx.note(kind=kind, nx=nx, nu=nu, N=N, modes=modes)


def pwa(rng, ctx):
    """Simulated trajectories of piecewise-affine systems against the condensed dynamics of the reported mode sequence."""
    from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    As, Bs, cs, domains = workloads.pwa(rng)
    nx, nu = Bs[0].shape
    As = [.6*A/max(.3, np.max(np.abs(np.linalg.eigvals(A)))) for A in As]
    Bs = [.3*B for B in Bs]
    cs = [.2*c for c in cs]
    P = ctx.call(PieceWiseAffineSystem, [AffineSystem(*d) for d in zip(As, Bs, cs)], [Polyhedron(*d) for d in domains])
    N = int(rng.integers(1, 8))
    x0, u = rng.uniform(-.4, .4, nx), [rng.uniform(-.6, .6, nu) for _ in range(N)]
    try:
        x, modes = P.simulate(x0, u)
    except ValueError:
        raise Skip('left the domain')
    ctx.require(len(modes) == N and all(0 <= m < len(As) for m in modes), 'mode sequence %s' % (modes,))
    steps(ctx, x, x0, N, lambda t, z: As[modes[t]].dot(z) + Bs[modes[t]].dot(u[t]) + cs[modes[t]], 'pwa')
    got = ctx.call(P.condense, modes)
    condensed(rng, ctx, got, modes, As, Bs, cs, 'pwa simulated')
    ctx.close(np.asarray(got[0]).dot(x0) + np.asarray(got[1]).dot(np.concatenate(u)) + np.asarray(got[2]), np.concatenate(x), 1e-8, 'condensed and simulated trajectories differ', modes=modes)
    ctx.ev('simulations confirmed')
    ctx.sig('pwa', nx, nu, tuple(modes))


SCENARIOS = [('simulate', 3, simulate), ('condense', 3, condense), ('pwa', 1.5, pwa)]
