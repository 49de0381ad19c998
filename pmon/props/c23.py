"""C23: hybrid MPC returns valid trajectories of the piecewise-affine system."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip
from pmon.hybrid import Problem
from pmon.props.c21 import violation

ID = 'C23'
RULE = ('piecewise-affine systems (1-4 modes, 1-3 states, 1-2 inputs, domains that partition a box, overlap, leave gaps or are unrelated, with different numbers of inequalities, scaled and '
        'permuted rows, equalities), horizons 1-4, terminal sets around and away from the origin; every trajectory returned by the controller at states in, near and outside of the '
        'domains, and along closed loops, is replayed against the raw data of the system; distinct by sizes, horizon, kind and mode sequence returned.')
QUICK = 4000
THOROUGH = 30000
FLOORS = {'trajectories replayed': 3000, 'switching trajectories': 800, 'with equalities': 150, 'refusals': 500, 'closed-loop steps': 300}
CPU_LIMIT = 120.


def replay(ctx, p, c, x, info):
    """One query: the returned trajectory must be one of the system.  Returns it (or None)."""
    nx, nu, N = p.nx, p.nu, p.N
    out = ctx.call(c.feedforward, x)
    ctx.require(isinstance(out, tuple) and len(out) == 4, 'feedforward does not return four values', **info)
    us, xs, modes, V = out
    fb = ctx.call(c.feedback, x)
    if V is None:
        ctx.require(us is None and xs is None and modes is None, 'part of a solution is returned without a cost', **info)
        ctx.require(fb is None, 'a feedback is returned without a feedforward', **info)
        ctx.ev('refusals')
        return None
    ctx.require(us is not None and xs is not None and modes is not None, 'a cost is returned without its trajectory', **info)
    ctx.require(len(us) == N and len(modes) == N and len(xs) == N+1,
                '%d inputs, %d modes and %d states for a horizon of %d' % (len(us), len(modes), len(xs), N), **info)
    ctx.require(all(np.shape(u) == (nu,) for u in us) and all(np.shape(z) == (nx,) for z in xs), 'wrong sizes in the trajectory', **info)
    ctx.require(all(m == int(m) and 0 <= m < p.s for m in modes), 'modes that do not exist', modes=modes, **info)
    ctx.close(xs[0], x, 0., 'the trajectory does not start at the state', **info)
    # integrality (1e-5) and feasibility (1e-6) tolerances of the solver, multiplied by the bigMs
    tol = 3e-5*(5. + p.M)
    for t in range(N):
        z = np.concatenate((xs[t], us[t]))
        m = int(modes[t])
        v = violation(p.domains[m], z)
        ctx.require(v <= tol, 'step %d is outside of the domain of its mode %d by %g' % (t, m, v), u=us, x_list=xs, modes=modes, **info)
        e = np.max(np.abs(xs[t+1] - p.As[m].dot(xs[t]) - p.Bs[m].dot(us[t]) - p.cs[m]))
        ctx.require(e <= tol, 'step %d does not follow the dynamics of its mode %d, error %g' % (t, m, e), u=us, x_list=xs, modes=modes, **info)
    v = violation(p.X_N, xs[N])
    ctx.require(v <= tol, 'the terminal set is missed by %g' % v, u=us, x_list=xs, modes=modes, **info)
    cost = p.cost(xs, us)
    ctx.require(abs(V - cost) <= 1e-4*(1. + abs(cost)), 'the cost is %.9g, that of the returned trajectory %.9g' % (V, cost), u=us, x_list=xs, modes=modes, **info)
    ctx.require(fb is not None, 'no feedback where a feedforward exists', **info)
    ctx.close(fb, us[0], 1e-5*(1. + np.max(np.abs(us[0]))), 'the feedback is not the first input', **info)
    ctx.ev('trajectories replayed')
    if p.eq:
        ctx.ev('with equalities')
    if len(set(int(m) for m in modes)) > 1:
        ctx.ev('switching trajectories')
    ctx.sig(nx, nu, p.s, N, p.kind, p.eq, tuple(int(m) for m in modes))
    ctx.note(kind=p.kind, x=x, modes=[int(m) for m in modes], u=us, V=float(V))
    return us, xs, modes, V


def queries(rng, ctx):
    p = Problem(rng)
    c = ctx.call(p.controller)
    for _ in range(4):
        x = p.state(rng)
        replay(ctx, p, c, x, p.info(x=x))


def loop(rng, ctx):
    p = Problem(rng, small=True)
    c = ctx.call(p.controller)
    x = p.state(rng)
    for k in range(5):
        out = replay(ctx, p, c, x, p.info(x=x))
        if out is None:
            break
        ctx.ev('closed-loop steps')
        x = np.array(out[1][1])


SCENARIOS = [('queries', 3, queries), ('closed loop', 1, loop)]
