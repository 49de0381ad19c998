"""C24: hybrid MPC is globally optimal over all mode sequences."""
import numpy as np

from pmon import gens, oracle
from pmon.core import Skip
from pmon.hybrid import Problem

ID = 'C24'
RULE = ('piecewise-affine systems as in C23, horizons 1-4; at each state the mode sequences are enumerated by depth-first search with LPs, those feasible by a margin are solved as '
        'certified QPs built by forward recursion, and the controller is compared with the best of them (or with emptiness by a margin); for chosen mode sequences (optimal, feasible, '
        'infeasible, of other lengths) the parametric program of the controller is compared with the same QP at several states; distinct by sizes, horizon, kind, number of feasible '
        'sequences and best sequence.')
QUICK = 5000
THOROUGH = 25000
FLOORS = {'optima confirmed': 1500, 'several feasible sequences': 700, 'infeasible confirmed': 300, 'fixed-sequence programs confirmed': 1500, 'fixed-sequence refusals': 700, 'with equalities': 100}
CPU_LIMIT = 120.


def margin(p):
    return 1e-3 if p.eq else 2e-4


def optimum(p, x, feasible):
    """Best certified cost over the sequences that are feasible by a margin, and whether any sequence is on the edge."""
    best, arg, count = None, None, 0
    for modes in feasible:
        H, f, g, F, b, C, d = p.ocp(x, modes)
        try:
            val, us = oracle.qp(H, f, F, b, C, d)
        except Skip:
            continue
        if val is None:
            continue
        count += 1
        if best is None or val + g < best:
            best, arg = val + g, modes
    return best, arg, count


def global_optimality(rng, ctx):
    p = Problem(rng)
    c = ctx.call(p.controller)
    for _ in range(3):
        x = p.state(rng)
        info = p.info(x=x)
        candidates = p.sequences(x, 3e-3)
        feasible = []
        for modes, r in candidates:
            s = p.slack(x, modes)
            if s is not None and s > margin(p):
                feasible.append(modes)
        us, xs, modes, V = ctx.call(c.feedforward, x)
        if not candidates:
            ctx.require(V is None, 'a solution is returned, no mode sequence admits one', modes=modes, V=V, **info)
            ctx.ev('infeasible confirmed')
            ctx.sig('infeasible', p.nx, p.nu, p.s, p.N, p.kind)
            continue
        if not feasible:
            continue
        best, arg, count = optimum(p, x, feasible)
        if best is None:
            continue
        ctx.require(V is not None, 'no solution is returned, the mode sequence %s admits one of cost %g' % (arg, best), **info)
        tol = 2e-4*(.05 + abs(best) + x.dot(p.Q).dot(x))
        ctx.require(V <= best + tol, 'the cost is %.9g, the mode sequence %s costs %.9g' % (V, arg, best), modes=modes, **info)
        ctx.ev('optima confirmed')
        if p.eq:
            ctx.ev('with equalities')
        if count > 1:
            ctx.ev('several feasible sequences')
        # not below the optimum of its own sequence, by more than the tolerances of the solver explain
        m = [int(i) for i in modes]
        H, f, g, F, b, C, d = p.ocp(x, m)
        val, _ = oracle.qp(H, f, F, b, C, d) if any(m == q for q in feasible) else (None, None)
        if val is not None:
            ctx.require(V >= val + g - 2e-3*(1. + abs(val + g)), 'the cost %.9g is below the optimum %.9g of its mode sequence' % (V, val + g), modes=m, **info)
        ctx.sig('optimal', p.nx, p.nu, p.s, p.N, p.kind, p.eq, min(count, 6), tuple(arg))
        ctx.note(kind=p.kind, x=x, feasible_sequences=count, best=best, returned=float(V), modes=m)


def fixed_sequence(rng, ctx):
    p = Problem(rng, small=True)
    c = ctx.call(p.controller)
    x = p.state(rng)
    known = [m for m, _ in p.sequences(x, 0.)]
    for _ in range(3):
        if known and rng.random() < .7:
            modes = known[int(rng.integers(len(known)))]
        else:
            # any sequence, of any length
            L = p.N if rng.random() < .6 else int(rng.integers(1, 5))
            modes = [int(i) for i in rng.integers(0, p.s, L)]
        if p.eq and p.nu*len(modes) > 4:
            continue
        mp = ctx.call(c.get_mpqp, list(modes))
        for k in range(3):
            y = x if k == 0 else (x + rng.standard_normal(p.nx)*gens.choice(rng, [.01, .1, .5]) if k == 1 else p.state(rng))
            t = p.slack(y, modes)
            info = p.info(x=y, modes=modes)
            if t is None and p.eq:
                continue
            if t is not None and abs(t) < margin(p):
                continue
            sol = ctx.call(mp.solve, y)
            if t is None or t < 0.:
                ctx.require(sol['min'] is None, 'the program of an infeasible mode sequence has a solution (margin %s)' % t, sol=sol, **info)
                ctx.ev('fixed-sequence refusals')
                continue
            ctx.require(sol['min'] is not None, 'the program of a feasible mode sequence has no solution (margin %g)' % t, **info)
            H, f, g, F, b, C, d = p.ocp(y, modes)
            val, us = oracle.qp(H, f, F, b, C, d)
            if val is None:
                continue
            best = val + g
            ctx.require(abs(sol['min'] - best) <= 2e-5*(1. + abs(best) + abs(g)), 'the program of the mode sequence has minimum %.9g, the optimal control problem %.9g' % (sol['min'], best), **info)
            if np.linalg.eigvalsh(H)[0] > 1e-3:
                ctx.close(sol['argmin'], us, 2e-3*(1. + np.max(np.abs(us))), 'the minimiser of the program is not the optimal control', **info)
            ctx.ev('fixed-sequence programs confirmed')
            if p.eq:
                ctx.ev('with equalities')
            ctx.sig('fixed', p.nx, p.nu, p.s, p.kind, tuple(modes))


SCENARIOS = [('global optimality', 3, global_optimality), ('fixed sequence', 2, fixed_sequence)]
