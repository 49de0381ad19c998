"""C22: recursive feasibility and stability of MPC with the LQR terminal ingredients."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip
from pmon.props.c21 import slack_of, violation

ID = 'C22'
RULE = ('controllers built as documented (random stable and unstable controllable systems, asymmetric and coupled bounded constraint sets, horizons 1-6, terminal cost of the Riccati '
        'equation and maximal invariant terminal set of the library); closed loops from states inside and near the boundary of the feasible set and around the extreme points of the terminal set, observed at every '
        'step: admissibility of state and input, existence of a solution at the next state, decrease of the optimal cost by the stage cost, number of steps to the terminal set against '
        'the bound that the decrease implies, LQR law and cost inside; distinct by sizes, horizon, length of the loop and active constraints.')
QUICK = 15000
THOROUGH = 40000
FLOORS = {'steps observed': 6000, 'decrease checked': 6000, 'loops that reach the terminal set': 1200, 'LQR coincidences': 2000, 'starts near the boundary': 1000}
CPU_LIMIT = 90.


def closed_loop(rng, ctx):
    from pympc.control.controllers import ModelPredictiveController
    N = int(rng.integers(1, 7)) if rng.random() < .9 else int(rng.integers(7, 13))
    S, K, P, Q, R, D, X_N, N = workloads.linear_mpc(rng, N=N)
    A, B = S.A, S.B
    nx, nu = B.shape
    c = ctx.call(ModelPredictiveController, S, N, Q, R, P, D, X_N)
    Dd, Td = oracle.poly(D), oracle.poly(X_N)
    r_in = float(np.min(oracle.normalize(Td[0], Td[1])[1]))
    info = dict(A=A, B=B, Q=Q, R=R, P=P, K=K, N=N, D=Dd, X_N=Td)
    if not r_in > 1e-2:
        raise Skip('tiny terminal set')
    q = np.linalg.eigvalsh(Q)[0]
    for _ in range(2):
        # a feasible start
        x = rng.standard_normal(nx)*gens.choice(rng, [.3, 1., 4.])
        if rng.random() < .3:
            # towards an extreme point of the terminal set: just inside, just outside
            status, _, z = oracle.lp(-x, Td[0], Td[1], Td[2], Td[3])
            if status == 'optimal':
                x = z*gens.choice(rng, [.9, .99, .999, .9999, 1.01, 1.1, 1.5])
        t = slack_of(x, A, B, Dd, Td, N)
        near = False
        if t is None or t < 1e-6:
            lo, hi = 0., 1.
            for _ in range(int(gens.choice(rng, [4, 10, 16]))):
                mid = .5*(lo + hi)
                r = slack_of(mid*x, A, B, Dd, Td, N)
                if r is not None and r > 1e-5:
                    lo, near = mid, True
                else:
                    hi = mid
            if lo == 0.:
                continue
            x = lo*x
        if near:
            ctx.ev('starts near the boundary')
        u, V = ctx.call(c.feedforward, x)
        ctx.require(V is not None, 'no solution at a feasible state', x=x, slack=slack_of(x, A, B, Dd, Td, N), **info)
        V0 = V
        nudges = outside = 0
        bound = V0/(.5*q*r_in**2) + 2
        x0 = x.copy()
        inside_steps = 0
        active = 0
        for k in range(80):
            s = 1. + abs(V) + V0
            v = violation(Dd, np.concatenate((x, u[0])))
            ctx.require(v <= 1e-5*(1. + np.max(np.abs(x))), 'step %d of the closed loop violates the constraints by %g' % (k, v), start=x0, x=x, u=u[0], **info)
            active += v > -1e-6
            fb = ctx.call(c.feedback, x)
            ctx.require(fb is not None, 'no feedback where the feedforward exists', x=x, **info)
            ctx.close(fb, u[0], 1e-7*(1. + np.max(np.abs(u[0]))), 'the feedback is not the first input', x=x, **info)
            vt = violation(Td, x)
            if vt <= 1e-9:
                inside_steps += 1
                kx = K.dot(x)
                ctx.require(abs(V - .5*x.dot(P).dot(x)) <= 1e-5*s, 'inside the terminal set the value is %.9g, the LQR cost %.9g' % (V, .5*x.dot(P).dot(x)), x=x, start=x0, **info)
                ctx.close(fb, kx, 1e-4*(1. + np.max(np.abs(kx))), 'inside the terminal set the feedback is not the LQR feedback', x=x, start=x0, **info)
                ctx.ev('LQR coincidences')
                if inside_steps >= 4:
                    break
            else:
                ctx.require(inside_steps == 0 or vt <= 1e-5, 'the closed loop leaves the terminal set (by %g)' % vt, x=x, start=x0, **info)
                outside += 1
                ctx.require(outside <= bound, '%d steps outside of the terminal set, the decrease of the cost allows %g' % (outside, bound), start=x0, x=x, **info)
            stage = .5*(x.dot(Q).dot(x) + fb.dot(R).dot(fb))
            xs = ctx.call(S.simulate, x, [fb])
            y = xs[-1]
            ctx.close(y, A.dot(x) + B.dot(fb), 1e-9*(1. + np.max(np.abs(x))), 'simulate does not follow the dynamics', x=x, **info)
            ctx.ev('steps observed')
            un, Vn = ctx.call(c.feedforward, y)
            if Vn is None:
                # on the boundary of the feasible set the solver may say either: ask how far outside
                r = slack_of(y, A, B, Dd, Td, N)
                ctx.require(r is not None and r > -1e-5*(1. + np.max(np.abs(y))), 'the closed loop leaves the feasible set (slack %s) at step %d' % (r, k+1), start=x0, x=x, u=fb, next=y, **info)
                ctx.require(r < 1e-5, 'no solution at step %d, the state is feasible (slack %g)' % (k+1, r), start=x0, next=y, **info)
                ctx.ev('knife-edge states')
                nudges += 1
                y = y*(1. - 1e-4)
                un, Vn = ctx.call(c.feedforward, y)
                ctx.require(Vn is not None, 'no solution just inside of the feasible set', start=x0, next=y, **info)
            ctx.require(Vn <= V - stage + 2e-5*s, 'the optimal cost goes from %.9g to %.9g with stage cost %.9g' % (V, Vn, stage), start=x0, x=x, u=fb, next=y, **info)
            ctx.ev('decrease checked')
            x, u, V = y, un, Vn
        if inside_steps:
            ctx.ev('loops that reach the terminal set')
        ctx.sig(nx, nu, N, min(outside, 12), min(active, 4), near)
        ctx.note(nx=nx, nu=nu, N=N, start=x0, value=V0, steps_outside=outside, steps_inside=inside_steps)


SCENARIOS = [('closed loop', 1, closed_loop)]
