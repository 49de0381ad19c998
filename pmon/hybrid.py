"""
Hybrid optimal control problems as raw data, their controllers, and the enumeration of mode sequences.
"""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip


class Problem(object):

    def __init__(self, rng, small=False):
        self.nx = int(rng.integers(1, 4)) if rng.random() < .3 else int(rng.integers(1, 3))
        self.nu = int(rng.integers(1, 3))
        self.s = int(gens.choice(rng, [1, 2, 3, 4], [.08, .42, .38, .12]))
        self.N = int(rng.integers(1, 5))
        r = rng.random()
        if r < .05:
            # many modes, short horizon
            self.s, self.N = int(rng.integers(5, 8)), int(rng.integers(1, 3))
        elif r < .1:
            # long horizon, few modes
            self.s, self.N = int(rng.integers(1, 3)), int(rng.integers(5, 7))
            if self.s == 1:
                self.N += int(rng.integers(0, 5))
        elif r < .15:
            self.nu = 3
        while self.s**self.N > (27 if small else 81):
            self.N -= 1
        nx, nu, s, N = self.nx, self.nu, self.s, self.N
        self.As, self.Bs, self.cs, domains = workloads.pwa(rng, nx=nx, nu=nu, s=s)
        n = nx + nu
        # overlaps and gaps: shift a facet of some domains
        self.kind = gens.choice(rng, ['partition', 'overlap', 'gap', 'boxes', 'nested'], [.45, .2, .15, .12, .08])
        if self.kind == 'nested':
            # all the modes are linear and can stay at the origin
            self.cs = [np.zeros(nx) for _ in range(s)]
        if self.kind in ('boxes', 'nested'):
            # unrelated domains
            domains = []
            for _ in range(s):
                z = rng.standard_normal(n)*(.8 if self.kind == 'boxes' else .1)
                I = np.eye(n)
                A = np.vstack((I, -I))
                domains.append((A, A.dot(z) + rng.uniform(.3, 3., 2*n) + (.3 if self.kind == 'nested' else 0.)))
        self.eq = rng.random() < .15 and nu > 1
        self.domains = []
        for i, (A, b) in enumerate(domains):
            if self.kind in ('overlap', 'gap') and A.shape[0] > 2*n:
                b = b.copy()
                b[2*n] += rng.uniform(.05, .5)*(1. if self.kind == 'overlap' else -1.)
            if rng.random() < .3:
                A, b = gens.scaled(rng, A, b, *gens.choice(rng, [(-.5, .5), (-1.5, .5)]))
            if rng.random() < .3:
                A, b = gens.permuted(rng, A, b)
            C, d = np.zeros((0, n)), np.zeros(0)
            if self.eq and rng.random() < .6:
                C = rng.standard_normal((1, n))
                if rng.random() < .5:
                    C[:, :nx] = 0.
                C /= np.linalg.norm(C)
                d = rng.uniform(-.2, .2, 1)
            self.domains.append((A, b, C, d))
        self.Q = gens.choice(rng, [gens.spd(rng, nx, 1e1), gens.psd(rng, nx, 1), np.zeros((nx, nx))], [.7, .2, .1])
        self.R = gens.spd(rng, nu, 1e1, 10.**rng.uniform(-1., .5))
        self.P = gens.choice(rng, [gens.spd(rng, nx, 1e1), gens.psd(rng, nx, 1), np.zeros((nx, nx))], [.7, .2, .1])
        J = np.eye(nx)
        t = gens.choice(rng, ['box', 'polytope', 'small', 'far'], [.45, .2, .15, .2])
        center = np.zeros(nx)
        if t == 'far':
            center = rng.standard_normal(nx)
        if t == 'polytope':
            TA, Tb, _ = gens.polytope(rng, nx, extra=2, center=center, kind='gauss')
        else:
            TA = np.vstack((J, -J))
            Tb = TA.dot(center) + rng.uniform(*((.05, .3) if t == 'small' else (.3, 3.)), 2*nx)
        TC, Td = np.zeros((0, nx)), np.zeros(0)
        if self.eq and nx > 1 and rng.random() < .3:
            TC = rng.standard_normal((1, nx))
            TC /= np.linalg.norm(TC)
            Td = TC.dot(center)
        self.X_N = (TA, Tb, TC, Td)
        # the modes must have points
        for A, b, C, d in self.domains:
            r, _ = oracle.depth(A, b, C, d)
            if r is None or r < 5e-2:
                raise Skip('thin domain')
        # other units of the states and of the inputs
        self.sx = self.su = 1.
        if rng.random() < .3:
            self.sx, self.su = 10.**rng.uniform(-1., 1.7), 10.**rng.uniform(-.7, 1.)
            sx, su = self.sx, self.su
            D = np.concatenate((np.full(nx, sx), np.full(nu, su)))
            self.Bs = [B*sx/su for B in self.Bs]
            self.cs = [c*sx for c in self.cs]
            self.domains = [(A/D, b, C/D, d) for A, b, C, d in self.domains]
            self.Q, self.P, self.R = self.Q/sx**2, self.P/sx**2, self.R/su**2
            TA, TC = TA/sx, TC/sx
            self.X_N = (TA, Tb, TC, Td)
        # magnitude of the vectors that the integrality tolerance of the solver multiplies
        self.M = 1.
        for A, b, C, d in self.domains:
            for i in range(n):
                e = np.eye(n)[i]
                for sgn in (1., -1.):
                    v = oracle.support(sgn*e, A, b, C, d)
                    self.M = max(self.M, abs(v))
        self.M *= max(np.max(np.sum(np.abs(np.hstack((A, B))), axis=1)) for A, B in zip(self.As, self.Bs))
        self.M += max(np.max(np.abs(c)) for c in self.cs)
        self.normalised = []
        for A, b, C, d in self.domains:
            A, b = oracle.normalize(A, b)
            self.normalised.append((A, b, C, d))
        A, b = oracle.normalize(TA, Tb)
        self.terminal = (A, b, TC, Td)

    def info(self, **more):
        d = dict(As=self.As, Bs=self.Bs, cs=self.cs, domains=self.domains, Q=self.Q, R=self.R, P=self.P, X_N=self.X_N, N=self.N)
        d.update(more)
        return d

    def system(self):
        from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
        return PieceWiseAffineSystem(
            [AffineSystem(A.copy(), B.copy(), c.copy()) for A, B, c in zip(self.As, self.Bs, self.cs)],
            [poly(D) for D in self.domains])

    def controller(self):
        from pympc.control.controllers import HybridModelPredictiveController
        return HybridModelPredictiveController(self.system(), self.N, self.Q.copy(), self.R.copy(), self.P.copy(), poly(self.X_N))

    def ocp(self, x, modes):
        return oracle.ocp(x, modes, self.As, self.Bs, self.cs, self.Q, self.R, self.P, self.domains, self.X_N)

    def slack(self, x, modes, terminal=True):
        """Largest uniform slack of the inequalities along the mode sequence (rows normalised); None: inconsistent equalities."""
        nx = self.nx
        X_N = self.terminal if terminal else (np.zeros((0, nx)), np.zeros(0), np.zeros((0, nx)), np.zeros(0))
        _, _, _, F, g, C, d = oracle.ocp(x, modes, self.As, self.Bs, self.cs, self.Q, self.R, self.P, self.normalised, X_N)
        n = F.shape[1]
        M = np.vstack((np.hstack((F, np.ones((F.shape[0], 1)))), np.hstack((np.zeros((1, n)), np.ones((1, 1))))))
        c = np.zeros(n+1)
        c[-1] = -1.
        CC = None if C is None else np.hstack((C, np.zeros((C.shape[0], 1))))
        status, val, z = oracle.lp(c, M, np.append(g, 1.), CC, d)
        if status == 'infeasible':
            return None
        if status != 'optimal':
            raise Skip('slack oracle')
        return -val

    def relaxed_slack(self, x, modes, terminal=True):
        """As slack, with the equalities relaxed too (two inequalities each): always a number."""
        nx = self.nx
        both = lambda D: (np.vstack((D[0], D[2], -D[2])), np.concatenate((D[1], D[3], -D[3])), np.zeros((0, D[0].shape[1])), np.zeros(0))
        X_N = both(self.terminal) if terminal else (np.zeros((0, nx)), np.zeros(0), np.zeros((0, nx)), np.zeros(0))
        _, _, _, F, g, _, _ = oracle.ocp(x, modes, self.As, self.Bs, self.cs, self.Q, self.R, self.P, [both(D) for D in self.normalised], X_N)
        n = F.shape[1]
        M = np.vstack((np.hstack((F, -np.ones((F.shape[0], 1)))), np.hstack((np.zeros((1, n)), -np.ones((1, 1))))))
        c = np.zeros(n+1)
        c[-1] = 1.
        status, val, z = oracle.lp(c, M, np.append(g, 0.))
        if status != 'optimal':
            raise Skip('slack oracle')
        return -val

    def sequences(self, x, margin=1e-3):
        """Mode sequences that are not infeasible by the margin, by depth-first search over prefixes: [(modes, relaxed slack)]."""
        out = []
        stack = [()]
        while stack:
            p = stack.pop()
            if len(p) == self.N:
                r = self.relaxed_slack(x, list(p))
                if r > -margin:
                    out.append((list(p), r))
                continue
            for m in range(self.s):
                q = p + (m,)
                if self.relaxed_slack(x, list(q), terminal=False) > -margin:
                    stack.append(q)
        return out

    def cost(self, xs, us):
        V = .5*xs[-1].dot(self.P).dot(xs[-1])
        for x, u in zip(xs, us):
            V += .5*(x.dot(self.Q).dot(x) + u.dot(self.R).dot(u))
        return V

    def state(self, rng):
        """States in or near the domains, some far away, some that the modes map close to the boundaries."""
        k = rng.random()
        if k < .75:
            A, b, C, d = self.domains[int(rng.integers(self.s))]
            r, z = oracle.depth(A, b, C, d)
            w = rng.standard_normal(self.nx+self.nu)
            lo, hi = 0., 10.
            An, bn = oracle.normalize(A, b)
            step = An.dot(w)
            with np.errstate(divide='ignore', invalid='ignore'):
                lim = np.where(step > 1e-12, (bn - An.dot(z))/step, np.inf)
            t = min(10., np.min(lim))
            return (z + w*t*rng.uniform(0., 1.))[:self.nx]
        if rng.random() < .2:
            return np.zeros(self.nx)
        return self.sx*rng.standard_normal(self.nx)*gens.choice(rng, [.1, 1., 3.])


def poly(D):
    from pympc.geometry.polyhedron import Polyhedron
    A, b, C, d = D
    return Polyhedron(A.copy(), b.copy(), C.copy(), d.copy()) if C.shape[0] else Polyhedron(A.copy(), b.copy())
