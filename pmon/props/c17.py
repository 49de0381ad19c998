"""C17: modes, simulation and well-posedness of piecewise-affine systems."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip

ID = 'C17'
RULE = ('piecewise-affine systems with 1-9 modes whose domains partition, overlap, nest, touch or leave gaps, bounded or not, with or without equalities; linear and affine '
        'modes; the reported mode of points clear of every boundary, the sequence of modes and states of simulations that stay, cross or leave, and the well-posedness '
        'verdict are compared with membership and the largest inscribed ball computed by the harness; distinct by layout, sizes and outcome.')
QUICK = 40000
THOROUGH = 120000
FLOORS = {'modes confirmed': 9000, 'outside all domains': 1500, 'simulations confirmed': 700, 'simulations refused': 500, 'switches': 1000,
          'well posed': 400, 'not well posed': 400, 'unbounded overlaps': 30}
CPU_LIMIT = 60.


def slack(dom, x):
    """Signed distance-like slack: > 0 inside by that margin; equalities count as violated when off."""
    A, b, C, d = dom
    An, bn = oracle.normalize(A, b)
    s = np.min(bn - An.dot(x)) if A.shape[0] else np.inf
    if C is not None and C.shape[0]:
        Cn, dn = oracle.normalize(C, d)
        r = np.max(np.abs(Cn.dot(x) - dn))
        if r > 1e-12:
            return -r if r > 1e-5 else None
    return s


def expected_mode(domains, x, margin=1e-5):
    """First containing domain, None when outside; Skip when a boundary is too close to tell."""
    for i, dom in enumerate(domains):
        s = slack(dom, x)
        if s is None or abs(s) < margin:
            raise Skip('close to a boundary')
        if s > 0.:
            return i
    return None


def layout(rng, n, kind=None):
    """Domains as (A, b, C, d) in dimension n."""
    kind = kind or gens.choice(rng, ['slices', 'slices', 'overlap', 'nested', 'gap', 'random', 'halfspaces', 'orthants', 'equality'])
    s = int(rng.integers(2, 6)) if rng.random() < .9 else int(rng.integers(6, 10))
    I = np.eye(n)
    box_A, box_b = np.vstack((I, -I)), rng.uniform(1., 3., 2*n)
    a = rng.standard_normal(n)
    a /= np.linalg.norm(a)
    if rng.random() < .5:
        a = I[int(rng.integers(n))]
    cuts = np.cumsum(rng.uniform(.15, .8, s-1))
    cuts = cuts - np.mean(cuts)
    E, f = np.zeros((0, n)), np.zeros(0)
    doms = []
    if kind in ('slices', 'overlap', 'gap', 'halfspaces', 'equality'):
        # overlaps and gaps, from visible to thin
        w = gens.choice(rng, [.07, .01, .002, 4e-4])
        w = {'overlap': w, 'gap': -w}.get(kind, 0.)
        for i in range(s):
            A, b = (np.zeros((0, n)), np.zeros(0)) if kind == 'halfspaces' else (box_A, box_b)
            if i > 0:
                A, b = np.vstack((A, -a)), np.append(b, -(cuts[i-1] - w))
            if i < s-1:
                A, b = np.vstack((A, a)), np.append(b, cuts[i] + w)
            doms.append((A, b, E, f))
        if kind == 'equality' and n > 1:
            C, d = gens.equalities(rng, n, 1, np.zeros(n), kind='coord')
            doms = [(A, b, C, d) for A, b, _, _ in doms]
    elif kind == 'nested':
        for i in range(s):
            doms.append((box_A, box_b*(.3 + .3*i), E, f))
        if rng.random() < .5:
            doms = doms[::-1]
    elif kind == 'orthants':
        for i in range(s):
            sg = np.array([1. if (i >> k) & 1 else -1. for k in range(n)])
            if rng.random() < .5:
                doms.append((-I*sg, np.zeros(n), E, f))
            else:
                doms.append((np.vstack((-I*sg, I, -I)), np.concatenate((np.zeros(n), box_b)), E, f))
        # with fewer than log2(s) coordinates some orthants repeat: not well posed
    else:
        for i in range(s):
            A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 3)), kind=gens.choice(rng, ['box', 'gauss', 'simplex']))
            doms.append((A, b, E, f))
    if rng.random() < .3:
        doms = [doms[i] for i in rng.permutation(len(doms))]
    if rng.random() < .3:
        doms = [gens.scaled(rng, A, b, -1., 1.) + (C, d) for A, b, C, d in doms]
    if rng.random() < .25:
        # units of length
        unit = 10.**rng.uniform(-1., 2.)
        doms = [(A, b*unit, C, d*unit) for A, b, C, d in doms]
    return doms, kind


def build(rng, ctx, doms, nx, nu, rho=(.3, 1.3), gain=1.):
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics.discrete_time_systems import AffineSystem, LinearSystem, PieceWiseAffineSystem
    As, Bs, cs, systems = [], [], [], []
    for _ in doms:
        A, B = gens.system(rng, nx, nu, rho=rng.uniform(*rho))
        B = B*gain
        c = rng.standard_normal(nx)*.5*gain
        if rng.random() < .3:
            c = np.zeros(nx)
            systems.append(LinearSystem(A, B))
        else:
            systems.append(AffineSystem(A, B, c))
        As.append(A)
        Bs.append(B)
        cs.append(c)
    polys = [Polyhedron(A.copy(), b.copy(), C.copy(), d.copy()) if C.shape[0] else Polyhedron(A.copy(), b.copy()) for A, b, C, d in doms]
    S = ctx.call(PieceWiseAffineSystem, systems, polys)
    ctx.require((S.nx, S.nu, S.nm) == (nx, nu, len(doms)), 'sizes %s of the system' % ((S.nx, S.nu, S.nm),))
    return S, As, Bs, cs


def modes(rng, ctx):
    nx, nu = (int(rng.integers(1, 3)), int(rng.integers(1, 3))) if rng.random() < .88 else (int(rng.integers(1, 5)), int(rng.integers(1, 4)))
    doms, kind = layout(rng, nx+nu)
    S, As, Bs, cs = build(rng, ctx, doms, nx, nu)
    seen = set()
    for _ in range(10):
        xu = rng.standard_normal(nx+nu)*gens.choice(rng, [.3, 1., 2., .1, 30.], [.3, .3, .25, .05, .1])
        if rng.random() < .3:
            # just across a facet
            A, b, C, d = doms[int(rng.integers(len(doms)))]
            if A.shape[0]:
                i = int(rng.integers(A.shape[0]))
                a, r = A[i]/np.linalg.norm(A[i]), b[i]/np.linalg.norm(A[i])
                xu = xu + (r - a.dot(xu) + gens.choice(rng, [-1e-3, 1e-3, -1e-4, 1e-4, -2e-5, 2e-5]))*a
        C, d = doms[0][2], doms[0][3]
        if C.shape[0] and rng.random() < .8:
            # coordinate equalities: exact
            for row, r in zip(C, d):
                k = int(np.argmax(np.abs(row)))
                xu[k] = r/row[k]
        try:
            want = expected_mode(doms, xu)
        except Skip:
            continue
        got = ctx.call(S.get_mode, xu[:nx], xu[nx:])
        ctx.require((got is None) == (want is None) and (want is None or int(got) == want), 'mode %s reported, the first domain that contains the point is %s' % (got, want),
                    x=xu[:nx], u=xu[nx:], domains=doms)
        ctx.ev('outside all domains' if want is None else 'modes confirmed')
        if want is None:
            # one step from there is refused
            ctx.rejects(ValueError, S.simulate, xu[:nx], [xu[nx:]])
        else:
            x, m = ctx.call(S.simulate, xu[:nx], [xu[nx:]])
            ctx.require([int(i) for i in m] == [want], 'simulated in mode %s instead of %d' % (m, want), domains=doms)
            ctx.close(x[1], As[want].dot(xu[:nx]) + Bs[want].dot(xu[nx:]) + cs[want], 1e-9*(1. + np.max(np.abs(x[1]))), 'the step does not obey the dynamics of mode %d' % want)
        seen.add(want)
    ctx.sig('modes', kind, nx, nu, len(doms), tuple(sorted(-1 if w is None else w for w in seen)))


def simulate(rng, ctx):
    nx, nu = (int(rng.integers(1, 3)), int(rng.integers(1, 3))) if rng.random() < .88 else (int(rng.integers(1, 5)), int(rng.integers(1, 4)))
    stay = rng.random() < .4
    doms, kind = layout(rng, nx+nu, kind=gens.choice(rng, ['slices', 'overlap', 'halfspaces', 'nested', 'slices']))
    S, As, Bs, cs = build(rng, ctx, doms, nx, nu, rho=(.5, .95) if stay else (.8, 1.6), gain=.4 if stay else 1.5)
    N = int(rng.integers(1, 10))
    x0 = rng.standard_normal(nx)*.4
    u = [rng.standard_normal(nu)*(.4 if stay else 1.) for _ in range(N)]
    # reference
    traj, seq, left = [x0], [], None
    for t in range(N):
        m = expected_mode(doms, np.concatenate((traj[-1], u[t])))
        if m is None:
            left = t
            break
        seq.append(m)
        traj.append(As[m].dot(traj[-1]) + Bs[m].dot(u[t]) + cs[m])
    info = dict(domains=doms, As=As, Bs=Bs, cs=cs, x0=x0, u=u)
    if left is not None:
        ctx.rejects(ValueError, S.simulate, x0, u)
        ctx.ev('simulations refused')
        # up to there it is not refused
        x, modes = ctx.call(S.simulate, x0, u[:left])
        N = left
    else:
        x, modes = ctx.call(S.simulate, x0, u)
    ctx.require(len(x) == N+1 and len(modes) == N, '%d states and %d modes for %d inputs' % (len(x), len(modes), N), **info)
    ctx.require([int(m) for m in modes] == seq, 'mode sequence %s instead of %s' % (list(modes), seq), **info)
    for t in range(N+1):
        ctx.close(x[t], traj[t], 1e-8*(1. + np.max(np.abs(traj[t]))), 'state %d of the simulation' % t, **info)
    if left is None:
        ctx.ev('simulations confirmed')
    ctx.ev('switches', sum(1 for a, b in zip(seq[:-1], seq[1:]) if a != b))
    ctx.sig('simulate', kind, nx, nu, tuple(seq), left is not None)
    ctx.note(modes=seq, left=left, kind=kind)


def posed(rng, ctx):
    nx, nu = (int(rng.integers(1, 3)), int(rng.integers(1, 3))) if rng.random() < .88 else (int(rng.integers(1, 5)), int(rng.integers(1, 4)))
    doms, kind = layout(rng, nx+nu)
    if rng.random() < .1:
        doms = doms[:1]
    if kind in ('slices', 'halfspaces') and rng.random() < (.25 if kind == 'slices' else .5) and len(doms) > 2:
        # a copy of one of the domains, shrunk: overlaps
        i = int(rng.integers(len(doms))) if rng.random() < .5 else int(np.argmin([D[0].shape[0] for D in doms]))
        A, b, C, d = doms[i]
        doms.insert(int(rng.integers(len(doms)+1)), (A, b - .02*np.linalg.norm(A, axis=1), C, d))
    S, As, Bs, cs = build(rng, ctx, doms, nx, nu)
    worst, open_ = -np.inf, False
    for i in range(len(doms)):
        for j in range(i):
            A, b = np.vstack((doms[i][0], doms[j][0])), np.concatenate((doms[i][1], doms[j][1]))
            C, d = doms[i][2], doms[i][3]
            if C.shape[0]:
                r, _ = gens.subspace_depth(A, b, C, d)
                # the stacked equalities of the two domains are dependent: interiors relative to a common subspace are not defined
                raise Skip('dependent equalities')
            r = gens.subspace_depth(A, b, None, None)[0] if A.shape[0] else np.inf
            open_ |= r == np.inf
            worst = max(worst, r)
    if 1e-9 < worst < 1e-4:
        raise Skip('penetration close to the tolerance')
    want = worst <= 1e-9
    got = bool(ctx.call(S.is_well_posed))
    ctx.require(got == want, 'reported %s, the largest ball shared by two domains has radius %g' % ('well posed' if got else 'not well posed', worst), domains=doms)
    ctx.require(bool(ctx.call(S.is_well_posed)) == want, 'the second request differs', domains=doms)
    if np.isfinite(worst) and worst > 1e-3:
        # tolerance of the query
        ctx.require(not ctx.call(S.is_well_posed, .5*worst), 'well posed with a tolerance below the penetration', domains=doms)
        ctx.require(bool(ctx.call(S.is_well_posed, 2.*worst)), 'not well posed with a tolerance above the penetration', domains=doms, worst=worst)
    ctx.ev('well posed' if want else 'not well posed')
    if open_ and not want:
        ctx.ev('unbounded overlaps')
    ctx.sig('posed', kind, nx, nu, len(doms), want)


def touching(rng, ctx):
    """Neighbouring boxes that overlap by less, or by more, than the default tolerance."""
    nx, nu = int(rng.integers(1, 3)), 1
    n = nx + nu
    lo, hi = -rng.uniform(.5, 2., n), rng.uniform(.5, 2., n)
    k = int(rng.integers(n))
    m = int(rng.integers(2, 5))
    cuts = np.linspace(lo[k], hi[k], m+1)
    want = bool(rng.random() < .5)
    # the radius is half of it
    w = gens.choice(rng, [0., -1e-3, 1e-7*rng.uniform(.05, .8)]) if want else 10.**rng.uniform(-6., -4.)
    at = int(rng.integers(1, m))
    I = np.eye(n)
    doms = []
    for i in range(m):
        l, h = lo.copy(), hi.copy()
        l[k], h[k] = cuts[i], cuts[i+1]
        if i + 1 == at:
            h[k] += w
        doms.append((np.vstack((I, -I)), np.concatenate((h, -l)), np.zeros((0, n)), np.zeros(0)))
    doms = [doms[int(i)] for i in rng.permutation(m)]
    S, _, _, _ = build(rng, ctx, doms, nx, nu)
    got = bool(ctx.call(S.is_well_posed))
    ctx.require(got == want, 'reported %s, two domains overlap by %g' % ('well posed' if got else 'not well posed', w), domains=doms)
    ctx.ev('well posed' if want else 'not well posed')
    ctx.sig('touching', nx, m, want)


SCENARIOS = [('modes', 3, modes), ('simulate', 4, simulate), ('posed', 3, posed), ('touching', .5, touching)]
