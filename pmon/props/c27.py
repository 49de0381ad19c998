"""C27: plots show the data they are given."""
import numpy as np

from pmon import gens, oracle, workloads
from pmon.core import Skip, Violation

ID = 'C27'
RULE = ('polytopes in 2-4 dimensions (also redundant, degenerate, with equalities) plotted on every kind of coordinate pair in either order, state-space, state, input and output trajectories of '
        '1-4 components with and without bounds and uneven time steps, partitions of explicit controllers; the artists left on the matplotlib axes (vertices of patches, data of lines, offsets of '
        'scatter plots, positions of texts, axis labels) are compared with brute-force projections, with the given data and with the critical regions; distinct by function, sizes and options.')
QUICK = 12000
THOROUGH = 40000
FLOORS = {'polygons compared': 1500, 'lines compared': 10000, 'regions compared': 600, 'contour points compared': 1500, 'level crossings found': 200, 'labels compared': 3000, 'texts compared': 1000}
CPU_LIMIT = 60.


def new_axes():
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt.figure()


def polygon_of(patch):
    """Distinct vertices of the plotted path, in data coordinates and in order."""
    path = patch.get_path()
    V = np.array(path.vertices, dtype=float)
    if path.codes is not None:
        from matplotlib.path import Path
        drawn = [i for i, c in enumerate(path.codes) if c in (Path.MOVETO, Path.LINETO)]
        V = V[drawn]
    out = []
    for v in V:
        if not out or np.max(np.abs(v - out[-1])) > 1e-9:
            out.append(v)
    if len(out) > 1 and np.max(np.abs(out[0] - out[-1])) <= 1e-9:
        out.pop()
    return np.array(out)


def hull2d(points):
    """Vertices of the convex hull in counterclockwise order (monotone chain), and whether it is far from degenerate."""
    P = sorted(set((round(float(p[0]), 9), round(float(p[1]), 9)) for p in points))
    cross = lambda o, a, b: (a[0]-o[0])*(b[1]-o[1]) - (a[1]-o[1])*(b[0]-o[0])
    out = []
    for seq in (P, P[::-1]):
        h = []
        for p in seq:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 1e-8:
                h.pop()
            h.append(p)
        out += h[:-1]
    return np.array(out)


def area(V):
    x, y = V[:, 0], V[:, 1]
    return .5*float(np.sum(x*np.roll(y, -1) - y*np.roll(x, -1)))


def convex_in_order(V):
    """Do the points, in this order, go once around a convex polygon?"""
    n = len(V)
    if n < 3:
        return False
    s = np.sign(area(V))
    for i in range(n):
        a, b, c = V[i], V[(i+1) % n], V[(i+2) % n]
        if s*((b[0]-a[0])*(c[1]-b[1]) - (b[1]-a[1])*(c[0]-b[0])) < -1e-7:
            return False
    return abs(area(V)) <= abs(area(hull2d(V))) + 1e-6 and len(V) >= 3


def compare_polygon(ctx, V, expected, what, **info):
    scale = 1. + np.max(np.abs(expected))
    ctx.require(len(V) >= 3, '%s: a polygon of %d points' % (what, len(V)), **info)
    ctx.require(convex_in_order(V), '%s: the plotted polygon does not go around its vertices in order' % what, plotted=V, **info)
    e = oracle.hausdorff(hull2d(V), expected)
    ctx.require(e <= 1e-5*scale, '%s: the plotted polygon is not the expected one (distance %g)' % (what, e), plotted=V, expected=expected, **info)
    ctx.require(abs(abs(area(V)) - abs(area(expected))) <= 1e-5*scale**2, '%s: area %g instead of %g' % (what, area(V), area(expected)), plotted=V, expected=expected, **info)
    ctx.ev('polygons compared')


def well_shaped(E):
    if len(E) < 3 or abs(area(E)) < 1e-2:
        raise Skip('thin polygon')
    if np.max(np.abs(E)) > 30.:
        raise Skip('huge polygon')
    n = len(E)
    for i in range(n):
        a, b, c = E[i-1], E[i], E[(i+1) % n]
        if np.linalg.norm(b-a) < 1e-2:
            raise Skip('close vertices')
        if abs((b[0]-a[0])*(c[1]-b[1]) - (b[1]-a[1])*(c[0]-b[0])) < 1e-4:
            raise Skip('flat corner')
    return E


def polyhedron(rng, ctx):
    import matplotlib.pyplot as plt
    from pympc.geometry.polyhedron import Polyhedron
    n = int(gens.choice(rng, [2, 3, 4], [.5, .35, .15]))
    A, b, x0 = gens.polytope(rng, n, extra=int(rng.integers(0, 4)), kind=gens.choice(rng, ['box', 'gauss', 'simplex', 'integer', 'corner']))
    if rng.random() < .3:
        A, b = gens.redundancy(rng, A, b, x0, 1)
    C = d = None
    if n > 2 and rng.random() < .25:
        C, d = gens.equalities(rng, n, 1, x0)
    p = Polyhedron(A.copy(), b.copy(), C.copy(), d.copy()) if C is not None else Polyhedron(A.copy(), b.copy())
    V, clean = oracle.vertices(A, b, C, d)
    if not clean or len(V) < 3:
        raise Skip('degenerate')
    fig = new_axes()
    queried = rng.random() < .5
    if queried:
        p.bounded, p.radius
    count = 0
    for _ in range(int(rng.integers(1, 4))):
        dims = [int(i) for i in rng.permutation(n)[:2]]
        E = well_shaped(hull2d(V[:, dims]))
        default = dims == [0, 1] and rng.random() < .5
        style = gens.choice(rng, [{}, {'facecolor': 'b'}, {'alpha': .5, 'edgecolor': 'k'}])
        given = list(dims)
        ctx.call(p.plot, **style) if default else ctx.call(p.plot, given, **style)
        ctx.require(given == dims, 'plot changed the list of dimensions', given=given, dims=dims)
        ax = plt.gca()
        info = dict(A=A, b=b, C=C, d=d, dims=dims)
        count += 1
        ctx.require(len(ax.patches) == count, '%d patches after %d plots' % (len(ax.patches), count), **info)
        patch = ax.patches[-1]
        compare_polygon(ctx, polygon_of(patch), E, 'plot', **info)
        if 'alpha' in style:
            ctx.require(patch.get_alpha() == .5, 'the options of the patch are lost', **info)
        # the closed path is drawn in full: its extent is that of the projection
        box = patch.get_path().get_extents().get_points()
        ctx.close(box, np.vstack((E.min(0), E.max(0))), 1e-5*(1. + np.max(np.abs(E))), 'extent of the patch', **info)
        for axis, k in (('x', 0), ('y', 1)):
            label = getattr(ax, 'get_%slabel' % axis)()
            ctx.require(str(dims[k]+1) in label, 'label %r of coordinate %d' % (label, dims[k]), **info)
            ctx.ev('labels compared')
        ctx.sig('plot', n, tuple(dims), C is not None, len(E))
        ctx.note(function='Polyhedron.plot', dims=dims, polygon=E)
    plt.close('all')


def lines(ax):
    return [np.array([np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)]) for l in ax.lines]


def long(rng, least):
    """Number of samples: mostly few, sometimes tens."""
    return int(rng.integers(least, 9)) if rng.random() < .8 else int(rng.integers(9, 60))


def state_space(rng, ctx):
    import matplotlib.pyplot as plt
    from pympc.plot import plot_state_space_trajectory
    n, T = int(rng.integers(2, 5)), long(rng, 2)
    x = [v for v in np.round(rng.standard_normal((T, n))*gens.choice(rng, [.02, 2., 2., 200.]), 3)]
    dims = [int(i) for i in rng.permutation(n)[:2]]
    text = bool(rng.random() < .5)
    label = gens.choice(rng, [None, 'trajectory'])
    new_axes()
    if dims == [0, 1] and rng.random() < .5:
        ctx.call(plot_state_space_trajectory, x, text=text, label=label)
    else:
        ctx.call(plot_state_space_trajectory, x, list(dims), text, label)
    ax = plt.gca()
    info = dict(x=x, dims=dims)
    # the union of the segments is the trajectory, and nothing else is drawn
    segs = []
    for L in lines(ax):
        for k in range(L.shape[1]-1):
            segs.append((L[:, k], L[:, k+1]))
    want = [(x[t][dims], x[t+1][dims]) for t in range(T-1)]
    same = lambda s, w: np.max(np.abs(s[0]-w[0])) < 1e-9 and np.max(np.abs(s[1]-w[1])) < 1e-9
    for w in want:
        ctx.require(any(same(s, w) or same(s[::-1], w) for s in segs), 'a step of the trajectory is not plotted', step=w, **info)
        ctx.ev('lines compared')
    for s in segs:
        ctx.require(any(same(s, w) or same(s[::-1], w) for w in want), 'a segment that is not in the trajectory is plotted', segment=s, **info)
    # initial condition
    offs = [np.asarray(o) for c in ax.collections for o in c.get_offsets()]
    ctx.require(len(offs) == 1, '%d points are scattered, not the initial condition alone' % len(offs), **info)
    ctx.close(offs[0], x[0][dims], 1e-9, 'the scattered point is not the initial condition', **info)
    for axis, k in (('x', 0), ('y', 1)):
        l = getattr(ax, 'get_%slabel' % axis)()
        ctx.require(str(dims[k]+1) in l, 'label %r of coordinate %d' % (l, dims[k]), **info)
        ctx.ev('labels compared')
    if text:
        got = {t.get_text(): np.array(t.get_position(), dtype=float) for t in ax.texts}
        ctx.require(len(ax.texts) == T, '%d texts for %d states' % (len(ax.texts), T), **info)
        for t in range(T):
            k = [key for key in got if '(%d)' % t in key]
            ctx.require(len(k) == 1, 'no text for time %d' % t, texts=list(got), **info)
            ctx.close(got[k[0]], x[t][dims], 1e-9, 'position of the text for time %d' % t, **info)
            ctx.ev('texts compared')
    else:
        ctx.require(len(ax.texts) == 0, 'texts are plotted, none was required', **info)
    if label:
        h, names = ax.get_legend_handles_labels()
        ctx.require(names == [label], 'labels %s instead of %s' % (names, [label]), **info)
    ctx.sig('state space', n, tuple(dims), text, T)
    plt.close('all')


def step_values(L, where, mids):
    """Value of a drawn step function at the given times."""
    t, y = L
    out = []
    for m in mids:
        i = int(np.searchsorted(t, m))     # t[i-1] < m <= t[i]
        out.append(y[i] if where == 'steps-pre' else y[i-1])
    return np.array(out)


def trajectories(rng, ctx):
    import matplotlib.pyplot as plt
    from pympc import plot
    kind = gens.choice(rng, ['input', 'state', 'output'])
    n, N = int(rng.integers(1, 5)), long(rng, 1)
    h = float(10.**rng.uniform(-4., .5))
    new_axes()
    bounds = [-rng.uniform(1., 3., n), rng.uniform(1., 3., n)] if rng.random() < .6 else None
    if bounds is not None and rng.random() < .2:
        # bounds of one sign, equal bounds
        bounds = gens.choice(rng, [[-bounds[1], bounds[0]], [bounds[1]*.5, bounds[1]], [bounds[0], bounds[0].copy()], [np.zeros(n), np.zeros(n)]])
    info = dict(kind=kind, n=n, N=N, h=h, bounds=bounds)
    if kind == 'input':
        data = [v for v in rng.standard_normal((N, n))]
        args = (plot.plot_input_sequence, data, h)
        Y = np.array(data)
    elif kind == 'state':
        data = [v for v in rng.standard_normal((N+1, n))]
        args = (plot.plot_state_trajectory, data, h)
        Y = np.array(data)
    else:
        nx = int(rng.integers(1, 4))
        data = [v for v in rng.standard_normal((N+1, nx))]
        C = rng.standard_normal((n, nx))
        args = (plot.plot_output_trajectory, C, data, h)
        Y = np.array(data).dot(C.T)
    if bounds is None:
        ctx.call(*args)
    else:
        ctx.call(*args, bounds)
    info['data'] = data
    axes = plt.gcf().axes
    ctx.require(len(axes) == n, '%d axes for %d components' % (len(axes), n), **info)
    # components from top to bottom
    axes = sorted(axes, key=lambda a: -a.get_position().y0)
    letter = {'input': 'u', 'state': 'x', 'output': 'y'}[kind]
    for i, ax in enumerate(axes):
        ls = list(ax.lines)
        ctx.require(len(ls) == (1 if bounds is None else 3), '%d lines for component %d' % (len(ls), i), **info)
        L = lines(ax)
        ok = []
        times = np.arange(N+1)*h
        for l, D in zip(ls, L):
            style = l.get_drawstyle()
            if kind == 'input':
                # value held over each interval, drawn over the whole horizon
                good = style.startswith('steps') and abs(D[0, 0]) <= 1e-9*h and abs(D[0, -1] - N*h) <= 1e-9*N*h
                vals = step_values(D, 'steps-pre' if style in ('steps', 'steps-pre') else style, (np.arange(N)+.5)*h) if good else None
                ok.append(bool(good and np.max(np.abs(vals - Y[:, i])) <= 1e-9))
            else:
                good = style == 'default' and D.shape[1] == N+1
                ok.append(bool(good and np.max(np.abs(D[0] - times)) <= 1e-9*(1. + N*h) and np.max(np.abs(D[1] - Y[:, i])) <= 1e-9*(1. + np.max(np.abs(Y)))))
        ctx.require(any(ok), 'component %d: the values at the right times are not plotted' % i, lines=[D.tolist() for D in L], expected=Y[:, i], **info)
        ctx.ev('lines compared')
        if bounds is not None:
            rest = [D for k, D in enumerate(L) if k != ok.index(True)]
            for b in bounds:
                ctx.require(any(np.max(np.abs(D[1] - b[i])) <= 1e-9 and abs(D[0, 0]) <= 1e-9 and abs(D[0, -1] - N*h) <= 1e-9*(1. + N*h) for D in rest),
                            'component %d: the bound %g is not plotted' % (i, b[i]), lines=[D.tolist() for D in rest], **info)
                ctx.ev('lines compared')
        lim = ax.get_xlim()
        ctx.close(lim, (0., N*h), 1e-9*(1. + N*h), 'limits of the time axis of component %d' % i, **info)
        y = ax.get_ylabel()
        ctx.require(letter in y and str(i+1) in y, 'label %r of component %d' % (y, i), **info)
        ctx.ev('labels compared')
    ctx.sig(kind, n, N, bounds is not None)
    ctx.note(function=kind, n=n, N=N, h=h)
    plt.close('all')


def partition(rng, ctx):
    import matplotlib.pyplot as plt
    from pympc.control.controllers import ModelPredictiveController
    S, K, P, Q, R, D, X_N, N = workloads.linear_mpc(rng, nx=2, nu=1, N=int(rng.integers(1, 3)))
    c = ModelPredictiveController(S, N, Q, R, P, D, X_N)
    c.store_explicit_solution()
    crs = c.explicit_solution.critical_regions
    if len(crs) > 25:
        raise Skip('many regions')
    expected = []
    for cr in crs:
        V, clean = oracle.vertices(np.asarray(cr.polyhedron.A, dtype=float), np.asarray(cr.polyhedron.b, dtype=float))
        if not clean or len(V) < 3:
            raise Skip('degenerate region')
        expected.append(well_shaped(hull2d(V)))
    new_axes()
    texts = bool(rng.random() < .6)
    ctx.call(c.plot_state_space_partition, print_active_set=texts) if rng.random() < .5 or texts else ctx.call(c.plot_state_space_partition)
    ax = plt.gca()
    info = dict(A=S.A, B=S.B, N=N)
    ctx.require(len(ax.patches) == len(crs), '%d polygons for %d critical regions' % (len(ax.patches), len(crs)), **info)
    plotted = [polygon_of(p) for p in ax.patches]
    used = set()
    for cr, E in zip(crs, expected):
        e, k = min((oracle.hausdorff(hull2d(V), E), k) for k, V in enumerate(plotted) if k not in used)
        used.add(k)
        compare_polygon(ctx, plotted[k], E, 'region with active set %s' % (list(cr.active_set),), **info)
        ctx.ev('regions compared')
    if texts:
        ctx.require(len(ax.texts) == len(crs), '%d texts for %d regions' % (len(ax.texts), len(crs)), **info)
        for cr, E in zip(crs, expected):
            want = ''.join(str(list(cr.active_set)).split())
            hits = [t for t in ax.texts if ''.join(t.get_text().split()) == want]
            ctx.require(len(hits) >= 1, 'no text with the active set %s' % want, texts=[t.get_text() for t in ax.texts], **info)
            A, b = oracle.normalize(cr.polyhedron.A, cr.polyhedron.b)
            ctx.require(any(np.max(A.dot(np.array(t.get_position(), dtype=float)) - b) < 1e-9 for t in hits), 'the active set %s is printed outside of its region' % want, **info)
            ctx.ev('texts compared')
    else:
        ctx.require(len(ax.texts) == 0, 'texts are plotted, none was required', **info)
    ctx.sig('partition', len(crs), N, texts)
    plt.close('all')


def segment_distance(p, polyline):
    a, b = polyline[:-1], polyline[1:]
    d = b - a
    n = np.maximum(np.sum(d*d, axis=1), 1e-300)
    t = np.clip(np.sum((p - a)*d, axis=1)/n, 0., 1.)
    return np.min(np.linalg.norm(p - a - t[:, None]*d, axis=1))


def coverage(rng, ctx, c, ax, E, g, S):
    """
    Where the value function crosses a level, well inside of the feasible set, a contour of that level passes.
    The function is convex, so what is interpolated on the grid is above it, and below the level where the corners around are.
    """
    V = lambda x: c.feedforward(x)[1]
    A, b = hull_rows(E)
    m = E.mean(axis=0)
    for coll in ax.collections:
        levels = getattr(coll, 'levels', None)
        paths = coll.get_paths()
        if levels is None or len(levels) != len(paths):
            continue
        for lev, path in zip(levels, paths):
            if lev <= 0.:
                continue
            lines = [q for q in path.to_polygons(closed_only=False) if len(q) > 1] if len(path.vertices) > 1 else []
            for _ in range(4):
                v = rng.standard_normal(2)*g
                v /= np.linalg.norm(v/g)
                # how far is the ray from the origin inside of the set, three cells from its boundary
                step = A.dot(v)
                room = b - 3.*np.abs(A).dot(g)
                if np.any(room <= 0.):
                    continue
                t = np.min(room[step > 1e-12]/step[step > 1e-12])
                hi = V(t*v)
                if hi is None or hi < lev:
                    continue
                lo = 0.
                hi = t
                for _ in range(30):
                    mid = .5*(lo + hi)
                    lo, hi = (mid, hi) if V(mid*v) < lev else (lo, mid)
                if hi < 2.:
                    continue
                inner = [(hi - 1.6)*v + np.array([dx, dy])*g for dx in (-1., 1.) for dy in (-1., 1.)]
                if max(V(y) for y in inner) >= lev*(1. - 1e-6) or V((hi + 1.)*v) is None:
                    continue
                p = hi*v
                d = min([segment_distance(p/g, q/g) for q in lines] + [np.inf])
                ctx.require(d <= 2.5, 'the value function crosses the level %g at a point, the contour of that level is %g cells away' % (lev, d), A=S.A, B=S.B, at=p)
                ctx.ev('level crossings found')


def hull_rows(E):
    from scipy.spatial import ConvexHull
    h = ConvexHull(E)
    return h.equations[:, :2], -h.equations[:, 2]


def value_function(rng, ctx):
    import matplotlib.pyplot as plt
    from pympc.control.controllers import ModelPredictiveController
    S, K, P, Q, R, D, X_N, N = workloads.linear_mpc(rng, nx=2, nu=1, N=1)
    c = ModelPredictiveController(S, N, Q, R, P, D, X_N)
    c.store_explicit_solution()
    if len(c.explicit_solution.critical_regions) > 12:
        raise Skip('many regions')
    M = np.hstack((c.mpqp.A['x'], c.mpqp.A['u']))
    V, clean = oracle.vertices(M, c.mpqp.b)
    if not clean:
        raise Skip('degenerate')
    E = well_shaped(hull2d(V[:, :2]))
    new_axes()
    res = int(gens.choice(rng, [15, 24, 30], [.4, .3, .3]))
    ctx.call(c.plot_optimal_value_function, resolution=res)
    axes = plt.gcf().axes
    ax = axes[0]
    ctx.require(len(ax.patches) == 1, '%d polygons for the feasible set' % len(ax.patches))
    compare_polygon(ctx, polygon_of(ax.patches[0]), E, 'feasible set', A=S.A, B=S.B)
    # level sets: the explicit value function, piecewise linearly interpolated, along the contours
    pts = []
    for coll in ax.collections:
        levels = getattr(coll, 'levels', None)
        paths = coll.get_paths()
        if levels is None or len(levels) != len(paths):
            continue
        for lev, path in zip(levels, paths):
            for v in path.vertices[::3]:
                pts.append((float(lev), v))
    span = E.max(0) - E.min(0)
    for lev, v in pts[:40]:
        g = span/(res-1.)
        vals = []
        for dx in (-1., 0., 1.):
            for dy in (-1., 0., 1.):
                y, u = c.feedforward(v + np.array([dx, dy])*g)[::-1]
                if y is not None:
                    vals.append(y)
        if len(vals) < 9:
            continue
        ctx.require(min(vals) - 1e-6 <= lev <= max(vals) + 1e-6, 'the contour %g passes where the value function is between %g and %g' % (lev, min(vals), max(vals)), A=S.A, B=S.B, at=v)
        ctx.ev('contour points compared')
    coverage(rng, ctx, c, ax, E, span/(res-1.), S)
    ctx.sig('value function', len(c.explicit_solution.critical_regions))
    plt.close('all')


SCENARIOS = [('polyhedron', 4, polyhedron), ('state space', 2, state_space), ('trajectories', 3, trajectories), ('partition', 1.5, partition), ('value function', .5, value_function)]
