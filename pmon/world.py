"""
A world of objects shared by many calls: snapshots of everything observable, checked after every call.
"""
import copy
import types

import numpy as np

from pmon.core import Skip, Violation


def is_pympc(x):
    return type(x).__module__.startswith('pympc.')


def observe(x, stop=(), depth=0, top=True, types_too=False):
    """What later use can observe of x: values of arrays, elements of containers, public attributes of objects
    (the types of arrays only in containers of the user: objects may convert what they hold)."""
    if not top and id(x) in stop:
        return ('ref', type(x).__name__)
    if depth > 12:
        return ('deep',)
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return ('const', None if x is None else (bool(x) if isinstance(x, (bool, np.bool_)) else x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ('num', float(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objects', x.shape, repr(x))
        return ('array', np.array(x, dtype=float), x.dtype.str if types_too else None)
    if isinstance(x, range):
        return ('list', [('num', float(i)) for i in x])
    if isinstance(x, (list, tuple)):
        return ('list', [observe(v, stop, depth+1, False, types_too) for v in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(repr(v) for v in x))
    if isinstance(x, dict):
        return ('dict', {k: observe(v, stop, depth+1, False, types_too) for k, v in x.items()})
    if is_pympc(x):
        d = {k: observe(v, stop, depth+1, False) for k, v in vars(x).items()
             if not k.startswith('_') and not isinstance(v, (types.FunctionType, types.MethodType))}
        return ('object', type(x).__name__, d)
    return ('opaque', type(x).__name__)


def difference(s, t, tol, path=''):
    """Where two observations differ (None: nowhere).  Attributes that only the second has do not count."""
    if s[0] != t[0]:
        return '%s: %s became %s' % (path or 'value', s[0], t[0])
    k = s[0]
    if k in ('const', 'ref', 'opaque', 'set', 'objects'):
        return None if s[1:] == t[1:] else '%s: %s became %s' % (path or 'value', s[1:], t[1:])
    if k == 'num':
        a, b = s[1], t[1]
        if a == b or (a != a and b != b):
            return None
        return None if abs(a - b) <= tol*(1. + abs(a)) else '%s: %r became %r' % (path or 'value', a, b)
    if k == 'array':
        a, b = s[1], t[1]
        if s[2] != t[2]:
            return '%s: an array of type %s became one of type %s' % (path or 'value', s[2], t[2])
        if a.shape != b.shape:
            return '%s: shape %s became %s' % (path or 'value', a.shape, b.shape)
        if a.size and not np.all((np.abs(a - b) <= tol*(1. + np.abs(a))) | (a == b) | (np.isnan(a) & np.isnan(b))):
            return '%s: %s became %s' % (path or 'value', a.tolist(), b.tolist())
        return None
    if k == 'list':
        if len(s[1]) != len(t[1]):
            return '%s: %d elements became %d' % (path or 'value', len(s[1]), len(t[1]))
        for i, (u, v) in enumerate(zip(s[1], t[1])):
            d = difference(u, v, tol, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if k == 'dict':
        if set(s[1]) != set(t[1]):
            return '%s: keys %s became %s' % (path or 'value', sorted(map(str, s[1])), sorted(map(str, t[1])))
        for key in s[1]:
            d = difference(s[1][key], t[1][key], tol, '%s[%r]' % (path, key))
            if d:
                return d
        return None
    if k == 'object':
        if s[1] != t[1]:
            return '%s: %s became %s' % (path or 'value', s[1], t[1])
        for key in s[2]:
            if key not in t[2]:
                return '%s.%s disappeared' % (path, key)
            d = difference(s[2][key], t[2][key], tol, '%s.%s' % (path, key))
            if d:
                return d
        return None
    return None


class World(object):

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.items = []
        self.ids = set()
        self.version = {}
        self.log = []
        self.queries = []

    def track(self, label, obj):
        """Objects of the user: their content is compared after every call."""
        if id(obj) in self.ids or obj is None or isinstance(obj, (bool, str, int, float)):
            return obj
        self.items.append([label, obj, None])
        if is_pympc(obj) or isinstance(obj, (list, dict)):
            # elements tracked on their own are compared on their own
            self.ids.add(id(obj))
        self.version[id(obj)] = 0
        # containers of the object now refer to it
        for item in self.items:
            item[2] = observe(item[1], self.ids, types_too=True)
        return obj

    def compare(self, label, mutates):
        for item in self.items:
            name, obj, old = item
            new = observe(obj, self.ids, types_too=True)
            if mutates is not None and obj is mutates:
                item[2] = new
                continue
            self.ctx.ev('snapshots compared')
            d = difference(old, new, 1e-13)
            if d:
                raise Violation('%s changed %s: %s' % (label, name, d), history=self.log[-12:])

    def call(self, label, fn, *args, mutates=None, allowed=()):
        """
        One call of the library.  `mutates`: the polyhedron (or controller) that the call is documented to modify.
        `allowed`: exceptions that are an answer too.
        """
        ctx = self.ctx
        self.log.append(label)
        ctx.ev('op:' + label)
        try:
            out = ctx.call(fn, *args) if not allowed else fn(*args)
        except allowed as e:
            if 'read-only' in str(e):
                raise Violation('%s writes in an array of the caller: %s' % (label, e), history=self.log[-12:])
            self.compare(label, mutates)
            ctx.ev('refusals observed')
            return None
        if mutates is not None:
            self.version[id(mutates)] = self.version.get(id(mutates), 0) + 1
        self.compare(label, mutates)
        ctx.ev('assertions')
        return out

    def query(self, label, fn, *args, tol=1e-6, compare=None, allowed=()):
        """A call whose answer must be the same whenever it is asked again."""
        out = self.call(label, fn, *args, allowed=allowed)
        keep = observe(out)
        versions = [self.version.get(i, 0) for i in self.closure(args)]
        self.queries.append((label, fn, args, keep, versions, tol, compare, allowed))
        # answers given earlier must not change under later calls
        if isinstance(out, (list, dict, np.ndarray, tuple)):
            self.items.append(['the earlier answer of ' + label, out, observe(out, self.ids, types_too=True)])
        return out

    def closure(self, args, depth=0):
        """ids of everything tracked reachable from the arguments, in a fixed order."""
        out = []
        seen = set()

        def visit(x, depth):
            if id(x) in seen or depth > 8 or isinstance(x, (np.ndarray, str, int, float)) or x is None:
                return
            seen.add(id(x))
            if id(x) in self.version:
                out.append(id(x))
            if isinstance(x, (list, tuple)):
                for v in x:
                    visit(v, depth+1)
            elif isinstance(x, dict):
                for v in x.values():
                    visit(v, depth+1)
            elif is_pympc(x):
                for v in vars(x).values():
                    visit(v, depth+1)
        for a in args:
            visit(a, 0)
        return out

    def again(self, fresh=None, count=12):
        """Asks earlier queries again, in another order, on the same objects or on freshly built equal ones."""
        order = self.rng.permutation(len(self.queries))[:count]
        for i in order:
            label, fn, args, keep, versions, tol, compare, allowed = self.queries[int(i)]
            if [self.version.get(j, 0) for j in self.closure(args)] != versions:
                continue
            anew = fresh is not None and self.rng.random() < .5
            use = tuple(fresh(a) for a in args) if anew else args
            out = self.call('repeated ' + label, fn, *use, allowed=allowed)
            new = observe(out)
            d = (compare or difference)(keep, new, tol)
            self.ctx.ev('repetitions on fresh objects' if anew else 'repetitions')
            self.ctx.ev('assertions')
            if d:
                raise Violation('%s asked again %sgives another answer: %s' % (label, 'on equal fresh arguments ' if anew else '', d),
                                history=self.log[-20:], args=[observe(a) for a in args])


def same_points(s, t, tol):
    """Lists of points compared as sets."""
    if s[0] != t[0]:
        return '%s became %s' % (s[0], t[0])
    if s[0] != 'list':
        return difference(s, t, tol)
    V = np.array([v[1] for v in s[1]])
    W = np.array([v[1] for v in t[1]])
    if V.shape != W.shape:
        return 'points %s became %s' % (V.tolist(), W.tolist())
    if V.size == 0:
        return None
    D = np.max(np.abs(V[:, None] - W[None]), axis=2)
    e = max(D.min(0).max(), D.min(1).max())
    return None if e <= tol*(1. + np.max(np.abs(V))) else 'points %s became %s' % (V.tolist(), W.tolist())


def fresh(x):
    """An equal object built anew through the constructors."""
    from pympc.geometry.polyhedron import Polyhedron
    from pympc.dynamics import discrete_time_systems as dts
    from pympc.optimization import parametric_programs as pp
    from pympc.control import controllers as cc
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float) if x.dtype.kind in 'iuf' else x.copy()
    if isinstance(x, list):
        return [fresh(v) for v in x]
    if isinstance(x, tuple):
        return tuple(fresh(v) for v in x)
    if isinstance(x, dict):
        return {k: fresh(v) for k, v in x.items()}
    if type(x) is Polyhedron:
        return Polyhedron(fresh(x.A), fresh(x.b), fresh(x.C), fresh(x.d))
    if type(x) is dts.LinearSystem:
        return dts.LinearSystem(fresh(x.A), fresh(x.B))
    if type(x) is dts.AffineSystem:
        return dts.AffineSystem(fresh(x.A), fresh(x.B), fresh(x.c))
    if type(x) is dts.PieceWiseAffineSystem:
        return dts.PieceWiseAffineSystem(fresh(x.affine_systems), fresh(x.domains))
    if type(x) is pp.MultiParametricQuadraticProgram:
        return pp.MultiParametricQuadraticProgram(fresh(x.H), fresh(x.f), x.g, fresh(x.A), fresh(x.b))
    if type(x) is cc.ModelPredictiveController:
        return cc.ModelPredictiveController(fresh(x.S), x.N, fresh(x.Q), fresh(x.R), fresh(x.P), fresh(x.D), fresh(x.X_N))
    if type(x) is cc.HybridModelPredictiveController:
        return cc.HybridModelPredictiveController(fresh(x.S), x.N, fresh(x.Q), fresh(x.R), fresh(x.P), fresh(x.X_N))
    return x
