"""
Instrumentation of the imported pympc, applied from the harness: no change in /repo is needed.

Functions are replaced by identity in every namespace of the package that holds them (so references bound by
`from m import f` are monitored too); methods and properties are replaced on their class.  Observers run in the
calling thread, before and after the call, and see arguments and results; nested calls (the LPs that an
invariant-set computation solves, say) are observed like direct ones.
"""
import functools
import importlib
import inspect
import pkgutil
import sys
import types

from pmon.core import StepLimit

SKIP_MODULES = ('pympc.optimization.solvers.drake',)


def all_modules():
    import pympc
    mods = []
    for info in pkgutil.walk_packages(pympc.__path__, 'pympc.'):
        if '.test' in info.name or info.name in SKIP_MODULES:
            continue
        mods.append(importlib.import_module(info.name))
    return mods


class Monitor(object):

    def __init__(self):
        self.ctx = None
        self.depth = 0
        self.steps = 0
        self.step_limit = None
        self.modules = all_modules()
        self.wrapped = 0
        self.muted = 0

    # life cycle of a case
    def begin(self, ctx):
        self.ctx = ctx
        self.depth = 0
        self.steps = 0
        self.step_limit = None
        self.muted = 0

    def end(self):
        self.ctx = None

    def limit(self, steps):
        """Bounded progress: at most this many monitored solver calls until the next limit()."""
        self.steps = 0
        self.step_limit = steps

    def _wrap(self, name, fn, before, after, step):
        monitor = self

        @functools.wraps(fn)
        def observed(*args, **kwargs):
            ctx = monitor.ctx
            if ctx is None or monitor.muted:
                return fn(*args, **kwargs)
            ctx.events['event:' + name] += 1
            if step:
                monitor.steps += 1
                if monitor.step_limit is not None and monitor.steps > monitor.step_limit:
                    raise StepLimit(monitor.step_limit)
            state = None
            if before is not None:
                monitor.muted += 1
                try:
                    state = before(ctx, name, args, kwargs)
                finally:
                    monitor.muted -= 1
            monitor.depth += 1
            try:
                result = fn(*args, **kwargs)
            finally:
                monitor.depth -= 1
            if after is not None:
                monitor.muted += 1
                try:
                    after(ctx, name, args, kwargs, result, state)
                finally:
                    monitor.muted -= 1
            return result
        observed.__pmon__ = True
        return observed

    def function(self, module, name, before=None, after=None, step=False, label=None):
        """Observes a module-level function wherever the package refers to it."""
        mod = importlib.import_module(module)
        fn = getattr(mod, name, None)
        if not isinstance(fn, types.FunctionType):
            return False
        new = self._wrap(label or module.split('.')[-1] + '.' + name, fn, before, after, step)
        for m in self.modules:
            for key, value in list(vars(m).items()):
                if value is fn:
                    setattr(m, key, new)
        self.wrapped += 1
        return True

    def method(self, cls, name, before=None, after=None, step=False):
        label = cls.__name__ + '.' + name
        raw = cls.__dict__.get(name)
        if raw is None:
            return False
        if isinstance(raw, property):
            setattr(cls, name, property(self._wrap(label, raw.fget, before, after, step), raw.fset, raw.fdel))
        elif isinstance(raw, staticmethod):
            setattr(cls, name, staticmethod(self._wrap(label, raw.__func__, before, after, step)))
        elif isinstance(raw, classmethod):
            setattr(cls, name, classmethod(self._wrap(label, raw.__func__, before, after, step)))
        elif isinstance(raw, types.FunctionType):
            setattr(cls, name, self._wrap(label, raw, before, after, step))
        else:
            return False
        self.wrapped += 1
        return True

    def public_api(self):
        """Yields ('function', module name, name) and ('method', class, name) of everything public."""
        seen = set()
        for m in self.modules:
            for key, value in sorted(vars(m).items()):
                if key.startswith('_'):
                    continue
                if isinstance(value, types.FunctionType) and value.__module__ == m.__name__:
                    yield ('function', m.__name__, key)
                elif isinstance(value, type) and value.__module__ == m.__name__ and value not in seen:
                    seen.add(value)
                    for k, v in sorted(value.__dict__.items()):
                        if not k.startswith('_') and isinstance(v, (property, staticmethod, classmethod, types.FunctionType)):
                            yield ('method', value, k)
