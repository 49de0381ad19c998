"""
Verdict discipline, case scheduling, evidence.

A property module defines
    ID, RULE, SCENARIOS = [(name, weight, function(rng, ctx))]
    QUICK, THOROUGH   : number of cases per tier
    FLOORS            : {event name: minimum count} below which the run is inconclusive
    optional  FIXED   : [(name, function(rng, ctx))] run once each, before the random cases
    optional  install(monitor) : instrumentation of pympc wanted by the property
    optional  FINDINGS: {key: function(rng, ctx) -> bool} reproducers of the known findings
A scenario drives the real code and reports to `ctx`.  It raises Violation when an oracle refutes the
property, Skip when the draw lies outside the property's quantifier, and anything else that escapes it
is an error of the harness (exit 2), never a verdict.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PMON_REPO', '/repo')


class Violation(Exception):
    def __init__(self, message, /, **data):
        Exception.__init__(self, message)
        self.message = message
        self.data = data


class Skip(Exception):
    """The draw is outside the quantifier of the property, or the oracle cannot tell."""


class StepLimit(BaseException):
    """The code under test used more logical steps than any legitimate run."""


class CpuLimit(BaseException):
    """The code under test used far more CPU time than any legitimate run."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth+1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth+1) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if hasattr(x, 'A') and hasattr(x, 'b') and hasattr(x, 'C') and hasattr(x, 'd'):
        return {'A': jsonable(x.A), 'b': jsonable(x.b), 'C': jsonable(x.C), 'd': jsonable(x.d)}
    return repr(x)[:300]


def breakdown(e):
    """
    Numerical failure of a library below pympc: cycling of scipy's nnls, precision errors of Qhull, and, during the exploration of an explicit solution,
    an LP on a critical region (rows as long as 1, right-hand sides up to 1e9) that the least squares do not solve to their absolute tolerance.
    """
    if (isinstance(e, RuntimeError) and 'too many iterations' in str(e).lower()) or type(e).__name__ == 'QhullError':
        return True
    if isinstance(e, TypeError) and 'NoneType' in str(e):
        frames = traceback.extract_tb(e.__traceback__)
        return any(f.name == 'explicit_solve' for f in frames) and frames[-1].filename.endswith('geometry/polyhedron.py')
    return False


class Ctx(object):
    """What a case reports to."""

    def __init__(self, tier='quick', cpu_limit=120.):
        self.events = Counter()
        self.signatures = set()
        self.nontrivial = 0
        self.tier = tier
        self.cpu_limit = cpu_limit
        self.sample = None
        self.monitor_nested = False
        self.monitor = None

    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *key):
        """Registers a distinct non-trivial case class (shape, outcome, ...)."""
        self.signatures.add(repr(key))
        self.nontrivial += 1

    def note(self, **data):
        if self.sample is None:
            self.sample = jsonable(data)

    def call(self, fn, *args, **kwargs):
        """Runs code under test on an input for which the property demands an answer."""
        self.ev('calls')
        try:
            return fn(*args, **kwargs)
        except (Violation, Skip):
            raise
        except Exception as e:
            if breakdown(e):
                # the run counts them: more than a few are a violation (see check.py)
                self.ev('breakdowns')
                raise Skip('numerical breakdown of a library underneath')
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [(f.filename, f.lineno) for f in tb if '/pympc/' in f.filename]
            name = getattr(fn, '__qualname__', getattr(fn, '__name__', repr(fn)))
            raise Violation(
                'valid input: %s raised %s: %s' % (name, type(e).__name__, str(e)[:200]),
                args=jsonable(args), kwargs=jsonable(kwargs), where=where[-3:])

    def rejects(self, error, fn, *args, **kwargs):
        """Malformed input: the call must raise `error` (a tuple or class)."""
        self.ev('rejections expected')
        name = getattr(fn, '__qualname__', repr(fn))
        try:
            out = fn(*args, **kwargs)
        except error:
            self.ev('rejections observed')
            return
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation('%s: malformed input raised %s: %s instead of being rejected with %s' % (
                name, type(e).__name__, str(e)[:200], error), args=jsonable(args), kwargs=jsonable(kwargs))
        raise Violation('%s accepted malformed input' % name,
                        args=jsonable(args), kwargs=jsonable(kwargs), returned=jsonable(out))

    def require(self, condition, message, /, **data):
        self.ev('assertions')
        if not condition:
            raise Violation(message, **data)

    def close(self, got, expected, tol, message, /, **data):
        self.ev('assertions')
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation(message + ': not numeric', got=jsonable(got), expected=jsonable(expected), **data)
        e = np.asarray(expected, dtype=float)
        if g.shape != e.shape:
            raise Violation(message + ': shapes %s and %s differ' % (g.shape, e.shape), got=jsonable(got), expected=e, **data)
        err = float(np.max(np.abs(g - e))) if g.size else 0.
        if not err <= tol:
            raise Violation(message + ': error %.3e > %.1e' % (err, tol), got=g, expected=e, **data)


def rng_for(seed, prop, index):
    h = hashlib.sha256(('%s|%s|%s' % (seed, prop, index)).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


def import_repo():
    """Imports pympc from the working tree under check and makes sure that it is that tree."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pympc
    f = os.path.abspath(pympc.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('pympc comes from %s, not from %s' % (f, REPO))
    return pympc


def pick(scenarios, rng):
    w = np.array([s[1] for s in scenarios], dtype=float)
    return scenarios[int(rng.choice(len(scenarios), p=w/w.sum()))]


def _alarm(signum, frame):
    raise CpuLimit()


def run_case(mod, seed, index, ctx):
    """Returns None, ('violation', ...), ('skip',) or ('error', ...)."""
    rng = rng_for(seed, mod.ID, index)
    np.random.seed(int(rng.integers(2**31)))
    if isinstance(index, str):
        table = {n: f for n, f in list(getattr(mod, 'FIXED', []))}
        name, fn = index, table[index[6:]]
    else:
        name, _, fn = pick(mod.SCENARIOS, rng)
    if ctx.monitor is not None:
        ctx.monitor.begin(ctx)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, ctx.cpu_limit)
    try:
        fn(rng, ctx)
        ctx.ev('scenario:' + name)
        return None
    except Skip as e:
        ctx.ev('skipped')
        return ('skip', name, str(e))
    except Violation as v:
        return ('violation', name, v.message, jsonable(v.data))
    except StepLimit as e:
        return ('violation', name, 'no answer within %s logical steps' % e, {})
    except CpuLimit:
        return ('violation', name, 'no answer within %g s of CPU time (legitimate cases take a small fraction of it)' % ctx.cpu_limit, {})
    except Exception as e:
        trace = traceback.format_exc()
        if breakdown(e):
            ctx.ev('calls')
            ctx.ev('breakdowns')
            return ('skip', name, str(e)[:200])
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO + '/pympc/') for f in frames):
            # scenarios only make calls that the documentation allows
            return ('violation', name, 'valid use raised %s: %s' % (type(e).__name__, str(e)[:200]), {'trace': trace[-3000:]})
        if isinstance(e, (TypeError, AttributeError, LookupError)) or (isinstance(e, ValueError) and not isinstance(e, np.linalg.LinAlgError)):
            # the oracles read every documented form of an answer: what they cannot read (None, missing key, other shape) is not one
            return ('violation', name, 'an answer does not have the documented form: %s: %s' % (type(e).__name__, str(e)[:200]), {'trace': trace[-3000:]})
        return ('error', name, trace)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if ctx.monitor is not None:
            ctx.monitor.end()
