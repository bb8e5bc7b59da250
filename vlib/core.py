"""Objects used by the property modules."""
import json
import math


class Violation(Exception):
    """The property does not hold for the case at hand."""


class CaseHang(BaseException):
    """A single case ran far beyond its usual cost."""


class Sub(object):
    """One executable sub-property.

    name      identifier used in replay files
    strategy  function () -> Hypothesis strategy producing JSON-able cases
    body      function (case, ctx); raises Violation when the property fails
    quick     number of cases in the quick tier (per shard)
    thorough  number of cases in the thorough tier (per shard)
    shards    (quick, thorough) number of independent seeds run in parallel
    hang      seconds after which one case counts as not terminating
    hang_violation  termination is part of the property
    threads   value of OMP_NUM_THREADS for the worker
    """

    def __init__(self, name, strategy, body, quick=100, thorough=None,
                 shards=(1, 4), hang=120, hang_violation=False, threads=1):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.shards = shards
        self.hang = hang
        self.hang_violation = hang_violation
        self.threads = threads


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def _arr(x):
    import numpy as np
    return np.asarray(x, dtype=float)


def close(got, want, rtol=1e-9, atol=0.0, what='value', scale=None):
    """Element-wise comparison; nan/inf must match exactly.

    atol may be an array; `scale` adds rtol*scale to the allowance.
    """
    import numpy as np
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError) as e:
        fail('{}: not numeric: {!r} ({})'.format(what, got, e))
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        fail('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    tol = rtol * np.abs(w) + atol
    if scale is not None:
        tol = tol + rtol * np.abs(np.asarray(scale, dtype=float))
    with np.errstate(all='ignore'):
        bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
    if np.any(bad):
        i = tuple(int(k[0]) for k in np.nonzero(np.atleast_1d(bad)))
        gg, ww = np.atleast_1d(g)[i], np.atleast_1d(w)[i]
        tt = np.atleast_1d(np.broadcast_to(tol, g.shape))[i]
        fail('{}: got {!r}, expected {!r} (index {}, allowed {:.3g}, difference {:.3g})'.format(
            what, float(gg), float(ww), i, float(tt), float(abs(gg - ww))))


class Ctx(object):
    """Bookkeeping of one shard."""

    def __init__(self, known=()):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known_listed = set(known)
        self.known_hit = {}
        self.excluded = 0
        self._nt = False
        self.scratch = None

    def note(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + n

    def interesting(self, cond=True):
        if cond:
            self._nt = True

    def exclude(self, key):
        """Count a case left out because it hits a listed known finding."""
        self.known_hit[key] = self.known_hit.get(key, 0) + 1


def clean(x):
    """JSON-able copy (numpy scalars and arrays, tuples)."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, np.ndarray):
        return clean(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def dumps(x):
    return json.dumps(clean(x), sort_keys=True, allow_nan=True)


def brief(x, limit=600):
    s = dumps(x)
    return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)
