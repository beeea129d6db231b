"""Core of the simulator: plans, violations, faults, event log, coverage.

A *plan* is a JSON object produced by a property module's ``gen(rng, tier)``
from one integer.  It holds every decision of the run: configuration,
operations, arguments, schedule and faults.  ``run(plan, ctx)`` executes it; it
draws no randomness and reads no real clock, so plan + code decide everything.
"""
import hashlib
import json
import os
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'LinearResponseVariationalBayes')


class Violation(Exception):
    """The property does not hold in this run."""
    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class SimFault(object):
    """Mixin marking exceptions that the simulator itself injected."""


class SimValueError(SimFault, ValueError):
    pass


class SimFloatingPointError(SimFault, FloatingPointError):
    pass


class SimMemoryError(SimFault, MemoryError):
    pass


class SimOSError(SimFault, OSError):
    pass


class SimKeyboardInterrupt(SimFault, KeyboardInterrupt):
    pass


class SimRuntimeError(SimFault, RuntimeError):
    pass


class SimStopIteration(SimFault, StopIteration):
    pass


class SimCrash(SimFault, BaseException):
    """The process dies here: no handler may keep it alive."""


def _linalg_error():
    import numpy
    global SimLinAlgError
    class SimLinAlgError(SimFault, numpy.linalg.LinAlgError):
        pass
    return SimLinAlgError


FAULTS = {
    'ValueError': SimValueError,
    'FloatingPointError': SimFloatingPointError,
    'MemoryError': SimMemoryError,
    'OSError': SimOSError,
    'KeyboardInterrupt': SimKeyboardInterrupt,
    'RuntimeError': SimRuntimeError,
    'LinAlgError': None,
}
FAULT_KINDS = sorted(FAULTS)


def make_fault(kind, msg='injected'):
    cls = FAULTS[kind]
    if cls is None:
        cls = FAULTS[kind] = _linalg_error()
    return cls(msg)


class Ctx(object):
    """One run: event log, fault counters, coverage and virtual time."""

    def __init__(self, keep_log=False):
        self.digest = hashlib.sha256()
        self.keep_log = keep_log
        self.log = []
        self.faults = {}
        self.probes = {}
        self.trace = []
        self.steps = 0
        self.sim_time = 0.0
        self.prelude = None
        self.monitor = None     # C17: watches process-wide state

    def invoke(self, fn, *a, **k):
        """Every monitored call into the library goes through here."""
        if self.monitor is None:
            return fn(*a, **k)
        return self.monitor(fn, a, k)

    def note(self, *what):
        """A result to compare between two executions of the same plan."""
        if self.monitor is not None:
            self.monitor.note(what)

    def ev(self, *data):
        self.steps += 1
        line = repr(data)
        self.digest.update(line.encode())
        if self.keep_log:
            self.log.append(line)

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev('fault', kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def mark(self, *what):
        """One element of the run's schedule signature (no argument values)."""
        self.trace.append('.'.join(str(w) for w in what))

    def signature(self):
        return hashlib.sha256('|'.join(self.trace).encode()).hexdigest()[:16]


def seed_for(base, prop, i):
    h = hashlib.sha256(('%s/%s/%s' % (base, prop, i)).encode()).hexdigest()
    return int(h[:12], 16)


def in_repo(tb):
    """Whether any frame of the traceback is the library's."""
    for f in traceback.extract_tb(tb):
        if f[0].startswith(PKG_DIR):
            return True
    return False


def where(e):
    """Last library frame, for messages only."""
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        if f[0].startswith(PKG_DIR):
            out.append('%s:%s %s' % (os.path.basename(f[0]), f[1], f[2]))
    return ' < '.join(out[-2:][::-1])


def dumps(obj):
    return json.dumps(obj, sort_keys=True)


# ------------------------------------------------------------------ histories

# operations that are not repeated as they stand
ONCE = ('copy', 'index', 'push', 'callback', 'second')
FAULT_KEYS = ('f', 'bad', 'int', 'out', 'lf', 'cb', 'jump', 'nan', 'cut')


def mix(rng, ops, keys=('s', 's2', 'sv', 'h')):
    """Make a history revisit points: few distinct points, the same operation
    again later (after whatever came between), and buffers that the caller
    owns, overwrites and passes again.  Fresh points in fresh arrays, the only
    thing a generator would otherwise produce, never meet a stale cache."""
    if rng.random() < .2:
        return ops
    if rng.random() < .65:
        few = [rng.randint(0, 999) for _ in range(rng.choice([1, 2, 2, 3]))]
        for op in ops:
            for k in keys:
                if isinstance(op.get(k), int) and rng.random() < .8:
                    op[k] = rng.choice(few)
    if rng.random() < .7 and ops:
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(len(ops))
            if ops[i]['o'] in ONCE:
                continue
            o = json.loads(json.dumps(ops[i]))
            for k in FAULT_KEYS:
                if k == 'cb' or rng.random() < .8:
                    o.pop(k, None)
            ops.insert(rng.choice([i + 1, rng.randint(i + 1, len(ops))]), o)
    if rng.random() < .6:
        p = rng.choice([.5, 1.])
        for op in ops:
            if rng.random() < p:
                op['buf'] = True
    if rng.random() < .4:
        p = rng.choice([.3, .8])
        for op in ops:
            if rng.random() < p and not op.get('buf'):
                op['lay'] = rng.choice(['strided', 'strided', 'ro'])
    return ops


def layout(arr, how):
    """The same values in an array whose memory is laid out otherwise."""
    import numpy as np
    if how == 'ro':
        arr.flags.writeable = False
    elif how == 'strided':
        if arr.ndim == 1:
            base = np.empty(2 * len(arr) + 1, dtype=arr.dtype)
            base[1::2] = arr
            arr = base[1::2]
        elif arr.ndim > 1:
            arr = np.array(arr, order='F')
    return arr


class Giver(object):
    """Vectors handed to the library.  Within an operation marked `buf` the
    caller has one array per shape and place in the call, overwrites it with
    the new values, and passes that same array again."""

    def begin(self, op):
        self.reuse = bool(op.get('buf'))
        self.slot = 0
        self.lay = op.get('lay')

    def hand(self, arr, pool=None, dtype=float):
        """`pool` lists [array, values it was handed over with, ...]."""
        import numpy as np
        lay = getattr(self, 'lay', None)
        if lay == 'ro' and getattr(self, 'reuse', False):
            lay = None
        arr = layout(np.array(arr, dtype=dtype), lay)
        if getattr(self, 'reuse', False):
            bufs = self.__dict__.setdefault('bufs', {})
            key = (arr.shape, arr.dtype.kind, self.slot)
            self.slot += 1
            if key in bufs:
                buf = bufs[key]
                for item in pool or []:
                    if item[0] is buf and not np.array_equal(buf, item[1]):
                        raise Violation('argument-modified', 'a vector given '
                                        'to an earlier call was modified')
                if pool:
                    pool[:] = [i for i in pool if i[0] is not buf]
                buf[...] = arr
                arr = buf
            else:
                bufs[key] = arr
        return arr
