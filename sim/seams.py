"""The seams: clock, output stream, linear algebra, interrupts, disk, globals.

``install()`` must run before the library is imported, so that the virtual
clock is what the library sees however it imports it.
"""
import builtins
import io
import os
import sys
import time as _time

from . import core

real = {}
TIME_FUNCS = ['time', 'monotonic', 'perf_counter', 'process_time',
              'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns',
              'thread_time', 'clock', 'clock_gettime']


class Clock(object):
    """Virtual time.  `now` is elapsed time, `wall` is what the wall clock
    adds to it (stepped by NTP or an operator), `origin` is boot time."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0.0
        self.wall = 1.5e9
        self.origin = 5000.0
        self.cpu = 0.25      # CPU time runs slower than elapsed time
        self.reads = 0
        self.drag = 0.       # a slow machine: time passes between readings
        self.wander = None   # steps of the wall clock, one at each reading

    def read(self):
        self.reads += 1
        self.now += self.drag
        if self.wander:
            self.wall += self.wander[self.reads % len(self.wander)]

    def advance(self, dt):
        self.now += dt

    def step_wall(self, dt):
        self.wall += dt

    # the library's view
    def time(self):
        self.read()
        return self.wall + self.now

    def steady(self):
        self.read()
        return self.origin + self.now

    def process(self):
        self.read()
        return self.origin + self.cpu * self.now


CLOCK = Clock()


def install_clock():
    if real:
        return
    for name in TIME_FUNCS + ['sleep']:
        if hasattr(_time, name):
            real[name] = getattr(_time, name)
    c = CLOCK
    fakes = {
        'time': c.time, 'monotonic': c.steady, 'perf_counter': c.steady,
        'process_time': c.process, 'thread_time': c.process, 'clock': c.process,
        'time_ns': lambda: int(c.time() * 1e9),
        'monotonic_ns': lambda: int(c.steady() * 1e9),
        'perf_counter_ns': lambda: int(c.steady() * 1e9),
        'process_time_ns': lambda: int(c.process() * 1e9),
        'sleep': lambda s: c.advance(s),
    }

    def clock_gettime(which):
        if which == getattr(_time, 'CLOCK_REALTIME', 0):
            return c.time()
        if which in (getattr(_time, 'CLOCK_PROCESS_CPUTIME_ID', 2),
                     getattr(_time, 'CLOCK_THREAD_CPUTIME_ID', 3)):
            return c.process()
        return c.steady()
    fakes['clock_gettime'] = clock_gettime
    for name, f in fakes.items():
        if name in real:
            setattr(_time, name, f)


class SimStream(object):
    """A stand-in for standard output that can break at a chosen write."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.text = []
        self.fail_at = None     # fail at the nth write from now (0 = next)
        self.fail_kind = None
        self.on_fire = None
        self.closed = False
        self.broken = False

    def write(self, s):
        if self.fail_at is not None:
            if self.fail_at <= 0:
                if self.on_fire:
                    self.on_fire('stdout:' + self.fail_kind)
                if self.fail_kind == 'short':
                    self.text.append(s[:max(0, len(s) // 2)])
                e = core.SimOSError(
                    {'EPIPE': 32, 'ENOSPC': 28, 'short': 28, 'EIO': 5}[
                        self.fail_kind], 'injected ' + self.fail_kind)
                e.injected = True
                self.fail_at = None
                raise e
            self.fail_at -= 1
        self.text.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def writable(self):
        return True

    def getvalue(self):
        return ''.join(self.text)

    def take(self):
        s = ''.join(self.text)
        self.text = []
        return s


class Stdout(object):
    """Context manager putting a SimStream in place of sys.stdout."""
    def __init__(self, stream):
        self.stream = stream

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = self.stream
        return self.stream

    def __exit__(self, *a):
        sys.stdout = self.saved
        return False


class LinalgFault(object):
    """Makes the nth call of the named numpy/scipy linear-algebra function
    raise, as a failing decomposition or allocation does."""
    def __init__(self, names, nth, kind, on_fire):
        self.names, self.nth, self.kind, self.on_fire = names, nth, kind, on_fire
        self.count = 0
        self.exc = None

    def targets(self):
        import autograd.numpy.linalg as anl
        import numpy.linalg
        import scipy.linalg
        return {'ag.solve': (anl, 'solve'), 'ag.inv': (anl, 'inv'),
                'ag.eigh': (anl, 'eigh'), 'ag.cholesky': (anl, 'cholesky'),
                'np.eigh': (numpy.linalg, 'eigh'),
                'np.solve': (numpy.linalg, 'solve'),
                'np.inv': (numpy.linalg, 'inv'),
                'np.cholesky': (numpy.linalg, 'cholesky'),
                'sp.cho_factor': (scipy.linalg, 'cho_factor'),
                'sp.cho_solve': (scipy.linalg, 'cho_solve'),
                'sp.eigh': (scipy.linalg, 'eigh'),
                'sp.solve': (scipy.linalg, 'solve')}

    def __enter__(self):
        self.saved = []
        t = self.targets()
        for name in self.names:
            mod, attr = t[name]
            f = getattr(mod, attr)
            self.saved.append((mod, attr, f))
            setattr(mod, attr, self.wrap(f, name))
        return self

    def wrap(self, f, name):
        def g(*a, **k):
            if self.count == self.nth:
                self.count += 1
                self.on_fire('linalg:%s:%s' % (name, self.kind))
                self.exc = core.make_fault(self.kind)
                raise self.exc
            self.count += 1
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for mod, attr, f in self.saved:
            setattr(mod, attr, f)
        return False


def new_lines(step):
    """A local trace function that calls `step(frame)` for every line entered.
    A loop that stays on one line counts once: whether it reports each turn
    depends on what the interpreter has compiled meanwhile."""
    last = [None]

    def local(frame, event, arg):
        if event == 'line' and frame.f_lineno != last[0]:
            last[0] = frame.f_lineno
            step(frame)
        return local
    return local


class LineInterrupt(object):
    """Raises at the nth line event inside the library: an asynchronous
    KeyboardInterrupt, or the death of the process (SimCrash)."""
    def __init__(self, nth, exc, on_fire=None):
        self.nth, self.exc, self.on_fire = nth, exc, on_fire
        self.count = 0
        self.hit = False

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.PKG_DIR):
            return new_lines(self._step)
        return None

    def _step(self, frame):
        if not self.hit:
            if self.count >= self.nth:
                self.hit = True
                if self.on_fire:
                    self.on_fire('line:' + type(self.exc).__name__)
                raise self.exc
            self.count += 1

    def __enter__(self):
        self.saved = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.saved)
        return False


class LineBudget(object):
    """Liveness: more than `budget` library lines is no progress."""
    def __init__(self, budget):
        self.left = budget

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.PKG_DIR):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left < 0:
                raise core.Violation('no-progress', 'line budget exhausted')
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class DiskFull(core.SimFault, OSError):
    pass


class SimDisk(object):
    """An in-memory disk: cached content per file, durable content per file,
    a directory whose entries become durable only with sync_dir/rename rules
    of a journalled file system (rename is atomic and ordered after the data
    only if the data was fsynced)."""

    def __init__(self, on_fire):
        self.cache = {}
        self.durable = {}
        self.on_fire = on_fire

    def write(self, name, data, fault=None):
        if fault == 'ENOSPC':
            self.on_fire('disk:ENOSPC')
            self.cache[name] = data[:len(data) // 3]
            raise DiskFull(28, 'injected')
        if fault == 'short':
            self.on_fire('disk:short-write')
            self.cache[name] = data[:max(0, len(data) - 1 - len(data) // 5)]
            raise DiskFull(5, 'injected short write')
        self.cache[name] = data

    def fsync(self, name, fault=None):
        if fault == 'EIO':
            self.on_fire('disk:fsync-EIO')
            raise DiskFull(5, 'injected fsync failure')
        self.durable[name] = self.cache[name]

    def rename(self, a, b):
        # atomic in the cache; durable immediately (journalled metadata) but
        # carrying whatever content of `a` was durable.
        self.cache[b] = self.cache.pop(a)
        if a in self.durable:
            self.durable[b] = self.durable.pop(a)
        else:
            self.durable[b] = self.cache[b][:0]

    def crash(self, torn=None):
        """Power loss: unsynced content is lost, or torn at a given fraction."""
        self.on_fire('disk:crash')
        lost = {}
        for name, data in self.cache.items():
            if self.durable.get(name) != data:
                if torn is not None:
                    self.on_fire('disk:torn')
                    lost[name] = data[:int(len(data) * torn)]
        for name, data in lost.items():
            if name not in self.durable:
                self.durable[name] = data
        self.cache = dict(self.durable)

    def read(self, name):
        return self.cache.get(name)


def reset_process_state():
    """What a new process starts with: no differentiation in progress."""
    from autograd import tracer
    tracer.trace_stack.top = -1


class NewProcess(object):
    """The library freshly imported, as a restarted process sees it: no
    module-level state survives.  The old modules come back on exit."""
    def __enter__(self):
        reset_process_state()
        name = 'LinearResponseVariationalBayes'
        self.saved = {k: v for k, v in sys.modules.items()
                      if k == name or k.startswith(name + '.')}
        for k in self.saved:
            del sys.modules[k]
        return __import__(name)

    def __exit__(self, *a):
        name = 'LinearResponseVariationalBayes'
        for k in [k for k in sys.modules
                  if k == name or k.startswith(name + '.')]:
            del sys.modules[k]
        sys.modules.update(self.saved)
        return False


def global_state():
    """Process-wide state a library call must leave alone."""
    import random
    import warnings
    import gc
    import locale
    import signal
    import threading
    import numpy
    from autograd import tracer
    st = {}
    s = numpy.random.get_state()
    st['np.random'] = (s[0], s[1].tobytes(), s[2], s[3], s[4])
    st['random'] = random.getstate()
    st['warnings.filters'] = list(warnings.filters)
    st['warnings.show'] = (warnings.showwarning, warnings.formatwarning)
    st['np.seterr'] = tuple(sorted(numpy.geterr().items()))
    st['np.errcall'] = numpy.geterrcall()
    st['np.print'] = repr(sorted(numpy.get_printoptions().items(),
                                 key=lambda kv: kv[0]))
    st['environ'] = dict(os.environ)
    st['cwd'] = os.getcwd()
    st['stdout'] = sys.stdout
    st['stderr'] = sys.stderr
    st['stdin'] = sys.stdin
    st['recursion'] = sys.getrecursionlimit()
    st['gc'] = gc.isenabled()
    st['locale'] = locale.setlocale(locale.LC_ALL)
    st['threads'] = threading.active_count()
    st['umask'] = None
    st['clock'] = CLOCK.origin
    st['trace'] = sys.gettrace()
    st['signals'] = (signal.getsignal(signal.SIGINT),
                     signal.getsignal(signal.SIGTERM))
    st['excepthook'] = sys.excepthook
    st['displayhook'] = sys.displayhook
    st['path'] = list(sys.path)
    st['autograd'] = tracer.trace_stack.top
    st['print'] = builtins.print
    st['timefuncs'] = (_time.time, _time.monotonic)
    return st


def diff_state(a, b):
    return sorted(k for k in a if a[k] != b[k])


def install():
    install_clock()
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
