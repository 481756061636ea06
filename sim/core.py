"""Simulator core: process seams, structural comparison, plans and results.

Importing this module (before metadetect) installs the process-wide seams:
the clock seen by library code, lock construction in library code, and the
monitoring hooks (hooks.py).  None of them does anything unless a run asks.
"""
import collections
import hashlib
import json
import os
import sys
import threading
import time
import warnings

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
LIBDIR = os.path.join(REPO, 'metadetect') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_real_time = time.time
_real_perf = time.perf_counter
_real_mono = time.monotonic
real_time = _real_time


def is_lib_file(fn):
    return fn.startswith(LIBDIR) and (os.sep + 'tests' + os.sep) not in fn


# ---------------------------------------------------------------------------
# simulated clock, seen only by library code
class SimClock:
    """time as the library sees it; every read is an event

    steps: list of increments applied in turn (cyclically) at each read; may
    be negative (clock stepped back) or huge (jump)
    """
    def __init__(self, start=1.6e9, steps=(0.001,)):
        self.now = start
        self.steps = list(steps)
        self.reads = 0
        self.covered = 0.0

    def read(self):
        d = self.steps[self.reads % len(self.steps)]
        self.reads += 1
        self.now += d
        self.covered += abs(d)
        return self.now


_clocks = {}


def set_clock(clock):
    if clock is None:
        _clocks.pop(threading.get_ident(), None)
    else:
        _clocks[threading.get_ident()] = clock


def _wrap_clock(real, scale=None):
    def read():
        if _clocks and is_lib_file(sys._getframe(1).f_code.co_filename):
            c = _clocks.get(threading.get_ident())
            if c is not None:
                t = c.read()
                return t if scale is None else int(t * scale)
        return real()
    return read


# ---------------------------------------------------------------------------
# simulated entropy: what library code gets when it asks the system for
# randomness.  A counter, so no two requests of a run get the same value and
# the same run always gets the same values
_entropy = [0]


def reset_entropy(n=0):
    _entropy[0] = n


def sim_entropy(nbits):
    _entropy[0] += 1
    h = hashlib.sha512(b'entropy%d' % _entropy[0]).digest()
    while len(h) * 8 < nbits:
        h += hashlib.sha512(h).digest()
    return int.from_bytes(h, 'little') & ((1 << nbits) - 1)


def _install_entropy():
    import random
    import secrets
    import numpy.random.bit_generator as bg
    real_bits, real_urandom = bg.randbits, os.urandom

    def randbits(n):
        if is_lib_file(sys._getframe(1).f_code.co_filename):
            return sim_entropy(n)
        return real_bits(n)

    def urandom(n):
        f = sys._getframe(1)
        if f.f_code.co_filename == random.__file__:
            f = f.f_back
        if f is not None and is_lib_file(f.f_code.co_filename):
            return sim_entropy(8 * n).to_bytes(n, 'little')
        return real_urandom(n)

    bg.randbits = randbits
    secrets.randbits = randbits
    os.urandom = urandom


_locks_installed = False


def install_seams():
    global _locks_installed
    if _locks_installed:
        return
    _locks_installed = True
    time.time = _wrap_clock(_real_time)
    time.perf_counter = _wrap_clock(_real_perf)
    time.monotonic = _wrap_clock(_real_mono)
    for n in ('time_ns', 'perf_counter_ns', 'monotonic_ns'):
        setattr(time, n, _wrap_clock(getattr(time, n), 1e9))
    _install_entropy()
    import sched_sim
    real_lock, real_rlock = threading.Lock, threading.RLock

    def lock():
        if is_lib_file(sys._getframe(1).f_code.co_filename):
            return sched_sim.SimLock(False)
        return real_lock()

    def rlock():
        if is_lib_file(sys._getframe(1).f_code.co_filename):
            return sched_sim.SimLock(True)
        return real_rlock()

    threading.Lock = lock
    threading.RLock = rlock
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


# ---------------------------------------------------------------------------
# structural comparison
def _h(h, x):
    if x is None or isinstance(x, (bool, int, str)):
        h.update(('%s:%r' % (type(x).__name__, x)).encode())
    elif isinstance(x, float):
        h.update(b'float:' + np.float64(x).tobytes())
    elif isinstance(x, np.generic):
        h.update(('np:%s' % x.dtype).encode() + x.tobytes())
    elif isinstance(x, np.ndarray):
        if x.dtype.names is not None:
            h.update(b'struct')
            h.update(repr(x.shape).encode())
            for n in x.dtype.names:
                h.update(n.encode())
                _h(h, x[n])
        elif x.dtype == object:
            h.update(b'obj')
            for y in x.ravel():
                _h(h, y)
        else:
            h.update(('arr:%s:%r' % (x.dtype.str, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(('dict%d' % len(x)).encode())
        for k in x:
            _h(h, k)
            _h(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(('%s%d' % (type(x).__name__, len(x))).encode())
        for y in x:
            _h(h, y)
    elif isinstance(x, BaseException):
        h.update(('exc:%s:%s' % (type(x).__name__, x)).encode())
    else:
        h.update(('o:%s' % type(x).__name__).encode())


def digest(x):
    h = hashlib.sha256()
    _h(h, x)
    return h.hexdigest()[:16]


def same_array(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names is not None:
        return all(same_array(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in 'fc':
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def diff(a, b, path=''):
    """first difference between two results, as text, or None"""
    if type(a) is not type(b):
        return '%s: type %s vs %s' % (path, type(a).__name__,
                                      type(b).__name__)
    if isinstance(a, dict):
        if set(a) != set(b):
            return '%s: keys %s vs %s' % (
                path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = diff(a[k], b[k], '%s[%s]' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.dtype.names is not None or b.dtype.names is not None:
            if a.dtype.names is None or b.dtype.names is None or \
                    set(a.dtype.names) != set(b.dtype.names):
                return '%s: columns %s vs %s' % (
                    path, a.dtype.names, b.dtype.names)
            if a.shape != b.shape:
                return '%s: shape %s vs %s' % (path, a.shape, b.shape)
            for n in a.dtype.names:
                d = diff(a[n], b[n], '%s.%s' % (path, n))
                if d:
                    return d
            return None
        if a.shape != b.shape or a.dtype != b.dtype:
            return '%s: %s%s vs %s%s' % (
                path, a.dtype, a.shape, b.dtype, b.shape)
        if not same_array(a, b):
            w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
            i = tuple(int(q) for q in w[0])
            return '%s: %d of %d elements differ, first %s: %r vs %r' % (
                path, len(w), a.size, i, a[i], b[i])
        return None
    if isinstance(a, BaseException):
        if str(a) != str(b):
            return '%s: %r vs %r' % (path, a, b)
        return None
    if isinstance(a, (float, np.floating)):
        if not (a == b or (a != a and b != b)):
            return '%s: %r vs %r' % (path, a, b)
        return None
    try:
        eq = bool(a == b)
    except Exception:
        eq = a is b
    return None if eq else '%s: %r vs %r' % (path, a, b)


# ---------------------------------------------------------------------------
# snapshots of observations
def snap_obs(o):
    d = {'image': o._image.copy(), 'weight': o._weight.copy()}
    for n in ('bmask', 'ormask', 'noise', 'mfrac'):
        v = getattr(o, '_' + n, None)
        d[n] = None if v is None else v.copy()
    j = o._jacobian
    d['jac'] = tuple(float(x) for x in (
        j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol))
    d['meta'] = {k: v for k, v in o.meta.items() if not k.startswith('_sim')}
    if o.has_psf():
        p = o.psf
        d['psf'] = {'image': p._image.copy(), 'weight': p._weight.copy(),
                    'meta': sorted(k for k in p.meta if k != 'result'
                                   and not k.startswith('_sim'))}
    return d


def snap_mbobs(mb):
    return {'meta': {k: v for k, v in mb.meta.items()
                     if not k.startswith('_sim')},
            'obs': [[snap_obs(o) for o in ol] for ol in mb]}


def snap_rng(rng):
    st = rng.get_state()
    return (st[0], np.array(st[1]), int(st[2]), int(st[3]), float(st[4]))


def snap_cfg(x):
    """deep value copy of a configuration, with types"""
    if isinstance(x, dict):
        return {k: snap_cfg(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)([snap_cfg(v) for v in x])
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def snap_global_rng():
    import random
    st = np.random.get_state()
    return (np.array(st[1]), int(st[2]), int(st[3]), float(st[4]),
            hash(random.getstate()))


# ---------------------------------------------------------------------------
class Result:
    """what one simulated run produced"""
    def __init__(self):
        self.viol = []                      # [(code, message)]
        self.faults = collections.Counter()  # fault kind -> times fired
        self.probes = collections.Counter()  # rare conditions reached
        self.events = 0                     # seam events
        self.simtime = 0.0
        self.sigs = set()                   # distinct state signatures
        self.nontrivial = False
        self.log = []                       # event log (hashed)
        self.plan = None                    # plan with the schedule resolved
        self.execs = 0                      # library executions

    def bad(self, code, msg):
        self.viol.append((code, str(msg)[:2000]))

    def took(self, out):
        """account for one mdrun execution"""
        self.execs += 1
        self.simtime += out.clock.covered
        self.absorb(out.ctx)

    def absorb(self, ctx):
        """account for a simhook context used in this run"""
        if ctx is None:
            return
        self.faults.update(ctx.fired)
        self.events += len(ctx.events)
        self.log.append(digest([(s, n, repr(k)) for s, n, k in ctx.events]))

    def key(self):
        return digest([self.log, sorted(self.faults.items()), self.events,
                       [c for c, _ in self.viol], round(self.simtime, 6)])


def jdump(x):
    return json.dumps(x, sort_keys=True)
