"""Seam between the stub dependencies and the simulator.

Stub dependencies call ``point(site, key)`` at every operation a real
dependency could fail at.  Without an active context it does nothing.  The
active context is per thread: ``ctx`` below maps thread idents to contexts.
"""
import builtins
import threading

_ctx = {}


class Ctx:
    """Fault plan and event record of one logical thread of one run."""

    def __init__(self, keyed=None, positional=None, record=True, on_point=None,
                 keep=200000):
        self.keyed = keyed or {}            # {(site, key): kind}
        self.positional = positional or {}  # {(site, n): kind}
        self.counts = {}
        self.events = []
        self.seen_keys = {}
        self.fired = {}
        self.fired_sites = []
        self.record = record
        self.on_point = on_point
        self.keep = keep
        self.notes = {}
        self.full = False         # the stubs note their inputs and answers
        self.imgkeys = False      # identify fits by their image

    def hit(self, site, key):
        n = self.counts.get(site, 0)
        self.counts[site] = n + 1
        if self.record and len(self.events) < self.keep:
            self.events.append((site, n, key))
        if key is not None:
            self.seen_keys.setdefault((site, key), 0)
            self.seen_keys[(site, key)] += 1
        if self.on_point is not None:
            self.on_point(site, n, key)
        kind = self.positional.get((site, n))
        if kind is None and key is not None:
            kind = self.keyed.get((site, key))
        if kind is not None:
            self.fired[kind] = self.fired.get(kind, 0) + 1
            self.fired_sites.append((site, n, key, kind))
        return kind


def push(ctx):
    _ctx[threading.get_ident()] = ctx


def pop():
    return _ctx.pop(threading.get_ident(), None)


def current():
    return _ctx.get(threading.get_ident())


class active:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.prev = current()
        push(self.ctx)
        return self.ctx

    def __exit__(self, *a):
        pop()
        if self.prev is not None:
            push(self.prev)
        return False


def exc_name(kind):
    """class name of make_exc(kind)"""
    return kind.split('.')[-1]


class SimError(RuntimeError):
    """an unexpected error of a dependency"""


def make_exc(kind):
    """exception for a fault kind, or None if the stub must act on it"""
    if kind == 'MemoryError':
        return MemoryError('simulated: out of memory')
    if kind == 'KeyboardInterrupt':
        return KeyboardInterrupt('simulated interrupt')
    if kind == 'SimError':
        return SimError('simulated: dependency failed')
    if kind == 'ValueError':
        return ValueError('simulated: bad value in dependency')
    if kind == 'LinAlgError':
        import numpy as np
        return np.linalg.LinAlgError('simulated: singular matrix')
    if kind in ('BootPSFFailure', 'GMixRangeError', 'GMixFatalError',
                'PSFFluxFailure', 'BootGalFailure'):
        from ngmix import gexceptions
        return getattr(gexceptions, kind)('simulated')
    if kind in ('StopIteration', 'SystemExit', 'GeneratorExit'):
        return getattr(builtins, kind)('simulated')
    if kind.startswith('lsst.'):
        from lsst.pex import exceptions as e
        name = kind[5:]
        if name == 'TaskError':
            from lsst.pipe.base import TaskError
            return TaskError('simulated lsst.pipe.base.task.TaskError: x')
        return getattr(e, name)('simulated')
    return None


def point(site, key=None):
    """one fallible operation of a dependency

    raises the planned exception, or returns the planned kind of failure for
    the stub to produce, or None
    """
    c = _ctx.get(threading.get_ident())
    if c is None:
        return None
    kind = c.hit(site, key)
    if kind is None:
        return None
    exc = make_exc(kind)
    if exc is not None:
        raise exc
    return kind


def note(name, value):
    """let the stub record ground truth for the oracles"""
    c = _ctx.get(threading.get_ident())
    if c is not None:
        c.notes.setdefault(name, []).append(value)


def full():
    c = _ctx.get(threading.get_ident())
    return c is not None and c.full


def pair(name, other):
    """remember which entry of ``other`` was current at the last ``name``"""
    c = _ctx.get(threading.get_ident())
    if c is not None:
        c.notes.setdefault(name + '>' + other, []).append(
            len(c.notes.get(other, ())) - 1)
