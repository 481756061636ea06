"""Interruption and preemption seam built on sys.monitoring.

CALL events fire at every call made by a line of library code.  Calls into
anything that is not library code (numpy, scipy, galsim, the stubs, builtins)
are external-call sites, named "<library function>><callee>".  A per-thread
CallCtx counts them and raises the planned exception at the planned one.
LINE events in library code are the preemption points of the scheduler.
"""
import functools
import sys
import threading
import types

import core
import sched_sim

MON = sys.monitoring
TOOL = 4
_ctx = {}
_lines_on = [False]
_inited = [False]

TRIVIAL = {
    'len', 'isinstance', 'range', 'hasattr', 'getattr', 'setattr', 'zip',
    'list', 'dict', 'tuple', 'min', 'max', 'any', 'all', 'enumerate', 'print',
    'str', 'int', 'float', 'bool', 'set', 'sorted', 'reversed', 'iter',
    'next', 'super', 'type', 'abs', 'sum', 'round', 'map', 'filter', 'repr',
}


class CallCtx:
    def __init__(self, target=None, record=True, on_call=None):
        # target: {'site': s, 'n': k, 'exc': kind}
        self.target = target
        self.counts = {}
        self.total = 0
        self.fired = False
        self.record = record
        self.on_call = on_call
        self.order = []


class interrupting:
    """run library code of this thread under a CallCtx"""
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        init()
        self.prev = _ctx.get(threading.get_ident())
        _ctx[threading.get_ident()] = self.ctx
        MON.set_events(TOOL, MON.events.CALL | (
            MON.events.LINE if _lines_on[0] else 0))
        return self.ctx

    def __exit__(self, *a):
        if self.prev is None:
            _ctx.pop(threading.get_ident(), None)
        else:
            _ctx[threading.get_ident()] = self.prev
        if not _ctx:
            MON.set_events(TOOL, MON.events.LINE if _lines_on[0] else 0)
        return False


class lines:
    """turn on line-level yield points for scheduled threads"""
    def __enter__(self):
        init()
        _lines_on[0] = True
        MON.set_events(TOOL, MON.events.LINE | (
            MON.events.CALL if _ctx else 0))

    def __exit__(self, *a):
        _lines_on[0] = False
        MON.set_events(TOOL, MON.events.CALL if _ctx else 0)
        return False


def callee_name(f, arg0):
    """name of an external callee, or None for library and logging calls"""
    if isinstance(f, functools.partial):
        f = f.func
    if isinstance(f, types.MethodType):
        f = f.__func__
    code = getattr(f, '__code__', None)
    if code is not None:
        if core.is_lib_file(code.co_filename):
            return None
        mod = getattr(f, '__module__', '') or ''
        if mod.startswith('logging') or mod in ('core', 'hooks', 'simhook'):
            return None
        return '%s.%s' % (mod, getattr(f, '__qualname__', '?'))
    if isinstance(f, type):
        if (f.__module__ or '').startswith('metadetect'):
            return None
        return '%s.%s' % (f.__module__, f.__qualname__) \
            if f.__module__ != 'builtins' else f.__qualname__
    mod = getattr(f, '__module__', None) or ''
    q = getattr(f, '__qualname__', None) or getattr(f, '__name__', None) \
        or type(f).__name__
    if mod in ('time', 'core'):
        return None
    if mod == 'builtins' or not mod:
        return q
    if isinstance(mod, str) and mod.startswith('metadetect'):
        wrapped = getattr(f, '__wrapped__', None) or getattr(
            f, 'py_func', None)
        if wrapped is None:
            return None
        # compiled library function: one external-like step
        return 'compiled:%s' % q
    return '%s.%s' % (mod, q)


def _on_call(code, offset, f, arg0):
    if not core.is_lib_file(code.co_filename):
        return MON.DISABLE
    c = _ctx.get(threading.get_ident())
    if c is None:
        return None
    name = callee_name(f, arg0)
    if name is None:
        return None
    site = code.co_qualname + '>' + name
    n = c.counts.get(site, 0)
    c.counts[site] = n + 1
    c.total += 1
    t = c.target
    if t is not None and t['site'] == site and t['n'] == n and not c.fired:
        c.fired = True
        import simhook
        raise simhook.make_exc(t['exc'])
    if c.on_call is not None:
        c.on_call(site, n)


def _on_line(code, line):
    if not core.is_lib_file(code.co_filename):
        return MON.DISABLE
    sched_sim.yield_point(code)


def init():
    if _inited[0]:
        return
    _inited[0] = True
    MON.use_tool_id(TOOL, 'verif')
    MON.register_callback(TOOL, MON.events.CALL, _on_call)
    MON.register_callback(TOOL, MON.events.LINE, _on_line)


def pick_target(r, counts, exc, trivial=0.35):
    """seeded choice of an interruption point from a dry run's call counts"""
    ext = sorted(s for s in counts if not _is_trivial(s))
    tri = sorted(s for s in counts if _is_trivial(s))
    pool = tri if (tri and (r.random() < trivial or not ext)) else ext
    if not pool:
        return None
    site = r.choice(pool)
    n = counts[site]
    k = r.choice([0, n - 1, r.randrange(n), r.randrange(n)])
    return {'site': site, 'n': k, 'exc': exc}


def _is_trivial(site):
    c = site.split('>', 1)[1]
    return c.split('.')[0] in ('dict', 'list', 'str', 'tuple', 'set') or (
        '.' not in c and c in TRIVIAL)
