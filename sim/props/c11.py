"""Noise replacement: always undone, in every band"""
import numpy as np

import base
import core
import lw
import simhook
from props.c10 import Failing, Stop

KINDS = ['MemoryError', 'SimError', 'KeyboardInterrupt', 'ValueError',
         'lsst.InvalidParameterError', 'lsst.LengthError', 'lsst.TaskError']
ENDS = KINDS + ['Stop', 'StopIteration', 'SystemExit', 'GeneratorExit']
CATCH = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)


class Check(base.Check):
    id = 'C11'
    rule = ('a run sets up a noise replacer over 1-4 bands, inserts and '
            'removes sources (also of different blends at the same time) '
            'with failures between bands in set-up, insertion and inside, and '
            'ends it; every band is compared with its original and with its '
            'noise state after every step; non-trivial when a source was '
            'inserted or a failure fired')
    measure = ('distinct (replacer, bands, sources, sequence of operation '
               'outcomes) tuples')
    n_quick = 2500
    n_thorough = 100000
    real = ['metadetect.lsst.util (working tree)', 'numpy', 'scipy']
    stubs = ['lsst.* (exposures, footprints, detection, deblending, '
             'single-band noise replacer)', 'ngmix (imported only)']

    def gen(self, seed):
        r = self.rng(seed)
        how = r.choice(['multi', 'multi', 'multi', 'context', 'plain'])
        nband = r.choice([1, 2, 2, 3, 4])
        p = lw.gen_mbexp_params(
            r, nband=nband, nobj=r.choice([1, 2, 3, 4]),
            crowded=r.random() < 0.7, infvar=False)
        plan = dict(w=dict(exp=p, clock=[0.001]), how=how, ctor=None, ops=[],
                    thresh=r.choice([4.0, 5.0]), end=None,
                    image=r.random() < 0.3, use_with=r.random() < 0.7,
                    nseed=r.randrange(2**31))
        if r.random() < 0.4:
            plan['ctor'] = r.choice([
                ['site', ['nr.init', r.randrange(nband)]],
                ['site', ['nr.replace', r.randrange(nband)]],
                ['site', ['makeHeavy', r.randrange(16)]],
                ['setup', r.randrange(60)]]) + [r.choice(KINDS)]
        plan['ops'] = self.gen_ops(r, 0, r.choice([1, 2, 4, 6]), nband)
        if r.random() < 0.3:
            plan['end'] = r.choice(ENDS)
        if r.random() < 0.2:
            plan['end_fault'] = [r.randrange(nband), r.choice(KINDS)]
        return plan

    def gen_ops(self, r, depth, n, nband):
        out = []
        for _ in range(n):
            op = dict(src=r.randrange(8), fault=None, end=None, body=[],
                      raw=r.random() < 0.3)
            k = r.random()
            if k < 0.4:
                op['fault'] = ['nr.insert', r.randrange(nband),
                               r.choice(KINDS)]
            elif k < 0.45:
                op['fault'] = ['nr.remove', r.randrange(nband),
                               r.choice(KINDS)]
            if r.random() < 0.3:
                op['end'] = r.choice(ENDS)
            if depth < 2 and r.random() < 0.3:
                op['body'] = self.gen_ops(r, depth + 1, r.choice([1, 2]),
                                          nband)
            out.append(op)
        return out

    # ------------------------------------------------------------------
    def run(self, plan):
        res = core.Result()
        inp = lw.LInputs(plan['w'])
        s = State()
        s.res, s.inp, s.p, s.plan = res, inp, plan['w']['exp'], plan
        s.hist, s.fired, s.broken, s.active = [], [], False, []
        s.nsrc = 0
        out = lw.execute(plan['w'], inp=inp, call=lambda: self.history(s))
        res.took(out)
        for k in s.fired:
            res.faults[k] += 1
        if out.exc is not None:
            raise out.exc
        res.sigs.add(repr((plan['how'], s.p['bands'], s.nsrc, s.hist[:12])))
        res.log.append(s.hist)
        res.log.append(core.digest(lw.snap_mbexp(inp.mbexp)))
        return res

    def history(self, s):
        from metadetect.lsst import measure, util
        plan = s.plan
        s.ctx = simhook.current()
        task = measure.get_detect_and_deblend_task(
            rng=np.random.RandomState(1), thresh=plan['thresh'],
            deblender='sdss')
        sources, detexp, _ = task.run(s.inp.mbexp)
        if len(sources) == 0:
            return
        exps = s.inp.mbexp.singles
        s.exps = exps if plan['how'] == 'multi' else exps[:1]
        s.all = lw.snap_mbexp(s.inp.mbexp, ignore_detected=False)
        s.orig = [e.image.array.copy() for e in s.exps]
        x0, y0 = s.p['xy0']
        s.fp, s.parent = {}, {}
        for x in sources:
            m = np.zeros(s.p['dim'], bool)
            y, xx = x.getFootprint().getSpans().indices()
            m[y - y0, xx - x0] = True
            s.fp[x.getId()] = m
            s.parent[x.getId()] = x.getParent()
        s.ids = sorted(s.fp)
        s.nsrc = len(s.ids)
        s.cover = np.zeros(s.p['dim'], bool)
        for i in s.ids:
            s.cover |= s.fp[i]
        rng = np.random.RandomState(plan['nseed'])
        noise, arr = None, None
        if plan['image'] and plan['how'] != 'multi':
            arr = np.random.RandomState(5).normal(size=s.p['dim'])
            noise = type(exps[0])(exps[0], deep=True).getMaskedImage()
            noise.image.array[:, :] = arr

        def make():
            if plan['how'] == 'multi':
                return util.MultibandNoiseReplacer(
                    mbexp=s.inp.mbexp, sources=sources, rng=rng)
            if plan['how'] == 'context':
                return util.ContextNoiseReplacer(
                    exposure=exps[0], sources=sources, rng=rng,
                    noise_image=noise)
            return util.get_noise_replacer(exps[0], sources, noise)

        if plan['ctor'] is not None:
            if not self.failed_setup(s, make):
                return
        rep = make()
        self.noise_state(s, arr)
        if s.res.viol:
            return
        e0 = None
        if plan['end'] is not None:
            e0 = Stop('x') if plan['end'] == 'Stop' else simhook.make_exc(
                plan['end'])
        got = None
        if plan.get('end_fault') is not None:
            self.failed_end(s, rep)
            return
        try:
            if plan['use_with'] and plan['how'] != 'plain':
                with rep:
                    self.do(s, rep, plan['ops'])
                    if e0 is not None:
                        s.fired.append('body-' + plan['end'])
                        raise e0
            else:
                try:
                    self.do(s, rep, plan['ops'])
                    if e0 is not None:
                        s.fired.append('body-' + plan['end'])
                        raise e0
                finally:
                    rep.end()
        except CATCH as e:
            got = e
        if got is not e0:
            if got is not None and s.res.viol:
                return
            s.res.bad('absorbed', 'ending with %r gave %r' % (e0, got))
        if not s.res.viol:
            self.restored(s, 'after the end')

    def failed_end(self, s, rep):
        """one band cannot be ended: the others are put back all the same"""
        n, kind = s.plan['end_fault']
        if n >= len(s.exps):
            n = 0
        self.do(s, rep, s.plan['ops'])
        if s.res.viol:
            rep.end()
            return
        got = None
        try:
            with FailSite(s, 'nr.end', n, kind) as st:
                if s.plan['use_with'] and s.plan['how'] != 'plain':
                    with rep:
                        pass
                else:
                    rep.end()
        except CATCH as e:
            got = e
        s.hist.append('failed-end')
        s.res.nontrivial = True
        if not st['fired'] or type(got).__name__ != simhook.exc_name(kind):
            s.res.bad('absorbed', 'ending: %s in one band became %r' % (
                kind, got))
        left = [k for k, (e, o) in enumerate(zip(s.exps, s.orig))
                if not np.array_equal(e.image.array, o)]
        if len(left) > 1:
            s.res.bad('not-restored', 'one band could not be ended: bands %s '
                      'keep the noise' % left)

    def failed_setup(self, s, make):
        how, n, kind = s.plan['ctor']
        if how == 'site':
            f = FailSite(s, n[0], n[1], kind)
        else:
            f = FailSetup(s, n, kind)
        got = None
        try:
            with f as st:
                rep = make()
        except CATCH as e:
            got = e
        if not st['fired']:
            if got is not None:
                raise got
            rep.end()
            self.restored(s, 'after an end without use')
            return not s.res.viol
        s.res.nontrivial = True
        s.hist.append('failed-setup-%s' % how)
        if type(got).__name__ != simhook.exc_name(kind):
            s.res.bad('absorbed', 'a failing set-up (%s) gave %r' % (
                kind, got))
        self.restored(s, 'after a failed set-up (%s)' % (s.plan['ctor'],))
        return not s.res.viol

    def restored(self, s, when):
        d = core.diff(lw.snap_mbexp(s.inp.mbexp, ignore_detected=False),
                      s.all, 'data')
        if d:
            s.res.bad('not-restored', 'not the original data %s: %s' % (
                when, d))

    def noise_state(self, s, arr):
        s.noise = [e.image.array.copy() for e in s.exps]
        for k, (a, b) in enumerate(zip(s.noise, s.orig)):
            if not np.array_equal(a[~s.cover], b[~s.cover]):
                s.res.bad('outside', 'band %d changed outside the footprints'
                          % k)
            n = (a[s.cover] == b[s.cover]).sum()
            if n > max(1, 0.01 * s.cover.sum()):
                s.res.bad('not-replaced', 'band %d keeps %d of %d source '
                          'pixels' % (k, n, s.cover.sum()))
            if arr is not None and not np.array_equal(
                    a[s.cover], arr[s.cover].astype(a.dtype)):
                s.res.bad('noise-image', 'the given noise is not used')
        self.check(s, 'after set-up')

    def do(self, s, rep, ops):
        for op in ops:
            if s.res.viol or s.broken:
                return
            self.op(s, rep, op)

    def top(self, s, i):
        while s.parent[i] != 0:
            i = s.parent[i]
        return i

    def op(self, s, rep, op):
        sid = s.ids[op['src'] % len(s.ids)]
        if self.top(s, sid) in [self.top(s, i) for i in s.active]:
            return
        f = op['fault']
        raw = op['raw'] or s.plan['how'] == 'plain'
        got, st = None, dict(fired=False)
        cm = None if raw else rep.sourceInserted(sid)
        s.res.nontrivial = True
        try:
            if f is not None and f[0] == 'nr.insert':
                with FailSite(s, f[0], f[1], f[2]) as st:
                    rep.insertSource(sid) if raw else cm.__enter__()
            else:
                rep.insertSource(sid) if raw else cm.__enter__()
        except CATCH as e:
            got = e
        if st['fired']:
            s.hist.append('failed-insert')
            if type(got).__name__ != simhook.exc_name(f[2]):
                s.res.bad('absorbed', 'inserting source %d: %s became %r' % (
                    sid, f[2], got))
            self.check(s, 'after a failed insertion of source %d in band %d'
                       % (sid, f[1]))
            return
        if got is not None:
            raise got
        s.active.append(sid)
        self.check(s, 'with source %d inserted' % sid)
        self.do(s, rep, op['body'])
        if s.res.viol or s.broken:
            # the failure inside goes through this context
            try:
                self.leave(rep, cm, sid, Stop('x'))
            except CATCH:
                pass
            return
        self.check(s, 'with source %d inserted, later' % sid)
        e0 = None
        if op['end'] is not None:
            e0 = Stop('x') if op['end'] == 'Stop' else simhook.make_exc(
                op['end'])
            s.fired.append('body-' + op['end'])
        st = dict(fired=False)
        try:
            if f is not None and f[0] == 'nr.remove':
                with FailSite(s, f[0], f[1], f[2]) as st:
                    self.leave(rep, cm, sid, e0)
            else:
                self.leave(rep, cm, sid, e0)
        except CATCH as e:
            got = e
        if st['fired']:
            # undone by the end only
            s.broken = True
            s.hist.append('failed-remove')
            if type(got).__name__ != simhook.exc_name(f[2]):
                s.res.bad('absorbed', 'removing source %d: %s became %r' % (
                    sid, f[2], got))
            return
        if got is not e0:
            s.res.bad('absorbed', '%r with source %d inserted became %r' % (
                e0, sid, got))
            return
        s.active.pop()
        s.hist.append('inserted-%s' % op['end'])
        self.check(s, 'after removing source %d' % sid)

    def leave(self, rep, cm, sid, e0):
        if cm is None:
            rep.removeSource(sid)
            if e0 is not None:
                raise e0
            return
        if e0 is None:
            cm.__exit__(None, None, None)
            return
        try:
            raise e0
        except CATCH as e:
            if cm.__exit__(type(e), e, e.__traceback__):
                return
            raise

    def check(self, s, when):
        if s.res.viol:
            return
        a = lw.snap_mbexp(s.inp.mbexp, ignore_detected=False)
        for k, band in enumerate(s.p['bands']):
            for n in ('mask', 'variance', 'psf', 'wcs', 'filt', 'bg'):
                d = core.diff(a[band][n], s.all[band][n], n)
                if d:
                    s.res.bad('other-data', 'band %s, %s: %s' % (
                        band, when, d))
            if k >= len(s.exps):
                want = s.all[band]['image']
            else:
                want = s.noise[k].copy()
                for i in s.active:
                    want[s.fp[i]] = s.orig[k][s.fp[i]]
            d = core.diff(a[band]['image'], want, 'image')
            if d:
                s.res.bad('pixels', 'band %s, %s (inserted: %s): %s' % (
                    band, when, s.active, d))
                return

    def shrink_lists(self, plan):
        return [('ops',)]

    def shrink_more(self, plan):
        for k, v in (('ctor', None), ('end', None), ('image', False),
                     ('end_fault', None),
                     ('use_with', True)):
            if plan.get(k) != v:
                yield dict(plan, **{k: v})
        for i, op in enumerate(plan['ops']):
            for k in ('fault', 'end'):
                if op.get(k) is not None:
                    yield base.with_path(plan, ('ops', i, k), None)
            if op.get('body'):
                yield base.with_path(plan, ('ops', i, 'body'), [])
                yield base.with_path(plan, ('ops',), plan['ops'][:i] +
                                     op['body'] + plan['ops'][i + 1:])
        yield from lw.shrink_lsst(plan)


class State(object):
    pass


class FailSite(object):
    """the n-th call of one stub operation fails while the block runs"""
    def __init__(self, s, site, n, kind):
        self.s, self.site, self.n, self.kind = s, site, n, kind
        self.st = dict(fired=False)

    def __enter__(self):
        self.was = self.s.ctx.on_point
        left = [self.n]

        def on_point(site, n, key):
            if site != self.site or self.st['fired']:
                return
            if left[0] == 0:
                self.st['fired'] = True
                raise simhook.make_exc(self.kind)
            left[0] -= 1
        self.s.ctx.on_point = on_point
        return self.st

    def __exit__(self, *a):
        self.s.ctx.on_point = self.was
        if self.st['fired']:
            self.s.fired.append('%s-%s' % (self.site, self.kind))
        return False


class FailSetup(Failing):
    """the n-th external call made while one band is set up fails"""
    def __init__(self, s, n, kind):
        super().__init__(s, 'setup', n, kind)

    def __enter__(self):
        import hooks
        ctx = self.s.ctx
        self.was = (ctx.keyed, ctx.positional, ctx.on_point,
                    len(ctx.fired_sites))
        left = [self.n]

        def on_call(site, n):
            if site.startswith('MultibandNoiseReplacer') or self.st['fired']:
                return
            if left[0] == 0:
                self.st['fired'] = True
                raise simhook.make_exc(self.kind)
            left[0] -= 1
        self.hk = hooks.interrupting(hooks.CallCtx(on_call=on_call))
        self.hk.__enter__()
        return self.st
