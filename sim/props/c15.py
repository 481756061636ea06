"""Mask interpolation is all-or-nothing and touches only bad pixels"""
import numpy as np

import base
import core
import hooks
import maskwl as mw
import sched_sim
import simhook

EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError', 'ValueError']


def gen_case(r):
    d = [r.choice([1, 2, 6, 14, 20, 28]), r.choice([1, 3, 9, 17, 24])]
    style = r.choice(['random', 'random', 'blob', 'blob', 'dense', 'all',
                      'none', 'one-good', 'row-good', 'checker', 'edge',
                      'frac'])
    return dict(
        dims=d, style=style, seed=r.randrange(2**31),
        p=r.choice([0.01, 0.05, 0.2, 0.5]),
        maxfrac=r.choice([0.9, 0.9, 1.0, 1.0, 0.3]),
        buff=r.choice([4, 4, 1, 2, 6]), iso=r.choice([0, 1, 1, 2, 4, 7]),
        fill=r.random() < 0.6, weight=r.choice([None, 4.0, 4.0, 100.0]),
        norng=r.random() < 0.1, dtype=r.choice(['f8', 'f8', 'f4']),
        order=r.choice(['C', 'C', 'F']), view=r.random() < 0.2,
        rng=r.randrange(2**31), nan=r.random() < 0.3)


def build(c):
    rs = np.random.RandomState(c['seed'])
    d = tuple(c['dims'])
    im = rs.normal(size=d, scale=3.0)
    s = c['style']
    bad = np.zeros(d, bool)
    if s == 'random':
        bad = rs.uniform(size=d) < c['p']
    elif s == 'blob':
        for _ in range(2):
            r0, c0 = rs.randint(d[0]), rs.randint(d[1])
            h = rs.randint(1, 7)
            bad[max(0, r0 - h):r0 + h, max(0, c0 - h):c0 + h] = True
    elif s == 'dense':
        bad = rs.uniform(size=d) < 0.93
    elif s == 'all':
        bad[:] = True
    elif s == 'one-good':
        bad[:] = True
        for _ in range(rs.randint(1, 4)):
            bad[rs.randint(d[0]), rs.randint(d[1])] = False
    elif s == 'row-good':
        bad[:] = True
        bad[rs.randint(d[0])] = False
    elif s == 'checker':
        bad = (np.indices(d).sum(axis=0) % 2) == 0
    elif s == 'edge':
        bad[:, :max(1, d[1] // 3)] = True
    elif s == 'frac':
        n = int(c['maxfrac'] * bad.size)
        bad.ravel()[rs.permutation(bad.size)[:n + rs.randint(-1, 2)]] = True
    if c['nan']:
        im[bad] = np.nan
    im = np.array(im, dtype=c['dtype'], order=c['order'])
    if c['view']:
        big = np.zeros((d[0] * 2, d[1] * 2), dtype=im.dtype)
        big[::2, ::2] = im
        im = big[::2, ::2]
    return im, bad


class Call:
    def __init__(self, c, scramble=None):
        self.c = c
        self.im, self.bad = build(c)
        if scramble is not None:
            rs = np.random.RandomState(scramble)
            self.im[self.bad] = rs.choice(
                [1e30, -5.0, np.nan, np.inf, 0.0], size=self.bad.sum())
        self.rng = None if c['norng'] else np.random.RandomState(c['rng'])
        self.im0, self.bad0 = self.im.copy(), self.bad.copy()
        self.exc = self.out = None

    def go(self):
        from metadetect.interpolate import interpolate_image_at_mask
        c = self.c
        return interpolate_image_at_mask(
            image=self.im, bad_msk=self.bad, maxfrac=c['maxfrac'],
            buff=c['buff'], fill_isolated_with_noise=c['fill'],
            weight=c['weight'], rng=self.rng, iso_buff=c['iso'])

    def run(self):
        try:
            self.out = self.go()
        except (Exception, KeyboardInterrupt) as e:
            self.exc = e
        return self

    def unmodified(self):
        return core.same_array(self.im, self.im0) and core.same_array(
            self.bad, self.bad0)

    def state(self):
        return None if self.rng is None else core.snap_rng(self.rng)

    def outcome(self):
        return [self.out, None if self.exc is None else
                type(self.exc).__name__, self.state()]


class Check(base.Check):
    id = 'C15'
    rule = ('a run is one interpolation (degenerate masks included) judged '
            'against a reference model, repeated with other values in the '
            'bad pixels, then stopped at seeded calls and repeated, and in '
            'a quarter of the runs executed by two or three scheduled '
            'threads sharing the image; non-trivial when there are bad and '
            'good pixels')
    measure = ('distinct (mask style, fill, outcome, stopped at, threads, '
               'isolated pixels or not) tuples')
    n_quick = 3000
    n_thorough = 200000
    stubs = []
    real = ['metadetect.interpolate', 'numpy', 'scipy', 'numba']

    def gen(self, seed):
        r = self.rng(seed)
        c = gen_case(r)
        plan = dict(c=c, scramble=r.randrange(2**31), attempts=[],
                    threads=0)
        if r.random() < 0.5:
            cc = hooks.CallCtx()
            with hooks.interrupting(cc):
                Call(c).run()
            for _ in range(r.choice([1, 1, 2])):
                t = hooks.pick_target(r, cc.counts, r.choice(EXC))
                if t is not None:
                    plan['attempts'].append(t)
        if r.random() < 0.25:
            plan['threads'] = r.choice([2, 2, 3])
            plan['sched'] = r.choice([
                dict(kind='random', p=r.choice([0.05, 0.3, 0.7]),
                     seed=r.randrange(2**31)),
                dict(kind='pct', d=r.choice([1, 2, 3]), est=150,
                     seed=r.randrange(2**31))])
            plan['others'] = [gen_case(r) if r.random() < 0.5 else None
                              for _ in range(plan['threads'] - 1)]
        return plan

    def run(self, plan):
        res = core.Result()
        c = plan['c']
        g0 = core.snap_global_rng()
        a = Call(c).run()
        self.judge(res, a)
        b = Call(c, plan['scramble']).run()
        res.execs += 2
        d = core.diff(a.outcome(), b.outcome(), 'outcome')
        if d:
            res.bad('depends-on-bad', 'the result depends on the previous '
                    'values of bad pixels: %s' % d)
        sites = []
        k = Call(c)
        st0 = None if k.rng is None else k.rng.get_state()
        for t in plan['attempts']:
            cc = hooks.CallCtx(t)
            k.exc = k.out = None
            if k.rng is not None:
                k.rng.set_state(st0)
            with simhook.active(simhook.Ctx()), hooks.interrupting(cc):
                k.run()
            res.execs += 1
            res.events += cc.total
            if not k.unmodified():
                res.bad('modified', 'stopped at %s by %s: the input image or '
                        'mask was modified' % (t['site'], t['exc']))
            if cc.fired:
                res.faults['interrupt:' + t['exc']] += 1
                sites.append(t['site'])
                if k.exc is None and not (k.out is None):
                    d = core.diff(k.out, a.out)
                    if d:
                        res.bad('half-done', 'stopped at %s by %s it '
                                'returned another image: %s' % (
                                    t['site'], t['exc'], d))
                if k.exc is None and t['exc'] == 'KeyboardInterrupt':
                    res.bad('swallowed', 'interrupt at %s was swallowed'
                            % t['site'])
        if plan['attempts']:
            k.exc = k.out = None
            if k.rng is not None:
                k.rng.set_state(st0)
            k.run()
            d = core.diff(k.outcome(), a.outcome(), 'outcome')
            if d:
                res.bad('retry-differs', 'after calls stopped at %s: %s' % (
                    sites, d))
        if plan['threads']:
            self.threads(res, plan, a)
        if core.diff(core.snap_global_rng(), g0):
            res.bad('global-rng', 'process-global random state was used')
        res.nontrivial = bool(a.bad.any() and not a.bad.all())
        res.sigs.add('%s|%s|%s|%s|%s|%s' % (
            c['style'], c['fill'], self.kind(a), sites, plan['threads'],
            bool(mw.isolated(a.bad, c['iso']).any())))
        res.log.append(core.digest([a.outcome(), sites]))
        return res

    def kind(self, a):
        return ('raise:%s' % type(a.exc).__name__ if a.exc is not None else
                'none' if a.out is None else 'image')

    def expect(self, a):
        c, bad = a.c, a.bad0
        nbad, n = int(bad.sum()), bad.size
        if nbad / n > c['maxfrac'] or nbad == n:
            return 'none'
        if c['fill'] and (a.rng is None or c['weight'] is None):
            return 'raise'
        use = bad
        if c['fill']:
            use = bad & ~mw.isolated(bad, c['iso'])
        if not use.any():
            return 'image'
        return 'image' if mw.spans(mw.good_points(use, c['buff'])) else 'none'

    def judge(self, res, a):
        c, bad = a.c, a.bad0
        want, got = self.expect(a), self.kind(a).split(':')[0]
        if not bad.any() and got == 'raise' and c['fill']:
            got = want
        if want != got:
            res.bad('outcome', 'expected %s, got %s %r (%d of %d pixels bad, '
                    'maxfrac %s)' % (want, got, a.exc, bad.sum(), bad.size,
                                     c['maxfrac']))
            return
        if not a.unmodified():
            res.bad('modified', 'the input image or mask was modified')
        iso = c['fill'] and bool(mw.isolated(bad, c['iso']).any())
        if a.rng is not None and not (iso and bad.any()):
            if core.diff(a.state(), core.snap_rng(
                    np.random.RandomState(c['rng']))):
                res.bad('rng', 'random numbers were drawn although noise '
                        'filling was not requested or not needed')
        if a.out is None:
            return
        o = a.out
        if not isinstance(o, np.ndarray) or o.shape != a.im.shape:
            res.bad('shape', 'result has shape %s' % (getattr(
                o, 'shape', None),))
            return
        if np.shares_memory(o, a.im) or np.shares_memory(o, a.bad):
            res.bad('alias', 'the result shares memory with the input')
        if not np.array_equal(o[~bad], a.im0[~bad]):
            res.bad('good-changed', 'good pixels changed')
        if not np.all(np.isfinite(o[bad])):
            res.bad('not-finite', '%d bad pixels are not finite' % np.sum(
                ~np.isfinite(o[bad])))

    def threads(self, res, plan, alone):
        calls = [Call(plan['c'])]
        for oc in plan['others']:
            if oc is None:
                # the same image and mask objects, another generator
                k = Call(plan['c'])
                k.im, k.bad = calls[0].im, calls[0].bad
            else:
                k = Call(oc)
            calls.append(k)
        refs = [Call(k.c).run() for k in calls]
        spec = plan['sched']
        s = sched_sim.Scheduler([k.run for k in calls], spec)
        with hooks.lines():
            s.run()
        plan['sched'] = dict(kind='list', list=s.recorded, first=s.first)
        res.plan = plan
        res.events += s.step
        res.probes['thread switches'] += s.switches
        res.log.append(core.digest(s.recorded))
        for i, (k, ref) in enumerate(zip(calls, refs)):
            if s.errors[i] is not None:
                raise s.errors[i]
            d = core.diff(k.outcome(), ref.outcome(), 'thread %d' % i)
            if d:
                res.bad('thread-differs', 'concurrent call differs from the '
                        'call alone: %s' % d)
            if not k.unmodified():
                res.bad('modified', 'thread %d: input modified' % i)

    def shrink_lists(self, plan):
        lists = [('attempts',)]
        if plan.get('sched', {}).get('kind') == 'list':
            lists.append(('sched', 'list'))
        return lists

    def shrink_more(self, plan):
        if plan['threads']:
            yield base.with_path(plan, ('threads',), 0)
        if plan['threads'] > 2 and plan['sched']['kind'] != 'list':
            n = base.with_path(plan, ('threads',), 2)
            n['others'] = n['others'][:1]
            yield n
        for k, v in (('nan', False), ('view', False), ('order', 'C'),
                     ('dtype', 'f8')):
            if plan['c'][k] != v:
                yield base.with_path(plan, ('c', k), v)
