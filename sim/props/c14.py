"""Configuration defaults survive every history of use"""
import copy

import base
import core
import hooks
import sched_sim
import simhook

EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError']
SUB = ['detect', 'metacal', 'pgauss']


def defaults_now():
    from metadetect.lsst import defaults
    return {k: core.snap_cfg(getattr(defaults, k)) for k in sorted(
        vars(defaults)) if k.startswith('DEFAULT_')}


def gen_override(r):
    c = {}
    items = [
        ('subtract_sky', lambda: r.choice([True, False])),
        ('deblender', lambda: r.choice(['sdss', 'scarlet'])),
        ('detect', lambda: r.choice([{}, {'thresh': r.choice([3.0, 7.5])}])),
        ('metacal', lambda: r.choice([
            {}, {'reconv_type': 'gauss'}, {'types': ['noshear', '1p']},
            {'reconv_type': 'fitgauss', 'step': 0.02}])),
        ('pgauss', lambda: r.choice([{}, {'fwhm': r.choice([1.2, 1.8])}])),
        ('stamp_size', lambda: r.choice([31, 49, 65])),
        ('shear_bands', lambda: r.choice([None, ['r'], ['i', 'r']])),
    ]
    r.shuffle(items)
    for k, f in items:
        if r.random() < 0.4:
            c[k] = f()
    x = r.random()
    if x < 0.12:
        c[r.choice(['weights', 'stampsize', 'Detect'])] = 3
    elif x < 0.2:
        c.setdefault('detect', {})
        c['detect'] = dict(c['detect'], **{r.choice(['fwhm', 'nsig']): 1})
    elif x < 0.28:
        c.setdefault('pgauss', {})
        c['pgauss'] = dict(c['pgauss'], **{r.choice(['thresh', 'T']): 1})
    if r.random() < 0.3:
        # the caller reads overrides in another key order
        ks = list(c)
        r.shuffle(ks)
        c = {k: c[k] for k in ks}
    return c


def model(over, dflt):
    """reference: None when the overrides must be rejected"""
    new = copy.deepcopy(dflt)
    for k, v in (over or {}).items():
        if k not in dflt:
            return None
        if k in SUB:
            new[k].update(copy.deepcopy(v))
        else:
            new[k] = copy.deepcopy(v)
    if set(new['pgauss']) != {'fwhm'} or set(new['detect']) != {'thresh'}:
        return None
    return new


class Thread:
    """one caller: runs its history of operations"""
    def __init__(self, ops, dflt, shared):
        self.ops = ops
        self.dflt = dflt
        self.bad = []
        self.built = []          # [config object, expected value, override]
        self.shared = shared
        self.done = []
        self.fired = []

    def verify(self, k, what):
        for j, (obj, want, ov) in enumerate(self.built):
            d = core.diff(obj, want, 'config %d' % j)
            if d:
                self.bad.append(('config-changed', 'op %d (%s) changed an '
                                 'earlier configuration: %s' % (k, what, d)))
                self.built[j][1] = core.snap_cfg(obj)

    def run(self):
        from metadetect.lsst.configs import get_config
        for k, op in enumerate(self.ops):
            kind = op['op']
            if kind == 'build':
                ov = self.shared[op['shared']] if 'shared' in op else (
                    copy.deepcopy(op['over']))
                before = core.snap_cfg(ov)
                want = model(ov, self.dflt)
                cc = hooks.CallCtx(op.get('target'))
                new, exc = None, None
                try:
                    if op.get('target'):
                        with hooks.interrupting(cc):
                            new = get_config(ov)
                    elif ov is None and op.get('noarg'):
                        new = get_config()
                    else:
                        new = get_config(ov)
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
                if core.diff(ov, before):
                    self.bad.append(('override-changed', 'op %d: the '
                                     'overrides were modified: %s' % (
                                         k, core.diff(ov, before))))
                if cc.fired:
                    self.fired.append(op['target']['exc'])
                    self.done.append('stopped')
                    if exc is None:
                        self.bad.append(('swallowed', 'op %d: %s at %s was '
                                         'swallowed' % (
                                             k, op['target']['exc'],
                                             op['target']['site'])))
                    continue
                if want is None:
                    self.done.append('reject')
                    if exc is None:
                        self.bad.append(('not-rejected', 'op %d: %r was not '
                                         'rejected' % (k, ov)))
                    elif not isinstance(exc, ValueError):
                        raise exc
                    continue
                if exc is not None:
                    self.bad.append(('rejected', 'op %d: valid overrides %r '
                                     'failed with %r' % (k, ov, exc)))
                    continue
                self.done.append('built')
                d = core.diff(new, want, 'config')
                if d:
                    self.bad.append(('wrong-config', 'op %d: built from %r: '
                                     '%s' % (k, ov, d)))
                self.built.append([new, core.snap_cfg(new),
                                   ov if 'shared' not in op else None])
            elif kind == 'set' and self.built:
                rec = self.built[op['which'] % len(self.built)]
                tgt = rec[0]
                exp = rec[1]
                for p in op['path'][:-1]:
                    if isinstance(tgt.get(p), dict):
                        tgt, exp = tgt[p], exp[p]
                key = op['path'][-1]
                if op['del']:
                    tgt.pop(key, None)
                    exp.pop(key, None)
                else:
                    tgt[key] = copy.deepcopy(op['value'])
                    exp[key] = copy.deepcopy(op['value'])
                self.done.append('set')
            elif kind == 'setover' and self.built:
                # the caller goes on editing its own override dictionary
                ov = self.built[op['which'] % len(self.built)][2]
                if isinstance(ov, dict):
                    for p in SUB:
                        if p in ov:
                            ov[p]['verif'] = 1
                            ov[p].pop('thresh', None)
                    ov['stamp_size'] = -1
                self.done.append('setover')
            self.verify(k, kind)


class Check(base.Check):
    id = 'C14'
    rule = ('a run is a history of up to 12 operations per thread (build '
            'with overrides, rejected and interrupted builds, edits of built '
            'configurations and of override dictionaries) in one to three '
            'scheduled threads; non-trivial when something was edited, '
            'rejected or stopped before a build')
    measure = 'distinct (operation outcome sequence, threads) tuples'
    n_quick = 4000
    n_thorough = 300000
    stubs = []
    real = ['metadetect.lsst.configs', 'metadetect.lsst.defaults']

    def __init__(self):
        self.dflt0 = None

    def defaults(self):
        if self.dflt0 is None:
            import metadetect.lsst.configs   # noqa
            self.dflt0 = defaults_now()
        return self.dflt0

    def warm(self):
        self.defaults()

    def gen(self, seed):
        r = self.rng(seed)
        nt = r.choice([1, 1, 2, 3])
        shared = [gen_override(r) for _ in range(2)]
        ops = []
        counts = None
        for t in range(nt):
            lst = []
            for _ in range(r.randint(2, 12)):
                x = r.random()
                if x < 0.55:
                    op = dict(op='build')
                    if r.random() < 0.3:
                        op['shared'] = r.randrange(2)
                    elif r.random() < 0.15:
                        op['over'] = None
                        op['noarg'] = r.random() < 0.5
                    else:
                        op['over'] = gen_override(r)
                    if r.random() < 0.2:
                        if counts is None:
                            from metadetect.lsst.configs import get_config
                            cc = hooks.CallCtx()
                            with hooks.interrupting(cc):
                                get_config({'detect': {'thresh': 3.0},
                                            'metacal': {'step': 0.02},
                                            'pgauss': {}, 'stamp_size': 3})
                            counts = cc.counts
                        op['target'] = hooks.pick_target(
                            r, counts, r.choice(EXC))
                elif x < 0.9:
                    sub = r.choice([[], [r.choice(SUB)]])
                    op = dict(op='set', which=r.randrange(8), path=sub + [
                        r.choice(['thresh', 'fwhm', 'reconv_type', 'verif',
                                  'stamp_size', 'types', 'deblender',
                                  'detect', 'pgauss'])],
                        value=r.choice([1, 'x', [1], {'a': 1}, None]))
                    op['del'] = r.random() < 0.3
                else:
                    op = dict(op='setover', which=r.randrange(8))
                lst.append(op)
            ops.append(lst)
        plan = dict(ops=ops, shared=shared)
        if nt > 1:
            plan['sched'] = r.choice([
                dict(kind='random', p=r.choice([0.1, 0.4]),
                     seed=r.randrange(2**31)),
                dict(kind='pct', d=r.choice([1, 2, 3]), est=300,
                     seed=r.randrange(2**31))])
        return plan

    def run(self, plan):
        res = core.Result()
        dflt = self.defaults()
        base_dflt = copy.deepcopy(dflt['DEFAULT_MDET_CONFIG'])
        shared = copy.deepcopy(plan['shared'])
        ths = [Thread(copy.deepcopy(o), base_dflt, shared)
               for o in plan['ops']]
        with simhook.active(simhook.Ctx()):
            if len(ths) == 1:
                ths[0].run()
            else:
                s = sched_sim.Scheduler([t.run for t in ths], plan['sched'])
                with hooks.lines():
                    s.run()
                plan['sched'] = dict(kind='list', list=s.recorded,
                                     first=s.first)
                res.plan = plan
                res.events += s.step
                res.probes['thread switches'] += s.switches
                res.log.append(core.digest(s.recorded))
                for e in s.errors:
                    if e is not None:
                        raise e
        for i, t in enumerate(ths):
            for code, msg in t.bad:
                res.bad(code, 'thread %d: %s' % (i, msg))
            for f in t.fired:
                res.faults['interrupt:' + f] += 1
            t.verify(len(t.ops), 'another thread')
            res.execs += t.done.count('built')
            res.events += len(t.done)
        d = core.diff(shared, plan['shared'], 'shared override')
        if d:
            res.bad('override-changed', d)
        d = core.diff(defaults_now(), dflt, 'defaults')
        if d:
            res.bad('defaults-changed', d)
            self.restore(dflt)
        res.nontrivial = any(x in t.done for t in ths for x in
                             ('set', 'reject', 'stopped', 'setover'))
        res.sigs.add(repr([t.done for t in ths]))
        res.log.append(core.digest([t.done for t in ths]))
        return res

    def restore(self, dflt):
        """runs are independent: undo the damage for the next one"""
        from metadetect.lsst import defaults
        for k, v in dflt.items():
            cur = getattr(defaults, k)
            if isinstance(cur, dict):
                cur.clear()
                cur.update(copy.deepcopy(v))

    def shrink_lists(self, plan):
        lists = [('ops', i) for i in range(len(plan['ops']))]
        if plan.get('sched', {}).get('kind') == 'list':
            lists.append(('sched', 'list'))
        return lists

    def shrink_more(self, plan):
        for i in range(len(plan['ops'])):
            if len(plan['ops']) > 1:
                n = copy.deepcopy(plan)
                del n['ops'][i]
                if len(n['ops']) == 1:
                    n.pop('sched', None)
                elif n['sched']['kind'] == 'list':
                    n['sched']['list'] = [
                        [a - (a > i), s, b - (b > i)] for a, s, b in
                        n['sched']['list'] if a != i and b != i]
                    n['sched']['first'] = 0
                yield n
        for i, ops in enumerate(plan['ops']):
            for j, op in enumerate(ops):
                ov = op.get('over')
                if ov:
                    for k in ov:
                        n = copy.deepcopy(plan)
                        del n['ops'][i][j]['over'][k]
                        yield n
