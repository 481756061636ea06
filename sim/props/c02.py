"""Concurrent callers get the results they would get alone"""
import copy

import base
import core
import hooks
import lw
import maskwl
import mdrun
import scen
import sched_sim
import wl


class Check(base.Check):
    id = 'C02'
    rule = ('a run is two or three threads, each with its own data and '
            'generator and mostly sharing one configuration, scheduled at '
            'every library source line, some stopped at a seeded call; '
            'non-trivial when at least one switch happened while both '
            'threads were active')
    measure = ('distinct schedules (digest of the recorded switches with the '
               'kinds of calls)')
    n_quick = 900
    n_thorough = 12000
    real = base.Check.real + ['threads (real, one at a time)']

    def gen(self, seed):
        r = self.rng(seed)
        nt = r.choice([2, 2, 2, 3])
        style = r.choice(['same', 'same', 'same', 'mixed', 'light'])
        sc = []
        if style == 'same':
            kind = r.choice(['run', 'run', 'run', 'run', 'mask', 'interp', 'fit', 'op',
                             'config', 'lsst', 'lsst', 'lop'])
            for t in range(nt):
                sc.append(scen.gen_scen(r, (kind,), small=True))
            if kind in ('interp', 'mask') and r.random() < 0.7:
                # images of one shape
                for s in sc[1:]:
                    if kind == 'interp':
                        s['c']['dims'] = list(sc[0]['c']['dims'])
                    else:
                        q = copy.deepcopy(sc[0]['w'])
                        q['mb']['seed'] += 1
                        d = q['mb']['dims']
                        q['mask'] = maskwl.gen_mask(r, d, d[0] == d[1])
                        if s['op'] == 'border':
                            for b in q['bands']:
                                b['nan'] = False
                        s['w'] = q
        elif style == 'light':
            for t in range(nt):
                sc.append(scen.gen_scen(r, ('mask', 'interp', 'config', 'op',
                                            'fit', 'lop')))
        else:
            for t in range(nt):
                sc.append(scen.gen_scen(r, small=True))
        plan = dict(sc=sc, share=None)
        runs = [i for i, s in enumerate(sc) if s['kind'] == 'run']
        if len(runs) > 1 and r.random() < 0.75:
            # the same configuration object for all the runs
            plan['share'] = runs
            first = sc[runs[0]]['w']
            for i in runs[1:]:
                w = sc[i]['w']
                w['cfg'] = copy.deepcopy(first['cfg'])
                if 'color' in w:
                    w['cfg']['metacal']['use_noise_image'] = True
                    first['cfg']['metacal']['use_noise_image'] = True
                m = w['cfg'].get('fitters', [w['cfg']])[0].get('model')
                if m in ('am', 'gauss'):
                    w.pop('color', None)
                if r.random() < 0.5:
                    first['cfg']['mask_region'] = 3
                    first['cfg']['ormask_region'] = 3
                if r.random() < 0.6:
                    # even the same number of bands and objects
                    c = copy.deepcopy(first)
                    c['mb']['seed'] += 1
                    c['rng'] += 1
                    # ... but other masks and band combinations
                    o = wl.gen_mbobs_params(
                        r, nband=c['mb']['nband'], dims=c['mb']['dims'],
                        masks=True)
                    c['mb']['masks'] = o['masks']
                    for m in c['mb']['masks']:
                        x = r.choice(c['mb']['objs'])
                        m['row'] = int(x['row'] + r.uniform(-4, 4))
                        m['col'] = int(x['col'] + r.uniform(-4, 4))
                    if r.random() < 0.7:
                        c['shear'], c['det'] = wl.gen_combs(
                            r, c['mb']['nband'])
                    sc[i]['w'] = c
            for i in runs:
                sc[i]['w']['cfg'] = copy.deepcopy(first['cfg'])
                m = first['cfg'].get('fitters', [first['cfg']])[0].get(
                    'model')
                if m in ('am', 'gauss'):
                    sc[i]['w'].pop('color', None)
        lsst = [i for i, s in enumerate(sc) if s['kind'] == 'lsst']
        if len(lsst) > 1 and not runs and r.random() < 0.75:
            plan['share'] = lsst
            first = sc[lsst[0]]['w']
            for i in lsst[1:]:
                # configurations go with a mode and, for scarlet, bands
                c = copy.deepcopy(first)
                c['exp']['seed'] += i
                c['rng'] += i
                if r.random() < 0.5 and not c['cfg'].get('deblender'):
                    c['exp']['objs'] = copy.deepcopy(
                        sc[i]['w']['exp']['objs'])
                    for o in c['exp']['objs']:
                        o['flux'] = (o['flux'] * 3)[:len(c['exp']['bands'])]
                        o['row'] = min(o['row'], c['exp']['dim'][0] - 4)
                        o['col'] = min(o['col'], c['exp']['dim'][1] - 4)
                sc[i]['w'] = c
        if r.random() < 0.35:
            i = r.randrange(nt)
            sc[i] = scen.with_interrupt(r, sc[i])
        meet = dict(kind='meet', wait=r.choice([200, 1000, 5000]),
                    mix=r.choice([10, 30, 80, 200]), p=r.choice([0.3, 1.0]),
                    seed=r.randrange(2**31))
        plan['sched'] = r.choice([
            meet, meet, meet, dict(kind='random', p=r.choice([0.001, 0.01, 0.05, 0.3]),
                 seed=r.randrange(2**31)),
            dict(kind='pct', d=r.choice([1, 2, 3, 5, 8]),
                 est=r.choice([500, 5000, 20000]), seed=r.randrange(2**31))])
        return plan

    def run(self, plan):
        res = core.Result()
        alone = []
        for s in plan['sc']:
            x = scen.Scen(s).run()
            alone.append(x.outcome())
            res.execs += 1
        shared = None
        if plan['share']:
            shared = copy.deepcopy(plan['sc'][plan['share'][0]]['w']['cfg'])
            before = core.snap_cfg(shared)
        ss = [scen.Scen(s, cfg=shared if plan['share'] and i in plan['share']
                        else None) for i, s in enumerate(plan['sc'])]
        g0 = core.snap_global_rng()
        s = sched_sim.Scheduler([x.run for x in ss], plan['sched'])
        with hooks.lines():
            s.run()
        plan['sched'] = dict(kind='list', list=s.recorded, first=s.first)
        res.plan = plan
        res.events += s.step
        res.probes['thread switches'] += s.switches
        res.log.append(core.digest(s.recorded))
        if s.overrun:
            raise RuntimeError('schedule too long')
        for i, x in enumerate(ss):
            if s.errors[i] is not None:
                raise s.errors[i]
            res.execs += 1
            t = plan['sc'][i].get('target')
            if t is not None:
                res.faults['interrupt:' + t['exc']] += 1
            for f in x.fired:
                res.faults[f[3]] += 1
            d = core.diff(x.outcome(), alone[i], 'thread %d' % i)
            if d:
                res.bad('thread-differs', '%s run together with %s: %s' % (
                    x.kind, [y.kind for j, y in enumerate(ss) if j != i], d))
        if shared is not None:
            d = core.diff(shared, before, 'config')
            if d:
                res.bad('config', 'the shared configuration changed: %s' % d)
        if core.diff(core.snap_global_rng(), g0):
            res.bad('global-rng', 'process-global random state was used')
        res.nontrivial = any(a >= 0 and b > 0 for a, b, c in s.recorded)
        res.sigs.add(core.digest([s.recorded, [x.kind for x in ss]]))
        res.log.append(core.digest([x.outcome()['result'] for x in ss]))
        return res

    def shrink_lists(self, plan):
        return [('sched', 'list')] if plan['sched']['kind'] == 'list' else []

    def shrink_more(self, plan):
        for i in range(len(plan['sc'])):
            if len(plan['sc']) > 2:
                n = copy.deepcopy(plan)
                del n['sc'][i]
                n['share'] = None if not n['share'] else [
                    j - (j > i) for j in n['share'] if j != i]
                if n['sched']['kind'] == 'list':
                    n['sched']['list'] = [
                        [a - (a > i), x, b - (b > i)] for a, x, b in
                        n['sched']['list'] if a != i and b != i]
                    n['sched']['first'] = 0
                yield n
        for i, s in enumerate(plan['sc']):
            if s.get('target'):
                n = copy.deepcopy(plan)
                del n['sc'][i]['target']
                yield n
            if s['kind'] == 'lsst' and not plan['share']:
                yield from lw.shrink_lsst(plan, ('sc', i, 'w'))
            if s['kind'] == 'run' and not plan['share']:
                yield from mdrun.shrink_workload(plan, ('sc', i, 'w'))
