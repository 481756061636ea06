"""Combined measurements: exactly the shear bands, each by its own data"""
import copy

import numpy as np

import base
import combref
import core
import hooks
import mdrun
import simhook
import wl
from metadetect import fitting
from props import fitfaults as ff
from props import stampfit

EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError']
MODELS = ['wmom', 'ksigma', 'pgauss', 'am', 'gauss']


def gen_request(r, nband, nobj):
    m = r.choice(MODELS)
    s = dict(model=m, sym=r.random() < 0.6, coadd=r.random() < 0.5, reg=0,
             smooth=0, fwhm=r.choice([1.2, 1.2, 1.7]), target=None,
             faults=[], shear=None, rng=r.randrange(2**31),
             flags=r.choice([0, stampfit.REJECT,
                             stampfit.REJECT | 2**30, stampfit.OTHER]),
             objs=list(range(nobj)))
    if m in combref.FWHM and r.random() < 0.4:
        s['reg'] = r.choice([0.5, 0.8, 1.2])
    if m in ('ksigma', 'pgauss') and r.random() < 0.4:
        s['smooth'] = r.choice([0.4, 0.8])
    if r.random() < 0.8:
        s['shear'] = r.sample(range(nband), r.randint(1, nband))
    if r.random() < 0.3:
        r.shuffle(s['objs'])
        s['objs'] = s['objs'][:r.randint(1, nobj)]
    return s


def request(lst, s, count=False):
    """one request to the list fitters"""
    o = mdrun.Out()
    o.ctx = mdrun.faults_ctx(s['faults'])
    o.clock = core.SimClock()
    core.set_clock(o.clock)
    sub = [lst[i] for i in s['objs']]
    o.cctx = hooks.CallCtx(s['target']) if s['target'] or count else None

    def call():
        if s['model'] in combref.FWHM:
            f = combref.make_fitter(s)
            if s['reg']:
                f.kind = f.kind + '_reg%0.2f' % s['reg']
            return fitting.fit_mbobs_list_wavg(
                mbobs_list=sub, fitter=f, bmask_flags=s['flags'],
                shear_bands=s['shear'], fwhm_reg=s['reg'],
                symmetrize=s['sym'])
        return fitting.fit_mbobs_list_joint(
            mbobs_list=sub, fitter_name=s['model'],
            bmask_flags=s['flags'], rng=np.random.RandomState(s['rng']),
            shear_bands=s['shear'], symmetrize=s['sym'], coadd=s['coadd'])

    try:
        with simhook.active(o.ctx):
            if o.cctx is not None:
                with hooks.interrupting(o.cctx):
                    o.result = call()
            else:
                o.result = call()
    except (Exception, KeyboardInterrupt) as e:
        o.exc = e
    finally:
        core.set_clock(None)
    return o


def column(s):
    return s['model'] + ('_reg%0.2f' % s['reg'] if s['reg'] else '')


class Check(base.Check):
    id = 'C19'
    rule = ('a run is either a history of up to six requests to the list '
            'fitters over the same cutouts (other fitters, settings, bands, '
            'orders, failing fits, stopped requests, bands that are missing, '
            'unusable or inconsistent), or a complete run after up to two '
            'stopped or completed attempts; every row of every finished '
            'request is compared with a reference combination of the cutouts; '
            'non-trivial when several bands or a failure were involved')
    measure = ('distinct (fitter, bands and shear bands, settings, quirks of '
               'the object, failures, history) tuples of rows')
    n_quick = 700
    n_thorough = 24000

    def gen(self, seed):
        r = self.rng(seed)
        if r.random() < 0.4:
            return self.gen_full(r)
        d = stampfit.gen(r)
        for q in d['quirks']:     # lists of two are refused, see C04
            if q[2] == 'two':
                q[2] = r.choice(['half', 'other', 'pjac'])
        if r.random() < 0.5:
            for q in d['quirks']:
                q[2] = r.choice(['half', 'other', 'other', q[2]])
        for p in d['objs']:       # some bad pixels of no symmetry
            if r.random() < 0.5:
                p['masks'] = [dict(
                    row=r.randrange(25), col=r.randrange(25),
                    h=r.choice([0, 1, 3]), w=r.choice([0, 2, 4]),
                    band=r.randrange(d['nband']), kind='weight')
                    for _ in range(r.choice([1, 2]))]
            p['noise'] = [round(r.choice([0.004, 0.007, 0.012, 0.02])
                                * r.uniform(0.9, 1.1), 5)
                          for _ in range(d['nband'])]
        reqs = []
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            if reqs and r.random() < 0.4:
                # the same but for one setting
                s = copy.deepcopy(r.choice(reqs))
                t = gen_request(r, d['nband'], len(d['objs']))
                k = r.choice(['sym', 'coadd', 'shear', 'flags', 'fwhm',
                              'objs', 'reg', 'smooth', 'rng'])
                if k == 'reg' and s['model'] not in combref.FWHM:
                    k = 'sym'
                if k == 'smooth' and s['model'] not in ('ksigma', 'pgauss'):
                    k = 'fwhm'
                s[k] = t[k] if k not in ('reg', 'smooth') else \
                    r.choice([0, 0.6])
                if k in ('sym', 'coadd'):
                    s[k] = not s[k]
                s['faults'], s['target'] = [], None
            else:
                s = gen_request(r, d['nband'], len(d['objs']))
            if r.random() < 0.5:
                twin = request(stampfit.build(d), s, count=True)
                if twin.exc is None:
                    if r.random() < 0.6:
                        s['faults'] = ff.choose_faults(
                            r, ff.stamp_keys(twin.ctx, False), d['nband'])
                    else:
                        s['target'] = hooks.pick_target(
                            r, twin.cctx.counts, r.choice(EXC))
            reqs.append(s)
        return dict(list=d, reqs=reqs)

    def gen_full(self, r):
        w = mdrun.gen_workload(r)
        for s in w['cfg'].get('fitters', [w['cfg']]):
            m = s.get('model', 'wmom')
            if m not in combref.FWHM:
                continue
            wt = s.setdefault('weight', {})
            wt.setdefault('fwhm', 1.2)
            if r.random() < 0.3:
                wt['fwhm'] = r.choice([1.1, 1.9])
            if m in ('ksigma', 'pgauss') and r.random() < 0.5:
                wt['fwhm_smooth'] = r.choice([0.4, 0.8])
            if r.random() < 0.4:
                wt['fwhm_reg'] = r.choice([0.5, 0.8])
        plan = dict(w=w, faults=[], hist=[])
        if r.random() < 0.6:
            twin = mdrun.execute(w, count_calls=True)
            keys = ff.stamp_keys(twin.ctx, False)
            if r.random() < 0.5:
                plan['faults'] = ff.choose_faults(r, keys, w['mb']['nband'])
            for _ in range(r.choice([0, 0, 1, 2])):
                h = dict(faults=[], target=None)
                if r.random() < 0.5:
                    h['faults'] = ff.choose_faults(r, keys, w['mb']['nband'])
                if twin.exc is None and r.random() < 0.7:
                    h['target'] = hooks.pick_target(
                        r, twin.cctx.counts, r.choice(EXC))
                plan['hist'].append(h)
        return plan

    # ------------------------------------------------------------------
    def run(self, plan):
        res = core.Result()
        if 'w' in plan:
            self.run_full(res, plan)
        else:
            self.run_list(res, plan)
        return res

    def run_list(self, res, plan):
        d = plan['list']
        lst = stampfit.build(d)
        nb = d['nband']
        for i, s in enumerate(plan['reqs']):
            s = dict(s, objs=[k for k in s['objs'] if k < len(d['objs'])]
                     or [0])
            o = request(lst, s)
            res.took(o)
            if o.exc is not None:
                if s['target'] is None or not o.cctx.fired:
                    raise o.exc
                res.probes['stopped'] += 1
                res.log.append(type(o.exc).__name__)
                continue
            res.log.append(core.digest(o.result))
            fired = {}
            for site, n, k, kind in o.ctx.fired_sites:
                fired.setdefault(int(k[3][0]), set()).add(
                    k[2] if s['model'] in combref.FWHM else -1)
            shear = list(range(nb)) if s['shear'] is None else s['shear']
            pure = stampfit.build(d)
            if o.result is None or len(o.result) != len(s['objs']):
                res.bad('rows', 'request %d: %s rows for %d objects' % (
                    i, None if o.result is None else len(o.result),
                    len(s['objs'])))
                return
            for row, k in zip(o.result, s['objs']):
                bands = [ol[0] if len(ol) else None for ol in pure[k]]
                ref = combref.combine(bands, shear, s['flags'], s)
                failed = fired.get(k, ())
                if s['target'] and o.cctx.fired and not failed and (
                        row[column(s) + '_flags'] != 0):
                    # the failure was contained in this object
                    res.probes['contained stop'] += 1
                    failed = {-1}
                bad = combref.compare(row, column(s), ref, shear, nb,
                                      'request %d object %d' % (i, k),
                                      failed)
                if bad:
                    res.bad(*bad)
                    return
                q = [x[2] for x in d['quirks'] if x[0] == k]
                self.covered(res, s, nb, shear, ref, failed, q, i > 0)

    def covered(self, res, s, nb, shear, ref, failed, q, hist):
        res.sigs.add('%s/%d/%s/%s%s%s%s/%s/%s/%s' % (
            s['model'], nb, len(shear), s['sym'], s['coadd'],
            bool(s['reg']), bool(s['smooth']), ','.join(sorted(set(q))),
            len(failed), hist))
        if len(shear) > 1 or failed:
            res.nontrivial = True
        if ref['good'] and not failed:
            res.probes['complete row of %s' % s['model']] += 1
        elif failed:
            res.probes['row with a failed fit'] += 1
        else:
            res.probes['row that cannot be complete'] += 1

    def run_full(self, res, plan):
        w = plan['w']
        inp = mdrun.Inputs(w)
        md = 'new'

        def watch(ctx):
            ctx.full = True

        for h in plan['hist']:
            o = mdrun.execute(w, h['faults'], inp=inp, md=md,
                              target=h['target'])
            res.took(o)
            res.log.append(repr(type(o.exc).__name__))
            if getattr(o, 'md', None) is not None:
                md = o.md
        out = mdrun.execute(w, plan['faults'], inp=inp, md=md, on_ctx=watch)
        res.took(out)
        if out.exc is not None:
            raise out.exc
        res.log.append(core.digest(out.result))
        if out.result is None:
            return
        stamps = {}
        for tag, obs in out.ctx.notes.get('stampobs', []):
            stamps.setdefault(tag[1:4], []).append(obs)
        fired = {}
        for site, n, k, kind in out.ctx.fired_sites:
            if k is not None and len(k) == 5:
                fired.setdefault((k[1], k[3]), []).append((site, k[2]))
        nb = w['mb']['nband']
        flags = w['cfg'].get('bmask_flags', 0)
        for t in wl.mcal_types(w['cfg']):
            rows = out.result.get(t)
            if rows is None:
                continue
            combs = mdrun.row_comb(w, rows)
            for row, cs in zip(rows, combs):
                if not self.judge(res, w, t, row, cs, stamps, fired, nb,
                                  flags, bool(plan['hist'])):
                    return

    def judge(self, res, w, t, row, cs, stamps, fired, nb, flags, hist):
        pos = (round(float(row['sx_row']), 3), round(float(row['sx_col']), 3))
        lists = [stamps.get((t, b, pos), []) for b in range(nb)]
        got = fired.get((t, pos), [])
        if any(site == 'meds.get_obs' for site, b in got):
            return True
        n = max(len(x) for x in lists)
        if n == 0 or any(len(x) not in (0, n) for x in lists) or not cs:
            res.probes['row not attributed'] += 1
            return True
        for model, col, f in wl.fitter_list(w['cfg']):
            s = combref.settings(f)
            failed = set()
            for site, b in got:
                m = ff.SITE_MODEL.get(site)
                if m and s['model'] in m:
                    failed.add(b if s['model'] in combref.FWHM else -1)
            bad = None
            for c in cs:
                shear = mdrun.bands_of_comb(w, c)
                for j in range(n):
                    bands = [x[j] if x else None for x in lists]
                    ref = combref.combine(bands, shear, flags, s)
                    bad = combref.compare(
                        row, col, ref, shear, nb, '%s %s' % (t, pos), failed)
                    if not bad:
                        break
                if not bad:
                    break
            if bad:
                res.bad(*bad)
                return False
            self.covered(res, s, nb, shear, ref, failed, [], hist)
            res.probes['rows of complete runs'] += 1
        return True

    def shrink_lists(self, plan):
        if 'w' in plan:
            return [('hist',), ('faults',)]
        return [('reqs',), ('list', 'quirks')] + [
            ('reqs', i, 'faults') for i in range(len(plan['reqs']))]

    def shrink_more(self, plan):
        if 'w' in plan:
            yield from mdrun.shrink_workload(plan)
            return
        for i, s in enumerate(plan['reqs']):
            for k, v in (('target', None), ('shear', None), ('flags', 0),
                         ('sym', False), ('coadd', False), ('reg', 0),
                         ('smooth', 0)):
                if s[k] != v:
                    yield base.with_path(plan, ('reqs', i, k), v)
            if len(s['objs']) > 1:
                yield base.with_path(plan, ('reqs', i, 'objs'),
                                     s['objs'][:1])
