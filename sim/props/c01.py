"""Same inputs, configuration and generator: always the same result"""
import copy
import json
import os
import random
import subprocess
import sys

import numpy as np

import base
import core
import maskwl
import mdrun
import runner
import scen
import wl

CLOCKS = [[0.001], [0.0], [-1000.0, 3600.0], [0.5, 1e9], [86400.0 * 3.7],
          [13.0, 0.0, -1e6]]


def variant(r, s):
    """a related call: most of what identifies the target is the same"""
    n = copy.deepcopy(s)
    n.pop('faults', None)
    k = s['kind']
    if k == 'run':
        w = n['w']
        for _ in range(r.choice([1, 1, 2])):
            m = r.choice(['cfg', 'data', 'noise', 'flux', 'rng', 'psf',
                          'combs', 'types', 'step', 'weight', 'nodet',
                          'mfrac', 'box', 'sx', 'mask', 'jac', 'color',
                          'dims', 'dims'])
            c = w['cfg']
            fl = c.get('fitters', [c])
            if m == 'cfg':
                w['cfg'] = wl.gen_config_params(
                    r, joint='color' not in w, color='color' in w)
                if 'color' in w:
                    w['cfg']['metacal']['use_noise_image'] = True
            elif m == 'data':
                w['mb']['seed'] += 1
            elif m == 'noise':
                w['mb']['noise'] = [2.0 * x for x in w['mb']['noise']]
            elif m == 'flux':
                for o in w['mb']['objs']:
                    o['flux'] = [1.5 * f for f in o['flux']]
            elif m == 'rng':
                w['rng'] += 1
            elif m == 'psf':
                w['mb']['psf_s2'] += 0.4
            elif m == 'combs':
                w['shear'], w['det'] = wl.gen_combs(r, w['mb']['nband'])
            elif m == 'types':
                c['metacal']['types'] = r.choice([
                    ['1p'], ['noshear'], ['2m', 'noshear']])
            elif m == 'step':
                c['metacal']['step'] = r.choice([0.01, 0.03])
            elif m == 'weight':
                for f in fl:
                    if f.get('weight', {}).get('fwhm'):
                        f['weight']['fwhm'] += 0.2
                    f['symmetrize'] = not f.get('symmetrize', False)
            elif m == 'nodet':
                c['nodet_flags'] = c.get('nodet_flags', 0) ^ 2**4
                c['bmask_flags'] = c.get('bmask_flags', 0) ^ wl.EDGEBIT
            elif m == 'mfrac':
                c['mfrac_fwhm'] = r.choice([1.0, 3.0])
            elif m == 'box':
                c['meds']['min_box_size'] = r.choice([16, 24, 32])
                c['meds']['weight_type'] = r.choice(['weight', 'uberseg'])
            elif m == 'sx':
                c['sx'] = dict(detect_thresh=r.choice([1.0, 3.0]),
                               deblend_cont=0.005, minarea=4,
                               filter_type='conv', filter_kernel=wl.KERNEL)
            elif m == 'mask':
                c['mask_region'] = r.choice([1, 3, 5])
                c['ormask_region'] = r.choice([1, 3, 5])
            elif m == 'jac':
                w['mb']['jac'] = 'rot' if w['mb']['jac'] == 'diag' \
                    else 'diag'
            elif m == 'color' and w.get('color'):
                w['color']['cut'] += 1
            elif m == 'dims' and w['mb'].get('jcen') and r.random() < 0.5:
                # other dimensions, the same reference position
                d, jc = w['mb']['dims'], w['mb']['jcen']
                k = r.choice([2, 10])
                w['mb']['dims'] = [d[0], d[1] + k]
                w['mb']['jcen'] = [jc[0], jc[1] - k / 2]
            elif m == 'dims':
                d = w['mb']['dims']
                w['mb']['dims'] = [x + r.choice([0, 3, 10]) for x in d] \
                    if r.random() < 0.7 else d[::-1]
    elif k in ('lsst', 'lop'):
        w = n['w']
        for _ in range(r.choice([1, 1, 2])):
            m = r.choice(['data', 'data', 'noise', 'flux', 'rng', 'psf',
                          'types', 'shear', 'thresh', 'fwhm', 'stamp',
                          'reconv', 'mode', 'mfrac', 'orig', 'dims', 'xy0',
                          'rot'])
            e, c = w['exp'], w['cfg']
            mc = c.get('metacal', {})
            if m == 'data':
                e['seed'] += 1
            elif m == 'noise':
                e['noise'] = [2.0 * x for x in e['noise']]
            elif m == 'flux':
                for o in e['objs']:
                    o['flux'] = [1.5 * f for f in o['flux']]
            elif m == 'rng':
                w['rng'] += 1
            elif m == 'psf':
                e['psf_s2'] += 0.4
            elif m == 'types' and mc:
                mc['types'] = r.choice([['1p'], ['noshear'],
                                        ['2m', 'noshear']])
            elif m == 'reconv' and mc:
                mc['reconv_type'] = r.choice(['gauss', 'fitgauss'])
            elif m == 'shear':
                c['shear_bands'] = [r.choice(e['bands'])]
            elif m == 'thresh':
                c['detect'] = {'thresh': r.choice([3.0, 6.0, 10.0])}
            elif m == 'fwhm':
                c['pgauss'] = {'fwhm': r.choice([1.5, 2.2])}
            elif m == 'stamp':
                c['stamp_size'] = r.choice([13, 17, 25])
            elif m == 'mode' and k == 'lsst':
                if w['mode'] == 'metadetect' and not c.get('deblender'):
                    w['mode'] = 'photometry'
                    c.pop('metacal', None)
                    w['psf_stats'] = False
            elif m == 'mfrac':
                w['no_mfrac'] = not w['no_mfrac']
            elif m == 'orig':
                w['no_ormasks'] = not w['no_ormasks']
            elif m == 'dims':
                e['dim'] = [x + r.choice([0, 2, 5]) for x in e['dim']]
            elif m == 'xy0':
                e['xy0'] = [x + r.choice([0, 2, 5]) for x in e['xy0']]
            elif m == 'rot':
                e['rot'] += 0.4
        if k == 'lop' and r.random() < 0.5:
            n['opseed'] += 1
    elif k in ('mask', 'fit', 'op'):
        m = r.choice(['data', 'data', 'noise', 'rng', 'other'] + (
            ['other'] * 5 if k == 'mask' else []))
        if m == 'data':
            n['w']['mb']['seed'] += 1
        elif m == 'noise':
            n['w']['mb']['noise'] = [2.0 * x for x in n['w']['mb']['noise']]
        elif m == 'rng':
            n['w']['rng'] = n['w'].get('rng', 0) + 1
            if k == 'mask':
                n['w']['mask']['rng'] += 1
        elif k == 'mask' and r.random() < 0.8:
            # the same places, other options
            q = n['w']['mask']
            o = maskwl.gen_mask(r, n['w']['mb']['dims'], False)
            for c in r.sample(['method', 'expand', 'ap_rad', 'iso_buff',
                               'dt', 'rad', 'sym'], 2):
                if c == 'rad':
                    q['holes'] = [[x, y, d + 1.25] for x, y, d in q['holes']]
                elif c == 'sym':
                    d0, d1 = n['w']['mb']['dims']
                    q['sym'] = d0 == d1 and not q['sym']
                else:
                    q[c] = o[c]
        elif k == 'mask':
            h = n['w']['mask']['holes']
            n['w']['mask']['holes'] = h[1:] or [[4.0, 5.0, 3.0]]
            n['w']['mask']['ap_rad'] += 0.7
        elif k == 'fit':
            n['fitter'] = r.choice(['wmom', 'ksigma', 'pgauss', 'am',
                                    'gauss'])
            n['symm'] = not n['symm']
        elif k == 'op':
            n['opseed'] += 1
    elif k == 'interp':
        m = r.choice(['seed', 'rng', 'buff', 'other'])
        c = n['c']
        if m == 'seed':
            c['seed'] += 1
        elif m == 'rng':
            c['rng'] += 1
        elif m == 'buff':
            c['buff'] = r.choice([1, 2, 4, 6])
            c['iso'] = r.choice([0, 1, 4])
        else:
            c['fill'] = not c['fill']
            c['weight'] = r.choice([None, 4.0, 25.0])
    else:
        n = scen.gen_scen(r, (k,))
    return n


def overwrite(inp, other):
    """put the content of other's inputs into inp's own arrays"""
    for mbA, mbB in mbs(inp, other):
        for la, lb in zip(mbA, mbB):
            for a, b in zip(la, lb):
                copy_obs(a, b)
                copy_obs(a.psf, b.psf)
    inp.cfg.clear()
    inp.cfg.update(copy.deepcopy(other.cfg))
    inp.rng.set_state(other.rng.get_state())
    inp.w = other.w
    for k in ('shear', 'det', 'color_func'):
        setattr(inp, k, getattr(other, k))


def mbs(inp, other):
    yield inp.mbobs, other.mbobs
    if inp.color_mbobs is not None:
        for k in inp.color_mbobs:
            if inp.color_mbobs[k] is not inp.mbobs:
                yield inp.color_mbobs[k], other.color_mbobs[k]


def copy_obs(a, b):
    with a.writeable():
        a.image[:, :] = b.image
        a.weight[:, :] = b.weight
        for n in ('bmask', 'ormask', 'noise', 'mfrac'):
            if getattr(b, '_' + n, None) is not None:
                getattr(a, n)[:, :] = getattr(b, n)


class Check(base.Check):
    id = 'C01'
    rule = ('a run is a call executed first in a clean way and again after '
            'a history of related, failed and interrupted calls, with other '
            'global random states and another clock, partly on reused or '
            'overwritten input objects, and in some runs in a fresh '
            'interpreter with another hash seed; non-trivial when the '
            'history is not empty or the interpreter is fresh')
    measure = ('distinct (kind of call, kinds of history items with their '
               'outcome, clock, input reuse, fresh interpreter) tuples')
    n_quick = 420
    n_thorough = 12000
    p_fresh = 0.06
    isolate = True

    def warm(self):
        """import the dependencies before the processes of the runs are
        forked; nothing of the library is called here"""
        import importlib
        super().warm()
        for m in ('props.c08', 'props.c15', 'props.stampfit', 'props.c16',
                  'props.c14', 'lw', 'sxdes', 'sep', 'galsim', 'ngmix',
                  'lsst.afw.math', 'metadetect.lsst.metadetect',
                  'metadetect.lsst.skysub', 'metadetect.lsst.configs',
                  'metadetect.lsst.photometry', 'scipy.integrate',
                  'scipy.stats', 'scipy.ndimage',
                  'metadetect.lsst.vis', 'metadetect.procflags',
                  'metadetect.prepsf', 'matplotlib.pyplot', 'PIL.Image'):
            try:
                importlib.import_module(m)
            except Exception:
                pass

    def gen(self, seed):
        r = self.rng(seed)
        s = scen.gen_scen(r)
        plan = dict(s=s, hist=[], reuse=None, clock=r.choice(CLOCKS),
                    clock2=r.choice(CLOCKS), gseed=[
                        r.randrange(2**31), r.randrange(2**31)],
                    fresh=None)
        cheap = s['kind'] in ('mask', 'interp', 'fit', 'op', 'config')
        for _ in range(r.choice([2, 4, 7] if cheap else [1, 1, 2, 3])):
            x = r.random()
            h = variant(r, s) if x < 0.75 else scen.gen_scen(
                r, small=True) if x < 0.9 else copy.deepcopy(s)
            if r.random() < 0.3:
                h = scen.with_interrupt(r, h)
            elif h['kind'] == 'run' and r.random() < 0.3:
                h['faults'] = [[r.choice(['metacal', 'fit.am']), None, 0,
                                r.choice(['SimError', 'MemoryError',
                                          'ValueError'])]]
            plan['hist'].append(h)
        if s['kind'] == 'run':
            x = r.random()
            if x < 0.25:
                # the same observations with another configuration before
                h = copy.deepcopy(s)
                h.pop('faults', None)
                h['w'] = variant_cfg(r, s['w'])
                plan['reuse'] = dict(kind='objects', h=h)
            elif x < 0.5:
                h = copy.deepcopy(s)
                h.pop('faults', None)
                h['w']['mb']['seed'] += 1
                h['w']['mb']['psf_s2'] += r.choice([0, 0.5])
                for o in h['w']['mb']['objs']:
                    o['row'] = round(o['row'] * 0.97, 3)
                plan['reuse'] = dict(kind='arrays', h=h)
            elif x < 0.6:
                plan['reuse'] = dict(kind='config', h=variant(r, dict(
                    s, w=dict(s['w']))))
                plan['reuse']['h']['w']['cfg'] = copy.deepcopy(s['w']['cfg'])
                if bool(plan['reuse']['h']['w'].get('color')) != bool(
                        s['w'].get('color')):
                    plan['reuse'] = None
            if plan['reuse'] and r.random() < 0.3:
                plan['reuse']['h'] = scen.with_interrupt(
                    r, plan['reuse']['h'])
        elif s['kind'] == 'lsst' and not s['w'].get('sky'):
            x = r.random()
            h = variant(r, s)
            if x < 0.35:
                # the same exposures with another configuration before
                h['w']['exp'] = copy.deepcopy(s['w']['exp'])
                for k in ('no_mfrac', 'no_ormasks'):
                    h['w'][k] = s['w'][k]
                plan['reuse'] = dict(kind='objects', h=h)
            elif x < 0.5 and h['w']['mode'] == s['w']['mode']:
                h['w']['cfg'] = copy.deepcopy(s['w']['cfg'])
                plan['reuse'] = dict(kind='config', h=h)
            if plan['reuse'] and r.random() < 0.3:
                plan['reuse']['h'] = scen.with_interrupt(
                    r, plan['reuse']['h'])
        if r.random() < self.p_fresh:
            plan['fresh'] = r.randrange(1, 2**31)
            for _ in range(6):
                plan['hist'].append(scen.gen_scen(r, small=True))
        return plan

    def seeded(self, gseed):
        np.random.seed(gseed % 2**32)
        random.seed(gseed)
        for _ in range(gseed % 311):
            np.random.uniform()
            random.random()
        return core.snap_global_rng()

    def run(self, plan):
        # the first call is made in a process in which nothing ran before,
        # and leaves nothing behind for the calls that follow
        res, ref, before, kind = runner.got(runner.forked(
            lambda: self.clean(plan), 300))
        tags = []
        g = self.seeded(plan['gseed'][1])
        want = [digests(ref)]
        for h in plan['hist']:
            x = scen.Scen(h).run()
            res.execs += 1
            if not h.get('target'):
                want.append(digests(x.outcome()))
            tags.append('%s:%s' % (x.kind, type(x.exc).__name__))
            self.count(res, h, x)
        self.check_global(res, g, 'history')
        s = dict(plan['s'], clock=plan['clock'])
        s2 = dict(plan['s'], clock=plan['clock2'])
        inp = cfg = None
        ru = plan['reuse']
        if ru:
            tags.append('reuse-' + ru['kind'])
            x = scen.Scen(ru['h'])
            tgt = scen.Scen(s).inp
            if ru['kind'] == 'objects' and kind == 'lsst':
                y = x.inp
                for k in ('mbexp', 'noise_mbexp', 'mfrac_mbexp', 'ormasks'):
                    setattr(y, k, getattr(tgt, k))
                inp = tgt
            elif ru['kind'] == 'objects':
                y = mdrun.Inputs(ru['h']['w'])
                y.mbobs, y.color_mbobs = tgt.mbobs, tgt.color_mbobs
                x.inp, x.rng = y, y.rng
                inp = tgt
            elif ru['kind'] == 'arrays':
                inp = x.inp
            else:
                cfg = x.inp.cfg
            x.run()
            res.execs += 1
            self.count(res, ru['h'], x)
            if ru['kind'] == 'arrays':
                overwrite(inp, tgt)
        b = scen.Scen(s2, cfg=cfg, inp=inp)
        if b.spec['kind'] in ('run', 'lsst'):
            b.spec['w'] = dict(b.spec['w'], clock=plan['clock2'])
        if ru:
            d = core.diff(drop(getattr(b, 'after_' + b.kind)()),
                          drop(before), 'inputs')
            if d:
                raise RuntimeError('reused inputs are not equal: ' + d)
        b.run()
        res.execs += 1
        self.check_global(res, g, 'repeated run')
        d = core.diff(drop2(b.outcome()), drop2(ref), kind)
        if d:
            res.bad('differs', 'the same call gave another outcome after '
                    '%s, with clock %s instead of %s: %s' % (
                        tags, plan['clock2'], plan['clock'], d))
        if plan['fresh']:
            self.fresh(res, plan, want)
        res.probes['reuse:%s' % (ru and ru['kind'])] += 1
        res.nontrivial = bool(plan['hist'] or plan['fresh'])
        res.sigs.add('%s|%s|%s|%s' % (kind, tags, plan['clock2'],
                                      bool(plan['fresh'])))
        self.account(res, b)
        res.log.append(core.digest(ref['result']))
        return res

    def clean(self, plan):
        res = core.Result()
        g0 = self.seeded(plan['gseed'][0])
        a = scen.Scen(dict(plan['s'], clock=plan['clock']))
        before = getattr(a, 'after_' + a.kind)()
        a.run()
        ref = a.outcome()
        res.execs += 1
        self.check_global(res, g0, 'clean run')
        self.account(res, a)
        return res, ref, before, a.kind

    def account(self, res, x):
        o = getattr(x, 'out', None)
        c = o.ctx if o is not None else getattr(x, 'ctx', None)
        res.absorb(c)
        if o is not None:
            res.simtime += o.clock.covered

    def count(self, res, h, x):
        t = h.get('target')
        if t is not None and x.exc is not None:
            res.faults['interrupt:' + t['exc']] += 1
        for f in x.fired:
            res.faults[f[3]] += 1

    def check_global(self, res, g, what):
        if core.diff(core.snap_global_rng(), g):
            res.bad('global-rng', 'the %s used process-global random state'
                    % what)

    def fresh(self, res, plan, want):
        res.probes['fresh interpreter'] += 1
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(plan['fresh'])
        todo = [plan['s']] + [h for h in plan['hist']
                              if not h.get('target')]
        p = subprocess.run(
            [sys.executable, '-m', 'fresh'], input=json.dumps(todo),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
            text=True, timeout=150)
        if p.returncode != 0:
            raise RuntimeError('fresh interpreter failed: '
                               + p.stderr[-2000:])
        got = json.loads(p.stdout.splitlines()[-1])
        res.probes['fresh calls'] += len(got)
        for s, g, w in zip(todo, got, want):
            if g != w:
                res.bad('fresh-differs', 'a fresh interpreter with hash seed '
                        '%d gave another outcome of %s: %s' % (
                            plan['fresh'], s['kind'], [
                                k for k in w if g[k] != w[k]]))
                break

    def shrink_lists(self, plan):
        return [('hist',)]

    def shrink_more(self, plan):
        for k in ('reuse', 'fresh'):
            if plan[k]:
                yield base.with_path(plan, (k,), None)
        if plan['s']['kind'] == 'run' and not plan['reuse']:
            yield from mdrun.shrink_workload(plan, ('s', 'w'))


def variant_cfg(r, w):
    """the same data, other options"""
    n = copy.deepcopy(w)
    c = n['cfg']
    m = r.choice(['types', 'step', 'fwhm', 'box', 'sx', 'nodet', 'rng',
                  'psf', 'combs', 'noise'])
    if m == 'types':
        c['metacal']['types'] = r.choice([['1p'], ['noshear', '2m']])
    elif m == 'step':
        c['metacal']['step'] = 0.03
    elif m == 'fwhm':
        for f in c.get('fitters', [c]):
            if f.get('weight', {}).get('fwhm'):
                f['weight']['fwhm'] += 0.3
    elif m == 'box':
        c['meds']['min_box_size'] = 48
        c['meds']['weight_type'] = r.choice(['weight', 'uberseg'])
    elif m == 'sx':
        c['sx'] = dict(detect_thresh=3.0, deblend_cont=0.005, minarea=4,
                       filter_type='conv', filter_kernel=wl.KERNEL)
    elif m == 'nodet':
        c['nodet_flags'] = 2**4
        c['mask_region'] = 5
    elif m == 'rng':
        n['rng'] += 1
    elif m == 'psf':
        c['metacal']['psf'] = 'gauss' if c['metacal']['psf'] == 'fitgauss' \
            else 'fitgauss'
    elif m == 'combs':
        n['shear'], n['det'] = wl.gen_combs(r, n['mb']['nband'])
    elif not n.get('color'):
        c['metacal']['use_noise_image'] = not c['metacal'][
            'use_noise_image']
    return n


def drop(x):
    """inputs without what the reused objects legitimately carry"""
    def go(y):
        if isinstance(y, dict):
            return {k: go(v) for k, v in y.items() if k not in ('meta',)}
        if isinstance(y, (list, tuple)):
            return [go(v) for v in y]
        return y
    return {k: go(v) for k, v in x.items()} if isinstance(x, dict) else x


def digests(o):
    return {k: core.digest(v) for k, v in drop2(o).items()}


def drop2(o):
    return dict(o, after=drop(o['after']))
