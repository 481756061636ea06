"""Foreground masking and apodization"""
import numpy as np

import base
import core
import hooks
import lw
import maskwl as mw
import mdrun
import simhook
import wl

EXC = ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SimError']


def band_arrays(o):
    d = dict(image=o._image.copy(), noise=o._noise.copy(),
             weight=o._weight.copy(), bmask=o._bmask.copy(),
             ormask=o._ormask.copy(),
             mfrac=None if o._mfrac is None else o._mfrac.copy())
    return d


def same(a, b, where):
    x, y = a[where], b[where]
    return bool(np.all((x == y) | ((x != x) & (y != y))))


class Check(base.Check):
    id = 'C09'
    rule = ('a run masks 1-3 bands (degenerate holes and bands included) '
            'after up to three attempts stopped at seeded calls; '
            'non-trivial when a hole or the apodized border touches a pixel')
    measure = ('distinct (method, symmetrised, hole style, band kinds, '
               'stopped at, outcome per band) tuples')
    n_quick = 2400
    n_thorough = 120000
    real = base.Check.real
    stubs = ['ngmix (observations only)', 'lsst.* (exposures only)']

    def gen(self, seed):
        r = self.rng(seed)
        if r.random() < 0.2:
            return self.gen_lsst(r)
        w = mw.gen_mask_workload(r)
        plan = dict(w=w, attempts=[], op='fg')
        if r.random() < 0.25:
            plan['op'] = 'border'
            for q in w['bands']:
                q['nan'] = False
            plan['ap'] = r.choice([0.1, 0.5, 1.0, 1.5, 2.5, 4.0])
        if r.random() < 0.6:
            mb, rng = self.inputs(w)
            cc = hooks.CallCtx()
            try:
                with hooks.interrupting(cc):
                    self.call(plan, mb, rng)
            except Exception:
                pass
            for _ in range(r.choice([1, 1, 2, 3])):
                t = hooks.pick_target(r, cc.counts, r.choice(EXC))
                if t is not None:
                    plan['attempts'].append(t)
        return plan

    def inputs(self, w):
        return (mw.make_mask_mbobs(w),
                np.random.RandomState(w['mask']['rng']))

    def call(self, plan, mb, rng):
        if plan['op'] == 'border':
            from metadetect import masking
            masking.apply_apodization_corrections(
                mbobs=mb, ap_rad=plan['ap'], mask_bit_val=mw.MASKBIT)
        else:
            mw.apply_mask(plan['w'], mb, rng)

    # ------------------------------------------------------------------
    def gen_lsst(self, r):
        p = lw.gen_mbexp_params(r, nband=r.choice([1, 2, 2, 3]))
        holes = []
        d0, d1 = p['dim']
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            holes.append([round(r.uniform(-6, d1 + 6), 3),
                          round(r.uniform(-6, d0 + 6), 3),
                          round(r.choice([0.4, r.uniform(1, 9),
                                          r.uniform(5, 30)]), 3)])
        if r.random() < 0.2:
            # a wide star off the image reaches into it
            far = r.uniform(40, 400)
            x, y = r.choice([(d1 / 2, -far), (d1 / 2, d0 + far),
                             (-far, d0 / 2), (d1 + far, d0 / 2),
                             (-far * 0.7, -far * 0.7)])
            holes.append([round(x, 3), round(y, 3),
                          round(far + r.uniform(-16, 20), 3)])
        plan = dict(lsst=True, w=dict(
            exp=p, clock=[0.001], no_mfrac=r.random() < 0.3,
            no_ormasks=r.random() < 0.3), op=r.choice(
                ['bright', 'bright', 'edge']), holes=holes,
            noise=r.random() < 0.7, attempts=[])
        if r.random() < 0.6:
            o = self.lsst_call(plan, lw.LInputs(plan['w']), count=True)
            for _ in range(r.choice([1, 1, 2, 3])):
                t = hooks.pick_target(r, o.cctx.counts, r.choice(EXC))
                if t is not None:
                    plan['attempts'].append(t)
        return plan

    def lsst_call(self, plan, inp, target=None, count=False):
        from metadetect.lsst import masking
        p = plan['w']['exp']
        kw = dict(mfrac_mbexp=inp.mfrac_mbexp, ormasks=inp.ormasks)
        if plan['noise']:
            kw['noise_mbexp'] = inp.noise_mbexp
        if plan['op'] == 'edge':
            def call():
                masking.apply_apodized_edge_masks_mbexp(inp.mbexp, **kw)
        else:
            h = np.array(plan['holes']).reshape(-1, 3)
            b = np.zeros(len(h), dtype=[('ra', 'f8'), ('dec', 'f8'),
                                        ('radius_pixels', 'f8')])
            b['ra'], b['dec'] = lw.make_wcs(p).pixelToSkyArray(
                h[:, 0] + p['xy0'][0], h[:, 1] + p['xy0'][1], degrees=True)
            b['radius_pixels'] = h[:, 2]

            def call():
                masking.apply_apodized_bright_masks_mbexp(
                    inp.mbexp, b, **kw)
        return lw.execute(plan['w'], inp=inp, call=call, target=target,
                          count_calls=count)

    def run_lsst(self, plan):
        res = core.Result()
        p = plan['w']['exp']
        dims = tuple(p['dim'])
        none = np.zeros(dims, bool)
        if plan['op'] == 'edge':
            inside, near = self.border(dims, 1.5)
            grown, gnear = none, none
        else:
            m = dict(holes=plan['holes'], dt='f8', method='apodize',
                     ap_rad=1.5, sym=False)
            inside, near = mw.hole_map(m, dims)
            grown, gnear = mw.hole_map(m, dims, 16)
            # the position went through the sky and back
            for k, g in ((near, 0.0), (gnear, 16.0)):
                for x, y, rad in plan['holes']:
                    rr, cc = np.mgrid[:dims[0], :dims[1]]
                    k |= np.abs(np.hypot(rr - y, cc - x) - rad - g) < 1e-3
            inside &= ~near
            grown &= ~gnear
        ref = (inside, near, grown, gnear)
        res.nontrivial = bool(inside.any())
        twin = lw.LInputs(plan['w'])
        first = twin.snap(False)
        o = self.lsst_call(plan, twin)
        res.took(o)
        if o.exc is not None:
            raise o.exc
        self.lsst_state(res, plan, first, twin.snap(False), ref, '', True)
        inp = lw.LInputs(plan['w'])
        stopped = []
        for t in plan['attempts']:
            o = self.lsst_call(plan, inp, t)
            res.took(o)
            if not o.cctx.fired:
                if o.exc is not None:
                    raise o.exc
                continue
            res.faults['interrupt:' + t['exc']] += 1
            stopped.append(t['site'])
            if o.exc is None:
                res.bad('swallowed', '%s at %s did not stop the call' % (
                    t['exc'], t['site']))
            self.lsst_state(res, plan, first, inp.snap(False), ref,
                            ' after a stop at %s' % t['site'], False)
        if plan['attempts']:
            o = self.lsst_call(plan, inp)
            res.took(o)
            if o.exc is not None:
                raise o.exc
            self.lsst_state(res, plan, first, inp.snap(False), ref,
                            ' (repeated)', True)
        res.sigs.add('lsst|%s|%s|%s|%s' % (
            plan['op'], len(p['bands']), stopped, sorted(
                k for k in ('noise',) if plan[k])))
        res.log.append(core.digest([twin.snap(), stopped]))
        return res

    def lsst_state(self, res, plan, first, now, ref, when, done):
        import lsst.afw.image as afw_image
        inside, near, grown, gnear = ref
        out = ~(inside | near)
        edge = plan['op'] == 'edge'
        bit = afw_image.Mask.getPlaneBitMask(
            'APODIZED_EDGE' if edge else 'BRIGHT')
        ebit = 0 if edge else afw_image.Mask.getPlaneBitMask(
            'BRIGHT_EXPANDED')
        may = np.where(~out, bit, 0) | np.where(grown | gnear, ebit, 0)
        must = np.where(inside, bit, 0) | np.where(grown, ebit, 0)

        def bits(a, b, what):
            if np.any(((a ^ b) & ~may)):
                res.bad('outside', '%s%s: mask bits outside the holes '
                        'changed' % (what, when))
            if done and np.any((b & must) != must):
                res.bad('bits', '%s%s: hole pixels are not flagged' % (
                    what, when))

        sets = [('mbexp', True), ('noise_mbexp', plan['noise'])]
        for name, use in sets:
            for band, a in first[name].items():
                b = now[name][band]
                what = '%s of band %s' % (name, band)
                if not use:
                    d = core.diff(b, a, what)
                    if d:
                        res.bad('outside', 'not to be masked: %s' % d)
                    continue
                for n in ('image', 'variance'):
                    if not same(a[n], b[n], out):
                        res.bad('outside', '%s%s: %s changed outside the '
                                'holes' % (what, when, n))
                bits(a['mask'], b['mask'], what)
                if not done:
                    continue
                if not np.all(np.isinf(b['variance'][inside])):
                    res.bad('hole-weight', '%s%s: hole pixels have a finite '
                            'variance' % (what, when))
                if np.any(np.abs(b['image'][inside]) > np.abs(
                        a['image'][inside])) or not np.all(
                            np.isfinite(b['image'])):
                    res.bad('apodize', '%s%s: image grew in the holes' % (
                        what, when))
        for k, (a, b) in enumerate(zip(first['ormasks'] or [],
                                       now['ormasks'] or [])):
            bits(a, b, 'ormask %d' % k)
        for band, a in (first['mfrac_mbexp'] or {}).items():
            b = now['mfrac_mbexp'][band]
            if not same(a['image'], b['image'], out):
                res.bad('outside', 'masked fraction of band %s%s changed '
                        'outside the holes' % (band, when))
            if done and np.any(b['image'][inside] != 1):
                res.bad('hole-mfrac', 'masked fraction of band %s%s is not '
                        'one in the holes' % (band, when))

    def run(self, plan):
        if plan.get('lsst'):
            return self.run_lsst(plan)
        res = core.Result()
        w, m = plan['w'], plan['w']['mask']
        dims = tuple(w['mb']['dims'])
        mb, rng = self.inputs(w)
        st0 = rng.get_state()
        orig = [band_arrays(ol[0]) for ol in mb]
        if plan['op'] == 'border':
            inside, near = self.border(dims, plan['ap'])
            grown = grown_near = np.zeros(dims, bool)
        else:
            inside, near = mw.hole_map(m, dims)
            if m['expand'] > 0:
                grown, grown_near = mw.hole_map(m, dims, m['expand'])
            else:
                grown = grown_near = np.zeros(dims, bool)
        ref = (inside, near, grown, grown_near)
        res.nontrivial = bool(inside.any())

        twin_mb, twin_rng = self.inputs(w)
        self.call(plan, twin_mb, twin_rng)
        twin = [band_arrays(ol[0]) for ol in twin_mb]
        outs = self.completed(res, plan, orig, twin, twin_mb, ref)
        res.execs += 1

        stopped = []
        for t in plan['attempts']:
            rng.set_state(st0)
            cc = hooks.CallCtx(t)
            exc = None
            try:
                with simhook.active(simhook.Ctx()), hooks.interrupting(cc):
                    self.call(plan, mb, rng)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            res.execs += 1
            res.events += cc.total
            if not cc.fired:
                if exc is not None:
                    raise exc
                continue
            res.faults['interrupt:' + t['exc']] += 1
            stopped.append(t['site'])
            if exc is None:
                res.bad('swallowed', '%s at %s did not stop the call' % (
                    t['exc'], t['site']))
            for b, ol in enumerate(mb):
                self.partial(res, plan, orig[b], band_arrays(ol[0]), ref, b,
                             t)
        if plan['attempts']:
            rng.set_state(st0)
            self.call(plan, mb, rng)
            final = [band_arrays(ol[0]) for ol in mb]
            self.completed(res, plan, orig, final, mb, ref, retry=True)
            if plan['op'] == 'fg' and m['method'] != 'apodize':
                d = core.diff(final, twin, 'band')
                if d:
                    res.bad('retry-differs', 'after attempts stopped at %s '
                            'the repeated call gives another result than an '
                            'undisturbed one: %s' % (stopped, d))
                d = core.diff(core.snap_rng(rng), core.snap_rng(twin_rng))
                if d:
                    res.bad('retry-rng', 'generator state differs: %s' % d)
        if len(mb) > 1 and not res.viol and (
                plan['op'] == 'border' or m['method'] != 'interp-noise'):
            self.alone(res, plan, w, twin)
        res.sigs.add('%s|%s|%s|%s|%s|%s' % (
            plan['op'], m['method'], m['sym'], m['style'], stopped, outs))
        res.log.append(core.digest([twin, stopped]))
        return res

    # ------------------------------------------------------------------
    def border(self, dims, ap):
        rng_ = int(6 * ap + 0.5)
        rr, cc = np.mgrid[:dims[0], :dims[1]]
        dist = np.minimum(np.minimum(rr, dims[0] - 1 - rr),
                          np.minimum(cc, dims[1] - 1 - cc))
        inside = dist < rng_ - 0.02 * ap
        near = (dist <= rng_) & ~inside
        return inside, near

    def alone(self, res, plan, w, twin):
        for b in range(w['mb']['nband']):
            mb, rng = self.inputs(w)
            one = mw.only_band(mb, b)
            self.call(plan, one, rng)
            res.execs += 1
            d = core.diff(band_arrays(one[0][0]), twin[b], 'band %d' % b)
            if d:
                res.bad('band-coupling', 'masking a band together with '
                        'others differs from masking it alone: %s' % d)

    def partial(self, res, plan, o, f, ref, b, t):
        """a stopped attempt: nothing outside the holes may have changed"""
        inside, near, grown, grown_near = ref
        out = ~(inside | near)
        fill = plan['w']['mask']['method'] == 'interp-noise'
        giveup = plan['op'] == 'fg' and plan['w']['mask']['method'] != \
            'apodize' and not self.can(plan, o, inside, near, fill)
        what = 'band %d after a stop at %s by %s' % (b, t['site'], t['exc'])
        for n in ('image', 'noise'):
            if not same(o[n], f[n], out):
                res.bad('outside', '%s: %s changed outside the holes' % (
                    what, n))
        if giveup:
            return
        if not same(o['weight'], f['weight'], out):
            res.bad('outside', '%s: weight changed outside the holes' % what)
        if o['mfrac'] is not None and not same(o['mfrac'], f['mfrac'], out):
            res.bad('outside', '%s: mfrac changed outside the holes' % what)
        bits = (o['bmask'] ^ f['bmask']) & ~np.where(
            grown | grown_near, mw.EXPBIT, 0)
        if np.any(bits[out]):
            res.bad('outside', '%s: mask bits changed outside the holes'
                    % what)

    def can(self, plan, o, inside, near, fill):
        m = plan['w']['mask']
        if fill:
            wt = o['weight'].copy()
            wt[inside] = 0
            if not np.any(wt > 0):
                return False
        return mw.interpolable(inside, fill, m['iso_buff'])

    def completed(self, res, plan, orig, fin, mb, ref, retry=False):
        inside, near, grown, grown_near = ref
        m = plan['w']['mask']
        outs = []
        interp = plan['op'] == 'fg' and m['method'] != 'apodize'
        if interp and np.any(near):
            res.probes['hole edge undecided'] += 1
        for b, (o, f) in enumerate(zip(orig, fin)):
            what = 'band %d%s' % (b, ' (repeated)' if retry else '')
            if interp and inside.any() and not near.any() and not self.can(
                    plan, o, inside, near, m['method'] == 'interp-noise'):
                outs.append('given-up')
                res.probes['band given up'] += 1
                self.given_up(res, o, f, inside, what)
            elif interp and near.any():
                outs.append('undecided')
            else:
                outs.append('masked' if inside.any() else 'untouched')
                self.masked(res, plan, o, f, ref, what, retry)
            try:
                with mb[b][0].writeable():
                    pass
            except Exception as e:
                res.bad('unusable', '%s: the observation cannot be used any '
                        'more: %r' % (what, e))
        return outs

    def given_up(self, res, o, f, inside, what):
        if np.any(f['weight'] != 0):
            res.bad('given-up-weight', '%s cannot be interpolated but has '
                    'weight somewhere' % what)
        if np.any((f['bmask'] & mw.MASKBIT) == 0):
            res.bad('given-up-bits', '%s cannot be interpolated but is not '
                    'flagged everywhere' % what)
        if f['mfrac'] is not None and np.any(f['mfrac'] != 1):
            res.bad('given-up-mfrac', '%s cannot be interpolated but its '
                    'masked fraction is not one everywhere' % what)
        for n in ('image', 'noise'):
            if not same(o[n], f[n], ~inside):
                res.bad('given-up-data', '%s: %s changed outside the holes'
                        % (what, n))

    def masked(self, res, plan, o, f, ref, what, retry):
        inside, near, grown, grown_near = ref
        m = plan['w']['mask']
        out = ~(inside | near)
        interp = plan['op'] == 'fg' and m['method'] != 'apodize'
        for n in ('image', 'noise', 'weight', 'mfrac', 'ormask'):
            if o[n] is not None and not same(o[n], f[n], out):
                res.bad('outside', '%s: %s changed outside the holes' % (
                    what, n))
        want = o['bmask'] | np.where(inside, mw.MASKBIT, 0)
        if interp:
            want = want | np.where(inside, mw.INTERPBIT, 0)
        want = want | np.where(grown, mw.EXPBIT, 0)
        ok = ~(near | grown_near)
        if np.any((want != f['bmask'])[ok]):
            i = np.argwhere((want != f['bmask']) & ok)[0]
            res.bad('bits', '%s: mask bits at %s are %d, expected %d' % (
                what, tuple(int(x) for x in i), f['bmask'][tuple(i)],
                want[tuple(i)]))
        if np.any(f['weight'][inside] != 0):
            res.bad('hole-weight', '%s: hole pixels have weight' % what)
        if f['mfrac'] is not None and np.any(f['mfrac'][inside] != 1):
            res.bad('hole-mfrac', '%s: hole pixels have masked fraction '
                    'below one' % what)
        for n in ('image', 'noise'):
            if not np.all(np.isfinite(f[n][inside])):
                res.bad('not-finite', '%s: %s is not finite in the holes'
                        % (what, n))
        if not interp:
            for n in ('image', 'noise'):
                if np.any(np.abs(f[n][inside]) > np.abs(o[n][inside])):
                    res.bad('apodize', '%s: |%s| grew' % (what, n))

    def shrink_lists(self, plan):
        if plan.get('lsst'):
            return [('attempts',), ('holes',)]
        return [('attempts',), ('w', 'mask', 'holes')]

    def shrink_more(self, plan):
        if plan.get('lsst'):
            yield from lw.shrink_lsst(plan)
            return
        w = plan['w']
        for b in range(len(w['bands'])):
            if w['bands'][b] != dict(kind='ok', ignore=False, nan=False):
                yield base.with_path(plan, ('w', 'bands', b),
                                     dict(kind='ok', ignore=False, nan=False))
        for k, v in (('expand', 0), ('sym', False), ('iso_buff', 1)):
            if w['mask'][k] != v:
                yield base.with_path(plan, ('w', 'mask', k), v)
        if w['mb']['nband'] > 1:
            n = base.with_path(plan, ('w', 'mb', 'nband'),
                               w['mb']['nband'] - 1)
            yield n
        if w['mb']['masks']:
            yield base.with_path(plan, ('w', 'mb', 'masks'), [])


_unused = (mdrun, wl)
