"""Outcome of LSST runs: every configured type, honest flags, options and
optional inputs"""
import copy

import numpy as np

import base
import core
import lw
import mdrun

PSFCOLS = ('psfrec_flags', 'psfrec_navg', 'psfrec_g', 'psfrec_T')
PSF_FAILURE = 2**21
DEF_TYPES = ['noshear', '1p', '1m']


def types_of(w):
    return w['cfg'].get('metacal', {}).get('types', DEF_TYPES)


def rows_by_type(w, result):
    if w['mode'] == 'photometry':
        return {'phot': result}
    return {k: v for k, v in result.items() if k != 'psf_stats'}


class Check(base.Check):
    id = 'C16'
    rule = ('a run is one LSST metadetection or photometry workload with a '
            'failing original psf fit, sheared images without detections or '
            'that cannot be detected on, absent optional inputs or options '
            'set, against its undisturbed twin; non-trivial when something '
            'was disturbed and the twin measured at least one object')
    measure = ('distinct (mode, deblender, reconvolution, what was '
               'disturbed, types, outcome per type) tuples')
    n_quick = 1100
    n_thorough = 60000
    real = ['metadetect.lsst (working tree)', 'metadetect.fitting', 'galsim',
            'numpy', 'scipy', 'esutil']
    stubs = ['lsst.* (exposures, detection, deblending, configuration)',
             'ngmix']

    def gen(self, seed):
        r = self.rng(seed)
        what = r.choice(['psf', 'psf', 'psf', 'nodet', 'nodet', 'infvar',
                         'absent', 'absent', 'options', 'plain'])
        kw = {}
        if what == 'infvar':
            kw['infvar'] = r.choice(['most', 'oneband', 'half', 'all'])
        else:
            kw['infvar'] = r.choice([False] * 4 + ['half', 'oneband'])
        w = lw.gen_lsst_workload(r, **kw)
        if what != 'options' and w['mode'] == 'metadetect' and \
                r.random() < 0.15:
            w['cfg'].get('metacal', {}).pop('types', None)
        if what == 'absent':
            w['no_mfrac'] = r.random() < 0.6
            w['no_ormasks'] = not w['no_mfrac'] or r.random() < 0.6
        else:
            w['no_mfrac'] = r.random() < 0.3
            w['no_ormasks'] = r.random() < 0.3
        plan = dict(w=w, what=what, faults=[])
        if what == 'psf':
            nb = len(w['exp']['bands'])
            b = r.randrange(nb)
            if r.random() < 0.7:
                plan['faults'] = [['fit.am', None, b + i, 'flagged']
                                  for i in range(4)]
            else:
                plan['faults'] = [['fit.am', None, b, 'GMixRangeError']]
        elif what == 'nodet':
            n = len(types_of(w)) if w['mode'] == 'metadetect' else 1
            k = r.randint(1, n)
            first = 2 * len(w['exp']['bands']) if w['cfg'].get(
                'subtract_sky') else 0
            plan['faults'] = [['detect.run', None, first + i, 'none']
                              for i in sorted(r.sample(range(n), k))]
        elif what == 'options':
            plan['opt'] = r.choice(['stamp_size', 'stamp_size', 'thresh',
                                    'fwhm', 'shear_bands', 'types',
                                    'deblender', 'defaults', 'missing'])
            if plan['opt'] == 'thresh' and r.random() < 0.7:
                w['cfg']['detect'] = {'thresh': r.choice(
                    [2.5, 3.0, 3.75, 4.5, 9.0])}
            if plan['opt'] == 'stamp_size':
                w['cfg']['stamp_size'] = r.choice([9, 11, 15, 21, 27, 31])
        return plan

    def run(self, plan):
        res = core.Result()
        w = plan['w']
        twin = lw.execute(w)
        res.took(twin)
        if twin.exc is not None:
            if plan['what'] == 'plain' or True:
                raise twin.exc
        out = twin
        if plan['faults']:
            out = lw.execute(w, plan['faults'])
            res.took(out)
        what = plan['what']
        psf_failed = any(s == 'fit.am' for s, n, k, q in out.ctx.fired_sites)
        fit_needed = (w['mode'] == 'metadetect' and w['cfg'].get(
            'metacal', {}).get('reconv_type', 'fitgauss') == 'fitgauss')
        if out.exc is not None:
            res.bad('raised', '%s: the run ended with %r' % (what, out.exc))
            return res
        if w['mode'] == 'metadetect':
            if psf_failed and fit_needed:
                res.probes['no-kernel'] += 1
                if out.result is not None:
                    res.bad('no-kernel', 'the original psf fit needed for '
                            'reconvolution failed but the run gave a result')
                return self.fin(res, plan, twin, out)
            if out.result is None:
                res.bad('no-result', 'the run gave None')
                return res
            want = set(types_of(w))
            if w.get('psf_stats'):
                want.add('psf_stats')
            if set(out.result) != want:
                res.bad('types', 'result has %s, configured %s' % (
                    sorted(out.result), sorted(want)))
                return res
            if w.get('psf_stats'):
                self.stats(res, w, out.result['psf_stats'], psf_failed)
        if not w['sky']:
            want = float(w['cfg'].get('detect', {}).get('thresh', 5.0))
            for v in out.ctx.notes.get('thresh', []):
                if v != want:
                    res.bad('options', 'detection with threshold %s, '
                            'configured %s' % (v, want))
                    break
        a = rows_by_type(w, out.result)
        b = rows_by_type(w, twin.result)
        gone = set()
        if what == 'nodet':
            ty = types_of(w) if w['mode'] == 'metadetect' else ['phot']
            first = 2 * len(w['exp']['bands']) if w['cfg'].get(
                'subtract_sky') else 0
            for s, n, k, q in out.ctx.fired_sites:
                if q == 'none':
                    gone.add(ty[n - first])
        for t in a:
            if t in gone:
                if a[t] is not None:
                    res.bad('rows-from-nothing', '%s has rows without '
                            'detections' % t)
                continue
            if a[t] is None:
                if b[t] is not None:
                    res.bad('lost-type', '%s is None although its image has '
                            'detections' % t)
                continue
            self.psf_columns(res, w, t, a[t], psf_failed)
            self.optional(res, w, t, a[t])
            if b[t] is None or a[t].shape != b[t].shape:
                res.bad('rows', '%s: other rows than in the twin' % t)
                continue
            for n in a[t].dtype.names:
                if psf_failed and n in PSFCOLS:
                    continue
                d = core.diff(a[t][n], b[t][n], '%s.%s' % (t, n))
                if d:
                    res.bad('columns', d)
                    break
        if not res.viol:
            if what == 'absent':
                self.absent(res, plan, twin)
            elif what == 'options':
                self.options(res, plan, twin)
            self.expect_none(res, w, twin)
        return self.fin(res, plan, twin, out)

    def fin(self, res, plan, twin, out):
        w = plan['w']
        b = rows_by_type(w, twin.result)
        some = any(v is not None for v in b.values())
        res.nontrivial = some and plan['what'] != 'plain' or \
            plan['what'] == 'infvar'
        outcome = None
        if out.result is not None or w['mode'] == 'photometry':
            outcome = sorted((k, v is None) for k, v in rows_by_type(
                w, out.result).items())
        res.sigs.add(repr((
            w['mode'], w['cfg'].get('deblender'), w['cfg'].get(
                'metacal', {}).get('reconv_type'), plan['what'],
            plan.get('opt'), w['exp']['infvar'], len(w['exp']['bands']),
            outcome)))
        res.log.append(core.digest(out.result))
        return res

    # ------------------------------------------------------------------
    def stats(self, res, w, st, failed):
        if not failed:
            sb = w['cfg'].get('shear_bands') or w['exp']['bands']
            if list(st['perband']['is_shear_band']) != [
                    b in sb for b in w['exp']['bands']]:
                res.bad('stats', 'psf_stats: shear bands %s, configured %s'
                        % (st['perband']['is_shear_band'], sb))
            if not np.allclose([st['g1'], st['g2'], st['T']],
                               self.mean_psf(w), rtol=1e-4, atol=1e-6):
                res.bad('stats', 'psf_stats %r, expected g1, g2, T %s' % (
                    st, self.mean_psf(w)))
        if failed:
            if st['flags'] == 0:
                res.bad('stats', 'psf_stats not flagged')
        elif st['flags'] != 0 or not all(np.isfinite(
                [st[k] for k in ('e1', 'e2', 'g1', 'g2', 'T')])):
            res.bad('stats', 'psf_stats %r' % (st,))

    def psf_columns(self, res, w, t, rows, failed):
        nsb = len(w['cfg'].get('shear_bands') or w['exp']['bands'])
        if failed:
            if not np.all(rows['psfrec_flags'] & PSF_FAILURE):
                res.bad('psf-unflagged', '%s: psfrec_flags %s after a failed '
                        'fit' % (t, rows['psfrec_flags']))
            v = rows['psfrec_g']
            if np.any(np.isfinite(v) & (v != -9999)) or np.any(
                    np.isfinite(rows['psfrec_T']) & (
                        rows['psfrec_T'] != -9999)):
                res.bad('psf-values', '%s: values of a failed psf fit' % t)
        else:
            if np.any(rows['psfrec_flags'] != 0):
                res.bad('psf-flagged', '%s: psfrec_flags %s without a '
                        'failure' % (t, rows['psfrec_flags']))
            if np.any(rows['psfrec_navg'] != nsb):
                res.bad('psf-navg', '%s: navg %s for %d shear bands' % (
                    t, rows['psfrec_navg'], nsb))
            if not (np.all(np.isfinite(rows['psfrec_g'])) and
                    np.all(rows['psfrec_T'] > 0)):
                res.bad('psf-values', '%s: undefined psf columns' % t)
                return
            g1, g2, T = self.mean_psf(w)
            if not (np.allclose(rows['psfrec_T'], T, rtol=1e-4) and
                    np.allclose(rows['psfrec_g'], [g1, g2], rtol=1e-4,
                                atol=1e-6)):
                res.bad('psf-values', '%s: psfrec T %s g %s, of the shear '
                        'bands %s %s' % (t, rows['psfrec_T'][0],
                                         rows['psfrec_g'][0], T, (g1, g2)))

    def mean_psf(self, w):
        """shape and size at the centre, averaged over the shear bands with
        the weight of the data"""
        import ngmix
        import lsst.geom as geom
        inp = lw.LInputs(w)
        sb = w['cfg'].get('shear_bands') or w['exp']['bands']
        m = lw.make_wcs(w['exp']).cd * 3600
        tot, ws = 0.0, 0.0
        for band, e in zip(w['exp']['bands'], inp.mbexp.singles):
            if band not in sb:
                continue
            b = lw.box_of(w['exp'])
            im = np.asarray(e.getPsf().computeKernelImage(geom.Point2D(
                geom.Point2I(b.getCenter()))).array, 'f4')
            c = (np.array(im.shape) - 1) / 2
            rng = np.random.RandomState(1)
            r = ngmix.runners.PSFRunner(
                fitter=ngmix.admom.AdmomFitter(rng=rng),
                guesser=ngmix.guessers.GMixPSFGuesser(
                    rng=rng, ngauss=1, guess_from_moms=True), ntry=4).go(
                obs=ngmix.Observation(im, jacobian=ngmix.Jacobian(
                    row=c[0], col=c[1], dudcol=m[1, 1], dudrow=-m[1, 0],
                    dvdcol=m[0, 1], dvdrow=-m[0, 0])))
            v = e.variance.array
            wt = 1 / np.median(v[np.isfinite(v) & (v > 0)])
            tot = tot + wt * np.array([r['e'][0], r['e'][1], r['T']])
            ws += wt
        e1, e2, T = tot / ws
        return ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2) + (T,)

    def optional(self, res, w, t, rows):
        if w.get('no_mfrac') and np.any(rows['mfrac'] != 0):
            res.bad('mfrac', '%s: masked fraction without input' % t)
        if w.get('no_ormasks') and np.any(rows['ormask'] != 0):
            res.bad('ormask', '%s: or mask without input' % t)
        ss = w['cfg'].get('stamp_size', 49)
        if np.any(rows['stamp_size'] != ss):
            res.bad('stamp-size', '%s: stamp size %s, configured %d' % (
                t, rows['stamp_size'], ss))

    def absent(self, res, plan, twin):
        """an absent optional input is an all-zero one"""
        w = copy.deepcopy(plan['w'])
        inp = lw.LInputs(dict(w, no_mfrac=False, no_ormasks=False))
        if w['no_mfrac']:
            for e in inp.mfrac_mbexp.singles:
                e.image.array[:, :] = 0
        if w['no_ormasks']:
            for m in inp.ormasks:
                m[:, :] = 0
        o = lw.execute(w, inp=inp)
        res.took(o)
        if o.exc is not None:
            res.bad('absent', 'with all-zero input the run ended with %r'
                    % o.exc)
            return
        d = core.diff(twin.result, o.result, 'result')
        if d:
            res.bad('absent', 'absent input differs from an all-zero one: '
                    '%s' % d)

    def options(self, res, plan, twin):
        """an option equal to its default changes nothing; another value
        takes effect"""
        w = plan['w']
        opt = plan['opt']
        v = copy.deepcopy(w)
        c = v['cfg']
        if opt == 'defaults':
            c.setdefault('deblender', 'sdss')
            c.setdefault('subtract_sky', False)
            c.setdefault('pgauss', {'fwhm': 2.0})
            c.setdefault('detect', {'thresh': 5.0})
            c.setdefault('shear_bands', list(w['exp']['bands']))
            if w['mode'] == 'metadetect':
                c.setdefault('metacal', {}).setdefault(
                    'types', list(DEF_TYPES))
            o = lw.execute(v)
            res.took(o)
            if o.exc is not None:
                res.bad('options', 'defaults spelled out: %r' % o.exc)
            elif core.diff(o.result, twin.result, 'result'):
                res.bad('options', 'spelling out the defaults: %s' %
                        core.diff(o.result, twin.result, 'result'))
            return
        if opt == 'missing':
            # a band that was not given cannot be used
            c['shear_bands'] = list(w['cfg'].get('shear_bands') or
                                    w['exp']['bands']) + ['y']
            o = lw.execute(v)
            res.took(o)
            if o.exc is None:
                res.bad('options', 'shear bands %s accepted, given %s' % (
                    c['shear_bands'], w['exp']['bands']))
            return
        a = rows_by_type(w, twin.result)
        nb = len(w['exp']['bands'])
        if opt == 'deblender' and w['mode'] == 'photometry' and nb > 1 and \
                'i' in w['exp']['bands']:
            c['deblender'] = 'scarlet'
            o = lw.execute(v)
            res.took(o)
            if o.exc is not None:
                res.bad('options', 'deblender scarlet: %r' % o.exc)
            elif not o.ctx.counts.get('scarlet.run') and \
                    o.ctx.counts.get('detect.run'):
                res.bad('options', 'deblender scarlet was configured but did '
                        'not run')
            return
        if opt == 'deblender' and w['mode'] == 'metadetect':
            ran = twin.ctx.counts.get('scarlet.run', 0) > 0
            if ran != (w['cfg'].get('deblender') == 'scarlet') and \
                    twin.ctx.counts.get('detect.run'):
                res.bad('options', 'configured deblender %r, scarlet ran: %s'
                        % (w['cfg'].get('deblender'), ran))
            return
        if opt == 'thresh':
            c['detect'] = {'thresh': 400.0}
            o = lw.execute(v)
            res.took(o)
            if o.exc is not None:
                res.bad('options', 'threshold: %r' % o.exc)
            elif any(x is not None for x in rows_by_type(
                    w, o.result).values()):
                res.bad('options', 'objects detected at a threshold of 400')
            return
        if opt == 'fwhm':
            c['pgauss'] = {'fwhm': 1.1 if w['cfg'].get('pgauss', {}).get(
                'fwhm', 2.0) != 1.1 else 1.3}
            o = lw.execute(v)
            res.took(o)
            if o.exc is not None:
                res.bad('options', 'pgauss fwhm: %r' % o.exc)
                return
            b = rows_by_type(w, o.result)
            for t in a:
                if a[t] is None:
                    continue
                good = (a[t]['stamp_flags'] == 0) & (
                    a[t]['pgauss_flags'] == 0)
                if good.any() and np.all(
                        a[t]['pgauss_s2n'][good] == b[t]['pgauss_s2n'][good]):
                    res.bad('options', 'the pgauss fwhm has no effect')
                for n in ('gauss_s2n', 'row', 'stamp_flags', 'psfrec_T'):
                    d = core.diff(a[t][n], b[t][n], n)
                    if d:
                        res.bad('options', 'the pgauss fwhm changes %s' % d)
            return
        if opt == 'types' and w['mode'] == 'metadetect':
            # each type alone gives what it gives together with others
            for t in list(a):
                v = copy.deepcopy(w)
                v['cfg']['metacal']['types'] = [t]
                v['psf_stats'] = False
                o = lw.execute(v)
                res.took(o)
                if o.exc is not None:
                    res.bad('options', 'type %s alone: %r' % (t, o.exc))
                    return
                d = core.diff(o.result.get(t), a[t], t)
                if d:
                    res.bad('options', 'type %s alone differs: %s' % (t, d))
                    return
        if opt == 'shear_bands':
            for t in a:
                if a[t] is None:
                    continue
                sb = w['cfg'].get('shear_bands') or w['exp']['bands']
                lab = ''.join(str(i) for i, b in enumerate(
                    w['exp']['bands']) if b in sb)
                if np.any(a[t]['shear_bands'] != lab):
                    res.bad('options', '%s: shear bands %s, configured %s'
                            % (t, a[t]['shear_bands'], lab))

    def expect_none(self, res, w, twin):
        """images without weight over more than half cannot be detected on
        in any band of a coadd: None for all types"""
        if w['exp']['infvar'] in ('all', 'most') and len(w['exp']['bands']) > 1:
            res.probes['undetectable'] += 1
            for t, v in rows_by_type(w, twin.result).items():
                if v is not None:
                    res.bad('rows-from-nothing', '%s has rows' % t)

    def shrink_lists(self, plan):
        return []

    def shrink_more(self, plan):
        if plan['what'] != 'nodet':
            yield from lw.shrink_lsst(plan)


_unused = mdrun
