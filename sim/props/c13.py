"""Sky subtraction: failures stay in their exposure and bookkeeping is right"""
import numpy as np

import base
import core
import hooks
import lw
import mdrun

import lsst.afw.image as afw_image

ABSORBED = ['lsst.RuntimeError', 'lsst.TaskError', 'lateTaskError',
            'lsst.RuntimeError']
FATAL = ['KeyboardInterrupt', 'MemoryError', 'SimError']


class Check(base.Check):
    id = 'C13'
    rule = ('a run subtracts the sky of 1-4 exposures with up to three '
            'background or detection calls failing; non-trivial when a '
            'failure fired')
    measure = ('distinct (entry point, iterations, bands, failing calls and '
               'kinds) tuples')
    n_quick = 1500
    n_thorough = 80000
    real = ['metadetect.lsst.skysub, metadetect.lsst.util (working tree)',
            'numpy', 'scipy']
    stubs = ['lsst.* (detection, background fit, exposures, configuration)',
             'ngmix (imported only)']

    def gen(self, seed):
        r = self.rng(seed)
        how = r.choice(['mbexp', 'mbexp', 'mbexp', 'iterate', 'task',
                        'pipeline', 'determine'])
        if how == 'pipeline':
            w = lw.gen_lsst_workload(r, infvar=False)
            w['cfg']['subtract_sky'] = True
            w['sky'] = True
        else:
            w = dict(exp=lw.gen_mbexp_params(r, nband=r.choice([1, 2, 3, 4])),
                     sky=True, clock=[0.001])
        niter = r.choice([1, 2, 2, 2, 3, 4]) if how in (
            'iterate', 'task', 'mbexp') else 2
        plan = dict(w=w, how=how, niter=niter, faults=[],
                    thresh=r.choice([4.0, 5.0, 8.0]),
                    over=r.choice(['none', 'empty', 'set']))
        if plan['over'] == 'none' or how != 'mbexp':
            plan['niter'] = niter if how in ('iterate', 'task') else 2
        if r.random() < 0.2:
            # nothing to detect in some or all bands
            for k in range(len(w['exp']['bands'])):
                if r.random() < 0.6:
                    for o in w['exp']['objs']:
                        o['flux'][k] = 0.0
        if how != 'pipeline' and r.random() < 0.4:
            plan['flags'] = [[
                r.choice(['BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE',
                          'NO_DATA', 'BRIGHT', 'BRIGHT']),
                r.randrange(40), r.randrange(40), r.choice([1, 4, 9]),
                r.choice([1, 6]), r.choice([1.0e4, -300.0, 3.7])]
                for _ in range(r.choice([1, 2, 3]))]
        nexp = len(w['exp']['bands'])
        ncall = nexp * plan['niter']
        if how == 'iterate':
            ncall = plan['niter']
        if how == 'determine':
            ncall = nexp
        if how == 'determine' or r.random() < 0.12:
            pass
        else:
            for _ in range(1 if how == 'pipeline' else
                           r.choice([1, 1, 1, 2, 3])):
                kind = r.choice(ABSORBED if r.random() < 0.9 else FATAL)
                plan['faults'].append([
                    r.choice(['back.run', 'detect.run', 'detect.run']), None,
                    r.randrange(ncall), kind])
        return plan

    def call(self, plan, inp):
        from metadetect.lsst import skysub
        how = plan['how']
        if how == 'pipeline':
            return lw.go(plan['w'], inp)
        if how == 'mbexp':
            cfg = {'none': None, 'empty': {}, 'set': {
                'iterate_detection_and_skysub': {'niter': plan['niter']}}}[
                    plan['over']]
            return skysub.subtract_sky_mbexp(
                inp.mbexp, thresh=plan['thresh'], config=cfg)
        if how == 'iterate':
            return skysub.iterate_detection_and_skysub(
                inp.mbexp.singles[0], plan['thresh'], niter=plan['niter'])
        if how == 'determine':
            for e in inp.mbexp.singles:
                skysub.determine_and_subtract_sky(e)
            return None
        c = skysub.SubtractSkyMbExpConfig()
        c.setDefaults()
        c.iterate_detection_and_skysub.niter = plan['niter']
        return skysub.SubtractSkyMbExpTask(config=c).run(mbexp=inp.mbexp)

    def niter_used(self, plan):
        if plan['how'] == 'mbexp' and plan['over'] != 'set':
            return 2
        return plan['niter']

    def once(self, plan, faults):
        inp = lw.LInputs(plan['w'])
        orig = lw.snap_mbexp(inp.mbexp)
        out = lw.execute(plan['w'], faults, inp=inp,
                         call=lambda: self.call(plan, inp))
        return inp, orig, out

    def flagged(self, plan, res):
        """values at flagged pixels have no part in the first background"""
        got = []
        for poison in (False, True):
            inp = lw.LInputs(plan['w'])
            for e in inp.mbexp.singles:
                for bit, i, j, h, k, v in plan['flags']:
                    s = (slice(i, i + h), slice(j, j + k))
                    e.mask.array[s] |= afw_image.Mask.getPlaneBitMask(bit)
                    if poison:
                        e.image.array[s] = v
            o = lw.execute(plan['w'], [], inp=inp,
                           call=lambda: self.call(plan, inp))
            res.took(o)
            if o.exc is not None:
                raise o.exc
            got.append(o.ctx.notes.get('bg', []))
        a, b = got
        step = 1 if plan['how'] == 'determine' else self.niter_used(plan)
        if len(a) == len(b):
            for k in range(0, len(a), step):
                if abs(a[k] - b[k]) > 1.0e-9 * max(1.0, abs(a[k])):
                    res.bad('flagged', 'the background depends on the values '
                            'of flagged pixels (%s): %r and %r' % (
                                ', '.join(f[0] for f in plan['flags']), a[k],
                                b[k]))

    def run(self, plan):
        res = core.Result()
        w = plan['w']
        if plan.get('flags'):
            self.flagged(plan, res)
        tinp, orig, twin = self.once(plan, [])
        inp, _, out = self.once(plan, plan['faults'])
        res.took(twin)
        res.took(out)
        bands = w['exp']['bands']
        niter = self.niter_used(plan)
        res.nontrivial = bool(out.ctx.fired)
        res.sigs.add(repr((plan['how'], niter, len(bands), sorted(
            (s, n, k) for s, n, q, k in out.ctx.fired_sites))))
        if twin.exc is not None and plan['how'] != 'pipeline':
            raise twin.exc
        fatal = [k for s, n, q, k in out.ctx.fired_sites if k in FATAL]
        if fatal:
            if out.exc is None or type(out.exc).__name__ != fatal[0]:
                res.bad('absorbed', '%s was absorbed or changed: %r' % (
                    fatal[0], out.exc))
            return self.fin(res, inp, out)
        if out.exc is not None and plan['how'] != 'pipeline':
            res.bad('raised', 'a failure in one exposure ended the call: %r'
                    % out.exc)
            return self.fin(res, inp, out)
        # which exposures failed, from the order of the stub calls
        failed, per = self.attribute(res, plan, out, bands, niter)
        if plan['how'] == 'iterate' and failed and out.result is not None:
            res.bad('result', 'detection result returned although the '
                    'exposure failed')
        a, b = lw.snap_mbexp(inp.mbexp), lw.snap_mbexp(tinp.mbexp)
        for k, band in enumerate(bands):
            self.books(res, band, orig[band], a[band], k in failed)
            for n in ('variance', 'mask', 'psf', 'wcs', 'filt'):
                d = core.diff(a[band][n], orig[band][n], n)
                if d:
                    res.bad('other-data', 'band %s: %s' % (band, d))
            if k not in failed:
                d = core.diff(a[band], b[band], band)
                if d:
                    res.bad('spread', 'band %s did not fail but differs from '
                            'the run without failures: %s' % (band, d))
        if plan['how'] == 'pipeline' and twin.exc is None:
            if out.exc is not None:
                res.bad('raised', 'the run failed: %r' % out.exc)
            elif not failed:
                d = core.diff(out.result, twin.result, 'result')
                if d:
                    res.bad('spread', d)
        return self.fin(res, inp, out)

    def fin(self, res, inp, out):
        res.log.append(core.digest(lw.snap_mbexp(inp.mbexp)))
        return res

    def attribute(self, res, plan, out, bands, niter):
        """walk the recorded calls: iterations of one exposure end early at
        its first failure"""
        if plan['how'] in ('determine',):
            return set(), None
        nexp = 1 if plan['how'] == 'iterate' else len(bands)
        fired = {(s, n) for s, n, q, k in out.ctx.fired_sites}
        ev = [(s, n) for s, n, q in out.ctx.events
              if s in ('back.run', 'detect.run')]
        failed = set()
        k = it = 0
        want = 'back.run'
        for e in ev:
            if k >= nexp:
                break
            if e[0] != want:
                res.bad('order', 'exposure %d: %s called where %s was due' % (
                    k, e[0], want))
                break
            if e in fired:
                failed.add(k)
                k, it, want = k + 1, 0, 'back.run'
                continue
            if want == 'back.run':
                want = 'detect.run'
            else:
                want = 'back.run'
                it += 1
                if it == niter:
                    k, it = k + 1, 0
        if k < nexp:
            res.bad('skipped', 'exposure %d was not sky-subtracted in %d '
                    'iterations' % (k, niter))
        return failed, None

    def books(self, res, band, orig, now, failed):
        gone = orig['image'].astype('f8') - now['image'].astype('f8')
        ok = np.isfinite(gone)
        mean = float(gone[ok].mean()) if ok.any() else 0.0
        rec = now['bg'] if now['bg'] is not None else 0.0
        if not np.isfinite(rec) or abs(rec - mean) > 1.0e-3 + 1.0e-4 * abs(
                mean):
            res.bad('bookkeeping', 'band %s (%s): recorded background %r, '
                    'removed on average %.6f' % (
                        band, 'failed' if failed else 'no failure', rec,
                        mean))

    def shrink_lists(self, plan):
        return [('faults',), ('flags',)] if plan.get('flags') else [
            ('faults',)]

    def shrink_more(self, plan):
        if plan['how'] != 'pipeline':
            yield from lw.shrink_lsst(plan)


_unused = (hooks, mdrun)
