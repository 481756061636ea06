import numpy as np

import core
import mdrun
import wl
from props import fitfaults as ff


class Check(ff.FitFaults):
    id = 'C04'
    level = 'exploration'

    def judge(self, res, w, plan, twin, out):
        if out.exc is not None:
            if ff.core_lib(out.exc):
                res.bad('failed-run', 'a fit failure ended the run: %r'
                        % out.exc)
                return
            raise out.exc
        a, b = twin.result, out.result
        if a is None or b is None:
            return
        fl = wl.fitter_list(w['cfg'])
        idx = self.fired_index(out)
        flags_bad = w['cfg'].get('bmask_flags', 0)
        stamps = {}
        for tag, anyw, bm, wt in out.ctx.notes.get('stamp', []):
            if tag[0] == 'main':
                stamps.setdefault((tag[1], tag[3]), {})[tag[2]] = (anyw, bm)
        nband = w['mb']['nband']
        for t in sorted(b):
            rb, ra = b[t], a.get(t)
            if rb is None:
                continue
            same_n = ra is not None and ra.size == rb.size
            joint_flagged = {}
            for i in range(rb.size):
                pos = mdrun.row_pos(rb[i])
                fired = idx.get((t, pos), [])
                sb = set(str(rb['shear_bands'][i]))
                for model, col, f in fl:
                    flag = int(rb[col + '_flags'][i])
                    if flag == 0:
                        self.genuine(res, t, i, model, col, rb,
                                     ra if same_n else None)
                    for site, key, kind in fired:
                        if not ff.touches(site, model):
                            continue
                        wavg = model in ('wmom', 'ksigma', 'pgauss')
                        res.sigs.add('%s|%s|%s|%s|%d|%d|%s' % (
                            site, kind, key[4], str(key[2]) in sb, nband,
                            mdrun.ncomb(w), bool(flag)))
                        if wavg or site == 'meds.get_obs':
                            if key[4] == 'psf' and str(key[2]) not in sb:
                                continue
                            if flag == 0:
                                res.bad('unflagged-failure',
                                        'type %s row %d: %s failed (%s) in '
                                        'band %s (%s) but %s_flags is zero'
                                        % (t, i, site, kind, key[2], key[4],
                                           col))
                        else:
                            joint_flagged.setdefault(
                                (col, site, key, kind), []).append(flag)
                    if not w.get('color'):
                        st = stamps.get((t, pos))
                        if st is None:
                            continue
                        badb = [x for x, (anyw, bm) in st.items()
                                if not anyw or (bm & flags_bad)]
                        if badb:
                            res.probes['bad-stamp'] += 1
                        elif model in ('am', 'admom', 'gauss') and not any(
                                ff.touches(x[0], model) for x in fired):
                            pf = int(rb[col + '_psf_flags'][i])
                            if pf != 0:
                                res.bad('flagged-success',
                                        'type %s row %d: %s_psf_flags is %d '
                                        'although no psf fit failed' % (
                                            t, i, col, pf))
                        if badb and flag == 0:
                            res.bad('unflagged-stamp',
                                    'type %s row %d: the stamp in band %s '
                                    'has no weight or rejected mask bits '
                                    'but %s_flags is zero' % (
                                        t, i, badb[0], col))
            for (col, site, key, kind), lst in joint_flagged.items():
                # with several combinations the call belongs to one of them
                ok = all(lst) if mdrun.ncomb(w) == 1 and len(lst) == 1 \
                    else any(lst)
                if not ok:
                    res.bad('unflagged-failure',
                            'type %s object at %s: %s failed (%s) in band '
                            '%s (%s) but %s_flags is zero' % (
                                t, key[3], site, kind, key[2], key[4], col))

    def genuine(self, res, t, i, model, col, rb, ra):
        for n in ff.finite_cols(model, col, rb.dtype.names):
            v = rb[n][i]
            if model == 'gauss' and 'band_flux' in n:
                continue
            if not np.all(np.isfinite(v)):
                res.bad('unflagged-nonfinite',
                        'type %s row %d: %s_flags is zero but %s is %r'
                        % (t, i, col, n, v))
                return
        if model == 'gauss':
            fx = np.atleast_1d(rb[col + '_band_flux'][i])
            fe = np.atleast_1d(rb[col + '_band_flux_flags'][i])
            sb = [int(c) for c in str(rb['shear_bands'][i])]
            for k in sb:
                if not np.isfinite(fx[k]) or fe[k] != 0:
                    res.bad('unflagged-nonfinite',
                            'type %s row %d: %s_flags is zero but the flux '
                            'of shear band %d is %r, flags %r'
                            % (t, i, col, k, fx[k], fe[k]))
                    return
        for n in ('obj_flags', 'psf_flags'):
            if rb[col + '_' + n][i] != 0:
                res.bad('unflagged-part',
                        'type %s row %d: %s_flags is zero but %s_%s is not'
                        % (t, i, col, col, n))
        if ra is not None:
            for n in mdrun.fitter_cols(rb.dtype, col):
                d = core.diff(rb[n][i:i + 1], ra[n][i:i + 1], n)
                if d:
                    res.bad('unflagged-altered',
                            'type %s row %d has %s_flags zero but differs '
                            'from the run in which nothing failed: %s'
                            % (t, i, col, d))
                    return
