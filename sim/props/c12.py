"""LSST measurement: one row per source, with its own data, whatever fails"""
import numpy as np

import base
import core
import lw
import wl
from props.c16 import rows_by_type, types_of

EDGE, ZERO, NODATA = 2**20, 2**25, 2**26
EXC = ['SimError', 'ValueError', 'LinAlgError', 'MemoryError']

NEED = ['row', 'col', 'row_diff', 'col_diff', 'row0', 'col0', 'ra', 'dec',
        'bmask', 'ormask', 'mfrac', 'stamp_size', 'stamp_flags',
        'gauss_flags', 'pgauss_flags']


def own_column(n):
    """which measurement a column belongs to"""
    for p in ('pgauss_', 'gauss_'):
        if n.startswith(p):
            return p[:-1]
    return 'base'


class Check(base.Check):
    id = 'C12'
    rule = ('a run is an LSST workload, also with blends, borders and areas '
            'without weight, measured undisturbed and with failing fits, '
            'undefined point-spread functions or centroids at chosen '
            'sources; every row is compared with stamps, masks and positions '
            'the simulator extracts itself; non-trivial when at least one '
            'object was measured')
    measure = ('distinct (mode, deblender, bands, sources, blended or not, '
               'stamp outcomes, failing measurements) tuples')
    n_quick = 1100
    n_thorough = 60000
    real = ['metadetect.lsst (working tree)', 'metadetect.fitting', 'galsim',
            'numpy', 'scipy', 'esutil']
    stubs = ['lsst.* (exposures, detection, deblending, centroids)', 'ngmix']

    def gen(self, seed):
        r = self.rng(seed)
        kw = dict(infvar=r.choice([False] * 5 + [None, 'half', 'oneband']))
        if r.random() < 0.6:
            kw['crowded'] = True
            kw['nobj'] = r.choice([2, 3, 4, 5])
        w = lw.gen_lsst_workload(r, **kw)
        w['no_mfrac'] = r.random() < 0.1
        w['no_ormasks'] = r.random() < 0.1
        if w['mode'] == 'metadetect' and len(types_of(w)) > 1 and \
                r.random() < 0.5:
            w['cfg']['metacal']['types'] = types_of(w)[:1]
        p = w['exp']
        if r.random() < 0.5:
            p['feats'].append(dict(
                kind=r.choice(['mfrac', 'ormask']), band=r.randrange(
                    len(p['bands'])),
                row=r.randrange(p['dim'][0]), col=r.randrange(p['dim'][1]),
                h=r.choice([2, 6]), w=r.choice([2, 8])))
        if r.random() < 0.15 and not w['no_mfrac']:
            # an object at the border, partly masked
            o = r.choice(p['objs'])
            k = r.randrange(2)
            far = r.random() < 0.5
            d = r.uniform(0.5, 4)
            o['row' if k == 0 else 'col'] = round(
                p['dim'][k] - 1 - d if far else d, 3)
            p['feats'].append(dict(
                kind='mfrac', band=r.randrange(len(p['bands'])),
                row=int(o['row']) + r.randint(-3, 3),
                col=int(o['col']) + r.randint(-3, 3), h=2, w=2))
        plan = dict(w=w, faults=[])
        if r.random() < 0.75:
            plan['faults'] = self.choose(r, lw.execute(w))
        return plan

    def choose(self, r, twin):
        ctx = twin.ctx
        start = None
        early = set()
        for k, (s, n, key) in enumerate(ctx.events):
            if s == 'meas.call':
                start = k
                break
            early.add((s, key))
        if start is None:
            return []
        out = []
        late = ctx.events[start:]
        kind = r.choice(['gauss', 'pgauss', 'am', 'psf', 'cen', 'mix',
                         'many'])
        seen = set()
        for s, n, key in late:
            if s == 'fit.gauss' and kind in ('gauss', 'mix', 'many') and \
                    ctx.seen_keys[(s, key)] == 1:
                out.append([s, list(key), None, r.choice(
                    ['flagged', 'flagged'] + EXC)])
            elif s == 'fit.pgauss' and kind in ('pgauss', 'mix', 'many') \
                    and ctx.seen_keys[(s, key)] == 1:
                out.append([s, list(key), None, r.choice(
                    ['flagged', 'nocov', 'flagged'])])
            elif s == 'psf.kernel' and kind in ('psf', 'mix', 'many') and \
                    (s, key) not in early and (s, key) not in seen:
                seen.add((s, key))
                out.append([s, list(key), None, 'lsst.InvalidParameterError'])
            elif s == 'meas.call' and kind in ('cen', 'mix', 'many') and \
                    (s, key) not in seen:
                seen.add((s, key))
                out.append([s, list(key), None, 'nancen'])
            elif s == 'fit.am' and kind == 'am':
                out.append([n])
        if not out:
            return []
        if kind == 'am':
            n = r.choice(out)[0]
            return [['fit.am', None, n + i, 'flagged'] for i in range(4)]
        n = {'mix': r.choice([2, 3]), 'many': max(1, len(out) // 3)}.get(
            kind, r.choice([1, 1, 2]))
        return r.sample(out, min(n, len(out)))

    # ------------------------------------------------------------------
    def run(self, plan):
        res = core.Result()
        w = plan['w']
        twin = lw.execute(w)
        res.took(twin)
        if twin.exc is not None:
            raise twin.exc
        twin_truth = self.rows(res, w, twin, 'undisturbed run')
        outcomes = set()
        if twin_truth:
            for t in twin_truth.values():
                outcomes |= {x['flag'] for x in t}
                res.nontrivial = res.nontrivial or bool(t)
        if plan['faults'] and not res.viol:
            out = lw.execute(w, plan['faults'])
            res.took(out)
            if out.exc is not None:
                res.bad('raised', 'a failure at one source ended the run: %r '
                        '(%s)' % (out.exc, out.ctx.fired_sites[:3]))
                return res
            # with a lost centroid the peak takes its place
            truth = self.rows(
                res, w, out, 'disturbed run', check_data=all(
                    f[0] == 'meas.call' for f in plan['faults']))
            if truth and twin_truth and not res.viol:
                self.compare(res, w, twin, out, twin_truth, truth)
            res.log.append(core.digest(out.result))
        res.sigs.add(repr((
            w['mode'], w['cfg'].get('deblender'), len(w['exp']['bands']),
            sorted(len(x) for x in (twin_truth or {}).values()),
            sorted(outcomes), sorted(res.faults))))
        res.log.append(core.digest(twin.result))
        return res

    # ------------------------------------------------------------------
    def rows(self, res, w, out, what, check_data=True):
        """check every row against the recorded truth; gives, per type, the
        list of sources in row order"""
        notes = out.ctx.notes
        kids = notes.get('kids', [])
        if w['mode'] == 'metadetect' and out.result is None:
            return None
        result = rows_by_type(w, out.result)
        ty = list(result)
        if w['mode'] == 'metadetect' and sorted(ty) != sorted(types_of(w)):
            res.bad('types', '%s: results for %s, configured %s' % (
                what, sorted(ty), sorted(types_of(w))))
            return None
        if len(kids) != len(ty):
            # a sheared image that cannot be detected on
            if not kids and all(v is None for v in result.values()):
                return None
            res.bad('deblend-runs', '%s: %d deblended catalogs for %d '
                    'results' % (what, len(kids), len(ty)))
            return None
        cen = notes.get('cen', [])
        total = sum(len(k) for k in kids)
        if len(cen) != total:
            res.bad('measured', '%s: %d sources, %d basic measurements' % (
                what, total, len(cen)))
            return None
        truth = {}
        pos = 0
        for k, t in enumerate(ty):
            c = cen[pos:pos + len(kids[k])]
            pos += len(kids[k])
            det = notes['detmask'][notes['kids>detmask'][k]]
            truth[t] = self.type_rows(res, w, out, t, k, kids[k], c, det,
                                      result[t], what, check_data)
            if res.viol:
                return None
        return truth

    def type_rows(self, res, w, out, t, k, kids, cens, det, rows, what,
                  check_data):
        what = '%s, %s' % (what, t)
        if rows is None:
            if kids:
                res.bad('rows', '%s: no rows for %d sources' % (
                    what, len(kids)))
            return []
        lost = [n for n in NEED if n not in rows.dtype.names]
        if lost:
            res.bad('column', '%s: no columns %s' % (what, lost))
            return []
        if rows.size != len(kids):
            res.bad('rows', '%s: %d rows for %d sources' % (
                what, rows.size, len(kids)))
            return []
        bypeak = {}
        for px, py, cx, cy in cens:
            bypeak[(px, py)] = (cx, cy)
        if sorted(bypeak) != sorted(kids):
            res.bad('measured', '%s: sources %s, basic measurements of %s'
                    % (what, sorted(kids), sorted(bypeak)))
            return []
        truth, used = [], set()
        p = w['exp']
        x0, y0 = p['xy0']
        wcs = lw.make_wcs(p)
        box = lw.box_of(p)
        for i, row in enumerate(rows):
            peak = self.peak_of(row, kids)
            if peak is None or peak in used:
                res.bad('rows', '%s: row %d at (%s, %s), offsets (%s, %s) '
                        'belongs to no source or to one with another row' % (
                            what, i, row['row'], row['col'],
                            row['row_diff'], row['col_diff']))
                return truth
            used.add(peak)
            cx, cy = bypeak[peak]
            nan = cx != cx
            d = dict(peak=peak, cen=(cx, cy))
            truth.append(d)
            want = [('row0', y0), ('col0', x0),
                    ('stamp_size', w['cfg'].get('stamp_size', 49)),
                    ('row', np.float32(peak[1] if nan else cy)),
                    ('col', np.float32(peak[0] if nan else cx)),
                    ('row_diff', np.float32(cy - peak[1])),
                    ('col_diff', np.float32(cx - peak[0]))]
            import lsst.geom as geom
            sky = wcs.pixelToSky(geom.Point2D(cx, cy))
            want += [('ra', sky.getRa().asDegrees()),
                     ('dec', sky.getDec().asDegrees())]
            dm, dx0, dy0 = det
            import lsst.afw.image as afw_image
            bit = afw_image.Mask.getPlaneBitMask('DETECTED')
            want.append(('bmask',
                         int(dm[peak[1] - dy0, peak[0] - dx0]) & ~bit))
            rr = int(np.floor((peak[1] if nan else cy) - y0 + 0.5))
            cc = int(np.floor((peak[0] if nan else cx) - x0 + 0.5))
            rr = min(max(rr, 0), p['dim'][0] - 1)
            cc = min(max(cc, 0), p['dim'][1] - 1)
            om = 0
            for m in out.inp.ormasks or []:
                om |= int(m[rr, cc])
            want.append(('ormask', om))
            for n, v in want:
                g = row[n]
                if not (g == v or (g != g and v != v) or abs(g - v) <=
                        1.0e-5 * abs(v) * (n in ('row', 'col', 'row_diff',
                                                 'col_diff'))
                        + 1e-9 * (n in ('ra', 'dec')) + 2e-5 * (
                            n in ('row_diff', 'col_diff'))):
                    res.bad('bookkeeping', '%s: row %d (peak %s) has %s %r, '
                            'expected %r' % (what, i, peak, n, g, v))
                    return truth
            self.mfrac(res, w, out, row, (peak if nan else (cx, cy)),
                       '%s: row %d' % (what, i))
            self.stamp(res, w, out, t, k, row, d, box,
                       '%s: row %d (peak %s)' % (what, i, peak), check_data)
            if res.viol:
                return truth
        return truth

    def peak_of(self, row, kids):
        if row['row_diff'] == row['row_diff']:
            y = float(row['row']) - float(row['row_diff'])
            x = float(row['col']) - float(row['col_diff'])
        else:
            y, x = float(row['row']), float(row['col'])
        k = (int(round(x)), int(round(y)))
        return k if k in kids else None

    def mfrac(self, res, w, out, row, cen, what):
        p = w['exp']
        if out.inp.mfrac_mbexp is None:
            want = 0.0
        else:
            m, ws = 0, 0
            for e, f in zip(out.inp.mbexp.singles,
                            out.inp.mfrac_mbexp.singles):
                v = e.variance.array
                wt = 1 / np.median(v[np.isfinite(v) & (v > 0)])
                m = m + wt * f.image.array
                ws += wt
            m = m / ws
            x, y = cen[0] - p['xy0'][0], cen[1] - p['xy0'][1]
            sig = 1.2 / 2.3548200450309493
            rad = int(round(sig * 5))
            ix, iy = int(np.floor(x + 0.5)), int(np.floor(y + 0.5))
            yy, xx = np.mgrid[0:p['dim'][0], 0:p['dim'][1]]
            use = (abs(yy - iy) <= rad) & (abs(xx - ix) <= rad)
            g = np.exp(-0.5 * ((yy - y)**2 + (xx - x)**2) * 0.04 / sig**2)
            g = g * use
            want = float((g * m).sum() / g.sum()) if use.any() else 1.0
        if not abs(float(row['mfrac']) - want) < 2e-3:
            res.bad('mfrac', '%s: masked fraction %r, around the source it '
                    'is %r' % (what, row['mfrac'], want))

    # ------------------------------------------------------------------
    def exposures(self, w, out, t):
        """the images the sources of this type are cut from"""
        if w['mode'] == 'photometry':
            return out.inp.mbexp
        c = getattr(out, '_mcal', None)
        if c is None:
            from metadetect.lsst import metadetect as md
            from metadetect.lsst.configs import get_config
            from metadetect.lsst.metacal_exposures import (
                get_metacal_mbexps_fixnoise)
            st = None
            mc = w['cfg'].get('metacal', {})
            if mc.get('reconv_type', 'fitgauss') == 'fitgauss':
                mf, wg = md.get_mfrac_mbexp(out.inp.mbexp,
                                            out.inp.mfrac_mbexp)
                st = md.fit_original_psfs_mbexp(
                    mbexp=out.inp.mbexp, rng=np.random.RandomState(1),
                    wgts=wg, config=get_config())['perband']
            c, _ = get_metacal_mbexps_fixnoise(
                mbexp=out.inp.mbexp, noise_mbexp=out.inp.noise_mbexp,
                psf_stats=st, types=types_of(w))
            out._mcal = c
        return c[t]

    def stamp(self, res, w, out, t, k, row, d, box, what, check_data):
        import lsst.geom as geom
        peak, (cx, cy) = d['peak'], d['cen']
        b = geom.Box2I(geom.Point2I(*peak), geom.Extent2I(1, 1))
        b.grow(w['cfg'].get('stamp_size', 49) // 2)
        ok = set()
        flag = int(row['stamp_flags'])
        nan = cx != cx
        mb = self.exposures(w, out, t)
        if not box.contains(b):
            ok = {EDGE}
        else:
            for e in mb.singles:
                v = e[b].variance.array
                v = v[v > 0]
                if v.size == 0 or not np.isfinite(np.median(v)):
                    ok.add(ZERO)
                if nan and type(e.getPsf()).__name__ == 'CoaddLikePsf':
                    ok.add(NODATA)
                if ('psf.kernel', (e.getPsf()._sim, geom._round(cx)
                                   if not nan else None,
                                   geom._round(cy) if not nan else None)
                        ) in out.ctx.keyed:
                    ok.add(NODATA)
        d['flag'] = flag
        d['psf_missing'] = NODATA in ok
        if not ok:
            if flag != 0:
                res.bad('stamp-flags', '%s: flagged %d although its stamp is '
                        'good' % (what, flag))
            elif check_data:
                self.data(res, w, out, t, k, row, d, b, mb, what)
            return
        if flag == 0 or flag & ~sum(ok):
            res.bad('stamp-flags', '%s: stamp_flags %d, expected one of %s'
                    % (what, flag, sorted(ok)))
            return
        for c in ('gauss', 'pgauss'):
            if row[c + '_flags'] == 0:
                res.bad('stamp-flags', '%s: %s_flags is 0 without a stamp' % (
                    what, c))
            for n in row.dtype.names:
                if n.startswith(c + '_') and n.endswith(
                        ('_s2n', '_T', '_g', '_flux')) and np.any(
                            np.isfinite(row[n]) & (row[n] != -9999)):
                    res.bad('stamp-flags', '%s: %s is %r without a stamp' % (
                        what, n, row[n]))

    def data(self, res, w, out, t, k, row, d, b, mb, what):
        """the fits of a stamp the simulator cut out itself"""
        import lsst.geom as geom
        import ngmix
        from metadetect import fitting
        peak, (cx, cy) = d['peak'], d['cen']
        nan = cx != cx
        pos = geom.Point2D(*peak) if nan else geom.Point2D(cx, cy)
        p = w['exp']
        m = lw.make_wcs(p).cd * 3600
        jac = dict(dudx=m[1, 1], dudy=-m[1, 0], dvdx=m[0, 1], dvdy=-m[0, 0])
        mbobs = ngmix.MultiBandObsList()
        for i, e in enumerate(mb.singles):
            im = e.image.array.astype('f8')
            im = im - self.others(w, out, k, i, peak, im.shape, p)
            sl = (slice(b.y0 - p['xy0'][1], b.y0 - p['xy0'][1] + b.h),
                  slice(b.x0 - p['xy0'][0], b.x0 - p['xy0'][0] + b.w))
            v = e.variance.array
            wt = np.full((b.h, b.w), 1 / np.median(v[sl][v[sl] > 0]))
            pim = np.asarray(e.getPsf().computeKernelImage(
                geom.Point2D(cx, cy)).array, 'f4')
            pc = (np.array(pim.shape) - 1) / 2
            ps = ngmix.Observation(
                pim, weight=pim * 0 + 1 / (pim.max() * 0.0001)**2,
                jacobian=ngmix.Jacobian(row=pc[0], col=pc[1], **{
                    'dudrow': jac['dudy'], 'dudcol': jac['dudx'],
                    'dvdrow': jac['dvdy'], 'dvdcol': jac['dvdx']}))
            o = ngmix.Observation(
                im[sl].copy(), weight=wt, psf=ps,
                bmask=np.zeros((b.h, b.w), 'i4'),
                jacobian=ngmix.Jacobian(
                    x=pos.x - b.x0, y=pos.y - b.y0, **jac))
            ol = ngmix.ObsList()
            ol.append(o)
            mbobs.append(ol)
        sb = w['cfg'].get('shear_bands') or p['bands']
        sb = [i for i, x in enumerate(p['bands']) if x in sb]
        rng = np.random.RandomState(5)
        fw = w['cfg'].get('pgauss', {}).get('fwhm', 2.0)
        want = fitting.fit_mbobs_wavg(
            mbobs=mbobs, fitter=ngmix.prepsfmom.PGaussMom(fwhm=fw),
            bmask_flags=0)
        runner = ngmix.runners.PSFRunner(
            fitter=ngmix.admom.AdmomFitter(rng=rng),
            guesser=ngmix.guessers.GMixPSFGuesser(
                rng=rng, ngauss=1, guess_from_moms=True), ntry=4)
        wg = fitting.fit_mbobs_gauss(
            mbobs=mbobs, bmask_flags=0, psf_runner=runner, rng=rng,
            shear_bands=sb)
        for c, ref in (('gauss', wg), ('pgauss', want)):
            if int(ref[c + '_flags'][0]) != int(row[c + '_flags']):
                res.bad('stamp-data', '%s: %s_flags %d, of its own stamp %d'
                        % (what, c, row[c + '_flags'], ref[c + '_flags'][0]))
                return
            if row[c + '_flags'] != 0:
                res.probes['fit-flagged'] += 1
                continue
            for n in ('s2n', 'T', 'band_flux', 'psf_T', 'g'):
                n = c + '_' + n
                if n not in row.dtype.names:
                    continue
                a = np.asarray(row[n], 'f8').ravel()
                q = np.asarray(ref[n][0], 'f8').ravel()
                if a.shape != q.shape or not np.allclose(
                        a, q, rtol=2e-3, atol=2e-3, equal_nan=True):
                    res.bad('stamp-data', '%s: %s is %s, of its own stamp %s'
                            % (what, n, a, q))
                    return
        res.probes['stamps-compared'] += 1

    def others(self, w, out, k, band, peak, shape, p):
        """models of all other sources (scarlet only)"""
        tot = np.zeros(shape)
        if 'models' not in out.ctx.notes:
            return tot
        data = out.ctx.notes['models'][k]
        md = data.metadata
        from scipy.signal import convolve2d
        for full in data.blends.values():
            for bd in full.children.values():
                for sid, cen, yx0, arr in bd.sources:
                    if (cen[1], cen[0]) == peak:
                        continue
                    q = np.zeros(shape)
                    # grown by the psf, inside the image
                    big = np.pad(arr[band].astype('f8'), 1)
                    y, x = yx0[0] - 1 - p['xy0'][1], yx0[1] - 1 - p['xy0'][0]
                    ys = slice(max(y, 0), min(y + big.shape[0], shape[0]))
                    xs = slice(max(x, 0), min(x + big.shape[1], shape[1]))
                    q[ys, xs] = convolve2d(
                        big[ys.start - y:ys.stop - y,
                            xs.start - x:xs.stop - x],
                        md['psf'][band], mode='same')
                    tot += q
        return tot

    # ------------------------------------------------------------------
    def compare(self, res, w, twin, out, ttruth, truth):
        """only rows with a failure change, only in what failed, and are
        flagged for it"""
        fired = out.ctx.fired_sites
        n = dict(gauss=set(), pgauss=set(), am=set())
        moved, dark = set(), set()
        for s, i, key, kind in fired:
            if s == 'fit.gauss':
                n['gauss'].add(key)
            elif s == 'fit.pgauss':
                n['pgauss'].add(key)
            elif s == 'fit.am':
                n['am'].add(1)
            elif s == 'meas.call':
                moved.add(tuple(key[:2]))
        changed = dict(gauss=0, pgauss=0)
        a, b = rows_by_type(w, out.result), rows_by_type(w, twin.result)
        for t in a:
            if a[t] is None or b[t] is None:
                if a[t] is not b[t]:
                    res.bad('rows', '%s: rows lost or gained' % t)
                continue
            ix = {x['peak']: j for j, x in enumerate(ttruth[t])}
            for i, d in enumerate(truth[t]):
                j = ix.get(d['peak'])
                if j is None:
                    res.bad('rows', '%s: another set of sources' % t)
                    return
                # its centroid was lost
                if d['peak'] in moved:
                    continue
                what = '%s: row %d (peak %s)' % (t, i, d['peak'])
                bad = set()
                for name in a[t].dtype.names:
                    df = core.diff(a[t][name][i:i + 1], b[t][name][j:j + 1],
                                   name)
                    if df is None:
                        continue
                    c = own_column(name)
                    if d['psf_missing'] and (
                            c != 'base' or name == 'stamp_flags'):
                        continue
                    if c == 'base':
                        res.bad('spread', '%s: %s changed: %s' % (
                            what, name, df))
                        return
                    bad.add(c)
                for c in bad:
                    changed[c] += 1
                    if a[t][c + '_flags'][i] == 0:
                        res.bad('unflagged', '%s: %s columns changed without '
                                'a flag' % (what, c))
        can = dict(gauss=len(n['gauss']) + len(n['am']),
                   pgauss=len(n['pgauss']))
        for c in changed:
            if changed[c] > can[c]:
                res.bad('spread', '%d rows changed in %s by %d failures' % (
                    changed[c], c, can[c]))
        # a failed joint fit always costs its row
        if not moved and not any(x['psf_missing'] for v in truth.values()
                                 for x in v):
            if len(n['gauss']) > changed['gauss']:
                res.bad('unflagged', '%d joint fits failed, %d rows show it'
                        % (len(n['gauss']), changed['gauss']))
            if n['pgauss'] and not changed['pgauss']:
                res.bad('unflagged', 'a moments fit failed, no row shows it')

    def shrink_lists(self, plan):
        return [('faults',)]

    def shrink_more(self, plan):
        yield from lw.shrink_lsst(plan)


_unused = wl
