"""Every row belongs to its own place in its own sheared image"""
import numpy as np

import base
import core
import hooks
import mdrun
import wl
from props import fitfaults as ff

SHEARS = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
PSF_FAILURE = 2**21
EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError']


def near_half(x, eps=2e-3):
    return abs((float(x) % 1.0) - 0.5) < eps


def region_or(mask, row, col, k):
    ny, nx = mask.shape
    r = min(max(int(np.floor(row + 0.5)), 0), ny - 1)
    c = min(max(int(np.floor(col + 0.5)), 0), nx - 1)
    if k <= 1:
        return int(mask[r, c])
    v = 0
    for x in np.unique(mask[max(0, r - k):r + k + 1,
                            max(0, c - k):c + k + 1]):
        v |= int(x)
    return v


def gauss_mean(mf, jac, row, col, box, fwhm):
    """gaussian average of a map around a position, within a box"""
    r0, r1, c0, c1 = box
    rr, cc = np.mgrid[r0:r1, c0:c1]
    if rr.size == 0:
        return None
    dr, dc = rr - row, cc - col
    u = jac.dudrow * dr + jac.dudcol * dc
    v = jac.dvdrow * dr + jac.dvdcol * dc
    r2 = u * u + v * v
    s2 = (fwhm / 2.3548200450309493)**2
    w = np.exp(-0.5 * r2 / s2) * (r2 < (2 * fwhm)**2)
    if w.sum() <= 0:
        return None
    return float((w * mf[r0:r1, c0:c1]).sum() / w.sum())


def unshear(row, col, mtype, step, jac, dims):
    if mtype not in SHEARS:
        return float(row), float(col)
    a, b = SHEARS[mtype]
    g = np.array([a * step, b * step])
    f = 1 / np.sqrt(1 - g @ g)
    A = f * np.array([[1 + g[0], g[1]], [g[1], 1 - g[0]]])
    J = np.array([[jac.dudcol, jac.dudrow], [jac.dvdcol, jac.dvdrow]])
    cc, cr = (dims[1] - 1) / 2, (dims[0] - 1) / 2
    p = np.linalg.inv(J) @ np.linalg.inv(A) @ J @ np.array(
        [col - cc, row - cr])
    return p[1] + cr, p[0] + cc


def nearest(near, shape, sr, sc, dims):
    """(pixels nearest to this object's own segment, undecided pixels) within
    the part of a stamp that shows the image"""
    seg, number = near
    n = shape[0]
    part = seg[max(sr, 0):min(sr + n, dims[0]),
               max(sc, 0):min(sc + n, dims[1])]
    rr, cc = np.mgrid[0:part.shape[0], 0:part.shape[1]]

    def dist(m):
        if not m.any():
            return np.full(part.shape, np.inf)
        r, c = np.nonzero(m)
        return ((rr[..., None] - r)**2 + (cc[..., None] - c)**2).min(axis=-1)

    mine = dist(part == number)
    other = dist((part != number) & (part != 0))
    if np.isinf(other).all():
        return np.ones(part.shape, bool), np.zeros(part.shape, bool)
    return mine <= other, mine == other


# sizes of stamps that suit fourier transforms
FFT_SIZES = [k for n in range(1, 12) for k in (2**n, 3 * 2**(n - 1))]


def box_sizes(cat, m):
    """the size of the stamp of each detection, with a pixel of doubt where
    rounding decides"""
    out = []
    for d in cat:
        sizes = set()
        for eps in (-1e-4, 1e-4):
            if m['box_type'] == 'iso_radius':
                r = max(float(d['iso_radius']), m['rad_min'])
                s = int(2 * r * m['rad_fac'] + m['box_padding'] + eps)
            else:
                e = 1 - float(d['b']) / float(d['a'])
                sig = float(d['flux_radius']) * 2 / 2.3548200450309493
                s = max(2 * int(np.ceil(sig * m['sigma_fac'] * (1 + e) + eps)),
                        int(d['xmax'] - d['xmin'] + 1),
                        int(d['ymax'] - d['ymin'] + 1))
            s = min(max(s, m['min_box_size']), m['max_box_size'])
            sizes.add(min([k for k in FFT_SIZES + [m['max_box_size']]
                           if s <= k <= m['max_box_size']]))
        out.append(sizes)
    return out


class Check(base.Check):
    id = 'C17'
    rule = ('a run is one workload measured after up to two stopped or '
            'completed attempts on the same object, with failing fits, '
            'blanked types and failed detections; every row of the last '
            'result is recomputed from the sheared images, masks and stamps '
            'the run made; non-trivial when there was at least one row and '
            'either a fault, an earlier attempt or a position near the edge')
    measure = ('distinct (type, fitters, mask region, near edge, fault or '
               'history, flagged or not) tuples of rows')
    n_quick = 500
    n_thorough = 20000

    def gen(self, seed):
        r = self.rng(seed)
        color = r.random() < 0.3
        w = mdrun.gen_workload(r, color=color,
                               noise_image=True if color else None)
        mb = w['mb']
        for o in mb['objs']:      # single bits around objects
            for _ in range(r.choice([0, 1, 2, 3])):
                mb['masks'].append(dict(
                    row=int(o['row'] + r.choice([-1, 1]) * r.uniform(0, 6)),
                    col=int(o['col'] + r.choice([-1, 1]) * r.uniform(0, 6)),
                    h=0, w=0, band=r.randrange(mb['nband']),
                    kind=r.choice(['bmask', 'ormask', 'ormask', 'mfrac'])))
        if r.random() < 0.5:      # objects near the edges
            for o in mb['objs']:
                if r.random() < 0.6:
                    ax = r.choice(['row', 'col'])
                    d = mb['dims'][0 if ax == 'row' else 1]
                    # beyond the edge a shear may bring it into the image
                    lo = r.choice([-0.4, -2.5])
                    o[ax] = round(r.choice([
                        r.uniform(lo, 3), d - 1 - r.uniform(lo, 3)]), 3)
                    # and bits there that must not wrap around
                    mb['masks'].append(dict(
                        row=int(min(max(o['row'], 0), mb['dims'][0] - 1)),
                        col=int(min(max(o['col'], 0), mb['dims'][1] - 1)),
                        h=r.choice([1, 2]), w=r.choice([1, 2]),
                        band=r.randrange(mb['nband']),
                        kind=r.choice(['bmask', 'ormask', 'mfrac'])))
                    # nor bits of the opposite edge
                    far = dict(row=int(o['row']), col=int(o['col']))
                    far[ax] = d - 1 if o[ax] < d / 2 else 0
                    mb['masks'].append(dict(
                        far, h=3, w=3, band=r.randrange(mb['nband']),
                        kind=r.choice(['bmask', 'ormask'])))
            if r.random() < 0.5:
                mb['mfrac'] = True
            if r.random() < 0.5:
                w['cfg']['metacal']['step'] = r.choice([0.05, 0.1])
        cfg = w['cfg']
        if r.random() < 0.3:
            cfg['metacal']['step'] = r.choice([0.02, 0.05, 0.1])
        if r.random() < 0.4:
            cfg['mask_region'] = r.choice([1, 2, 4, 5])
        if r.random() < 0.4:
            cfg['ormask_region'] = r.choice([1, 2, 3, 5])
        if r.random() < 0.1:
            w['cfg']['metacal']['types'] = ['noshear', '1p', '1p_psf']
        if r.random() < 0.15:
            # an object outside the image that a shear brings into it, and
            # bits along the opposite edge
            cfg['metacal']['step'] = 0.1
            cfg['metacal']['types'] = ['1p', '1m', 'noshear']
            for k in ('mask_region', 'ormask_region'):
                if r.random() < 0.7:
                    cfg.pop(k, None)
            ny, nx = mb['dims']
            ax, d = r.choice([('row', ny), ('col', nx)])
            low = r.random() < 0.6
            o = mb['objs'][0]
            out = r.uniform(0.6, 1.8)
            o[ax] = round(-out if low else d - 1 + out, 3)
            o['row' if ax == 'col' else 'col'] = round(
                (nx if ax == 'row' else ny) / 2 + r.uniform(-6, 6), 3)
            o['flux'] = [40.0] * mb['nband']
            far = d - 1 if low else 0
            mb['masks'].append(dict(
                row=far if ax == 'row' else ny // 2,
                col=far if ax == 'col' else nx // 2,
                h=2 if ax == 'row' else ny, w=2 if ax == 'col' else nx,
                band=r.randrange(mb['nband']),
                kind=r.choice(['bmask', 'ormask'])))
        x = r.random()
        if x < 0.25:
            cfg['meds']['min_box_size'], cfg['meds']['max_box_size'] = \
                r.choice([(16, 20), (20, 40), (24, 48), (8, 64), (32, 32),
                          (48, 64), (18, 44)])
        if r.random() < 0.3:
            cfg['meds']['weight_type'] = 'uberseg'
        if r.random() < 0.3 and mb['objs']:
            # a close neighbour
            o = r.choice(mb['objs'])
            n = dict(o)
            for ax in ('row', 'col'):
                n[ax] = round(o[ax] + r.choice([-1, 1]) * r.uniform(3, 8), 3)
            mb['objs'].append(n)
        if color:
            # observations of a colour with their own masks
            w['color']['masks'] = {k: [dict(
                row=int(o['row'] + r.uniform(-6, 6)),
                col=int(o['col'] + r.uniform(-6, 6)),
                h=r.choice([0, 1, 4]), w=r.choice([0, 1, 4]),
                band=r.randrange(mb['nband']),
                kind=r.choice(['mfrac', 'bmask', 'ormask']))
                for o in mb['objs'] for _ in range(r.choice([0, 1, 2]))]
                for k in w['color']['keys']}
        plan = dict(w=w, faults=[], hist=[])
        twin = mdrun.execute(w, count_calls=True)
        if twin.exc is None and r.random() < 0.7:
            plan['faults'] = ff.choose_faults(
                r, ff.stamp_keys(twin.ctx, False), mb['nband'])
            if r.random() < 0.2:
                plan['faults'].append(
                    ['detect', None, r.randrange(6), 'nodetect'])
            if r.random() < 0.2:
                plan['faults'].append(
                    ['metacal.type',
                     ['main', r.choice(wl.mcal_types(w['cfg']))], None,
                     'blank'])
        for _ in range(r.choice([0, 0, 1, 2])):
            h = dict(faults=[], target=None)
            if r.random() < 0.5:
                h['faults'] = ff.choose_faults(
                    r, ff.stamp_keys(twin.ctx, False), mb['nband'])
            if twin.exc is None and r.random() < 0.7:
                h['target'] = hooks.pick_target(r, twin.cctx.counts,
                                                r.choice(EXC))
            plan['hist'].append(h)
        return plan

    def run(self, plan):
        res = core.Result()
        w = plan['w']
        inp = mdrun.Inputs(w)
        md = 'new'
        mc = {}
        now = {}
        colors = []

        def watch(ctx):
            ctx.full = True
            now['ctx'] = ctx
            del colors[:]

        if inp.color_func is not None:
            orig = inp.color_func

            def func(flux):
                k = orig(flux)
                colors.append((len(now['ctx'].notes.get('det', [])) - 1, k))
                return k
            inp.color_func = func

        for h in plan['hist']:
            o = mdrun.execute(w, h['faults'], inp=inp, md=md,
                              target=h['target'], on_ctx=watch)
            res.took(o)
            res.log.append(repr(type(o.exc).__name__))
            mc.update(o.ctx.notes.get('mcal', []))
            if getattr(o, 'md', None) is not None:
                md = o.md
        out = mdrun.execute(w, plan['faults'], inp=inp, md=md, on_ctx=watch)
        res.took(out)
        if out.exc is not None:
            if ff.core_lib(out.exc):
                if not out.ctx.fired:
                    raise out.exc
                res.bad('failed-run', 'a fit failure ended the run: %r'
                        % out.exc)
                return res
            raise out.exc
        mc.update(out.ctx.notes.get('mcal', []))
        if out.result is not None:
            self.judge(res, w, plan, out, inp, mc, colors)
        res.log.append(core.digest(out.result))
        return res

    # ------------------------------------------------------------------
    def detections(self, w, mc, mtype, det):
        import sxdes
        bands = [mc[mtype][b] for b in det]
        wts = []
        for b in bands:
            use = b['weight'] > 0
            wts.append(np.median(b['weight'][use]))
        wts = np.array(wts)
        im = sum(b['image'] * x for b, x in zip(bands, wts)) / wts.sum()
        mask = np.zeros(im.shape, bool)
        for b in bands:
            if b['bmask'] is not None:
                mask |= (b['bmask'] & w['cfg']['nodet_flags']) != 0
        sx = w['cfg'].get('sx')
        if sx is not None:
            sx = dict(sx)
            th = sx.pop('detect_thresh')
            sx['filter_kernel'] = np.array(sx['filter_kernel'])
        else:
            sx, th = sxdes.SX_CONFIG, sxdes.DETECT_THRESH
        return sxdes.run_sep(image=im, noise=np.sqrt(1 / wts.sum()),
                             config=sx, mask=mask, thresh=th)

    def maps(self, w, mb, shear):
        """what the observations of these bands say about each pixel"""
        dims = tuple(w['mb']['dims'])
        medw = []
        for b in range(w['mb']['nband']):
            wt = mb[b][0].weight
            medw.append(np.median(wt[wt > 0]) if (wt > 0).any() else 0.0)
        bm = np.zeros(dims, 'i8')
        om = np.zeros(dims, 'i8')
        mf = np.zeros(dims)
        ws = sum(medw[b] for b in shear)
        for b in shear:
            o = mb[b][0]
            bm |= o.bmask
            om |= o.ormask
            if w['mb']['mfrac']:
                mf += o.mfrac * medw[b] / ws
        return mb, bm, om, mf, medw

    def judge(self, res, w, plan, out, inp, mcs, colors):
        cfg = w['cfg']
        nb = w['mb']['nband']
        dims = tuple(w['mb']['dims'])
        mc = mcs['main']
        jac = inp.mbobs[0][0].jacobian
        step = cfg['metacal'].get('step', 0.01)
        nodet = {n for site, n, _, _ in out.ctx.fired_sites
                 if site == 'detect'}
        stamps, fits = {}, {}
        for tag, im, r0, c0, wt, bm in out.ctx.notes.get('stampimg', []):
            stamps.setdefault(tag[:4], []).append(
                (im, r0, c0, wt, bm))
        for kind, key, fl, fe in out.ctx.notes.get('fit', []):
            if key is not None and len(key) == 5 and key[4] == 'obj':
                fits.setdefault((kind,) + tuple(key[:4]), []).append(
                    (fl, fe))
        failed = set()
        for site, n, key, kind in out.ctx.fired_sites:
            if site == 'meds.get_obs' and key is not None:
                failed.add(tuple(key[:4]))
        kb = cfg.get('mask_region', 1)
        ko = cfg['ormask_region'] if cfg.get('ormask_region', 1) > 1 else kb
        fitters = wl.fitter_list(cfg)
        fwhm = cfg.get('mfrac_fwhm')
        if fwhm is None:
            f0 = fitters[0][2].get('weight', {})
            fwhm = f0.get('fwhm', 1.2)
        for mtype in wl.mcal_types(cfg):
            rows = out.result.get(mtype)
            pos = 0
            for ic in range(mdrun.ncomb(w)):
                shear = mdrun.bands_of_comb(w, ic)
                if w.get('det') is None:
                    det = list(range(nb))
                elif w['det'] == 'shear_bands':
                    det = shear
                else:
                    det = w['det'][ic]
                lab = ''.join(str(b) for b in sorted(det))
                j = ic * len(mc) + list(mc).index(mtype)
                cat, seg = self.detections(w, mc, mtype, det)
                n = 0 if j in nodet else cat.size
                have = 0 if rows is None else max(0, min(
                    n, rows.size - pos))
                if have != n:
                    res.bad('rows', '%s bands %s: %d detections in the '
                            'sheared image, %d rows' % (mtype, det, n, have))
                    return
                if n == 0:
                    continue
                sub = rows[pos:pos + n]
                pos += n
                xs, ys = cat['x'], cat['y']
                sizes = box_sizes(cat, cfg['meds'])
                d = np.hypot(sub['sx_col'] - xs, sub['sx_row'] - ys)
                if not (d < 2e-3).all():
                    res.bad('position', '%s: rows at %s, detections at '
                            '%s' % (mtype, list(zip(
                                sub['sx_row'], sub['sx_col']))[:4],
                                list(zip(ys, xs))[:4]))
                    return
                keys = [None] * n
                if w.get('color'):
                    keys = [k for d, k in colors if d == j]
                    if len(keys) != n:
                        res.bad('colours', '%s: %d detections, the colours '
                                'of %d were asked for' % (
                                    mtype, n, len(keys)))
                        return
                known = {}
                for i in range(n):
                    k = keys[i]
                    if k not in known:
                        mb = inp.mbobs if k is None else inp.color_mbobs[k]
                        known[k] = (mb.meta['_simkey'],) + self.maps(
                            w, mb, shear)
                    ck, mb, bm, om, mf, medw = known[k]
                    self.common(res, w, mb, shear, lab, sub[i:i + 1], medw,
                                mtype)
                    near = seg, int(cat['number'][i])
                    self.row(res, w, mtype, sub[i], jac, dims, step, bm, om,
                             mf, kb, ko, fwhm, stamps, fits, mcs[ck],
                             fitters, nb, failed, ck, near, sizes[i])
                    if res.viol:
                        return
                if len(known) > 1:
                    res.probes['rows of several colours'] += 1
            if rows is not None and pos != rows.size:
                res.bad('rows', '%s: %d rows beyond the detections' % (
                    mtype, rows.size - pos))
                return
        fr = bool(out.ctx.fired)
        for mtype in wl.mcal_types(cfg):
            rows = out.result.get(mtype)
            if rows is None:
                continue
            for row in rows:
                e = min(row['sx_row'], row['sx_col'],
                        dims[0] - 1 - row['sx_row'],
                        dims[1] - 1 - row['sx_col'])
                fl = any(row[c + '_flags'] != 0 for _, c, _ in fitters)
                res.sigs.add('%s/%s/%s%s/%s/%s%s/%s' % (
                    mtype, ','.join(c for _, c, _ in fitters), kb, ko, e < 8,
                    fr, bool(plan['hist']), fl))
                if fr or plan['hist'] or e < 8:
                    res.nontrivial = True
                if not (-0.5 <= row['sx_row_noshear'] < dims[0] - 0.5 and
                        -0.5 <= row['sx_col_noshear'] < dims[1] - 0.5):
                    res.probes['unsheared position outside the image'] += 1
                if e < 1:
                    res.probes['row within a pixel of the edge'] += 1
                if fl:
                    res.probes['flagged row'] += 1

    def common(self, res, w, mb, shear, lab, sub, medw, mtype):
        for name, want in (('det_bands', lab),):
            bad = [str(x) for x in sub[name] if str(x) != want]
            if bad:
                res.bad('label', '%s: %s is %s, not %s' % (
                    mtype, name, bad[0], want))
        flags = int(sub['psfrec_flags'][0])
        if flags == 0:
            g, T, ws = np.zeros(2), 0.0, 0.0
            for b in shear:
                o = mb[b][0]
                r = o.psf.meta.get('result')
                if r is None or r.get('flags', 1) != 0:
                    return
                wt = o.weight.max()
                g += wt * np.array(r['e'] if 'e' in r else r['g'])
                T += wt * r['T']
                ws += wt
            for row in sub:
                if not (np.allclose(row['psfrec_g'], g / ws, rtol=1e-5,
                                    atol=1e-9)
                        and np.isclose(row['psfrec_T'], T / ws, rtol=1e-5)):
                    res.bad('psfrec', '%s shear bands %s: original psf %s %s,'
                            ' average of these bands %s %s' % (
                                mtype, shear, row['psfrec_g'],
                                row['psfrec_T'], g / ws, T / ws))
                    return
        ws = sum(medw[b] for b in shear)
        mimg = 0.0
        if w['mb']['mfrac'] and ws > 0:
            mimg = sum(mb[b][0].mfrac.mean() * medw[b] for b in shear) / ws
        if not np.allclose(sub['mfrac_img'], mimg, rtol=1e-4, atol=1e-6):
            res.bad('mfrac_img', '%s: %s, average of the map %g' % (
                mtype, sub['mfrac_img'][:3], mimg))

    def row(self, res, w, mtype, row, jac, dims, step, bm, om, mf, kb, ko,
            fwhm, stamps, fits, mc, fitters, nb, failed, ck, near, sizes):
        cfg = w['cfg']
        y, x = float(row['sx_row']), float(row['sx_col'])
        who = '%s (%.3f, %.3f)' % (mtype, y, x)
        uy, ux = unshear(y, x, mtype, step, jac, dims)
        ny, nx = float(row['sx_row_noshear']), float(row['sx_col_noshear'])
        if not (abs(ny - uy) < 2e-3 and abs(nx - ux) < 2e-3):
            res.bad('unsheared', '%s: unsheared position (%g, %g), expected '
                    '(%g, %g)' % (who, ny, nx, uy, ux))
            return
        for nm, m, k in (('bmask', bm, kb), ('ormask', om, ko)):
            for suf, a, b in (('', y, x), ('_noshear', ny, nx)):
                if near_half(a) or near_half(b):
                    continue
                want = region_or(m, a, b, k)
                if int(row[nm + suf]) != want:
                    res.bad('mask', '%s: %s%s is %d, the mask there says %d'
                            % (who, nm, suf, row[nm + suf], want))
                    return
        # stamps of this row, cut from this type's images, in every band
        tag = (round(float(np.float32(y)), 3), round(float(np.float32(x)), 3))
        box = None
        for b in range(nb):
            lst = stamps.get((ck, mtype, b, tag))
            if not lst:
                if (ck, mtype, b, tag) in failed:
                    continue
                res.bad('no-stamp', '%s: no stamp of band %d was taken for '
                        'this row' % (who, b))
                return
            # another combination may have detected at the same place
            looks = [self.stamp(res, cfg, st, y, x, mc[mtype][b], dims, near,
                                sizes) for st in lst]
            good = [k for bad, k in looks if bad is None]
            if not good:
                code, msg = looks[-1][0]
                res.bad(code, '%s band %d: %s' % (who, b, msg))
                return
            box = good[-1]
        # fluxes in each band are those of this row's own stamps
        for model, col, _ in fitters:
            if model not in ('wmom', 'ksigma', 'pgauss'):
                continue
            fl = np.atleast_1d(row[col + '_band_flux'])
            fe = np.atleast_1d(row[col + '_band_flux_err'])
            for b in range(nb):
                if not np.isfinite(fl[b]):
                    continue
                got = fits.get((col, ck, mtype, b, tag), [])
                if not any(np.isclose(fl[b], a, rtol=1e-9, atol=0) and
                           np.isclose(fe[b], e, rtol=1e-9, atol=0)
                           for a, e in got):
                    res.bad('flux', '%s: %s flux %r in band %d is not that '
                            'of this object there (%s)' % (
                                who, col, fl[b], b, got[:3]))
                    return
        if box is not None and w['mb']['mfrac']:
            for suf, a, b in (('', y, x), ('_noshear', ny, nx)):
                want = gauss_mean(mf, jac, a, b, box, fwhm)
                if want is not None and abs(
                        float(row['mfrac' + suf]) - want) > 0.012:
                    res.bad('mfrac', '%s: mfrac%s is %g, the map there '
                            'gives %g' % (who, suf, row['mfrac' + suf], want))
                    return

    def stamp(self, res, cfg, st, y, x, full, dims, near, sizes):
        """(code and message if this is not the stamp of the row, its part of
        the image)"""
        im, r0, c0, wt, sbm = st
        n = im.shape[0]
        if im.shape != (n, n) or n not in sizes:
            return ('box', 'a stamp of shape %s, the configured size of this '
                    'detection is %s' % (im.shape, sorted(sizes))), None
        fy, fx = np.float32(y) - r0, np.float32(x) - c0
        sr, sc = int(np.rint(fy)), int(np.rint(fx))
        if abs(fy - sr) > 1e-2 or abs(fx - sc) > 1e-2:
            return ('stamp', 'the centre (%g, %g) of the stamp does not fall '
                    'on the row\'s position' % (r0, c0)), None
        for s, p in ((sr, y), (sc, x)):
            if abs(s - max(int(p) - n // 2 + 1, 0)) > 1:
                return ('stamp', 'the stamp of %d pixels from (%d, %d) is '
                        'not around the row\'s position' % (n, sr, sc)), None
        a0, a1 = max(sr, 0), min(sr + n, dims[0])
        b0, b1 = max(sc, 0), min(sc + n, dims[1])
        cut = (slice(a0 - sr, a1 - sr), slice(b0 - sc, b1 - sc))
        if a1 <= a0 or b1 <= b0 or not np.array_equal(
                im[cut], full['image'][a0:a1, b0:b1]):
            return ('stamp', 'the stamp does not show this type\'s image at '
                    'the row\'s position'), None
        out = np.ones(im.shape, bool)
        out[cut] = False
        if (wt[out] != 0).any():
            return ('stamp', 'weight beyond the image'), None
        fw = full['weight'][a0:a1, b0:b1]
        uber = cfg['meds'].get('weight_type') == 'uberseg'
        own = np.ones(fw.shape, bool)
        either = ~own
        if uber:
            own, either = nearest(near, im.shape, sr, sc, dims)
            if not own.all():
                res.probes['stamp shared with a neighbour'] += 1
        if not ((wt[cut] == np.where(own, fw, 0)) | (
                either & (wt[cut] == 0))).all():
            return ('stamp', 'the weight of the stamp is not the weight '
                    'there'), None
        if sbm is not None and not np.array_equal(
                sbm[cut], full['bmask'][a0:a1, b0:b1]):
            return ('stamp', 'the mask of the stamp is not the mask there'
                    ), None
        return None, (a0, a1, b0, b1)

    def shrink_lists(self, plan):
        return [('hist',), ('faults',)]

    def shrink_more(self, plan):
        yield from mdrun.shrink_workload(plan)

