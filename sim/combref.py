"""Reference model of combined measurements: what the cutouts of one object
give, worked out from the cutouts and the settings alone"""
import numpy as np

import ngmix
from ngmix.moments import make_mom_result, fwhm_to_T

FWHM = {'wmom': ngmix.gaussmom.GaussMom,
        'ksigma': ngmix.prepsfmom.KSigmaMom,
        'pgauss': ngmix.prepsfmom.PGaussMom}


def make_fitter(s):
    kw = {}
    if s['model'] in ('ksigma', 'pgauss') and s.get('smooth'):
        kw['fwhm_smooth'] = s['smooth']
    return FWHM[s['model']](fwhm=s['fwhm'], **kw)


def settings(f):
    """the settings a fitter configuration asks for"""
    wt = f.get('weight', {})
    return dict(model={'admom': 'am'}.get(f.get('model', 'wmom'),
                                          f.get('model', 'wmom')),
                fwhm=wt.get('fwhm'), smooth=wt.get('fwhm_smooth', 0),
                reg=wt.get('fwhm_reg', 0), sym=f.get('symmetrize', True),
                coadd=f.get('coadd', False))


def with_weight(o, wt):
    kw = {}
    if o.has_psf():
        kw['psf'] = o.psf
    if o.has_bmask():
        kw['bmask'] = o.bmask
    return ngmix.Observation(
        o.image, weight=wt, jacobian=o.jacobian, meta={'_sim': None},
        ignore_zero_weight=False, **kw)


def fourfold(wt):
    out = wt.copy()
    w = wt
    for _ in range(3):
        w = np.rot90(w)
        out[w <= 0] = 0
    return out


def medpos(wt):
    return np.median(wt[wt > 0])


def unusable(o, flags):
    return not (o.weight > 0).any() or bool((o.bmask & flags).any())


def combine(bands, shear, flags, s):
    """bands: one observation or None per band.

    Returns a dictionary of what can be said: 'good' (whether the object must
    be unflagged), values by column suffix, 'flux' {band: (value, error)}"""
    if s['model'] in FWHM:
        return wavg(bands, shear, flags, s)
    if any(o is None or unusable(o, flags) for o in bands):
        return dict(good=False, vals={}, flux={})
    return joint(bands, shear, s)


def wavg(bands, shear, flags, s):
    fitter = make_fitter(s)
    pre = s['model'] != 'wmom'
    res, flux = {}, {}
    allgood = True
    for b, o in enumerate(bands):
        if o is None:
            allgood = False
            continue
        wt = fourfold(o.weight) if s['sym'] else o.weight
        o2 = with_weight(o, wt)
        if unusable(o2, flags):
            allgood = False
            continue
        r = fitter.go(o2)
        p = fitter.go(o.psf, no_psf=True) if pre else fitter.go(o.psf)
        res[b] = (medpos(wt), r, p)
        flux[b] = (r['flux'], r['flux_err'])
        if r['flux_flags'] != 0:
            allgood = False
    out = dict(good=False, vals={}, flux=flux)
    use = sorted(set(shear))
    if any(b not in res for b in use):
        return out
    W = sum(res[b][0] for b in use)
    M, C = np.zeros(6), np.zeros((6, 6))
    pM, pC = np.zeros(6), np.zeros((6, 6))
    F = V = 0.0
    for b in use:
        w, r, p = res[b]
        if r['sums'][5] == 0 or p['sums'][5] == 0 or p['sums_norm'] == 0:
            return out
        M += w / W * r['sums'] / r['sums_norm']
        C += (w / W / r['sums_norm'])**2 * r['sums_cov']
        F += w / W * r['sums'][5]
        V += (w / W)**2 * r['sums_cov'][5, 5]
        # point-spread functions count by the flux of the object
        ratio = (r['sums'][5] / r['sums_norm']) / (
            p['sums'][5] / p['sums_norm'])
        pM += w / W * ratio * p['sums'] / p['sums_norm']
        pC += (w / W * ratio / p['sums_norm'])**2 * p['sums_cov']
    pr = make_mom_result(pM, pC)
    ppos = sum(res[b][0] * res[b][2]['sums'][5] for b in use) > 0
    pgood = pr['flags'] == 0 and ppos
    v = out['vals']
    if pgood:
        v['psf_g'], v['psf_T'] = pr['e'], pr['T']
    plain = make_mom_result(M, C)
    if plain['flags'] != 0 or not F > 0 or not V > 0:
        return out
    shape = plain
    if s['reg']:
        A = np.eye(6)
        A[4, 5] = fwhm_to_T(s['reg'])
        shape = make_mom_result(A @ M, A @ C @ A.T)
        if shape['flags'] != 0:
            return out
    v.update(T=plain['T'], T_err=plain['T_err'], s2n=F / np.sqrt(V),
             g=shape['e'], g_cov=shape['e_cov'])
    if pgood:
        v['T_ratio'] = plain['T'] / pr['T']
    out['good'] = bool(pgood and allgood)
    return out


def same_frame(a, b):
    return (repr(a.jacobian) == repr(b.jacobian)
            and a.image.shape == b.image.shape
            and repr(a.psf.jacobian) == repr(b.psf.jacobian)
            and a.psf.image.shape == b.psf.image.shape)


def coadd(lst):
    """weighted average of the bands; None when they do not match"""
    if len(lst) == 1:
        return lst[0]
    if not all(same_frame(lst[0], o) for o in lst[1:]):
        return None
    for n in ('noise', 'mfrac', 'ormask', 'bmask'):
        if len(set(getattr(o, 'has_' + n)() for o in lst)) > 1:
            return None
    w = np.array([medpos(o.weight) for o in lst])
    w = w / w.sum()
    im = sum(x * o.image for x, o in zip(w, lst))
    pim = sum(x * o.psf.image for x, o in zip(w, lst))
    ok = np.all([o.weight > 0 for o in lst], axis=0)
    if not ok.any():
        return None
    wt = np.zeros(im.shape)
    wt[ok] = 1 / sum(x**2 / o.weight[ok] for x, o in zip(w, lst))
    psf = ngmix.Observation(
        pim, weight=np.full(pim.shape, 1.0e6 / (pim**2).sum()),
        jacobian=lst[0].psf.jacobian, meta={'_sim': None})
    return ngmix.Observation(
        im, weight=wt, jacobian=lst[0].jacobian, psf=psf,
        meta={'_sim': None}, ignore_zero_weight=False)


def joint(bands, shear, s):
    out = dict(good=False, vals={}, flux={})
    if any(b >= len(bands) for b in shear):
        return out
    lst = [bands[b] for b in shear]
    am = s['model'] == 'am'
    if am or s['coadd']:
        o = coadd(lst)
        if o is None:
            return out
        lst = [o]
    if am:
        fit = ngmix.admom.AdmomFitter()
        p = fit.go(lst[0].psf, None)
        o = with_weight(lst[0], fourfold(lst[0].weight)
                        if s['sym'] else lst[0].weight)
        if not (o.weight > 0).any():
            return out
        r = fit.go(o, None)
        if p['flags'] != 0:
            return out
        v = out['vals']
        v['psf_g'], v['psf_T'] = p['e'], p['T']
        if r['flags'] == 0:
            v.update(T=r['T'], T_err=r['T_err'], s2n=r['s2n'], g=r['e'],
                     g_cov=r['e_cov'], T_ratio=r['T'] / p['T'])
            out['good'] = True
        return out
    fit = ngmix.fitting.Fitter(model='gauss')
    mb = ngmix.MultiBandObsList()
    ps, ws = [], []
    for o in lst:
        ol = ngmix.ObsList()
        ol.append(with_weight(o, o.weight))
        mb.append(ol)
        ps.append(fit.go(with_weight(o.psf, o.psf.weight), None))
        ws.append(medpos(o.weight))
    if any(p['flags'] != 0 for p in ps):
        return out
    r = fit.go(mb, None)
    if r['flags'] != 0:
        return out
    W = sum(ws)
    pT = sum(w * p['T'] for w, p in zip(ws, ps)) / W
    pg = sum(w * p['T'] * np.array(p['g'])
             for w, p in zip(ws, ps)) / W / pT
    out['vals'].update(
        psf_T=pT, psf_g=pg, T=r['T'], T_err=r['T_err'], s2n=r['s2n'],
        g=r['g'], g_cov=r['g_cov'], T_ratio=r['T'] / pT)
    out['good'] = True
    if not s['coadd'] or len(shear) == 1:
        fl, fe = np.atleast_1d(r['flux']), np.atleast_1d(r['flux_err'])
        for i, b in enumerate(shear):
            out['flux'][b] = (fl[i], fe[i])
    return out


def compare(row, col, ref, shear, nband, who, failed=()):
    """differences of a row from the reference, as (code, text) or None.
    failed: bands in which a failure was injected (-1: in the combination);
    what the other bands measured on their own still has to be right"""
    lab = ''.join(str(b) for b in sorted(shear))
    if str(row['shear_bands']) != lab:
        return 'label', '%s: shear_bands %s, asked for %s' % (
            who, row['shear_bands'], lab)
    if not failed and ref['good'] and row[col + '_flags'] != 0:
        return 'flagged', '%s: %s_flags is %d for an object that can be ' \
            'measured' % (who, col, row[col + '_flags'])
    for n, v in ({} if failed else ref['vals']).items():
        got = np.asarray(row[col + '_' + n])
        if not np.allclose(got, v, rtol=2e-6, atol=1e-9):
            return 'value', '%s: %s_%s is %s, its shear bands %s give %s' % (
                who, col, n, got.tolist(), shear, np.asarray(v).tolist())
    fl = np.atleast_1d(row[col + '_band_flux'])
    fe = np.atleast_1d(row[col + '_band_flux_err'])
    for b in range(nband):
        if b not in ref['flux'] or b in failed or -1 in failed:
            continue
        v, e = ref['flux'][b]
        if not (np.isclose(fl[b], v, rtol=2e-6, atol=1e-9, equal_nan=True)
                and np.isclose(fe[b], e, rtol=2e-6, equal_nan=True)):
            return 'flux', '%s: %s flux in band %d is %r +- %r, that band ' \
                'gives %r +- %r' % (who, col, b, fl[b], fe[b], v, e)
    return None

