"""Seeded LSST workloads: exposures, configuration and complete runs"""
import copy
import random

import numpy as np

import core
import hooks
import mdrun
import simhook
import wl

import lsst.geom as geom
import lsst.afw.image as afw_image
from lsst.afw.geom import SkyWcs
from lsst.meas.algorithms import CoaddLikePsf

BANDS = ['g', 'r', 'i', 'z']


def gen_mbexp_params(r, nband=None, nobj=None, dim=None, need_i=False,
                     crowded=None, infvar=None):
    if nband is None:
        nband = r.choice([1, 2, 2, 3])
    bands = sorted(r.sample(range(4), nband))
    bands = [BANDS[i] for i in bands]
    if need_i and 'i' not in bands:
        bands[-1] = 'i'
        bands.sort(key=BANDS.index)
    if r.random() < 0.2:
        bands.reverse()
    if dim is None:
        dim = [r.choice([44, 50, 56]), r.choice([44, 50, 60])]
    if nobj is None:
        nobj = r.choice([1, 2, 3, 4])
    if crowded is None:
        crowded = r.random() < 0.5
    objs = []
    for i in range(nobj):
        if crowded and objs and r.random() < 0.7:
            b = r.choice(objs)
            row, col = b['row'] + r.choice([-6, -5, 5, 6]) , b['col'] + \
                r.uniform(-4, 4)
        else:
            m = 6 if r.random() < 0.3 else 14
            row, col = r.uniform(m, dim[0] - m), r.uniform(m, dim[1] - m)
        objs.append(dict(row=round(row, 2), col=round(col, 2),
                         s2=round(r.uniform(2.5, 4.5), 2),
                         e1=round(r.uniform(-0.2, 0.2), 2),
                         e2=round(r.uniform(-0.2, 0.2), 2),
                         flux=[round(r.uniform(40, 160), 2)
                               for _ in range(nband)]))
    feats = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        near = r.choice(objs)
        feats.append(dict(
            kind=r.choice(['infvar', 'bit', 'ormask', 'mfrac', 'bright']),
            band=r.randrange(nband), row=int(near['row'] + r.uniform(-9, 9)),
            col=int(near['col'] + r.uniform(-9, 9)), h=r.choice([0, 1, 4]),
            w=r.choice([0, 2, 8])))
    if infvar is None:
        infvar = r.choice([None] * 6 + ['half', 'most', 'oneband'])
    return dict(
        seed=r.randrange(2**31), bands=bands, dim=dim, objs=objs,
        xy0=[r.choice([0, 7, 100]), r.choice([0, 13, 250])], feats=feats,
        noise=[round(r.uniform(0.3, 0.6), 3) for _ in range(nband)],
        sky=[round(r.uniform(-3, 3), 2) for _ in range(nband)],
        infvar=infvar, grad=r.choice([0.0, 0.1, 0.2]),
        psf_s2=round(r.uniform(2.0, 3.0), 2), rot=r.choice([0.0, 0.3]),
        clonable=r.random() < 0.7)


def make_wcs(p):
    sc = 0.2 / 3600
    c, s = np.cos(p['rot']), np.sin(p['rot'])
    x0, y0 = p['xy0']
    return SkyWcs((x0 + p['dim'][1] / 2, y0 + p['dim'][0] / 2), (200.0, 0.0),
                  np.array([[-c, s], [s, c]]) * sc)


def box_of(p):
    return geom.Box2I(geom.Point2I(*p['xy0']),
                      geom.Extent2I(p['dim'][1], p['dim'][0]))


class LInputs:
    """everything the LSST pipeline is given"""
    def __init__(self, w):
        from metadetect.lsst import util
        self.w = w
        p = w['exp']
        rng = np.random.RandomState(p['seed'])
        dim = tuple(p['dim'])
        box = box_of(p)
        wcs = make_wcs(p)
        exps, nexps, mexps, self.ormasks = [], [], [], []
        for b, band in enumerate(p['bands']):
            im = np.zeros(dim)
            for o in p['objs']:
                im += wl.gauss2d(dim, o['row'], o['col'], o['s2'],
                                 o['flux'][b], o['e1'], o['e2'])
            sig = p['noise'][b]
            im += rng.normal(scale=sig, size=dim)
            if w.get('sky'):
                im += p['sky'][b]
            noise = rng.normal(scale=sig, size=dim)
            var = np.full(dim, sig**2)
            mask = np.zeros(dim, 'i4')
            orm = np.zeros(dim, 'i4')
            mf = np.zeros(dim)
            for f in p['feats']:
                if f['band'] != b:
                    continue
                sl = (slice(max(0, f['row'] - f['h']),
                            max(0, f['row'] + f['h'] + 1)),
                      slice(max(0, f['col'] - f['w']),
                            max(0, f['col'] + f['w'] + 1)))
                if f['kind'] == 'infvar':
                    var[sl] = np.inf
                elif f['kind'] == 'bit':
                    mask[sl] |= 1
                elif f['kind'] == 'bright':
                    mask[sl] |= afw_image.Mask.getPlaneBitMask('BRIGHT')
                elif f['kind'] == 'ormask':
                    orm[sl] |= 2**3
                elif f['kind'] == 'mfrac':
                    mf[sl] = 0.7
            if p['infvar'] == 'half':
                var[:dim[0] // 3] = np.inf
            elif p['infvar'] in ('most', 'all') or (
                    p['infvar'] == 'oneband' and b == 0):
                var[:int(dim[0] * 0.6)] = np.inf
            psf = CoaddLikePsf(band, box, p['psf_s2'] + 0.1 * b, 0.02 * b,
                               -0.03, p['grad'], clonable=p['clonable'])
            for lst, arr in ((exps, im), (nexps, noise), (mexps, mf)):
                e = afw_image.ExposureF(box)
                e.image.array[:, :] = arr
                e.variance.array[:, :] = var
                if lst is not mexps:
                    e.mask.array[:, :] = mask
                e.setPsf(psf)
                e.setWcs(wcs)
                e.setFilter(afw_image.FilterLabel(band))
                lst.append(e)
            self.ormasks.append(orm)
        self.mbexp = util.get_mbexp(exps)
        self.noise_mbexp = util.get_mbexp(nexps)
        self.mfrac_mbexp = util.get_mbexp(mexps)
        if w.get('no_mfrac'):
            self.mfrac_mbexp = None
        if w.get('no_ormasks'):
            self.ormasks = None
        self.cfg = copy.deepcopy(w.get('cfg', {}))
        self.rng = np.random.RandomState(w.get('rng', 3))

    def snap(self, ignore_detected=True):
        d = dict(cfg=core.snap_cfg(self.cfg),
                 ormasks=core.snap_cfg(self.ormasks))
        for n in ('mbexp', 'noise_mbexp', 'mfrac_mbexp'):
            d[n] = snap_mbexp(getattr(self, n), ignore_detected)
        return d


def snap_mbexp(mbexp, ignore_detected=True):
    if mbexp is None:
        return None
    det = afw_image.Mask.getPlaneBitMask(
        ['DETECTED', 'DETECTED_NEGATIVE']) if ignore_detected else 0
    out = {}
    for band, e in zip(mbexp.bands, mbexp.singles):
        out[band] = dict(
            image=e.image.array.copy(), variance=e.variance.array.copy(),
            mask=e.mask.array & ~det, bg=e.getMetadata().get('BGMEAN'),
            psf=type(e.getPsf()).__name__, wcs=e.getWcs() is not None,
            filt=None if e.getFilter() is None else
            e.getFilter().bandLabel)
    return out


def gen_lsst_workload(r, mode=None, scarlet=None, **kw):
    if mode is None:
        mode = r.choice(['metadetect', 'photometry'])
    if scarlet is None:
        scarlet = mode == 'metadetect' and r.random() < 0.35
    if scarlet:
        kw.setdefault('nband', r.choice([2, 3]))
        kw['need_i'] = True
    p = gen_mbexp_params(r, **kw)
    cfg = {'stamp_size': r.choice([15, 19, 23])}
    if r.random() < 0.5:
        cfg['detect'] = {'thresh': r.choice([4.0, 5.0, 7.0])}
    if r.random() < 0.4:
        cfg['pgauss'] = {'fwhm': 1.8}
    if r.random() < 0.4:
        n = r.randint(1, len(p['bands']))
        cfg['shear_bands'] = sorted(r.sample(p['bands'], n))
    if mode == 'metadetect':
        mc = {'reconv_type': r.choice(['fitgauss', 'gauss', 'gauss'])}
        mc['types'] = r.choice([['noshear'], ['noshear', '1p'], ['1m'],
                                ['2p', 'noshear'], ['2m'], ['noshear', '2m', '2p']])
        cfg['metacal'] = mc
        if scarlet:
            cfg['deblender'] = 'scarlet'
    sky = r.random() < 0.25
    if sky:
        cfg['subtract_sky'] = True
    return dict(mode=mode, exp=p, cfg=cfg, rng=r.randrange(2**31), sky=sky,
                no_mfrac=r.random() < 0.2, no_ormasks=r.random() < 0.2,
                psf_stats=mode == 'metadetect' and r.random() < 0.3,
                clock=r.choice([[0.001], [0.5, 3600.0], [0.01, -500.0]]))


def go(w, inp):
    if w['mode'] == 'metadetect':
        from metadetect.lsst.metadetect import run_metadetect
        return run_metadetect(
            mbexp=inp.mbexp, noise_mbexp=inp.noise_mbexp, rng=inp.rng,
            mfrac_mbexp=inp.mfrac_mbexp, ormasks=inp.ormasks,
            config=inp.cfg, get_psf_stats=bool(w.get('psf_stats')))
    from metadetect.lsst.photometry import run_photometry
    return run_photometry(
        mbexp=inp.mbexp, rng=inp.rng, mfrac_mbexp=inp.mfrac_mbexp,
        ormasks=inp.ormasks, config=inp.cfg)


def execute(w, faults=(), inp=None, target=None, call=None, ctx=None,
            count_calls=False):
    """one LSST run; the outcome is recorded, never raised"""
    o = mdrun.Out()
    inp = inp or LInputs(w)
    o.inp = inp
    o.ctx = ctx or mdrun.faults_ctx(faults)
    o.ctx.imgkeys = True
    o.cctx = hooks.CallCtx(target) if (target or count_calls) else None
    o.clock = core.SimClock(steps=w.get('clock', [0.001]))
    core.set_clock(o.clock)
    f = call or (lambda: go(w, inp))
    try:
        with simhook.active(o.ctx):
            if o.cctx is not None:
                with hooks.interrupting(o.cctx):
                    o.result = f()
            else:
                o.result = f()
    except (Exception, KeyboardInterrupt) as e:
        o.exc = e
    finally:
        core.set_clock(None)
    o.rng = core.snap_rng(inp.rng)
    return o


def shrink_lsst(plan, path=('w',)):
    import base
    w = base.get_path(plan, path)

    def put(n):
        return base.with_path(plan, path, n)

    for k in ('objs', 'feats'):
        for i in range(len(w['exp'][k]) - 1, -1, -1):
            if k == 'objs' and len(w['exp'][k]) < 2:
                continue
            n = copy.deepcopy(w)
            del n['exp'][k][i]
            yield put(n)
    if w['exp'].get('infvar'):
        n = copy.deepcopy(w)
        n['exp']['infvar'] = None
        yield put(n)
    ty = w.get('cfg', {}).get('metacal', {}).get('types')
    if ty and len(ty) > 1:
        for t in ty:
            n = copy.deepcopy(w)
            n['cfg']['metacal']['types'] = [t]
            yield put(n)
    for k in ('detect', 'pgauss', 'shear_bands', 'subtract_sky'):
        if k in w.get('cfg', {}):
            n = copy.deepcopy(w)
            del n['cfg'][k]
            yield put(n)


_unused = random
