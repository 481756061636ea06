"""Seeded workload builders (inputs and configurations) from JSON parameters"""
import copy
import random
import numpy as np
import ngmix
from ngmix.medsreaders import *  # noqa

SCALE = 0.263
KERNEL = [
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.068707, 0.296069, 0.710525, 0.951108, 0.710525, 0.296069, 0.068707],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
]
NODET = 2**0
EDGEBIT = 2**30
FLAGBIT = 2**29


def gauss2d(dims, row, col, s2, flux, e1=0.0, e2=0.0):
    r = np.arange(dims[0])[:, None] - row
    c = np.arange(dims[1])[None, :] - col
    q = ((1 - e1) * c * c + (1 + e1) * r * r - 2 * e2 * r * c) / s2
    im = np.exp(-0.5 * q)
    return im * (flux / (2 * np.pi * s2))


def gen_mbobs_params(r, nband=None, nobj=None, dims=None, masks=None,
                     crowded=None):
    """r: random.Random; all choices land in a JSON dictionary"""
    if nband is None:
        nband = r.choice([1, 2, 2, 3, 3, 4])
    if dims is None:
        d = r.choice([64, 72, 84, 96])
        dims = [d, d] if r.random() < 0.6 else [d, r.choice([60, 76, 90])]
    if nobj is None:
        nobj = r.choice([1, 2, 3, 3, 4, 5])
    objs = []
    if crowded is None:
        crowded = r.random() < 0.3
    for i in range(nobj):
        if crowded and objs and r.random() < 0.6:
            b = r.choice(objs)
            row = b['row'] + r.uniform(-9, 9)
            col = b['col'] + r.uniform(-9, 9)
        else:
            m = 3 if r.random() < 0.25 else 14
            row = r.uniform(m, dims[0] - m)
            col = r.uniform(m, dims[1] - m)
        objs.append(dict(
            row=round(row, 3), col=round(col, 3),
            s2=round(r.uniform(3.0, 7.0), 3),
            e1=round(r.uniform(-0.3, 0.3), 3),
            e2=round(r.uniform(-0.3, 0.3), 3),
            flux=[round(r.uniform(3, 20), 3) for _ in range(nband)],
        ))
    if masks is None:
        masks = r.random() < 0.6
    mk = []
    if masks:
        for _ in range(r.choice([1, 2, 3])):
            near = r.choice(objs) if objs and r.random() < 0.7 else None
            row = near['row'] + r.uniform(-8, 8) if near else r.uniform(0, dims[0])
            col = near['col'] + r.uniform(-8, 8) if near else r.uniform(0, dims[1])
            mk.append(dict(
                row=int(row), col=int(col), h=r.choice([1, 2, 6, 16]),
                w=r.choice([1, 3, 8, 16]), band=r.randrange(nband),
                kind=r.choice(['bmask', 'ormask', 'weight', 'mfrac', 'nodet',
                               'flagbit'])))
    return dict(
        seed=r.randrange(2**31), nband=nband, dims=list(dims), objs=objs,
        masks=mk, mfrac=r.random() < 0.5,
        noise=[round(r.uniform(0.004, 0.012), 5) for _ in range(nband)],
        jac=r.choice(['diag', 'rot']), psf_s2=round(r.uniform(1.5, 2.5), 2),
        shared_psf=r.random() < 0.3,
        jcen=r.choice([[0, 0], [0, 0], [-3.5, 8.0], [11.25, 0.0]]),
    )


def make_jac(p, row, col):
    if p['jac'] == 'diag':
        return ngmix.DiagonalJacobian(scale=SCALE, row=row, col=col)
    return ngmix.Jacobian(
        row=row, col=col, dvdrow=SCALE * 0.98, dvdcol=SCALE * 0.05,
        dudrow=-SCALE * 0.04, dudcol=SCALE * 1.01)


def make_mbobs(p, color_shift=0.0, simkey='main'):
    """observations from parameters; tagged with no simulation key"""
    rng = np.random.RandomState(p['seed'])
    dims = tuple(p['dims'])
    mb = ngmix.MultiBandObsList(meta={'_simkey': simkey})
    cen = [(d - 1) / 2 for d in dims]
    # the reference position of the coordinates need not be the centre
    jac = make_jac(p, *[c + d for c, d in zip(cen, p.get('jcen', [0, 0]))])
    psf_n = 17
    pc = (psf_n - 1) / 2
    pobs = None
    for b in range(p['nband']):
        im = np.zeros(dims)
        for o in p['objs']:
            im += gauss2d(dims, o['row'], o['col'],
                          o['s2'] + color_shift, o['flux'][b],
                          o['e1'], o['e2'])
        sig = p['noise'][b]
        im += rng.normal(scale=sig, size=dims)
        noise = rng.normal(scale=sig, size=dims)
        wt = np.full(dims, 1.0 / sig**2)
        wt *= 1 + 0.05 * np.arange(dims[0])[:, None] / dims[0]
        bmask = np.zeros(dims, dtype='i4')
        ormask = np.zeros(dims, dtype='i4')
        mfrac = np.zeros(dims)
        for m in p['masks']:
            if m['band'] != b:
                continue
            sl = (slice(max(0, m['row'] - m['h']), max(0, m['row'] + m['h'] + 1)),
                  slice(max(0, m['col'] - m['w']), max(0, m['col'] + m['w'] + 1)))
            k = m['kind']
            if k == 'bmask':
                bmask[sl] |= 2**4
            elif k == 'nodet':
                bmask[sl] |= NODET
            elif k == 'flagbit':
                bmask[sl] |= FLAGBIT
            elif k == 'ormask':
                ormask[sl] |= 2**5
            elif k == 'weight':
                wt[sl] = 0
            elif k == 'mfrac':
                mfrac[sl] = 0.6
        pim = gauss2d((psf_n, psf_n), pc, pc, p['psf_s2'] + color_shift, 1.0,
                      0.02 * b, -0.03)
        if not (p['shared_psf'] and pobs is not None):
            pobs = ngmix.Observation(
                pim, weight=np.full(pim.shape, 1.0 / (1.e-4 * pim.max())**2),
                jacobian=make_jac(p, pc, pc),
                meta={'_sim': ('orig', simkey, b)})
        kw = {}
        if p['mfrac']:
            kw['mfrac'] = mfrac
        obs = ngmix.Observation(
            im, weight=wt, bmask=bmask, ormask=ormask, noise=noise,
            jacobian=jac, psf=pobs, ignore_zero_weight=False,
            meta={'band': b}, **kw)
        ol = ngmix.ObsList()
        ol.append(obs)
        mb.append(ol)
    return mb


FITTERS = ['wmom', 'ksigma', 'pgauss', 'am', 'gauss']
COLS = {'wmom': 'wmom', 'ksigma': 'ksigma', 'pgauss': 'pgauss',
        'am': 'am', 'gauss': 'gauss', 'admom': 'am'}


def gen_config_params(r, fitters=None, joint=True, color=False):
    pool = FITTERS if joint else FITTERS[:3]
    if fitters is None:
        n = r.choice([1, 1, 2, 3, 5])
        names = r.sample(pool, min(n, len(pool)))
        if color and names[0] in ('am', 'gauss'):
            names = [r.choice(FITTERS[:3])] + [
                x for x in names if x in ('am', 'gauss')]
        fitters = []
        for nm in names:
            d = dict(model=nm)
            if nm in ('wmom', 'ksigma', 'pgauss'):
                d['weight'] = dict(fwhm=r.choice([1.2, 1.5]))
                if nm == 'wmom' and r.random() < 0.35:
                    d['weight']['fwhm_reg'] = 0.8
            else:
                if r.random() < 0.4:
                    d['weight'] = dict(fwhm=1.3)
                elif r.random() < 0.5:
                    d['weight'] = {}
                if r.random() < 0.5:
                    d['coadd'] = r.random() < 0.5
            if r.random() < 0.4:
                d['symmetrize'] = r.random() < 0.5
            fitters.append(d)
    types = r.choice([
        None, ['noshear'], ['noshear', '1p', '1m'],
        ['1m', 'noshear', '2p'], ['noshear', '1p', '1m', '2p', '2m']])
    meds = dict(min_box_size=r.choice([16, 24, 32]), max_box_size=64,
                box_type=r.choice(['iso_radius', 'iso_radius', 'sigma_size']),
                rad_min=4, rad_fac=2, box_padding=2, sigma_fac=5.0)
    if r.random() < 0.5:
        meds['weight_type'] = r.choice(['weight', 'uberseg'])
    cfg = dict(
        metacal=dict(psf=r.choice(['fitgauss', 'gauss']),
                     use_noise_image=r.random() < 0.5),
        meds=meds, nodet_flags=NODET,
    )
    b = r.choice([None, 0, FLAGBIT, FLAGBIT | EDGEBIT, EDGEBIT, FLAGBIT])
    if b is not None:
        cfg['bmask_flags'] = b
    if types is not None:
        cfg['metacal']['types'] = types
    if r.random() < 0.3:
        cfg['metacal']['step'] = 0.02
    if r.random() < 0.6:
        cfg['sx'] = dict(
            detect_thresh=1.5, deblend_cont=r.choice([0.00001, 0.005]),
            minarea=4, filter_type='conv', filter_kernel=KERNEL)
    if r.random() < 0.4:
        cfg['mask_region'] = r.choice([1, 2, 4])
    if r.random() < 0.2:
        cfg['ormask_region'] = r.choice([1, 3])
    if r.random() < 0.2:
        cfg['mfrac_fwhm'] = 2.0
    if len(fitters) == 1 and r.random() < 0.5:
        cfg.update(copy.deepcopy(fitters[0]))
    else:
        cfg['fitters'] = fitters
    return cfg


def fitter_list(cfg):
    """the fitters of a configuration as (model, column prefix, config)"""
    lst = cfg['fitters'] if 'fitters' in cfg else [cfg]
    out = []
    for f in lst:
        m = f.get('model', 'wmom')
        col = COLS[m]
        reg = f.get('weight', {}).get('fwhm_reg', None)
        if reg is not None:
            col = col + '_reg%0.2f' % reg
        out.append((m, col, f))
    return out


def mcal_types(cfg):
    return cfg['metacal'].get('types', ['noshear', '1p', '1m', '2p', '2m'])


# ---------------------------------------------------------------------------
def gen_combs(r, nband, n=None):
    """shear band combinations and detection band combinations"""
    if n is None:
        n = r.choice([None, None, 1, 2, 3])
    if n is None:
        return None, r.choice([None, None, 'shear_bands'])
    shear = []
    for _ in range(n):
        k = r.randint(1, nband)
        c = r.sample(range(nband), k)
        if r.random() < 0.6:
            c.sort()
        shear.append(c)
    if n > 1 and r.random() < 0.3:
        shear[-1] = list(reversed(shear[0]))
    x = r.random()
    if x < 0.4:
        det = None
    elif x < 0.6:
        det = 'shear_bands'
    else:
        det = [sorted(r.sample(range(nband), r.randint(1, nband)))
               for _ in range(n)]
    return shear, det


COLORS = ['red', 'blue', 'green']


def gen_color_params(r, nband):
    """how objects map to colour keys, and which keys alias the originals"""
    keys = COLORS[:r.choice([1, 2, 3])]
    return dict(
        keys=keys, alias=r.choice([None, None, keys[-1]]),
        none=r.random() < 0.3, cut=r.randrange(1, 5), tup=r.random() < 0.3)


def color_key(c, k):
    if c['tup'] == 'first':
        return ('color', k)
    return (k, 1) if c['tup'] else k


def make_color_func(c):
    choices = [color_key(c, k) for k in c['keys']]
    if c['none']:
        choices.append(None)

    def func(flux):
        f = np.atleast_1d(np.asarray(flux, dtype='f8'))
        if not np.all(np.isfinite(f)):
            return choices[0]
        v = int(abs(f[-1]) * c['cut']) if f.size == 1 else int(
            abs(f[0] / f[-1] if f[-1] != 0 else 0) * 2 * c['cut'])
        return choices[v % len(choices)]

    return func


def make_color_mbobs(c, p, mbobs):
    d = {}
    for i, k in enumerate(c['keys']):
        if k == c['alias']:
            d[color_key(c, k)] = mbobs
        else:
            q = p
            if (c.get('masks') or {}).get(k):
                q = dict(p, masks=p['masks'] + c['masks'][k])
            d[color_key(c, k)] = make_mbobs(q, 0.3 * (i + 1), simkey=k)
    return d
