"""Small workloads for the demonstrations of planted bugs"""
import random

import numpy as np

import core
import hooks
import mdrun
import sched_sim
import wl


def obj(row, col, nband=1, flux=10.0, s2=4.0, e1=0.1, e2=-0.05):
    f = list(flux) if isinstance(flux, (list, tuple)) else [flux] * nband
    return dict(row=row, col=col, s2=s2, e1=e1, e2=e2, flux=f)


def mask(kind, row, col, h=2, w=2, band=0):
    return dict(row=row, col=col, h=h, w=w, band=band, kind=kind)


def work(nband=1, objs=None, masks=(), fitters=None, types=('noshear',),
         shear=None, det=None, dims=(64, 64), seed=5, rng=11, clock=(0.001,),
         mfrac=True, bmask_flags=None, color=None, **cfg):
    if objs is None:
        objs = [obj(20.3, 20.1, nband), obj(43.2, 42.7, nband)]
    c = dict(
        metacal=dict(psf='fitgauss', use_noise_image=True,
                     types=list(types)),
        meds=dict(min_box_size=24, max_box_size=64, box_type='iso_radius',
                  rad_min=4, rad_fac=2, box_padding=2),
        nodet_flags=wl.NODET,
        fitters=fitters or [dict(model='wmom', weight=dict(fwhm=1.2))])
    if bmask_flags is not None:
        c['bmask_flags'] = bmask_flags
    c.update(cfg)
    w = dict(
        mb=dict(seed=seed, nband=nband, dims=list(dims), objs=objs,
                masks=list(masks), mfrac=mfrac, noise=[0.006] * nband,
                jac='diag', psf_s2=2.0, shared_psf=False),
        cfg=c, shear=shear, det=det, rng=rng, clock=list(clock))
    if color:
        w['color'] = color
    return w


def am(coadd=True):
    return dict(model='am', coadd=coadd)


def gauss(coadd=True):
    return dict(model='gauss', coadd=coadd)


def mom(model='wmom', fwhm=1.2, **kw):
    return dict(model=model, weight=dict(fwhm=fwhm), **kw)


def keys(o, site):
    """the keys the run met at a fault point, in order"""
    out = []
    for s, n, k in o.ctx.events:
        if s == site and k not in out:
            out.append(k)
    return out


def outcome(o):
    return dict(result=o.result, exc=repr(o.exc), rng=o.rng)


def diff(a, b):
    return core.diff(a, b)


def together(make, n=60, seed=0):
    """seeded schedules of bodies that run one line at a time

    make() gives the bodies; yields what they returned, per schedule
    """
    r = random.Random(seed)
    for i in range(n):
        bodies, outs = make()
        pol = r.choice([
            dict(kind='random', p=r.choice([0.01, 0.05, 0.3])),
            dict(kind='meet', wait=r.choice([200, 1000]),
                 mix=r.choice([10, 80]), p=1.0)])
        pol['seed'] = i
        s = sched_sim.Scheduler(bodies, pol)
        with hooks.lines():
            s.run()
        for e in s.errors:
            if e is not None:
                raise e
        yield outs


def lobj(row, col, nband=2, flux=100.0, s2=3.5):
    f = list(flux) if isinstance(flux, (list, tuple)) else [flux] * nband
    return dict(row=row, col=col, s2=s2, e1=0.0, e2=0.05, flux=f)


def lwork(bands=('g', 'i'), objs=None, dim=(50, 50), xy0=(7, 13), feats=(),
          mode='metadetect', infvar=None, sky=False, seed=3, rng=4,
          clock=(0.001,), psf_stats=False, types=('noshear',), **cfg):
    n = len(bands)
    if objs is None:
        objs = [lobj(16.2, 17.4, n), lobj(33.1, 32.6, n)]
    c = dict(stamp_size=19)
    if mode == 'metadetect':
        c['metacal'] = dict(reconv_type='fitgauss', types=list(types))
    if sky:
        c['subtract_sky'] = True
    c.update(cfg)
    return dict(
        mode=mode, cfg=c, rng=rng, sky=sky, no_mfrac=False, no_ormasks=False,
        psf_stats=psf_stats, clock=list(clock),
        exp=dict(seed=seed, bands=list(bands), dim=list(dim), objs=objs,
                 xy0=list(xy0), feats=list(feats), noise=[0.4] * n,
                 sky=[1.5] * n, infvar=infvar, grad=0.1, psf_s2=2.4,
                 rot=0.3, clonable=True))


_unused = np, mdrun
