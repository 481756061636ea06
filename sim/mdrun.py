"""Run the real metadetect over the stub dependencies under a fault plan"""
import copy
import random

import numpy as np

import core
import hooks
import simhook
import wl
from metadetect.metadetect import Metadetect, do_metadetect


def gen_workload(r, color=False, joint=True, noise_image=None, combs=True,
                 **kw):
    p = wl.gen_mbobs_params(r, **kw)
    cfg = wl.gen_config_params(r, joint=joint, color=color)
    if noise_image is not None:
        cfg['metacal']['use_noise_image'] = noise_image
    shear, det = wl.gen_combs(r, p['nband']) if combs else (None, None)
    w = dict(mb=p, cfg=cfg, shear=shear, det=det, rng=r.randrange(2**31))
    w['clock'] = [[0.001], [0.5, 3600.0], [0.01, -500.0, 0.01],
                  [0.0], [1e-6, 86400.0 * 365]][r.randrange(5)]
    if color:
        w['color'] = wl.gen_color_params(r, p['nband'])
    return w


class Inputs:
    def __init__(self, w):
        self.w = w
        self.mbobs = wl.make_mbobs(w['mb'])
        self.cfg = copy.deepcopy(w['cfg'])
        self.rng = np.random.RandomState(w['rng'])
        self.shear = copy.deepcopy(w.get('shear'))
        self.det = copy.deepcopy(w.get('det'))
        self.color_func = None
        self.color_mbobs = None
        if w.get('color'):
            self.color_func = wl.make_color_func(w['color'])
            self.color_mbobs = wl.make_color_mbobs(
                w['color'], w['mb'], self.mbobs)

    def kwargs(self):
        return dict(shear_band_combs=self.shear, det_band_combs=self.det,
                    color_key_func=self.color_func,
                    color_dep_mbobs=self.color_mbobs)

    def snap(self):
        d = dict(mbobs=core.snap_mbobs(self.mbobs),
                 cfg=core.snap_cfg(self.cfg),
                 shear=core.snap_cfg(self.shear),
                 det=core.snap_cfg(self.det))
        if self.color_mbobs is not None:
            d['color'] = {str(k): core.snap_mbobs(v)
                          for k, v in self.color_mbobs.items()}
            d['color_ids'] = [str(k) for k in self.color_mbobs]
        return d


class Out:
    result = None
    exc = None
    ctx = None
    cctx = None
    rng = None


def faults_ctx(faults):
    """faults: list of [site, key or None, n or None, kind]"""
    keyed, pos = {}, {}
    for site, key, n, kind in faults:
        if key is not None:
            keyed[(site, detuple(key))] = kind
        else:
            pos[(site, n)] = kind
    return simhook.Ctx(keyed, pos)


def detuple(x):
    if isinstance(x, list):
        return tuple(detuple(y) for y in x)
    return x


def execute(w, faults=(), inp=None, clock=None, target=None, md=None,
            count_calls=False, on_ctx=None):
    """one run; the outcome is recorded, never raised (except harness bugs)"""
    o = Out()
    inp = inp or Inputs(w)
    o.inp = inp
    o.ctx = faults_ctx(faults)
    if on_ctx is not None:
        on_ctx(o.ctx)
    o.cctx = hooks.CallCtx(target) if (target or count_calls) else None
    o.clock = clock or core.SimClock(steps=w.get('clock', [0.001]))
    core.set_clock(o.clock)
    try:
        with simhook.active(o.ctx):
            if o.cctx is not None:
                with hooks.interrupting(o.cctx):
                    o.result = _go(o, inp, md)
            else:
                o.result = _go(o, inp, md)
        if md is not None:
            o.result = o.md.result
    except (Exception, KeyboardInterrupt) as e:
        o.exc = e
    finally:
        core.set_clock(None)
    o.rng = core.snap_rng(inp.rng)
    return o


def _go(o, inp, md):
    if md is None:
        return do_metadetect(inp.cfg, inp.mbobs, inp.rng, **inp.kwargs())
    if md == 'new':
        o.md = Metadetect(inp.cfg, inp.mbobs, inp.rng, **inp.kwargs())
    else:
        o.md = md
    o.md.go()


def ncomb(w):
    return len(w['shear']) if w.get('shear') is not None else 1


def bands_of_comb(w, i):
    nb = w['mb']['nband']
    if w.get('shear') is None:
        return list(range(nb))
    return w['shear'][i]


def row_comb(w, rows):
    """index of the band combination of each row from its label, in order"""
    labels = [''.join(str(b) for b in sorted(bands_of_comb(w, i)))
              for i in range(ncomb(w))]
    dets = []
    for i in range(ncomb(w)):
        if w.get('det') is None:
            d = list(range(w['mb']['nband']))
        elif w['det'] == 'shear_bands':
            d = bands_of_comb(w, i)
        else:
            d = w['det'][i]
        dets.append(''.join(str(b) for b in sorted(d)))
    out = []
    for r in rows:
        out.append([i for i in range(ncomb(w)) if labels[i] ==
                    str(r['shear_bands']) and dets[i] == str(r['det_bands'])])
    return out


def row_pos(row):
    return (round(float(row['sx_row']), 3), round(float(row['sx_col']), 3))


def fitter_cols(dt, col):
    """columns of one fitter"""
    return [n for n in dt.names if n.startswith(col + '_') and not (
        # wmom_reg0.80_x does not belong to wmom
        n[len(col) + 1:].startswith('reg'))]


def shrink_workload(plan, path=('w',)):
    """simpler workloads"""
    w = plan
    for k in path:
        w = w[k]

    def put(neww):
        new = copy.deepcopy(plan)
        x = new
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = neww
        return new

    for i in range(len(w['mb']['objs']) - 1, -1, -1):
        if len(w['mb']['objs']) > 1:
            n = copy.deepcopy(w)
            del n['mb']['objs'][i]
            yield put(n)
    for i in range(len(w['mb']['masks']) - 1, -1, -1):
        n = copy.deepcopy(w)
        del n['mb']['masks'][i]
        yield put(n)
    fl = w['cfg'].get('fitters')
    if fl and len(fl) > 1:
        for i in range(len(fl) - 1, -1, -1):
            n = copy.deepcopy(w)
            del n['cfg']['fitters'][i]
            yield put(n)
    if w.get('shear') is not None and len(w['shear']) > 1:
        for i in range(len(w['shear']) - 1, -1, -1):
            n = copy.deepcopy(w)
            del n['shear'][i]
            if isinstance(n.get('det'), list):
                del n['det'][i]
            yield put(n)
    ty = w['cfg']['metacal'].get('types')
    if ty is None or len(ty) > 1:
        for t in (ty or ['noshear', '1p', '1m', '2p', '2m']):
            n = copy.deepcopy(w)
            n['cfg']['metacal']['types'] = [t]
            yield put(n)
    for k in ('sx', 'mask_region', 'ormask_region', 'mfrac_fwhm'):
        if k in w['cfg']:
            n = copy.deepcopy(w)
            del n['cfg'][k]
            yield put(n)
    if w.get('det') is not None:
        n = copy.deepcopy(w)
        n['det'] = None
        yield put(n)


_unused = random
