"""Exposures to observations and back; multi-band data from coadds"""
import copy
import random
import warnings

import numpy as np

import base
import core
import hooks
import lw
import simhook

import lsst.geom as geom
import lsst.afw.image as afw_image
from lsst.afw.geom import SkyWcs
from lsst.afw.math import FixedKernel
from lsst.meas.algorithms import CoaddLikePsf, KernelPsf

OPS = ['exp2obs', 'exp2obs', 'obs2exp', 'obs2exp', 'obs2exp', 'round',
       'extract', 'extract', 'copy', 'join']
KINDS = ['coadd_exp', 'coadd_noise_exp', 'coadd_mfrac_exp']
REFUSED_E2O = ['mask', 'evenpsf', 'longpsf', 'nopsf']
REFUSED_O2E = ['mask', 'nomask', 'nopsf', 'shape']
REFUSED_EXT = ['nokey', 'box', 'nofilter', 'nokey_first']


def gen_scene(r):
    nb = r.choice([1, 2, 2, 3])
    bands = r.sample(lw.BANDS, nb)
    p = dict(
        seed=r.randrange(2**31), bands=bands,
        dim=[r.choice([20, 21, 24, 27]), r.choice([20, 22, 23, 30])],
        xy0=[r.choice([0, 0, 7, 100]), r.choice([0, 3, 13, 250])],
        cd=[round(x, 3) for x in (
            -1 + r.uniform(-0.1, 0.1), r.uniform(-0.3, 0.3),
            r.uniform(-0.3, 0.3), 1 + r.uniform(-0.1, 0.1))],
        psf=[dict(s2=round(r.uniform(2, 3), 2), e1=round(
            r.uniform(-0.1, 0.1), 3), grad=r.choice([0.0, 0.2]),
            clonable=r.random() < 0.7, size=r.choice([11, 15, 17]))
            for _ in bands],
        double=r.random() < 0.3)
    p['var'] = [[r.choice(['inf', 'zero', 'neg', 'nan']), r.randrange(nb),
                 r.randrange(20), r.randrange(20), r.choice([1, 1, 3, 30])]
                for _ in range(r.choice([0, 0, 1, 2, 3]))]
    if r.random() < 0.08:
        p['var'].append([r.choice(['inf', 'zero']), 0, 0, 0, 99])
    return p


def scene_variant(r, p):
    v = copy.deepcopy(p)
    k = r.choice(['xy0', 'seed', 'cd', 'psf', 'swap', 'bands', 'double'])
    if k == 'xy0':
        v['xy0'] = [p['xy0'][0] + 1, p['xy0'][1] + r.choice([0, 5])]
    elif k == 'seed':
        v['seed'] += 1
    elif k == 'cd':
        v['cd'] = [-p['cd'][0], p['cd'][2], p['cd'][1], p['cd'][3]]
    elif k == 'psf':
        for q in v['psf']:
            q['s2'] = round(q['s2'] + 0.4, 2)
    elif k == 'swap':
        v['dim'] = p['dim'][::-1]
    elif k == 'bands':
        v['bands'] = p['bands'][::-1]
    elif k == 'double':
        v['double'] = not p['double']
    v['variant'] = k
    return v


def make_psf(p, b):
    q = p['psf'][b]
    return CoaddLikePsf(p['bands'][b], lw.box_of(p), q['s2'], q['e1'], -0.03,
                        q['grad'], size=q['size'], clonable=q['clonable'])


class Exps:
    """one exposure of each kind and band, all with data of their own"""
    def __init__(self, p):
        self.p = p
        rng = np.random.RandomState(p['seed'])
        dim = tuple(p['dim'])
        box = lw.box_of(p)
        cd = np.array(p['cd']).reshape(2, 2) * 0.2 / 3600
        cls = afw_image.ExposureD if p['double'] else afw_image.ExposureF
        self.e = {}
        for b, band in enumerate(p['bands']):
            for k in KINDS:
                wcs = SkyWcs((box.x0 + dim[1] / 2 + b, box.y0 + dim[0] / 3),
                             (200.0, 1.0), cd * (1 + 0.02 * b))
                e = cls(box)
                e.image.array[:, :] = rng.normal(size=dim) + 2 * b
                e.variance.array[:, :] = rng.uniform(0.1, 2.0, size=dim)
                for kind, vb, i, j, n in p['var']:
                    if vb == b:
                        e.variance.array[i:i + n, j:j + n] = {
                            'inf': np.inf, 'zero': 0.0, 'neg': -0.5,
                            'nan': np.nan}[kind]
                e.mask.array[:, :] = np.where(
                    rng.uniform(size=dim) < 0.3,
                    rng.randint(1, 2**12, size=dim), 0)
                e.setPsf(make_psf(p, b))
                e.setWcs(wcs)
                e.setFilter(afw_image.FilterLabel(band))
                self.e[b, k] = e

    def snap(self):
        return {k: snap_exp(e) for k, e in self.e.items()}


def snap_wcs(w):
    if w is None:
        return None
    return (w.crpix, w.crval, w.cd.copy())


def snap_exp(e):
    b = e.getBBox()
    f = e.getFilter()
    return dict(image=e.image.array.copy(), variance=e.variance.array.copy(),
                mask=e.mask.array.copy(), psf=snap_psf(e),
                wcs=snap_wcs(e.getWcs()), box=(b.x0, b.y0, b.w, b.h),
                filt=None if f is None else f.bandLabel,
                type=type(e).__name__)


def snap_psf(e):
    p = e.getPsf()
    if p is None:
        return None
    b = e.getBBox()
    try:
        return [p.computeKernelImage(geom.Point2D(
            b.x0 + x, b.y0 + y)).array.copy() for x, y in (
                (1, 1), (b.w - 2, 2))]
    except Exception as exc:
        return repr(exc)


def snap_obs(o):
    if o is None:
        return None
    return dict(
        image=np.array(o.image), weight=np.array(o.weight),
        bmask=np.array(o.bmask) if o.has_bmask() else None,
        ormask=np.array(o.ormask) if o.has_ormask() else None,
        jac=snap_jac(o.jacobian), psf=snap_obs(o.psf) if o.has_psf()
        else None, meta=sorted(o.meta))


def snap_jac(j):
    return [float(x) for x in (
        j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)]


def differs(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if tol:
        ok = np.allclose(a.astype('f8'), b.astype('f8'), rtol=tol,
                         atol=tol * 1.0e-3, equal_nan=True)
    else:
        ok = np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if ok:
        return None
    with np.errstate(all='ignore'):
        n = int((~np.isclose(a.astype('f8'), b.astype('f8'), rtol=max(
            tol, 1.0e-12), equal_nan=True)).sum())
    return '%d of %d values differ' % (n, a.size)


# ----------------------------------------------------------------------
# reference models

def ref_obs(e, to):
    """what exp2obs is to give, as a snapshot"""
    b = e.getBBox()
    # centre of the box, forced to whole pixels
    cen = geom.Point2D(geom.Point2I(b.getCenter()))
    cd = e.getWcs().cd * 3600
    jac = [cen.y - b.y0, cen.x - b.x0, -cd[0, 0], cd[0, 1], -cd[1, 0],
           cd[1, 1]]
    v = e.variance.array.astype('f8')
    with np.errstate(all='ignore'):
        wt = np.where(v > 0, 1 / v, 0.0)
    psf = e.getPsf().computeKernelImage(cen).array.astype('f8')
    c = (psf.shape[0] - 1) / 2
    mask = e.mask.array.copy()
    return dict(
        image=e.image.array.astype('f8'), weight=wt,
        bmask=mask if to == 'bmask' else mask * 0,
        ormask=mask if to == 'ormask' else mask * 0, jac=jac,
        psf=dict(image=psf, weight=np.full(
            psf.shape, 1 / (psf.max() * 1.0e-4)**2),
            jac=[c, c] + jac[2:]))


def cmp_obs(got, want):
    for k in ('bmask', 'ormask'):
        if got[k] is None:
            return '%s is missing' % k
        d = differs(got[k], want[k])
        if d:
            return '%s: %s' % (k, d)
    for k, tol in (('image', 0.0), ('weight', 1.0e-6), ('jac', 1.0e-9)):
        d = differs(got[k], want[k], tol)
        if d:
            return '%s: %s' % (k, d)
    if got['psf'] is None:
        return 'no psf'
    for k in ('image', 'weight', 'jac'):
        d = differs(got['psf'][k], want['psf'][k], 1.0e-6)
        if d:
            return 'psf %s: %s' % (k, d)
    return None


def unweighted(e):
    v = e.variance.array
    return not ((v > 0) & np.isfinite(v)).any()


def make_obs(r_seed, dim, masks, psf):
    """an observation that did not come from an exposure"""
    import ngmix
    rng = np.random.RandomState(r_seed)
    wt = rng.uniform(0.5, 3.0, size=dim)
    wt[rng.uniform(size=dim) < 0.15] = 0.0
    kw = {}
    for m in masks:
        kw[m] = np.where(rng.uniform(size=dim) < 0.3, rng.randint(
            1, 2**10, size=dim), 0).astype('i4')
    if psf:
        n = 9
        y, x = np.mgrid[:n, :n] - 4.0
        im = np.exp(-0.5 * (x * x + y * y * 1.2 + 0.2 * x) / 2.2)
        kw['psf'] = ngmix.Observation(image=im, weight=im * 0 + 4.0)
    return ngmix.Observation(image=rng.normal(size=dim), weight=wt, **kw)


# ----------------------------------------------------------------------

class Check(base.Check):
    id = 'C20'
    rule = ('a run is a seeded history of up to 8 conversions (exposure to '
            'observation, observation to exposure, round trips, multi-band '
            'data of coadds, copies) over two nearly equal sets of '
            'exposures, some refused, some stopped by an interrupt, a failed '
            'allocation or an undefined psf, after each of which every '
            'exposure is compared with a model; non-trivial when at least '
            'two conversions finished')
    measure = 'distinct (conversion, options, refusal, stop, variant) tuples'
    n_quick = 2500
    n_thorough = 200000
    real = ['metadetect.lsst.util (working tree)', 'numpy']
    stubs = ['lsst.* (exposures, wcs, psfs)', 'ngmix (observations)']

    def gen(self, seed):
        r = self.rng(seed)
        p = gen_scene(r)
        scenes = [p, scene_variant(r, p)]
        steps = []
        for _ in range(r.randint(3, 8)):
            s = dict(op=r.choice(OPS), w=r.randrange(2), band=r.randrange(3),
                     kind=r.choice(KINDS), to=r.choice(['ormask', 'bmask']),
                     store=r.random() < 0.5, psf=r.random() < 0.5,
                     into=r.choice(['none', 'own', 'own', 'sub']),
                     src=r.randrange(6), clear=r.random() < 0.5,
                     order=r.randrange(6), seed=r.randrange(2**31))
            x = r.random()
            if x < 0.2:
                s['refuse'] = {
                    'exp2obs': r.choice(REFUSED_E2O),
                    'obs2exp': r.choice(REFUSED_O2E),
                    'extract': r.choice(REFUSED_EXT)}.get(s['op'])
            elif x < 0.38:
                s['stop'] = dict(exc=r.choice([
                    'KeyboardInterrupt', 'MemoryError', 'MemoryError',
                    'lsst.InvalidParameterError']), pick=r.randrange(2**31))
            steps.append(s)
        return dict(scenes=scenes, steps=steps)

    def run(self, plan):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return self._run(plan)

    def _run(self, plan):
        res = core.Result()
        st = [Exps(p) for p in plan['scenes']]
        want = [x.snap() for x in st]        # the model
        obs = []                             # finished observations
        done = 0
        for n, s in enumerate(plan['steps']):
            s = dict(s)
            where = 'step %d (%s)' % (n, s['op'])
            osnap = [snap_obs(o) for o in obs]
            finished = getattr(self, 'do_' + s['op'])(
                res, s, st, want, obs, where)
            done += bool(finished)
            for i, x in enumerate(st):
                d = core.diff(x.snap(), want[i], 'exposure')
                if d:
                    res.bad('modified', '%s: exposures are not as they '
                            'should be after it: %s' % (where, d))
            for o, q in zip(obs, osnap):
                d = core.diff(snap_obs(o), q, 'observation')
                if d:
                    res.bad('modified-obs', '%s changed an observation: %s'
                            % (where, d))
            res.sigs.add(repr((
                s['op'], s['w'], s['to'], s['psf'], s['into'], s['clear'],
                s.get('refuse'), (s.get('stop') or {}).get('exc'),
                plan['scenes'][1]['variant'], len(st[s['w']].p['bands']))))
            if res.viol:
                break
        res.nontrivial = done >= 2
        return res

    # ------------------------------------------------------------------
    def attempt(self, res, s, dry, f, where, only=None):
        """call f, stopped as planned; (status, result)

        status: 'ok', 'refused' or 'stopped'; dry makes the same request on
        other data and finds where it can be stopped
        """
        stop = s.get('stop')
        if not stop:
            try:
                out = f()
            except Exception as e:
                if s.get('refuse'):
                    res.probes['refused-' + s['refuse']] += 1
                    return 'refused', e
                raise
            res.execs += 1
            return 'ok', out
        r = random.Random(stop['pick'])
        cc, cx = hooks.CallCtx(None), simhook.Ctx()
        with simhook.active(cx), hooks.interrupting(cc):
            dry()
        exc = stop['exc']
        if exc.startswith('lsst'):
            nk = cx.counts.get('psf.kernel', 0)
            if not nk:
                exc = 'MemoryError'
            else:
                cx = simhook.Ctx(positional={
                    ('psf.kernel', r.randrange(nk)): exc})
                cc = hooks.CallCtx(None)
        if not exc.startswith('lsst'):
            counts = cc.counts
            if only and exc == 'MemoryError':
                counts = {k: v for k, v in counts.items()
                          if k.endswith(only)} or counts
            t = hooks.pick_target(r, counts, exc)
            if only and exc == 'MemoryError':
                s['_clean'] = t is not None and t['site'].endswith(only)
            cc, cx = hooks.CallCtx(t), simhook.Ctx()
        if exc.startswith('lsst'):
            s['_clean'] = True
        out = got = None
        try:
            with simhook.active(cx), hooks.interrupting(cc):
                out = f()
        except (Exception, KeyboardInterrupt) as e:
            got = e
        if not (cc.fired or cx.fired_sites):
            if got is not None:
                raise got
            res.execs += 1
            return 'ok', out
        res.faults[exc] += 1
        if got is None:
            res.bad('swallowed', '%s: %s was raised while it was made, yet '
                    'it finished' % (where, exc))
        elif type(got).__name__ != simhook.exc_name(exc):
            res.bad('replaced', '%s: %s became %r' % (where, exc, got))
        return 'stopped', got

    def pick(self, s, st):
        x = st[s['w']]
        b = s['band'] % len(x.p['bands'])
        return x, (b, s['kind'])

    # ------------------------------------------------------------------
    def do_exp2obs(self, res, s, st, want, obs, where):
        from metadetect.lsst import util
        x, key = self.pick(s, st)
        e = x.e[key]
        to = s['to']
        if unweighted(e):
            # an observation cannot be without any weight
            s['refuse'] = 'noweight'
            s.pop('stop', None)
        ref = s.get('refuse')
        if ref == 'mask':
            to = 'mask'
        elif ref and ref != 'noweight':
            e = e.clone()
            if ref == 'evenpsf':
                q = dict(x.p['psf'][key[0]], size=16)
                e.setPsf(make_psf(dict(x.p, psf=[q] * 3), key[0]))
            elif ref == 'longpsf':
                e.setPsf(KernelPsf(FixedKernel(afw_image.ImageD(
                    np.ones((9, 11)) / 99))))
            else:
                e.setPsf(None)
        before = snap_exp(e)
        status, out = self.attempt(
            res, s, lambda: util.exp2obs(e.clone(), copy_mask_to=to),
            lambda: util.exp2obs(e, copy_mask_to=to, store_exp=s['store']),
            where)
        d = core.diff(snap_exp(e), before, 'exposure')
        if d:
            res.bad('modified', '%s changed the exposure it was given: %s' %
                    (where, d))
        if status != 'ok':
            return False
        if ref:
            res.bad('accepted', '%s: accepted although it cannot be '
                    'converted (%s)' % (where, ref))
            return False
        d = cmp_obs(snap_obs(out), ref_obs(e, to))
        if d:
            res.bad('obs', '%s: the observation is not that of the exposure: '
                    '%s' % (where, d))
        if ('exposure' in out.meta) != s['store'] or (
                s['store'] and out.meta['exposure'] is not e):
            res.bad('meta', '%s: the exposure %s stored' % (
                where, 'was not' if s['store'] else 'was'))
        if not s['store']:
            obs.append(out)
        res.log.append(core.digest([out.image, out.weight]))
        return True

    def do_obs2exp(self, res, s, st, want, obs, where):
        from metadetect.lsst import util
        x, key = self.pick(s, st)
        dim = tuple(x.p['dim'])
        ref = s.get('refuse')
        into, to, psf = s['into'], s['to'], s['psf']
        r = random.Random(s['seed'])
        box = None
        if into == 'sub':
            h, w = r.randint(6, dim[0]), r.randint(6, dim[1])
            y, z = r.randint(0, dim[0] - h), r.randint(0, dim[1] - w)
            box = geom.Box2I(geom.Point2I(x.p['xy0'][0] + z,
                                          x.p['xy0'][1] + y),
                             geom.Extent2I(w, h))
            dim = (h, w)
        fit = [o for o in obs if o.image.shape == dim]
        ob = None
        if fit and s['src'] and not ref:
            ob = fit[s['src'] % len(fit)]
        else:
            masks = ['bmask', 'ormask']
            if ref == 'nomask':
                masks.remove(to)
            odim = dim
            if ref == 'shape':
                odim = (dim[0] + 1, dim[1])
                into = 'own' if into == 'none' else into
            if ref == 'nopsf':
                psf = True
            ob = make_obs(s['seed'], odim, masks, ref != 'nopsf')
        name = 'mask' if ref == 'mask' else to
        own = x.e[key]
        e = dict(none=None, own=own).get(into)
        if into == 'sub':
            e = own[box]
        obefore = snap_obs(ob)
        m = want[s['w']][key]
        status, out = self.attempt(
            res, s, lambda: util.obs2exp(
                ob, exp=None if e is None else e.clone(),
                copy_mask_from=name, copy_psf=psf),
            lambda: util.obs2exp(ob, exp=e, copy_mask_from=name,
                                 copy_psf=psf), where)
        d = core.diff(snap_obs(ob), obefore, 'observation')
        if d:
            res.bad('modified-obs', '%s changed the observation it was '
                    'given: %s' % (where, d))
        if status == 'stopped' and into != 'none':
            # what it was to fill has no defined content any more, outside
            # of its box it still has
            self.refill(st[s['w']], key, m, box)
            return False
        if status != 'ok':
            return False
        if ref:
            res.bad('accepted', '%s: accepted although it cannot be '
                    'converted (%s)' % (where, ref))
            return False
        if e is not None and out is not e:
            res.bad('returned', '%s: gave another exposure than the one to '
                    'fill' % where)
            return False
        full = out
        dt = full.image.array.dtype
        q = obefore
        with np.errstate(all='ignore'):
            var = np.where(q['weight'] > 0, 1 / q['weight'], np.inf)
        for k, a, w, tol in (
                ('image', full.image.array, q['image'].astype(dt), 0.0),
                ('variance', full.variance.array, var.astype(dt), 1.0e-6),
                ('mask', full.mask.array, q[to], 0.0)):
            d = differs(a, w, tol)
            if d:
                res.bad('exp', '%s: %s of the exposure is not that of the '
                        'observation: %s' % (where, k, d))
        b = out.getBBox()
        if psf:
            if out.getPsf() is None:
                res.bad('exp-psf', '%s: the psf was not copied' % where)
            else:
                d = differs(out.getPsf().computeKernelImage(geom.Point2D(
                    b.x0 + 3, b.y0 + 2)).array, q['psf']['image'], 1.0e-7)
                if d:
                    res.bad('exp-psf', '%s: the psf is not that of the '
                            'observation: %s' % (where, d))
        if e is None:
            if not psf and out.getPsf() is not None:
                res.bad('exp-psf', '%s: a psf was copied' % where)
            res.log.append(core.digest(out.image.array))
            return not res.viol
        # the model: box filled, all else as it was
        sl = (slice(None), slice(None))
        if box is not None:
            y, z = box.y0 - own.getY0(), box.x0 - own.getX0()
            sl = (slice(y, y + dim[0]), slice(z, z + dim[1]))
        m['image'][sl] = q['image'].astype(dt)
        m['variance'][sl] = out.variance.array
        m['mask'][sl] = q[to]
        if psf and into == 'own':
            m['psf'] = [q['psf']['image'].astype('f8')] * 2
        if into == 'sub' and not psf:
            d = core.diff(snap_psf(own[box]), snap_psf(out), 'psf')
            if d:
                res.bad('exp-psf', '%s: a psf was copied' % where)
        res.log.append(core.digest(out.image.array))
        return not res.viol

    def refill(self, x, key, m, box):
        """restore what a stopped request was to fill, and only that"""
        e = x.e[key]
        sl = (slice(None), slice(None))
        if box is not None:
            y, z = box.y0 - e.getY0(), box.x0 - e.getX0()
            sl = (slice(y, y + box.h), slice(z, z + box.w))
        for k in ('image', 'variance', 'mask'):
            getattr(e, k).array[sl] = m[k][sl]
        if box is None:
            # the psf may have been set, too
            fresh = Exps(x.p).e[key]
            e.setPsf(fresh.getPsf())
            m['psf'] = snap_psf(e)

    def do_round(self, res, s, st, want, obs, where):
        """there and back, into a blanked copy"""
        from metadetect.lsst import util
        x, key = self.pick(s, st)
        e = x.e[key]
        if unweighted(e):
            return False
        blank = e.clone()
        blank.image.array[:, :] = 5.0
        blank.variance.array[:, :] = 7.0
        blank.mask.array[:, :] = 3

        def f():
            o = util.exp2obs(e, copy_mask_to=s['to'])
            return util.obs2exp(o, exp=blank, copy_mask_from=s['to'],
                                copy_psf=s['psf'])

        def dry():
            o = util.exp2obs(e.clone(), copy_mask_to=s['to'])
            util.obs2exp(o, exp=e.clone(), copy_mask_from=s['to'])

        status, out = self.attempt(res, s, dry, f, where)
        if status != 'ok':
            return False
        v = e.variance.array
        with np.errstate(all='ignore'):
            v = np.where(v > 0, v, np.inf).astype(v.dtype)
        for k, a, w, tol in (
                ('image', blank.image.array, e.image.array, 0.0),
                ('variance', blank.variance.array, v, 1.0e-6),
                ('mask', blank.mask.array, e.mask.array, 0.0)):
            d = differs(a, w, tol)
            if d:
                res.bad('round', '%s: %s after there and back: %s' % (
                    where, k, d))
        cen = geom.Point2D(geom.Point2I(e.getBBox().getCenter()))
        d = differs(blank.getPsf().computeKernelImage(cen).array,
                    e.getPsf().computeKernelImage(cen).array, 1.0e-7)
        if d:
            res.bad('round', '%s: psf after there and back: %s' % (where, d))
        return not res.viol

    def coadds(self, x, s):
        """a list of coadd data in some order of bands"""
        n = len(x.p['bands'])
        order = list(range(n))
        random.Random(s['order']).shuffle(order)
        return order, [dict(((k, x.e[b, k]) for k in KINDS),
                            other='x') for b in order]

    def do_extract(self, res, s, st, want, obs, where):
        from metadetect.lsst import util
        x = st[s['w']]
        order, data = self.coadds(x, s)
        ref = s.get('refuse')
        r = random.Random(s['seed'])
        if ref in ('nokey', 'nokey_first'):
            del data[-1 if ref == 'nokey' else 0][r.choice(KINDS)]
        elif ref == 'box':
            if len(order) < 2:
                ref = None
            else:
                k = r.choice(KINDS)
                old = data[-1][k]
                b = old.getBBox()
                e = type(old)(geom.Box2I(
                    geom.Point2I(b.x0 + 1, b.y0), geom.Extent2I(b.w, b.h)))
                e.setFilter(old.getFilter())
                e.setPsf(old.getPsf())
                e.setWcs(old.getWcs())
                data[-1][k] = e
        elif ref == 'nofilter':
            k = r.choice(KINDS)
            e = data[-1][k].clone()
            e.setFilter(None)
            data[-1][k] = e
        s['refuse'] = ref
        s.pop('_clean', None)
        m = want[s['w']]
        fresh = Exps(x.p)
        status, out = self.attempt(
            res, s, lambda: util.extract_multiband_coadd_data(
                self.coadds(fresh, s)[1]),
            lambda: util.extract_multiband_coadd_data(data), where,
            only='fromExposures')
        if status == 'stopped':
            if not s.pop('_clean', False):
                # masks are zeroed or not
                for k, e in x.e.items():
                    e.mask.array[:, :] = m[k]['mask']
            return False
        s.pop('_clean', None)
        if status != 'ok':
            return False
        if ref:
            res.bad('accepted', '%s: accepted although the data are '
                    'incomplete (%s)' % (where, ref))
            return False
        names = [x.p['bands'][b] for b in order]
        if set(out) != {'mbexp', 'noise_mbexp', 'mfrac_mbexp', 'ormasks'}:
            res.bad('items', '%s: gave %s' % (where, sorted(out)))
            return False
        for n, k in zip(('mbexp', 'noise_mbexp', 'mfrac_mbexp'), KINDS):
            mb = out[n]
            if list(mb.bands) != names:
                res.bad('bands', '%s: bands %s, given %s' % (
                    where, list(mb.bands), names))
                return False
            for b, e in zip(order, mb.singles):
                w = dict(m[b, k])
                w['mask'] = w['mask'] * 0
                d = core.diff(snap_exp(e), w, n)
                if d:
                    res.bad('mbexp', '%s: band %s is not that of its coadd: '
                            '%s' % (where, x.p['bands'][b], d))
        if len(out['ormasks']) != len(order):
            res.bad('ormasks', '%s: %d masks of %d bands' % (
                where, len(out['ormasks']), len(order)))
            return False
        for b, o in zip(order, out['ormasks']):
            d = differs(o, m[b, KINDS[0]]['mask'])
            if d:
                res.bad('ormasks', '%s: mask of band %s is not that of its '
                        'exposure: %s' % (where, x.p['bands'][b], d))
        for b in order:
            for k in KINDS:
                m[b, k]['mask'][:, :] = 0
        # the masks are copies
        for o in out['ormasks']:
            o[:, :] = 9
        for n in ('mbexp', 'noise_mbexp', 'mfrac_mbexp'):
            for e in out[n].singles:
                if (e.mask.array != 0).any():
                    res.bad('ormasks', '%s: the masks are those of the '
                            'exposures, not copies' % where)
        res.log.append(core.digest([
            e.image.array for e in out['mbexp'].singles]))
        return not res.viol

    def do_join(self, res, s, st, want, obs, where):
        return self.do_copy(res, s, st, want, obs, where, join=True)

    def do_copy(self, res, s, st, want, obs, where, join=False):
        from metadetect.lsst import util
        x = st[s['w']]
        order, data = self.coadds(x, s)
        exps = [d[s['kind']] for d in data]
        mb = util.get_mbexp(exps)
        fresh = Exps(x.p)
        fexps = [d[s['kind']] for d in self.coadds(fresh, s)[1]]
        before = [snap_exp(e) for e in mb.singles]
        if join:
            status, out = self.attempt(
                res, s, lambda: util.get_mbexp(fexps),
                lambda: util.get_mbexp(exps), where)
        else:
            fmb = util.get_mbexp(fexps)
            status, out = self.attempt(
                res, s, lambda: util.copy_mbexp(fmb, clear=s['clear']),
                lambda: util.copy_mbexp(mb, clear=s['clear']), where)
        for b, q, e in zip(order, before, mb.singles):
            d = core.diff(snap_exp(e), q, 'band %s' % x.p['bands'][b])
            if d:
                res.bad('modified', '%s changed what it was given: %s' % (
                    where, d))
        if status != 'ok':
            return False
        if list(out.bands) != [x.p['bands'][b] for b in order]:
            res.bad('bands', '%s: bands %s' % (where, list(out.bands)))
            return False
        for b, e in zip(order, out.singles):
            w = dict(want[s['w']][b, s['kind']])
            if s['clear'] and not join:
                w['image'] = w['image'] * 0
            d = core.diff(snap_exp(e), w, 'band %s' % x.p['bands'][b])
            if d:
                res.bad('copy', '%s: not a copy: %s' % (where, d))
        if not join:
            # writing to the copy does not reach what was copied
            for e in out.singles:
                e.image.array[:, :] = -3
                e.mask.array[:, :] = 1
                e.variance.array[:, :] = 8
            for q, e in zip(before, mb.singles):
                d = core.diff(snap_exp(e), q, 'original')
                if d:
                    res.bad('copy', '%s: not independent: %s' % (where, d))
        return not res.viol

    # ------------------------------------------------------------------
    def shrink_lists(self, plan):
        return [('steps',), ('scenes', 0, 'var'), ('scenes', 1, 'var')]

    def shrink_more(self, plan):
        for i, s in enumerate(plan['steps']):
            for k in ('stop', 'refuse'):
                if s.get(k):
                    n = copy.deepcopy(plan)
                    del n['steps'][i][k]
                    yield n
            for k, v in (('into', 'own'), ('psf', False), ('store', False),
                         ('band', 0)):
                if s[k] != v:
                    yield base.with_path(plan, ('steps', i, k), v)
