"""LSST sheared images and detection images: each made from its own data"""
import copy
import warnings

import numpy as np

import base
import core
import hooks
import lw
import mdrun
import simhook

import lsst.geom as geom
import lsst.afw.image as afw_image

G = 0.01
SHEARS = {'noshear': (0.0, 0.0), '1p': (G, 0.0), '1m': (-G, 0.0),
          '2p': (0.0, G), '2m': (0.0, -G)}
DEF_TYPES = ['noshear', '1p', '1m']
OPS = ['mbexps_fixnoise', 'mbexps_fixnoise', 'mbexps', 'exps', 'exps_fixnoise',
       'coadd', 'coadd', 'pipeline', 'pipeline', 'photometry']
VARIANTS = ['image', 'psf', 'rot', 'xy0', 'dims', 'var', 'noise', 'bands',
            'same']
STATS = np.dtype([('e1', 'f8'), ('e2', 'f8'), ('T', 'f8'), ('flags', 'i4')])


def gen_types(r):
    x = r.random()
    if x < 0.12:
        return None
    n = r.choice([1, 2, 2, 3, 4, 5])
    return r.sample(sorted(SHEARS), n)


def gen_stats(r, n):
    return [[round(r.uniform(-0.12, 0.12), 3), round(r.uniform(-0.12, 0.12),
                                                     3),
             round(r.uniform(0.24, 0.42), 3)] for _ in range(n)]


def variant(r, w):
    """a workload that differs from w in one respect"""
    v = copy.deepcopy(w)
    p = v['exp']
    k = r.choice(VARIANTS)
    if k == 'image':
        p['objs'][0]['flux'] = [x * 1.3 for x in p['objs'][0]['flux']]
    elif k == 'psf':
        p['psf_s2'] = round(p['psf_s2'] + 0.25, 2)
    elif k == 'rot':
        p['rot'] = p['rot'] + 0.4
    elif k == 'xy0':
        p['xy0'] = [p['xy0'][0] + r.choice([1, 13]), p['xy0'][1] + r.choice(
            [0, 2])]
    elif k == 'dims':
        p['dim'] = [p['dim'][0] + r.choice([0, 1, 5]), p['dim'][1] +
                    r.choice([1, 2])]
    elif k == 'var':
        p['noise'] = [round(x * 1.25, 3) for x in p['noise']]
    elif k == 'noise':
        p['seed'] += 1
    elif k == 'bands':
        p['bands'] = p['bands'][::-1]
    v['variant'] = k
    return v


def inputs(w):
    """the inputs of a workload, of the configured floating type"""
    from metadetect.lsst import util
    inp = lw.LInputs(w)
    if w.get('double'):
        for n in ('mbexp', 'noise_mbexp'):
            setattr(inp, n, util.get_mbexp([
                afw_image.ExposureD(e, deep=True)
                for e in getattr(inp, n).singles]))
    return inp


# ----------------------------------------------------------------------
# reference model

class Ref:
    """sheared images of one band, made with galsim from the band alone"""
    def __init__(self, inp, p):
        self.inp, self.p, self.memo = inp, p, {}
        b = lw.box_of(p)
        self.cen = geom.Point2D(geom.Point2I(b.getCenter()))
        self.m = lw.make_wcs(p).cd * 3600

    def wcs(self):
        import galsim
        m = self.m
        return galsim.JacobianWCS(m[1, 1], -m[1, 0], m[0, 1], -m[0, 0])

    def kernel(self, iband, stats):
        """(interpolated original psf, reconvolution kernel, its image)"""
        import galsim
        from ngmix.metacal.metacal import (
            _get_gauss_target_psf, _get_ellip_dilation)
        e = self.inp.mbexp.singles[iband]
        im = np.array(e.getPsf().computeKernelImage(self.cen).array)
        psf = galsim.InterpolatedImage(
            galsim.ImageD(im, wcs=self.wcs()), x_interpolant='lanczos15')
        if stats is None:
            k = _get_gauss_target_psf(psf, flux=im.sum())
        else:
            e1, e2, T = stats
            k = galsim.Gaussian(
                sigma=np.sqrt(T * _get_ellip_dilation(e1, e2, T) / 2),
                flux=im.sum())
        k = k.dilate(1 + 2 * G)
        kim = galsim.ImageD(im.shape[1], im.shape[0], wcs=self.wcs())
        k.drawImage(image=kim, method='no_pixel')
        return psf, k, kim.array.copy()

    def sheared(self, which, iband, type, stats, rot):
        """image of band iband of the data ('im') or noise ('noise')"""
        import galsim
        key = (which, iband, type, None if stats is None else tuple(stats),
               rot)
        if key in self.memo:
            return self.memo[key]
        mb = self.inp.mbexp if which == 'im' else self.inp.noise_mbexp
        im = mb.singles[iband].image.array.astype('f8')
        if rot:
            im = im.T[::-1].copy()
        psf, k, kim = self.kernel(iband, stats)
        gim = galsim.ImageD(im.copy(), wcs=self.wcs())
        o = galsim.Convolve(
            galsim.InterpolatedImage(gim, x_interpolant='lanczos15'),
            galsim.Deconvolve(psf))
        g1, g2 = SHEARS[type]
        if g1 or g2:
            o = o.shear(g1=g1, g2=g2)
        out = galsim.ImageD(im.shape[1], im.shape[0], wcs=self.wcs())
        galsim.Convolve(o, k).drawImage(image=out, method='no_pixel')
        a = out.array.copy()
        if rot:
            a = a.T[:, ::-1].copy()
        self.memo[key] = (a, kim)
        return self.memo[key]

    def exp(self, which, iband, type, stats, rot, fix):
        """(image, variance, mask, psf image) expected"""
        mb = self.inp.mbexp if which == 'im' else self.inp.noise_mbexp
        e = mb.singles[iband]
        a, kim = self.sheared(which, iband, type, stats, rot)
        var = e.variance.array.astype('f8')
        if fix:
            a = a + self.sheared('noise', iband, type, stats, True)[0]
            var = var * 2
        return a, var, e.mask.array.copy(), kim


def ref_coadd(parts):
    """parts: (image, variance, mask, psf image) per band; None when no band
    has weight"""
    ws = [1.0 / np.median(v[v > 0]) for im, v, m, k in parts]
    wsum = sum(ws)
    if wsum <= 0:
        return None
    im = sum(np.where(v > 0, i, 0) * w for w, (i, v, m, k) in zip(ws, parts))
    im = im / wsum
    psf = sum(w * k for w, (i, v, m, k) in zip(ws, parts))
    psf = psf / psf.sum()
    iv = np.zeros(im.shape)
    mask = np.zeros(im.shape, 'i4')
    full = np.ones(im.shape, bool)
    for i, v, m, k in parts:
        mask |= m
        full &= v > 0
        iv[v > 0] += 1 / v[v > 0]
    var = np.full(im.shape, np.inf)
    var[iv > 0] = 1 / iv[iv > 0]
    return im, var, mask, psf, full


def close(a, b, tol, sel=None):
    a = np.asarray(a, 'f8')
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return 'undefined at other pixels'
    if sel is not None:
        fin = fin & sel
    if not fin.any():
        return None
    d = np.abs(a[fin] - b[fin]).max()
    s = np.abs(b[fin]).max()
    if d > tol * max(s, 1.0e-30):
        return 'off by up to %.3g of %.3g' % (d, s)
    return None


def psf_at(e, cen):
    return np.array(e.getPsf().computeKernelImage(cen).array)


class Check(base.Check):
    id = 'C18'
    rule = ('a run is a seeded history of up to 7 requests for sheared and '
            'detection images (and complete LSST runs) over two nearly equal '
            'inputs in one process, some stopped by an interrupt, a failed '
            'allocation or an undefined psf, each finished one compared with '
            'images made independently; non-trivial when at least two '
            'requests finished')
    measure = ('distinct (request, types, kernel, bands, variant, fault) '
               'tuples')
    n_quick = 300
    n_thorough = 20000
    real = ['metadetect.lsst (working tree)', 'galsim', 'numpy', 'scipy']
    stubs = ['lsst.* (exposures, detection, deblending, configuration)',
             'ngmix']

    def gen(self, seed):
        r = self.rng(seed)
        w = lw.gen_lsst_workload(
            r, mode='metadetect', nband=r.choice([1, 2, 2, 3]),
            dim=[r.choice([44, 47, 50]), r.choice([44, 48, 51])],
            nobj=r.choice([1, 2]))
        w['sky'] = False
        w['cfg'].pop('subtract_sky', None)
        w['psf_stats'] = True
        w['double'] = r.random() < 0.25
        works = [w, variant(r, w)]
        nb = len(w['exp']['bands'])
        steps = []
        for _ in range(r.randint(3, 7)):
            op = r.choice(OPS)
            if op in ('pipeline', 'photometry') and sum(
                    s['op'] == op for s in steps) >= 1:
                op = r.choice(['mbexps_fixnoise', 'coadd'])
            s = dict(op=op, w=r.randrange(2), types=gen_types(r))
            s['stats'] = gen_stats(r, nb) if r.random() < 0.6 else None
            s['rot'] = r.random() < 0.4
            s['band'] = r.randrange(nb)
            s['sub'] = sorted(r.sample(range(nb), r.randint(1, nb)))
            if op == 'pipeline':
                s['types'] = r.sample(sorted(SHEARS), r.choice([1, 2, 3]))
                s['reconv'] = r.choice(['fitgauss', 'gauss'])
            s['src'] = r.randrange(4)
            x = r.random()
            if x < 0.15:
                s['stop'] = dict(exc=r.choice(['KeyboardInterrupt',
                                               'MemoryError']),
                                 pick=r.randrange(2**31))
            elif x < 0.22:
                s['stop'] = dict(exc='lsst.InvalidParameterError',
                                 pick=r.randrange(2**31))
            elif x < 0.27 and op not in ('coadd', 'photometry'):
                s['bad'] = r.choice(['type', 'len'])
            elif x < 0.30 and op == 'coadd':
                s['zerovar'] = [r.randrange(4), r.randrange(30)]
            steps.append(s)
        return dict(works=works, steps=steps)

    # ------------------------------------------------------------------
    def run(self, plan):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return self._run(plan)

    def _run(self, plan):
        res = core.Result()
        inps = [inputs(w) for w in plan['works']]
        refs = [Ref(inputs(w), w['exp']) for w in plan['works']]
        before = [i.snap() for i in inps]
        made = []           # finished multi-band results, for coadds
        done = 0
        for n, s in enumerate(plan['steps']):
            where = 'step %d (%s)' % (n, s['op'])
            if s.get('stop'):
                self.stopped(res, plan, s, inps, where)
            else:
                ok = self.step(res, plan, s, inps, refs, made, where)
                done += bool(ok)
            for i, b in zip(inps, before):
                d = core.diff(i.snap(), b, 'input')
                if d:
                    res.bad('modified', '%s changed its input: %s' % (
                        where, d))
            res.sigs.add(repr((
                s['op'], s['types'], s['stats'] is None, s.get('reconv'),
                s['rot'], len(s['sub']), plan['works'][1]['variant'],
                s.get('bad'), (s.get('stop') or {}).get('exc'))))
            if res.viol:
                break
        res.nontrivial = done >= 2
        return res

    def call(self, s, plan, inps, made):
        """a function making the request"""
        from metadetect.lsst import metacal_exposures as M
        from metadetect.lsst import util
        inp = inps[s['w']]
        w = plan['works'][s['w']]
        st = None
        sub = [i for i in s['sub'] if i < len(w['exp']['bands'])] or [0]
        if s['stats'] is not None:
            st = np.zeros(len(sub), STATS)
            for i, b in enumerate(sub):
                st[i] = tuple(s['stats'][b % len(s['stats'])]) + (0,)
            if s.get('bad') == 'len':
                st = np.concatenate([st, st[:1]])
        types = s['types']
        if s.get('bad') == 'type':
            types = (types or []) + ['3p']
        if s['op'] in ('mbexps', 'mbexps_fixnoise'):
            a = util.get_mbexp([inp.mbexp.singles[i] for i in sub])
            b = util.get_mbexp([inp.noise_mbexp.singles[i] for i in sub])
            if s['op'] == 'mbexps':
                return lambda: M.get_metacal_mbexps(
                    a, types=types, rot=s['rot'], psf_stats=st)
            return lambda: M.get_metacal_mbexps_fixnoise(
                a, b, types=types, psf_stats=st)
        if s['op'] in ('exps', 'exps_fixnoise'):
            i = sub[s['band'] % len(sub)]
            one = None if st is None else st[sub.index(i)]
            e, ne = inp.mbexp.singles[i], inp.noise_mbexp.singles[i]
            if s['op'] == 'exps':
                return lambda: M.get_metacal_exps(
                    e, psf_stats=one, types=types, rot=s['rot'])
            return lambda: M.get_metacal_exps_fixnoise(
                e, ne, psf_stats=one, types=types)
        if s['op'] == 'coadd':
            lst = self.coadd_src(s, inp, made)
            return lambda: util.coadd_exposures(lst)
        raise KeyError(s['op'])

    def coadd_src(self, s, inp, made):
        if made and s['src']:
            lst = made[s['src'] % len(made)]
        else:
            lst = [inp.mbexp.singles[i] for i in s['sub']
                   if i < len(inp.mbexp.singles)]
        if s.get('zerovar'):
            lst = [e.clone() for e in lst]
            b, k = s['zerovar']
            lst[b % len(lst)].variance.array[k:k + 6, k // 2:k + 9] = 0
        return lst

    def pipe(self, s, plan, target=None, faults=(), count=False):
        w = copy.deepcopy(plan['works'][s['w']])
        if s['op'] == 'photometry':
            w['mode'] = 'photometry'
            w['cfg'].pop('metacal', None)
            w['cfg'].pop('deblender', None)
        else:
            w['cfg']['metacal'] = {'types': s['types'],
                                   'reconv_type': s['reconv']}
        ctx = mdrun.faults_ctx(faults)
        ctx.full = True
        return w, lw.execute(w, inp=inputs(w), target=target, ctx=ctx,
                             count_calls=count)

    def stopped(self, res, plan, s, inps, where):
        """make the request, stop it somewhere; nothing of it may stay"""
        import random
        r = random.Random(s['stop']['pick'])
        exc = s['stop']['exc']
        pipeline = s['op'] in ('pipeline', 'photometry')
        if pipeline:
            w, o = self.pipe(s, plan, count=True)
            res.took(o)
            t = hooks.pick_target(r, o.cctx.counts, exc) if not \
                exc.startswith('lsst') else None
            fl = () if t else [['psf.kernel', None, r.randrange(max(
                1, o.ctx.counts.get('psf.kernel', 1))), exc]]
            w, o = self.pipe(s, plan, target=t, faults=fl)
            res.took(o)
            if t and o.cctx.fired:
                res.faults[exc] += 1
            return
        fresh = [inputs(w) for w in plan['works']]
        cc, cx = hooks.CallCtx(None), simhook.Ctx()
        with simhook.active(cx), hooks.interrupting(cc):
            self.call(s, plan, fresh, [])()
        if exc.startswith('lsst'):
            k = r.randrange(max(1, cx.counts.get('psf.kernel', 1)))
            cx = simhook.Ctx(positional={('psf.kernel', k): exc})
            cc = hooks.CallCtx(None)
        else:
            cc = hooks.CallCtx(hooks.pick_target(r, cc.counts, exc))
            cx = simhook.Ctx()
        f = self.call(s, plan, inps, [])
        got = None
        try:
            with simhook.active(cx), hooks.interrupting(cc):
                f()
        except (Exception, KeyboardInterrupt) as e:
            got = e
        fired = cc.fired or bool(cx.fired_sites)
        if fired:
            res.faults[exc] += 1
            if got is None:
                res.bad('swallowed', '%s: %s was raised while it was made, '
                        'yet it finished' % (where, exc))
            elif type(got).__name__ != simhook.exc_name(exc):
                res.bad('replaced', '%s: %s became %r' % (where, exc, got))
        elif got is not None:
            raise got

    # ------------------------------------------------------------------
    def step(self, res, plan, s, inps, refs, made, where):
        if s['op'] in ('pipeline', 'photometry'):
            return self.step_pipe(res, plan, s, refs, where)
        inp, ref = inps[s['w']], refs[s['w']]
        bad = s.get('bad')
        if bad == 'len' and (s['stats'] is None or s['op'] not in (
                'mbexps', 'mbexps_fixnoise')):
            bad = None
        f = self.call(s, plan, inps, made)
        try:
            out = f()
        except Exception as e:
            if bad:
                res.probes['refused'] += 1
                return False
            raise e
        res.execs += 1
        if bad:
            res.bad('accepted', '%s: %s' % (where, {
                'type': 'an unknown type was accepted',
                'len': 'psf statistics of another number of bands were '
                       'accepted'}[bad]))
            return False
        if s['op'] == 'coadd':
            lst = self.coadd_src(s, inp, made)
            b = lst[0].getBBox()
            ny, nx = lst[0].image.array.shape
            cen = geom.Point2D(b.x0 + (nx - 1) / 2, b.y0 + (ny - 1) / 2)
            parts = [(e.image.array.astype('f8'),
                      e.variance.array.astype('f8'), e.mask.array,
                      psf_at(e, cen)) for e in lst]
            self.cmp_det(res, where, out, ref_coadd(parts), lst[0], cen)
            res.log.append(core.digest(
                None if out is None else out.image.array))
            return True
        bands = plan['works'][s['w']]['exp']['bands']
        sub = [i for i in s['sub'] if i < len(bands)] or [0]
        types = s['types'] or DEF_TYPES
        stats = s['stats']
        fix = s['op'].endswith('fixnoise')
        rot = s['rot'] and not fix
        outs = [('im', out, rot, False)]
        if fix:
            outs = [('im', out[0], False, True), ('noise', out[1], True,
                                                  False)]
        for which, d, ro, fx in outs:
            if set(d) != set(types):
                res.bad('types', '%s: made %s, asked for %s' % (
                    where, sorted(d), sorted(types)))
                return False
            for t in types:
                if s['op'].startswith('mbexps'):
                    if list(d[t].bands) != [bands[i] for i in sub]:
                        res.bad('bands', '%s: bands %s, given %s' % (
                            where, list(d[t].bands),
                            [bands[i] for i in sub]))
                        return False
                    es = [(i, d[t][bands[i]]) for i in sub]
                    if which == 'im':
                        made.append([e for i, e in es])
                else:
                    es = [(sub[s['band'] % len(sub)], d[t])]
                for i, e in es:
                    st = None if stats is None else stats[i % len(stats)]
                    self.cmp_exp(res, '%s %s of type %s, band %s' % (
                        where, which, t, bands[i]), e,
                        ref.exp(which, i, t, st, ro, fx),
                        getattr(inp, 'mbexp' if which == 'im' else
                                'noise_mbexp').singles[i])
                    res.log.append(core.digest(e.image.array))
                    if res.viol:
                        return False
        return True

    def cmp_exp(self, res, where, e, want, src):
        im, var, mask, kim = want
        d = close(e.image.array, im, 1.0e-6)
        if d:
            res.bad('image', '%s: the image is not that of its own data: %s'
                    % (where, d))
        d = close(e.variance.array, var, 1.0e-6)
        if d:
            res.bad('variance', '%s: variance %s' % (where, d))
        if not np.array_equal(e.mask.array, mask):
            res.bad('mask', '%s: another mask' % where)
        self.cmp_meta(res, where, e, src)
        d = close(psf_at(e, geom.Point2D(e.getX0() + 3, e.getY0() + 3)),
                  kim, 1.0e-6)
        if d:
            res.bad('psf', '%s: the psf is not its reconvolution kernel: %s'
                    % (where, d))

    def cmp_meta(self, res, where, e, src):
        b, c = e.getBBox(), src.getBBox()
        if (b.x0, b.y0, b.w, b.h) != (c.x0, c.y0, c.w, c.h):
            res.bad('bbox', '%s: box %r, of the data %r' % (where, b, c))
        if e.getWcs() is None:
            res.bad('wcs', '%s: no wcs' % where)
        else:
            for p in (geom.Point2D(c.x0, c.y0), geom.Point2D(
                    c.x0 + 20, c.y0 + 7)):
                a, q = e.getWcs().pixelToSky(p), src.getWcs().pixelToSky(p)
                if abs(a.getRa().asDegrees() - q.getRa().asDegrees()) > \
                        1.0e-9 or abs(a.getDec().asDegrees() -
                                      q.getDec().asDegrees()) > 1.0e-9:
                    res.bad('wcs', '%s: another wcs' % where)
        if e.getFilter() != src.getFilter():
            res.bad('filter', '%s: another filter' % where)

    def cmp_det(self, res, where, got, want, src, cen, single=False):
        if want is None or got is None:
            if (want is None) != (got is None):
                res.bad('undetectable', '%s: %s, although %s' % (
                    where, 'no detection image' if got is None else
                    'a detection image', 'some band has weight'
                    if got is None else 'no band has any'))
            return
        im, var, mask, psf, full = want
        d = close(got.image.array, im, 2.0e-6, full)
        if d:
            res.bad('det-image', '%s: detection image %s' % (where, d))
        d = close(got.variance.array, var, 2.0e-6)
        if d:
            res.bad('det-variance', '%s: detection variance %s' % (where, d))
        if not np.array_equal(got.mask.array, mask):
            res.bad('det-mask', '%s: mask of the detection image' % where)
        d = close(psf_at(got, cen), psf, 2.0e-6)
        if d:
            res.bad('det-psf', '%s: psf of the detection image %s' % (
                where, d))
        b, c = got.getBBox(), src.getBBox()
        if (b.x0, b.y0, b.w, b.h) != (c.x0, c.y0, c.w, c.h):
            res.bad('bbox', '%s: box %r, of the data %r' % (where, b, c))

    def step_pipe(self, res, plan, s, refs, where):
        w, o = self.pipe(s, plan)
        res.took(o)
        if o.exc is not None:
            raise o.exc
        ref = refs[s['w']]
        bands = w['exp']['bands']
        b = lw.box_of(w['exp'])
        ny, nx = w['exp']['dim']
        cen = geom.Point2D(b.x0 + (nx - 1) / 2, b.y0 + (ny - 1) / 2)
        wants = []
        if s['op'] == 'photometry':
            parts = [(e.image.array.astype('f8'),
                      e.variance.array.astype('f8'), e.mask.array,
                      psf_at(e, cen)) for e in ref.inp.mbexp.singles]
            wants.append(('photometry', parts))
        else:
            st = None
            if o.result is None:
                return False
            if s['reconv'] == 'fitgauss':
                pb = o.result['psf_stats']['perband']
                st = [(float(x['e1']), float(x['e2']), float(x['T']))
                      for x in pb]
            for t in s['types']:
                wants.append((t, [ref.exp(
                    'im', i, t, None if st is None else st[i], False, True)
                    for i in range(len(bands))]))
        dets = o.ctx.notes.get('detimg', [])
        exp = []
        for t, parts in wants:
            if len(parts) == 1:
                im, v, m, k = parts[0]
                exp.append((t, (im, v, m, k, np.ones(im.shape, bool))))
            else:
                c = ref_coadd(parts)
                if c is not None:
                    exp.append((t, c))
        if len(dets) != len(exp):
            res.bad('undetectable', '%s: detection on %d images, %d can be '
                    'made' % (where, len(dets), len(exp)))
            return False
        src = ref.inp.mbexp.singles[0]
        # the types may be worked on in any order
        left = list(dets)
        for t, c in exp:
            ds = [np.abs(np.where(c[4], d.image.array - c[0], 0)).max()
                  if d.image.array.shape == c[0].shape else np.inf
                  for d in left]
            d = left.pop(int(np.argmin(ds)))
            self.cmp_det(res, '%s type %s' % (where, t), d, c, src, cen)
            res.log.append(core.digest(d.image.array))
        return True

    def shrink_lists(self, plan):
        return [('steps',)]

    def shrink_more(self, plan):
        for i in range(2):
            yield from lw.shrink_lsst(plan, ('works', i))
        for i, s in enumerate(plan['steps']):
            if s['types'] and len(s['types']) > 1:
                for t in s['types']:
                    yield base.with_path(plan, ('steps', i, 'types'), [t])
            if s['stats'] is not None:
                yield base.with_path(plan, ('steps', i, 'stats'), None)
