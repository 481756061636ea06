"""Demonstrations of planted bugs: id -> (needs, breaks, source of demo.py)"""
DEMOS = {}


def demo(id, needs, breaks, src):
    DEMOS[id] = (needs, breaks, src)


# ---------------------------------------------------------------- C01
demo('c01-prior-cache',
     '''two runs in one process that fit the gauss model with the same number
     of bands and pixel scale: the second reuses the prior (and generator) of
     the first''',
     'the second run draws from the first run\'s generator, so its results '
     'depend on what ran before', r'''
w = work(fitters=[mom(), dw.gauss()])
first = outcome(execute(w))
execute(work(fitters=[mom(), dw.gauss()], rng=77))
d = diff(outcome(execute(w)), first)
check(not d, 'the same run again: %s' % d)
''')
demo('c01-budget',
     'one band combination whose detection and measurement takes more than '
     'two hours on the clock (a stalled node or a clock jump)',
     'the result depends on the clock', r'''
w = work()
fast = outcome(execute(w))
w['clock'] = [9000.0]
d = diff(outcome(execute(w)), fast)
check(not d, 'on a slow clock: %s' % d)
''')
demo('c01-last-failed',
     'two failed joint fits in earlier calls of the same process',
     'later runs draw one number more from the caller\'s generator, so the '
     'result depends on the history of the process', r'''
w = work(fitters=[mom(), dw.am(), dw.gauss()])
first = execute(w)
keys = [k for k in dw.keys(first, 'fit.am') if k[0] == 'main'
        and k[-1] == 'obj']
for k in keys:
    execute(w, [['fit.am', list(k), None, 'ValueError']])
d = diff(outcome(execute(w)), outcome(first))
check(not d, 'the same run after failures: %s' % d)
''')

# ---------------------------------------------------------------- C02
demo('c02-template',
     'two threads measuring moments with different shear bands of the same '
     'number of bands, switching while the output row is set up',
     'the threads share the output row, so one gets values of the other', r'''
import ngmix
from metadetect.fitting import fit_mbobs_list_wavg
mbs = [Inputs(work(dims=(24, 24), objs=[obj(11.5, 11.5, 2, flux=f)], nband=2)).mbobs
       for f in (9.0, 14.0)]


def fit(mb, bands):
    return fit_mbobs_list_wavg(
        mbobs_list=[mb, mb], fitter=ngmix.gaussmom.GaussMom(fwhm=1.2),
        shear_bands=bands, bmask_flags=0, fwhm_reg=0, symmetrize=False)


alone = [fit(mb, [i]) for i, mb in enumerate(mbs)]


def make():
    outs = [None, None]

    def body(i):
        def run():
            outs[i] = fit(mbs[i], [i])
        return run
    return [body(0), body(1)], outs


for outs in dw.together(make, 150):
    d = diff(list(outs), alone)
    check(not d, 'together: %s' % d)
''')
demo('c02-mcal-rng',
     'two threads sharing one configuration, one switching while the other '
     'makes its sheared images',
     'the generator travels through the shared configuration: a thread uses '
     'the other one\'s generator', r'''
import core
ws = [work(rng=1), work(rng=2, seed=9)]
for w in ws:
    w['cfg']['metacal']['use_noise_image'] = False
alone = [outcome(execute(w)) for w in ws]


def make():
    outs = [None, None]
    ins = [Inputs(w) for w in ws]
    ins[1].cfg = ins[0].cfg

    def body(i):
        def run():
            outs[i] = outcome(execute(ws[i], inp=ins[i]))
        return run
    return [body(0), body(1)], outs


for outs in dw.together(make, 60):
    d = diff(list(outs), alone)
    check(not d, 'together: %s' % d)
''')
demo('c02-default-swap',
     'two threads asking for configurations, one switching between the '
     'update and the restoration of the defaults',
     'a thread gets the other one\'s overrides', r'''
import copy
import metadetect.lsst.configs as cf
over = [{'detect': {'thresh': 9.0}}, {'pgauss': {'fwhm': 3.0}}]
default = copy.deepcopy(cf.DEFAULT_MDET_CONFIG)
alone = [cf.get_config(copy.deepcopy(o)) for o in over]
check(cf.DEFAULT_MDET_CONFIG == default, 'defaults changed')


def make():
    outs = [None, None]

    def body(i):
        def run():
            outs[i] = cf.get_config(copy.deepcopy(over[i]))
        return run
    return [body(0), body(1)], outs


for outs in dw.together(make, 200):
    check(list(outs) == alone, 'together: %s' % (outs,))
    check(cf.DEFAULT_MDET_CONFIG == default, 'defaults changed')
''')

# ---------------------------------------------------------------- C03
demo('c03-order',
     'a moments fit whose PSF measurement fails for one of several objects',
     'the size ratio of the other objects changes', r'''
w = work(nband=2, fitters=[mom()], objs=[
    obj(20.3, 20.1, 2), obj(43.2, 42.7, 2), obj(21.4, 43.2, 2, s2=5.0)])
ok = execute(w)
k = [k for k in dw.keys(ok, 'fit.wmom')
     if k[2] == 0 and k[-1] == 'psf' and k[3][0] < 30][0]
n = 0
for kind in ('flagged', 'ValueError'):
    bad = execute(w, [['fit.wmom', list(k), None, kind]])
    if bad.exc is not None:
        continue
    n += 1
    a, b = ok.result['noshear'], bad.result['noshear']
    check(len(a) == len(b) == 3, 'rows')
    i = b['wmom_flags'] == 0
    check(i.sum() == 2, 'flag')
    for name in a.dtype.names:
        d = diff(a[name][i], b[name][i])
        check(not d, 'row of another object, %s: %s' % (name, d))
check(n > 0, 'the demonstration needs a failure')
''')
demo('c03-runner-state',
     'the object fit of one object fails, gauss fits without coadding',
     'all objects after it are fit in a different way', r'''
w = work(nband=2, fitters=[mom(), dw.gauss(False)])
ok = execute(w)
k = [k for k in dw.keys(ok, 'fit.gauss') if k[3][0] < 30][0]
bad = execute(w, [['fit.gauss', list(k), None, 'ValueError']])
a, b = ok.result['noshear'], bad.result['noshear']
check(len(a) == len(b) == 2 and b['gauss_flags'][0] != 0, 'rows')
for n in a.dtype.names:
    if n.startswith('gauss_psf'):
        d = diff(a[n][1], b[n][1])
        check(not d, 'row of another object, %s: %s' % (n, d))
''')
demo('c03-reraise',
     'an object fit that fails with an error outside the listed kinds',
     'the failure of one fit ends the whole run', r'''
w = work(fitters=[mom(), dw.gauss()])
ok = execute(w)
k = [k for k in dw.keys(ok, 'fit.gauss') if k[3][0] < 30][0]
for kind in ('ValueError', 'SimError', 'MemoryError'):
    bad = execute(w, [['fit.gauss', list(k), None, kind]])
    check(bad.exc is None, 'the run ended with %r' % bad.exc)
    b = bad.result['noshear']
    check(b['gauss_flags'][0] != 0 and b['gauss_flags'][1] == 0, 'flags')
''')

# ---------------------------------------------------------------- C04
demo('c04-flux-shear-only',
     'a moments fit that fails in a band that is not a shear band',
     'the flux of that band is not a number but the row is not flagged', r'''
w = work(nband=2, shear=[[0]], det=[[0, 1]], fitters=[mom('pgauss')])
ok = execute(w)
k = [k for k in dw.keys(ok, 'fit.pgauss')
     if k[2] == 1 and k[-1] == 'obj' and k[3][0] < 30][0]
for kind in ('ValueError', 'flagged'):
    b = execute(w, [['fit.pgauss', list(k), None, kind]])
    if b.exc is not None:
        continue
    b = b.result['noshear']
    check(b['pgauss_flags'][0] != 0 or
          np.all(np.isfinite(b['pgauss_band_flux'][0])),
          'not flagged: %s' % (b['pgauss_band_flux'][0],))
''')
demo('c04-allbits',
     'a rejection mask with two bits, and a stamp that has only one of them',
     'the stamp is measured and not flagged', r'''
import wl
w = work(masks=[mask('flagbit', 20, 20, 1, 1)], fitters=[mom()],
         bmask_flags=wl.FLAGBIT | wl.EDGEBIT)
r = execute(w).result['noshear']
i = np.argmin(np.hypot(r['sx_row'] - 20, r['sx_col'] - 20))
check(r['wmom_flags'][i] != 0, 'not flagged')
''')
demo('c04-psf-lastband',
     'a moments fit whose PSF measurement fails while the object is fine',
     'the PSF columns are not numbers but the row is not flagged', r'''
w = work(nband=2, fitters=[mom()])
ok = execute(w)
k = [k for k in dw.keys(ok, 'fit.wmom')
     if k[2] == 1 and k[-1] == 'psf' and k[3][0] < 30][0]
for kind in ('flagged', 'ValueError'):
    b = execute(w, [['fit.wmom', list(k), None, kind]])
    if b.exc is None:
        b = b.result['noshear']
        check(b['wmom_flags'][0] != 0, 'not flagged')
''')

# ---------------------------------------------------------------- C05
demo('c05-lastband',
     'a band without any weight that is not the last one',
     'the run measures although nothing can be measured', r'''
w = work(nband=2, masks=[mask('weight', 32, 32, 90, 90, band=0)])
o = execute(w)
check(o.exc is None and o.result is None, 'result %r' % (o.result,))
''')
demo('c05-psf-first',
     'the original PSF fit fails in a band that is not the last one',
     'psfrec_flags does not tell', r'''
w = work(nband=2)
for b in (0, 1):
    o = execute(w, [['fit.am', ['orig', 'main', b], None, 'flagged']])
    check(o.exc is None, repr(o.exc))
    if o.result is None:
        continue
    check(np.all(o.result['noshear']['psfrec_flags'] != 0),
          'psfrec_flags is zero')
''')
demo('c05-or-bands',
     'every pixel has a nodet bit in one band or another, in no band all',
     'the run gives no result although it could measure', r'''
w = work(nband=2, masks=[mask('nodet', 0, 32, 50, 90, band=0),
                         mask('nodet', 63, 32, 20, 90, band=1)])
o = execute(w)
check(o.exc is None and o.result is not None, 'no result')
''')

# ---------------------------------------------------------------- C06
demo('c06-baseexc',
     'an interrupt during an adaptive moments fit',
     'the interrupt is swallowed and the run goes on', r'''
w = work(fitters=[mom(), dw.am()])
ok = execute(w)
for k in dw.keys(ok, 'fit.am'):
    o = execute(w, [['fit.am', list(k), None, 'KeyboardInterrupt']])
    check(type(o.exc).__name__ == 'KeyboardInterrupt',
          'interrupt at %s swallowed' % (k,))
''')
demo('c06-publish-early',
     'a run that stops with an error',
     'the object offers a partial result', r'''
w = work(types=('noshear', '1p'), shear=[[0], [0]])
for n in (0, 1):
    o = execute(w, [['detect', None, n, 'MemoryError']], md='new')
    check(o.exc is not None, 'no error')
    try:
        r = o.md.result
    except Exception:
        continue
    check(r is None, 'offers %r' % (r,))
''')

# ---------------------------------------------------------------- C07
demo('c07-len',
     'two band combinations with the same first band and the same length',
     'the second combination uses the first one\'s bands', r'''
combs = [[0, 1], [0, 2]]
w = work(nband=3, shear=combs, objs=[obj(20.3, 20.1, 3, [9, 8, 7]),
                                     obj(43, 42, 3, [5, 9, 14])])
w['cfg']['metacal']['use_noise_image'] = True
both = execute(w).result['noshear']
parts = []
for c in combs:
    parts.append(execute(dict(w, shear=[c])).result['noshear'])
d = diff(both, np.hstack(parts))
check(not d, 'not the separate runs joined: %s' % d)
''')
demo('c07-order',
     'band combinations of which a later one finds fewer objects',
     'the rows are not in the order of the combinations', r'''
objs = [obj(20.3, 20.1, 2, [15, 15]), obj(43, 42, 2, [15, 0.01])]
det = [[0], [1]]
w = work(nband=2, objs=objs, shear=[[0], [1]], det=det)
both = execute(w).result['noshear']
parts = []
for s, e in zip([[0], [1]], det):
    parts.append(execute(dict(w, shear=[s], det=[e])).result['noshear'])
check(len(parts[0]) != len(parts[1]), 'the demonstration needs that')
d = diff(both, np.hstack(parts))
check(not d, 'not the separate runs joined: %s' % d)
''')

# ---------------------------------------------------------------- C08
demo('c08-mfrac-copy',
     'an error while mfrac is measured over the catalogue',
     'the image of the caller\'s observation is left replaced by mfrac', r'''
from metadetect.mfrac import measure_mfrac
w = work(mfrac=True)
m = Inputs(w).mbobs
obs = m[0][0]
before = obs.image.copy()


class Boxes(np.ndarray):
    pass


try:
    measure_mfrac(mfrac=np.zeros(obs.image.shape), x=np.array([20.0]),
                  y=np.array([20.0]), box_sizes=np.array(['x']), obs=obs,
                  fwhm=1.2)
except Exception:
    pass
check(np.array_equal(before, obs.image), 'the image was replaced')
''')
demo('c08-bands-sort',
     'a band combination that is not in increasing order',
     'the caller\'s list is sorted in place', r'''
w = work(nband=2, shear=[[1, 0]], fitters=[mom()])
i = Inputs(w)
o = execute(w, inp=i)
check(o.exc is None, repr(o.exc))
check(i.shear == [[1, 0]], 'the caller\'s list is now %s' % i.shear)
''')

# ---------------------------------------------------------------- C09
HOLES = r'''
def masked(w, holes, method='interp', **kw):
    m = dict(holes=holes, method=method, sym=False, expand=2, ap_rad=1.0,
             iso_buff=1, dt='f8', rng=3)
    m.update(kw)
    mb = Inputs(w).mbobs
    maskwl.apply_mask(dict(mask=m), mb, np.random.RandomState(3))
    return mb


'''
demo('c09-return',
     'several bands of which a band that is not the last cannot be '
     'interpolated',
     'the bands after it are not masked at all', HOLES + r'''
w = work(nband=2, masks=[mask('weight', 32, 32, 90, 90, band=0)])
w['mb']['masks'].append(mask('weight', 0, 0, 3, 3, band=1))
w2 = work(nband=2, masks=[mask('weight', 32, 32, 90, 90, band=0)])
for x in (w, w2):
    mb = masked(x, [[32.0, 32.0, 60.0]])
    for b in range(2):
        check(np.all(mb[b][0].bmask[30:34, 30:34] & maskwl.MASKBIT),
              'band %d is not flagged' % b)
''')
demo('c09-mfrac-where',
     'a hole over pixels which have no weight already in one band',
     'the mask bit is missing there', HOLES + r'''
w = work(nband=2, masks=[mask('weight', 32, 32, 10, 10, band=1)])
mb = masked(w, [[32.0, 32.0, 5.0]], 'apodize')
for b in range(2):
    check(np.all(mb[b][0].bmask[31:34, 31:34] & maskwl.MASKBIT),
          'band %d is not flagged' % b)
''')

# ---------------------------------------------------------------- C14
demo('c14-nocopy',
     'the caller overrides one of the nested parts and keeps its dictionary',
     'the configuration shares the caller\'s dictionary and fills it', r'''
import metadetect.lsst.configs as cf
mine = {'detect': {}, 'metacal': {'types': ['noshear']}}
c = cf.get_config(mine)
check(mine == {'detect': {}, 'metacal': {'types': ['noshear']}},
      'the caller\'s dictionary changed: %s' % mine)
c['metacal']['types'] = None
check(mine['metacal']['types'] == ['noshear'], 'shared')
''')
demo('c14-memo',
     'a default configuration that its owner changes, and a second one',
     'the second owner sees the changes of the first', r'''
import metadetect.lsst.configs as cf
a = cf.get_config()
a['detect']['thresh'] = 77.0
check(cf.get_config()['detect']['thresh'] != 77.0, 'shared')
''')

# ---------------------------------------------------------------- C15
INTERP = r'''
from metadetect.interpolate import interpolate_image_at_mask


def interp(im, bad, **kw):
    return interpolate_image_at_mask(image=im, bad_msk=bad, **kw)


'''
demo('c15-badmsk',
     'isolated holes which are filled with noise',
     'the caller\'s mask of bad pixels is changed', INTERP + r'''
rng = np.random.RandomState(3)
im = rng.normal(size=(40, 40))
bad = np.zeros((40, 40), bool)
bad[10:30, 10:30] = True
keep = bad.copy()
interp(im, bad, weight=1.0, rng=rng, fill_isolated_with_noise=True,
       iso_buff=2)
check(np.array_equal(bad, keep), 'the mask of bad pixels was changed')
''')
demo('c15-global-grid',
     'two threads that interpolate images of the same shape',
     'the threads share a work image, a result has pixels of the other one',
     INTERP + r'''
ims = [np.random.RandomState(i).normal(size=(20, 20)) for i in (1, 2)]
bad = np.zeros((20, 20), bool)
bad[8:11, 7:12] = True
alone = [interp(im, bad) for im in ims]


def make():
    outs = [None, None]

    def body(i):
        def run():
            outs[i] = interp(ims[i], bad)
        return run
    return [body(0), body(1)], outs


for outs in dw.together(make, 60):
    d = diff(list(outs), alone)
    check(not d, 'together: %s' % d)
''')

# ---------------------------------------------------------------- C10
SUB = r'''
from metadetect.lsst import measure
from metadetect.lsst.model_subtractor import ModelSubtractor


def setup(w):
    inp = lw.LInputs(w)
    task = measure.get_detect_and_deblend_task(
        rng=np.random.RandomState(1), thresh=5.0, deblender='scarlet')
    sources, detexp, data = task.run(inp.mbexp)
    sub = ModelSubtractor(inp.mbexp, sources=sources, model_data=data)
    ids = [s.getId() for s in sources if s['deblend_nChild'] == 0]
    return sub, ids


def images(sub):
    return [e.image.array.copy() for e in sub.mbexp.singles]


def close(a, b):
    return all(np.allclose(x, y, atol=1.0e-3) for x, y in zip(a, b))


'''
CLOSE = r'''
w = lwork(objs=[dw.lobj(20.2, 20.4), dw.lobj(26.1, 25.3)])
sub, ids = setup(w)
check(len(ids) > 1, 'the demonstration needs two sources')
base = images(sub)
'''
demo('c10-finally',
     'an interrupt (or any other BaseException) inside the context of a '
     'source',
     'the source stays in the working image', SUB + CLOSE + r'''
for exc in (ValueError, KeyboardInterrupt, SystemExit):
    try:
        with sub.add_source(ids[0]):
            check(not close(base, images(sub)), 'inserted')
            raise exc('x')
    except exc:
        pass
    check(close(base, images(sub)), 'not put back after %s' % exc.__name__)
''')
demo('c10-yieldcopy',
     'a user of the context who uses the exposures it was given together '
     'with the stamps of the subtractor',
     'the exposures of the context are not the working ones', SUB + CLOSE + r'''
with sub.add_source(ids[0]) as mbexp:
    with sub.add_source(ids[1]):
        check(close([e.image.array for e in mbexp.singles], images(sub)),
              'the context shows an old image')
''')

# ---------------------------------------------------------------- C11
NR = r'''
from metadetect.lsst import measure, util


def setup(w):
    inp = lw.LInputs(w)
    task = measure.get_detect_and_deblend_task(
        rng=np.random.RandomState(1), thresh=5.0, deblender='sdss')
    sources, detexp, _ = task.run(inp.mbexp)
    return inp, sources


def images(inp):
    return [e.image.array.copy() for e in inp.mbexp.singles]


'''
demo('c11-exit-ki',
     'an interrupt while sources are replaced by noise',
     'the exposures keep the noise', NR + r'''
inp, sources = setup(lwork())
before = images(inp)
try:
    with util.MultibandNoiseReplacer(
            mbexp=inp.mbexp, sources=sources, rng=np.random.RandomState(4)):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
check(all(np.array_equal(a, b) for a, b in zip(before, images(inp))),
      'the images were not restored')
try:
    with util.ContextNoiseReplacer(
            exposure=inp.mbexp.singles[0], sources=sources,
            rng=np.random.RandomState(4)):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
check(all(np.array_equal(a, b) for a, b in zip(before, images(inp))),
      'the image was not restored')
''')
demo('c11-finally',
     'an error inside the context of an inserted source',
     'the source stays inserted', NR + r'''
inp, sources = setup(lwork())
sid = [s.getId() for s in sources if s.getParent() == 0][0]
with util.MultibandNoiseReplacer(
        mbexp=inp.mbexp, sources=sources,
        rng=np.random.RandomState(4)) as nr:
    noise = images(inp)
    try:
        with nr.sourceInserted(sid):
            raise ValueError
    except ValueError:
        pass
    check(all(np.array_equal(a, b) for a, b in zip(noise, images(inp))),
          'the source is still there')
''')
demo('c11-removeone',
     'more than two bands',
     'a removed source stays in the third band', NR + r'''
inp, sources = setup(lwork(bands=('g', 'r', 'i')))
sid = [s.getId() for s in sources if s.getParent() == 0][0]
with util.MultibandNoiseReplacer(
        mbexp=inp.mbexp, sources=sources,
        rng=np.random.RandomState(4)) as nr:
    noise = images(inp)
    with nr.sourceInserted(sid):
        pass
    check(all(np.array_equal(a, b) for a, b in zip(noise, images(inp))),
          'the source is still there')
''')

# ---------------------------------------------------------------- C12
demo('c12-stampflags',
     'a source at the edge that has no stamp, and sources after it that have '
     'one',
     'the sources after it get its flags', r'''
import lw
w = lwork(objs=[dw.lobj(6.0, 6.5), dw.lobj(25.4, 25.1), dw.lobj(33.0, 38.0)])
o = lw.execute(w)
check(o.exc is None, repr(o.exc))
r = o.result['noshear']
mid = np.hypot(r['row'] - r['row0'] - 25.4, r['col'] - r['col0'] - 25.1) < 2
check(mid.sum() == 1, 'rows')
check(np.any(r['stamp_flags'] != 0), 'the demonstration needs an edge')
check(np.all(r['stamp_flags'][mid] == 0), 'flags %s' % r['stamp_flags'])
''')
demo('c12-edge-continue',
     'a source without a full stamp after a source that has one',
     'the source has no row', r'''
import lw
w = lwork(objs=[dw.lobj(20.0, 20.5), dw.lobj(43.5, 43.0)])
o = lw.execute(w)
check(o.exc is None, repr(o.exc))
r = o.result['noshear']
check(len(r) == 2, '%d rows' % len(r))
''')

# ---------------------------------------------------------------- C13
SKY = r'''
import lw
from metadetect.lsst import skysub


def run(faults, n=3):
    w = lwork(bands=('g', 'r', 'i')[:n], sky=True)
    inp = lw.LInputs(w)
    o = lw.execute(w, faults, inp=inp, call=lambda: skysub.subtract_sky_mbexp(
        inp.mbexp, thresh=5.0))
    return o, [e.image.array.copy() for e in inp.mbexp.singles], [
        e.getMetadata().get('BGMEAN') for e in inp.mbexp.singles]


'''
demo('c13-break',
     'detection fails in one of several exposures',
     'the sky of the exposures after it is not subtracted', SKY + r'''
o, ok, bg = run([])
check(o.exc is None, repr(o.exc))
for kind in ('lsst.RuntimeError', 'lateTaskError', 'lsst.TaskError'):
    o, im, bg2 = run([['detect.run', None, 0, kind]])
    check(o.exc is None, repr(o.exc))
    for b in (1, 2):
        check(np.array_equal(im[b], ok[b]), 'band %d (%s)' % (b, kind))
''')
demo('c13-order',
     'detection fails after a sky was subtracted',
     'the recorded sky is not what was subtracted', SKY + r'''
w = lwork(bands=('g', 'r'), sky=True)
for n in range(4):
    inp = lw.LInputs(w)
    orig = [e.image.array.copy() for e in inp.mbexp.singles]
    o = lw.execute(w, [['detect.run', None, n, 'lsst.RuntimeError']], inp=inp,
                   call=lambda: skysub.subtract_sky_mbexp(
                       inp.mbexp, thresh=5.0))
    check(o.exc is None, repr(o.exc))
    for e, im in zip(inp.mbexp.singles, orig):
        bg = e.getMetadata().get('BGMEAN') or 0.0
        check(abs(np.mean(im - e.image.array) - bg) < 1.0e-3,
              'recorded %s, subtracted %s' % (
                  bg, np.mean(im - e.image.array)))
''')

# ---------------------------------------------------------------- C16
demo('c16-firstnone',
     'no source in the unsheared image, sources in a sheared one',
     'the other sheared images give nothing', r'''
import lw
types = ['noshear', '1p', '1m', '2p', '2m']
for i in range(60):
    r = random.Random(i)
    w = lwork(objs=[dw.lobj(24.3, 25.2, 2, r.uniform(13, 24))], seed=i,
              types=types)
    o = lw.execute(w)
    check(o.exc is None, repr(o.exc))
    for t in types:
        one = lw.execute(lwork(objs=w['exp']['objs'], seed=i, types=[t]))
        check(one.exc is None, repr(one.exc))
        a, b = o.result[t], one.result[t]
        check((a is None) == (b is None),
              'seed %d: %s is %s, alone %s' % (i, t, type(a), type(b)))
''')
demo('c16-psf-flags',
     'the PSF measurement of the whole image fails and more than one object',
     'rows after the first tell nothing of it', r'''
import lw
w = lwork(types=('noshear',))
w['cfg']['metacal']['reconv_type'] = 'gauss'
ok = lw.execute(w)
n = 0
for site, key in [(s, k) for s, _, k in ok.ctx.events if s == 'fit.am']:
    o = lw.execute(w, [['fit.am', list(key), None, 'flagged']])
    check(o.exc is None, repr(o.exc))
    r = o.result['noshear']
    if r is None:
        continue
    f = r['psfrec_flags']
    n += int(np.any(f != 0))
    check(np.all(f == f[0]), 'psfrec_flags %s' % f)
check(n > 0, 'the demonstration needs a PSF failure')
''')

# ---------------------------------------------------------------- C17
demo('c17-wrap',
     'an object close to an edge, measured in a sheared image whose shear '
     'takes its unsheared position beyond the edge, mask bits on the opposite '
     'side of the image, no mask region',
     'the row has the mask bits of the opposite side of the image', r'''
found = 0
for row in (0.6, 1.2, 2.0, 3.0):
    for t in ('1p', '1m', '2p', '2m'):
        w = work(objs=[obj(row, 20.1), obj(43.2, 42.7)], types=(t,),
                 dims=(96, 96), masks=[mask('bmask', 94, 48, h=2, w=60)])
        w['cfg']['metacal']['step'] = 0.1
        o = execute(w)
        check(o.exc is None, repr(o.exc))
        r = o.result[t]
        if r is None:
            continue
        out = (r['sx_row_noshear'] < -0.6) & (r['sx_row'] > -0.4)
        found += out.sum()
        check(np.all(r['bmask_noshear'][out] == 0),
              '%s: bits %s' % (t, r['bmask_noshear'][out]))
check(found > 0, 'the demonstration needs a row beyond the edge')
''')
demo('c17-step',
     'a metacal shear step in the configuration that is not the default',
     'unsheared positions belong to another shear', r'''
for step in (0.02, 0.01):
    w = work(types=('1p',), dims=(96, 96))
    w['cfg']['metacal']['step'] = step
    o = execute(w)
    check(o.exc is None, repr(o.exc))
    r = o.result['1p']
    dy = r['sx_row_noshear'] - 47.5
    want = (r['sx_row'] - 47.5) * np.sqrt(1 - step**2) / (1 - step)
    check(np.allclose(dy, want, atol=2.0e-3), 'step %s: %s, expected %s' % (
        step, dy, want))
''')
demo('c17-region-dim',
     'an image with more columns than rows, a mask region, an object beyond '
     'the number of rows',
     'mask bits right of the object are not seen', r'''
w = work(dims=(60, 96), objs=[obj(20.3, 20.1), obj(30.2, 80.7)],
         masks=[mask('bmask', 30, 82, h=1, w=0)], mask_region=3)
o = execute(w)
check(o.exc is None, repr(o.exc))
r = o.result['noshear']
near = np.abs(r['sx_col'] - 80.7) < 1.5
check(near.sum() == 1, 'rows')
check(np.all(r['bmask'][near] == 16), 'bits %s' % r['bmask'][near])
''')
demo('c17-psfavg',
     'a shear band combination with some of the bands, and bands whose point '
     'spread functions differ',
     'the original psf of a row is not that of its shear bands', r'''
o = execute(work(nband=3, objs=[obj(20.3, 20.1, 3), obj(43.2, 42.7, 3)],
                 shear=[[2], [0]]))
check(o.exc is None, repr(o.exc))
r = o.result['noshear']
for row in r:
    res = o.inp.mbobs[int(str(row['shear_bands']))][0].psf.meta['result']
    check(np.allclose(row['psfrec_T'], res['T'], rtol=1e-9),
          'T %s, band %s' % (row['psfrec_T'], res['T']))
    check(np.allclose(row['psfrec_g'], res['e'], rtol=1e-9, atol=1e-12),
          'g %s, band %s' % (row['psfrec_g'], res['e']))
''')
demo('c17-mfrac-edge',
     'an object near the far edge, with masked fractions there',
     'pixels beyond the image count as not masked', r'''
w = work(objs=[obj(60.5, 30.1), obj(20.2, 42.7)],
         masks=[mask('mfrac', 60, 30, h=20, w=20)])
o = execute(w)
check(o.exc is None, repr(o.exc))
r = o.result['noshear']
near = r['sx_row'] > 55
check(near.sum() == 1, 'rows')
check(np.allclose(r['mfrac'][near], 0.6, atol=1e-4), 'mfrac %s' % r['mfrac'])
''')
demo('c17-ormask-region',
     'an or-mask region that is smaller than the mask region',
     'or-mask bits of the wider region are reported', r'''
w = work(masks=[mask('ormask', 20, 25, h=0, w=0)], mask_region=6,
         ormask_region=2)
o = execute(w)
check(o.exc is None, repr(o.exc))
check(np.all(o.result['noshear']['ormask'] == 0),
      'bits %s' % o.result['noshear']['ormask'])
''')

# ------------------------------------------------- more of the others
demo('c06-mfrac-any',
     'memory exhaustion or an unexpected error while the masked fraction at '
     'an object is measured',
     'the run goes on with a masked fraction of one', r'''
w = work(masks=[mask('mfrac', 20, 20)])
ok = execute(w, count_calls=True)
n = 0
for site, cnt in sorted(ok.cctx.counts.items()):
    if site.split('>')[0].split('.')[-1] != 'measure_mfrac':
        continue
    for exc in ('MemoryError', 'SimError'):
        o = execute(w, target=dict(site=site, n=0, exc=exc))
        if o.cctx.fired:
            n += 1
            check(o.exc is not None, '%s at %s was swallowed' % (exc, site))
check(n > 4, 'the demonstration needs calls to stop')
''')
demo('c06-l-psfbase',
     'an interrupt while the original psfs of an LSST run are fit',
     'the interrupt is swallowed and the run goes on', r'''
w = lwork()
w['cfg']['metacal']['reconv_type'] = 'gauss'
ok = lw.execute(w)
ks = [k for s, _, k in ok.ctx.events if s == 'fit.am']
check(len(ks) > 0, 'the demonstration needs psf fits')
for k in ks[:3]:
    o = lw.execute(w, [['fit.am', list(k), None, 'KeyboardInterrupt']])
    check(type(o.exc).__name__ == 'KeyboardInterrupt',
          'went on: %r' % (o.exc,))
''')
demo('c07-keystr',
     'colour keys that are tuples with the same first entry',
     'objects of one colour are measured on the data of another', r'''
c = dict(keys=['red', 'blue', 'green'], alias=None, none=False, cut=3,
         tup='first')
o2 = [obj(20.3, 20.1, 2, [5.0, 8.0]), obj(43.2, 42.7, 2, [12.0, 7.0]),
      obj(20.0, 45.0, 2, [9.0, 10.0])]
both = execute(work(nband=2, objs=o2, color=c))
check(both.exc is None, repr(both.exc))
c2 = dict(c, tup=False)
one = execute(work(nband=2, objs=o2, color=c2))
check(one.exc is None, repr(one.exc))
d = diff(both.result, one.result)
check(not d, 'with other names of the colours: %s' % d)
''')
demo('c12-cenfallback',
     'a source whose centroid was not measured',
     'its stamp is measured around a transposed position', r'''
w = lwork(objs=[dw.lobj(16.2, 31.4), dw.lobj(33.1, 15.6)])
ok = lw.execute(w)
check(ok.exc is None, repr(ok.exc))
n = 0
for s, _, k in ok.ctx.events:
    if s != 'meas.call' or n > 6:
        continue
    o = lw.execute(w, [['meas.call', list(k), None, 'nancen']])
    check(o.exc is None, repr(o.exc))
    if not o.ctx.fired:
        continue
    n += 1
    r, r0 = o.result['noshear'], ok.result['noshear']
    check(len(r) == len(r0), 'rows')
    good = (r['pgauss_flags'] == 0) & (r0['pgauss_flags'] == 0)
    check(np.array_equal(r['pgauss_flags'], r0['pgauss_flags']),
          'flags %s' % r['pgauss_flags'])
    check(np.allclose(r['pgauss_T'][good], r0['pgauss_T'][good], rtol=0.4),
          'T %s, %s' % (r['pgauss_T'], r0['pgauss_T']))
check(n > 0, 'the demonstration needs a lost centroid')
''')
demo('c13-niter',
     'an exposure too faint for any detection, with mask bits',
     'the mask of the exposure is erased', r'''
from metadetect.lsst import skysub
w = lwork(bands=('g', 'r'), sky=True,
          objs=[dw.lobj(24.0, 24.0, 2, flux=0.001)])
inp = lw.LInputs(w)
for e in inp.mbexp.singles:
    e.mask.array[5, 7] |= 2**4
orig = [e.mask.array.copy() for e in inp.mbexp.singles]
o = lw.execute(w, inp=inp, call=lambda: skysub.subtract_sky_mbexp(
    inp.mbexp, thresh=5.0))
check(o.exc is None, repr(o.exc))
for e, m in zip(inp.mbexp.singles, orig):
    check(np.all(e.mask.array & m == m), 'mask bits are gone')
''')
demo('c16-wsum',
     'more than one shear band, with different noise and psf sizes',
     'the size of the original psf is not the average used for the shape', r'''
w = lwork(types=('noshear',), psf_stats=True)
w['exp']['noise'] = [0.2, 0.8]
o = lw.execute(w)
check(o.exc is None, repr(o.exc))
r = o.result
rows = r['noshear'] if isinstance(r, dict) and 'noshear' in r else r[0][
    'noshear']
one = []
for b in ('g', 'i'):
    w2 = lwork(types=('noshear',), psf_stats=True, shear_bands=[b])
    w2['exp']['noise'] = [0.2, 0.8]
    x = lw.execute(w2)
    check(x.exc is None, repr(x.exc))
    x = x.result if 'noshear' in x.result else x.result[0]
    one.append(x['noshear']['psfrec_T'][0])
w3 = np.array([1 / 0.2**2, 1 / 0.8**2])
want = (w3 * one).sum() / w3.sum()
T = rows['psfrec_T'][0]
check(abs(T - want) < 0.02 * abs(one[0] - one[1]) + 1e-9,
      'T %s, expected %s (%s)' % (T, want, one))
''')
demo('c11-end-order',
     'the noise replacer of one band fails to end',
     'the bands after it keep the noise', NR + r'''
w = lwork(bands=('g', 'r', 'i'))
inp, sources = setup(w)
orig = images(inp)
for n in (0, 1, 2):
    nr = util.MultibandNoiseReplacer(
        mbexp=inp.mbexp, sources=sources, rng=np.random.RandomState(4))
    ctx = mdrun.faults_ctx([['nr.end', None, n, 'SimError']])
    with simhook.active(ctx):
        try:
            nr.end()
        except Exception:
            pass
    bad = [i for i, (a, b) in enumerate(zip(orig, images(inp)))
           if not np.array_equal(a, b)]
    check(len(bad) <= 1, 'failing end %d: bands %s keep the noise' % (n, bad))
    for e, im in zip(inp.mbexp.singles, orig):
        e.image.array[:, :] = im
''')


# ---------------------------------------------------------------- C18
MC = '''
import warnings
import lw
from metadetect.lsst import metacal_exposures as mc
from metadetect.lsst import util
warnings.simplefilter('ignore')
STATS = np.dtype([('e1', 'f8'), ('e2', 'f8'), ('T', 'f8'), ('flags', 'i4')])


def stats(*rows):
    return np.array([tuple(x) + (0,) for x in rows], STATS)


def ker(e):
    b = e.getBBox().getCenter()
    return np.array(e.getPsf().computeKernelImage(b).array)


def same(a, b, tol=1.0e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol *
                                              np.abs(b).max())


'''
demo('c18-memo',
     'two sets of exposures of the same band with different point-spread '
     'functions in one process, k-space gauss reconvolution',
     'the second set is reconvolved with the kernel of the first', MC + '''
import lsst.afw.image as afw_image
w = lwork(bands=('g',))
big = lwork(bands=('g',))
big['exp']['psf_s2'] = 4.0
a, b = lw.LInputs(w), lw.LInputs(big)
mc.get_metacal_mbexps(a.mbexp, types=['1p'])
got = mc.get_metacal_mbexps(b.mbexp, types=['1p'])['1p']['g']
# the label of the filter plays no role
c = lw.LInputs(big).mbexp.singles[0]
c.setFilter(afw_image.FilterLabel('other'))
want = mc.get_metacal_exps(c, types=['1p'])['1p']
check(same(ker(got), ker(want)), 'kernel of an earlier set')
check(same(got.image.array, want.image.array), 'image')
''')
demo('c18-noisestats',
     'fixed noise with a kernel from fitted statistics',
     'the noise is reconvolved with another kernel than the data', MC + '''
inp = lw.LInputs(lwork())
st = stats((0.05, 0.02, 0.35), (-0.08, 0.01, 0.3))
fix, nfix = mc.get_metacal_mbexps_fixnoise(
    inp.mbexp, inp.noise_mbexp, types=['1p', '2m'], psf_stats=st)
one = mc.get_metacal_mbexps(inp.mbexp, types=['1p', '2m'], psf_stats=st)
rot = mc.get_metacal_mbexps(inp.noise_mbexp, types=['1p', '2m'], rot=True,
                            psf_stats=st)
for t in fix:
    for b in ('g', 'i'):
        s = one[t][b].image.array + rot[t][b].image.array
        check(same(fix[t][b].image.array, s), 'data plus noise')
''')
demo('c18-statsfirst',
     'several bands with different fitted psf statistics',
     'all bands are reconvolved with the kernel of the first', MC + '''
inp = lw.LInputs(lwork())
st = stats((0.05, 0.02, 0.4), (-0.08, 0.01, 0.3))
d = mc.get_metacal_mbexps(inp.mbexp, types=['noshear'], psf_stats=st)
for i, e in enumerate(inp.mbexp.singles):
    one = mc.get_metacal_exps(e, types=['noshear'], psf_stats=st[i])
    b = inp.mbexp.bands[i]
    check(same(d['noshear'][b].image.array, one['noshear'].image.array),
          'band %s' % b)
''')
demo('c18-shearchain',
     'type 2p or 2m asked for after 1p',
     'its images are reconvolved with an undilated kernel while the psf '
     'attached is the dilated one', MC + '''
inp = lw.LInputs(lwork())
both = mc.get_metacal_mbexps(inp.mbexp, types=['1p', '2p'])
one = mc.get_metacal_mbexps(inp.mbexp, types=['2p'])
for b in ('g', 'i'):
    check(same(both['2p'][b].image.array, one['2p'][b].image.array),
          'type 2p depends on the other types')
''')
demo('c18-meanstats',
     'a shear band selection that leaves out a band, reconvolution fitgauss',
     'the bands left out get a kernel of another size', MC + '''
w = lwork(psf_stats=True, types=('noshear', '1p'), shear_bands=['i'])
ctx = mdrun.faults_ctx(())
ctx.full = True
o = lw.execute(w, ctx=ctx)
check(o.exc is None, repr(o.exc))
inp = lw.LInputs(w)
m, _ = mc.get_metacal_mbexps_fixnoise(
    inp.mbexp, inp.noise_mbexp, types=['noshear', '1p'],
    psf_stats=o.result['psf_stats']['perband'])
want = [util.coadd_exposures(m[t].singles) for t in ('noshear', '1p')]
got = ctx.notes['detimg']
for a, b in zip(got, want):
    check(same(a.image.array, b.image.array, 1.0e-5),
          'detection image of other kernels')
''')
demo('c18-psfcen',
     'non-square exposures and a psf that varies with position, rotated '
     'noise',
     'the noise images are deconvolved with the psf at another position',
     MC + '''
w = lwork(dim=(44, 60))
w['exp']['grad'] = 0.4
e = lw.LInputs(w).noise_mbexp.singles[0]
a = mc.get_metacal_exps(e, types=['1p'], rot=True)['1p']
b = mc.get_metacal_exps(e, types=['1p'])['1p']
check(same(ker(a), ker(b), 1.0e-5), 'the kernel depends on the rotation')
''')
demo('c18-coaddpsf',
     'bands with different psfs and different noise',
     'the psf of the detection image is not that of the coadded image',
     MC + '''
w = lwork(bands=('g', 'r', 'i'))
w['exp']['noise'] = [0.2, 0.6, 0.4]
es = lw.LInputs(w).mbexp.singles
c = util.coadd_exposures(es)
b = es[0].getBBox()
import lsst.geom as geom
cen = geom.Point2D(b.x0 + (b.w - 1) / 2, b.y0 + (b.h - 1) / 2)
ws = [1 / np.median(e.variance.array) for e in es]
k = sum(x * np.array(e.getPsf().computeKernelImage(cen).array)
        for x, e in zip(ws, es))
check(same(np.array(c.getPsf().computeKernelImage(cen).array), k / k.sum(),
           1.0e-5), 'psf of the coadd')
''')
demo('c18-shallow',
     'exposures that are already of double precision',
     'the images given are overwritten and all types share one image',
     MC + '''
import lsst.afw.image as afw_image
inp = lw.LInputs(lwork())
es = [afw_image.ExposureD(e, deep=True) for e in inp.mbexp.singles]
mb = util.get_mbexp(es)
before = [e.image.array.copy() for e in mb.singles]
d = mc.get_metacal_mbexps(mb, types=['1p', '1m'])
for a, e in zip(before, mb.singles):
    check(np.array_equal(a, e.image.array), 'input image was changed')
check(not np.array_equal(d['1p']['g'].image.array,
                         d['1m']['g'].image.array), 'types are the same')
''')


demo('c01-cencache',
     'two runs in one process on images with other numbers of columns and the '
     'same coordinate reference position',
     'unsheared positions of the second run are about the centre of the '
     'first images', r'''
import metadetect.shearpos as sp


def run(cols):
    w = work(types=('noshear', '1p'), dims=(64, cols))
    w['mb']['jcen'] = [0.0, -(cols - 64) / 2]
    o = execute(w)
    check(o.exc is None, repr(o.exc))
    return o.result


def unshear(rows, ncol):
    """about the centre of the image, for a diagonal jacobian"""
    a = (1 + 0.01) / np.sqrt(1 - 0.01**2)
    b = (1 - 0.01) / np.sqrt(1 - 0.01**2)
    cc, cr = (ncol - 1) / 2, 31.5
    return ((rows['sx_col'] - cc) / a + cc, (rows['sx_row'] - cr) / b + cr)


for cols in (64, 84):
    rows = run(cols)['1p']
    c, r = unshear(rows, cols)
    check(np.allclose(c, rows['sx_col_noshear'], rtol=0, atol=1e-3),
          '%d columns: %s instead of %s' % (cols, rows['sx_col_noshear'], c))
    check(np.allclose(r, rows['sx_row_noshear'], rtol=0, atol=1e-3), 'rows')
''')
demo('c01-matcache',
     'two runs in one process with different metacal steps',
     'the second run unshears positions by the step of the first', r'''
def run(step, types):
    w = work(types=types)
    w['cfg']['metacal']['step'] = step
    o = execute(w)
    check(o.exc is None, repr(o.exc))
    return o.result


run(0.01, ('1p',))
rows = run(0.03, ('1p',))['1p']
a = (1 + 0.03) / np.sqrt(1 - 0.03**2)
c = (rows['sx_col'] - 31.5) / a + 31.5
check(np.allclose(c, rows['sx_col_noshear'], rtol=0, atol=1e-3),
      '%s instead of %s' % (rows['sx_col_noshear'], c))
''')

# ---------------------------------------------------------------- C19
demo('c19-symmemo',
     '''the coadd of several bands after one of them was made symmetric by an
     earlier fitter: the coadd inherits the meta data of its last band''',
     'the coadd is measured with the weights of one band', r'''
m = [mask('weight', 18, 23, 1, 2, band=0), mask('weight', 24, 17, 2, 1, band=1)]
one = execute(work(nband=2, masks=m, fitters=[dw.am()]))
two = execute(work(nband=2, masks=m, fitters=[mom(), dw.am()]))
a, b = one.result['noshear'], two.result['noshear']
for n in a.dtype.names:
    if n.startswith('am_') and 'flags' not in n:
        d = diff(a[n], b[n])
        check(not d, 'after another fitter, %s: %s' % (n, d))
''')
demo('c19-symlast',
     'two fitters, one symmetric and one not, with bad pixels near an object',
     'a fitter uses the symmetry setting of another', r'''
m = [mask('weight', 18, 23, 1, 2)]
fits = [mom('pgauss', symmetrize=True), mom(symmetrize=False)]
both = execute(work(masks=m, fitters=fits)).result['noshear']
one = execute(work(masks=m, fitters=fits[:1])).result['noshear']
for n in one.dtype.names:
    if n.startswith('pgauss_'):
        d = diff(both[n], one[n])
        check(not d, 'with another fitter, %s: %s' % (n, d))
''')
demo('c19-order',
     'a joint fit of shear bands that are not listed in increasing order',
     'the fluxes of the bands are exchanged', r'''
o = [obj(20.3, 20.1, 2, flux=[5.0, 15.0]), obj(43.2, 42.7, 2, flux=[5.0, 15.0])]
rows = {}
for sb in ([0, 1], [1, 0]):
    rows[sb[0]] = execute(work(nband=2, objs=o, shear=[sb], fitters=[
        mom(), dw.gauss(False)])).result['noshear']
a, b = rows[0]['gauss_band_flux'], rows[1]['gauss_band_flux']
check(np.allclose(a, b, rtol=1e-6), '%s and %s' % (a, b))
''')
demo('c19-gausspsfw',
     'a joint fit, without coadding, of bands with different noise and psf',
     'the psf average weighs all bands by the noise of the first', r'''
T = []
for noise in ([0.004, 0.012], [0.012, 0.004]):
    w = work(nband=2, fitters=[mom(), dw.gauss(False)], mfrac=False)
    w['mb']['noise'] = noise
    r = execute(w).result['noshear']
    T.append(float(r['gauss_psf_T'][0]))
check(abs(T[0] / T[1] - 1) > 1e-6,
      'the average does not depend on the weights: %s' % T)
''')
demo('c19-smooth',
     'a pgauss fit with smoothing configured',
     'the smoothing is ignored', r'''
rows = []
for sm in (None, 0.8):
    f = mom('pgauss')
    if sm is not None:
        f['weight']['fwhm_smooth'] = sm
    rows.append(execute(work(fitters=[f])).result['noshear'])
check(diff(rows[0]['pgauss_T'], rows[1]['pgauss_T']),
      'no difference with smoothing')
''')
CV = '''
import lsst.geom as geom
import lsst.afw.image as afw_image
from lsst.afw.geom import SkyWcs
from lsst.meas.algorithms import CoaddLikePsf
from metadetect.lsst import util


def exp(band='r', dim=(20, 24), xy0=(7, 13), s2=2.5, seed=1, cd=(
        -1.02, 0.2, 0.05, 0.97), grad=0.2, mask=True):
    box = geom.Box2I(geom.Point2I(*xy0), geom.Extent2I(dim[1], dim[0]))
    rng = np.random.RandomState(seed)
    e = afw_image.ExposureF(box)
    e.image.array[:, :] = rng.normal(size=dim)
    e.variance.array[:, :] = rng.uniform(0.5, 2, size=dim)
    if mask:
        e.mask.array[:, :] = rng.randint(0, 4, size=dim) << (seed % 9)
    e.setPsf(CoaddLikePsf(band, box, s2, 0.05, -0.03, grad, size=15))
    e.setWcs(SkyWcs(xy0, (200.0, 1.0),
                    np.array(cd).reshape(2, 2) * 0.2 / 3600))
    e.setFilter(afw_image.FilterLabel(band))
    return e


def coadd(band, seed, **kw):
    return dict(coadd_exp=exp(band, seed=seed, **kw),
                coadd_noise_exp=exp(band, seed=seed + 1, **kw),
                coadd_mfrac_exp=exp(band, seed=seed + 2, **kw))


'''
demo('c20-psfmemo',
     'the conversion of a second exposure of the same band and centre',
     'its observation has the psf of the first', CV + r'''
for s2 in (2.5, 3.5):
    e = exp(s2=s2)
    o = util.exp2obs(e)
    c = geom.Point2D(geom.Point2I(e.getBBox().getCenter()))
    want = e.getPsf().computeKernelImage(c).array
    check(np.allclose(o.psf.image, want), 'not the psf of its exposure')
''')
demo('c20-jacxy',
     'an exposure whose wcs matrix is not symmetric',
     'the jacobian of the observation is transposed', CV + r'''
e = exp()
j = util.exp2obs(e).jacobian
m = e.getWcs().cd * 3600
got = [j.dudcol, j.dudrow, j.dvdcol, j.dvdrow]
check(np.allclose(got, [m[1, 1], -m[1, 0], m[0, 1], -m[0, 0]]),
      'jacobian %s of wcs %s' % (got, m.tolist()))
''')
demo('c20-ormasksum',
     'coadds whose noise exposure has mask bits of its own',
     'the original mask is reported with the bits of the noise', CV + r'''
d = [coadd('r', 1), coadd('i', 5)]
want = [x['coadd_exp'].mask.array.copy() for x in d]
out = util.extract_multiband_coadd_data(d)
for a, b in zip(out['ormasks'], want):
    check(np.array_equal(a, b), 'not the mask of the exposure')
''')
demo('c20-psfcorner',
     'an exposure with an even number of rows or columns, and a psf that '
     'changes with position',
     'the psf is that of another position than the jacobian', CV + r'''
for dim in ((21, 23), (20, 24)):
    e = exp(dim=dim)
    o = util.exp2obs(e)
    c = geom.Point2D(geom.Point2I(e.getBBox().getCenter()))
    check(np.array_equal(o.psf.image,
                         e.getPsf().computeKernelImage(c).array),
          'psf of another position with dimensions %s' % (dim,))
''')
demo('c20-copypsf',
     'a copy of exposures of several bands with different psfs',
     'all bands of the copy have the psf of the first', CV + r'''
mb = util.get_mbexp([exp('r', s2=2.2), exp('i', s2=3.1)])
cp = util.copy_mbexp(mb)
c = geom.Point2D(geom.Point2I(mb.getBBox().getCenter()))
for a, b in zip(mb.singles, cp.singles):
    check(np.array_equal(a.getPsf().computeKernelImage(c).array,
                         b.getPsf().computeKernelImage(c).array),
          'another psf in band %s' % a.getFilter().bandLabel)
''')
FLAG = r'''
import lw
import lsst.afw.image as afw_image
from metadetect.lsst import skysub


def first_background(call, value):
    w = lwork(bands=('r',), sky=True)
    inp = lw.LInputs(w)
    e = inp.mbexp.singles[0]
    e.mask.array[5:15, 30:38] |= afw_image.Mask.getPlaneBitMask('BRIGHT')
    e.image.array[5:15, 30:38] = value
    o = lw.execute(w, inp=inp, call=lambda: call(inp.mbexp))
    check(o.exc is None, repr(o.exc))
    return o.ctx.notes['bg'][0]


'''
demo('c13-bright',
     'a bright star, marked as such, in data whose sky is subtracted by '
     'iterating with detection',
     'the star enters the background', FLAG + r'''
a, b = [first_background(lambda m: skysub.subtract_sky_mbexp(m, thresh=5.0), v)
        for v in (0.3, 2.0)]
check(a == b, 'background %s or %s' % (a, b))
''')
demo('c13-detsky',
     'a bright star, marked as such, in data whose sky is subtracted without '
     'iterating',
     'the star enters the background', FLAG + r'''
a, b = [first_background(lambda m: skysub.determine_and_subtract_sky(
    m.singles[0]), v) for v in (0.3, 2.0)]
check(a == b, 'background %s or %s' % (a, b))
''')

# ------------------------------------------------------- C17, sizes and colour
demo('c17-colorimage',
     '''a colour-dependent run whose objects have a colour with observations
     of its own''',
     'the objects are measured again on the original images, not on those '
     'of their colour', r'''
c = dict(keys=['red'], alias=None, none=False, cut=1, tup=False)
own = execute(work(color=c)).result['noshear']
orig = execute(work(color=dict(c, alias='red'))).result['noshear']
check(own.size == orig.size == 2, '%d and %d rows' % (own.size, orig.size))
a, b = own['wmom_band_flux'].ravel(), orig['wmom_band_flux'].ravel()
check((abs(a / b - 1) > 1e-4).all(),
      'fluxes on the images of the colour %s, on the originals %s' % (a, b))
''')
demo('c17-colorbox',
     '''a colour-dependent run on objects of different sizes, the smaller
     detected first''',
     'stamps of later objects get the size of the first', r'''
o = [obj(14.3, 15.1, s2=1.5), obj(43.2, 42.7, s2=14.0, flux=80.0)]
c = dict(keys=['red'], alias='red', none=False, cut=1, tup=False)


def sizes(**kw):
    w = work(objs=o, **kw)
    w['cfg']['meds']['min_box_size'] = 16
    got = {}
    for s in execute(w).ctx.notes['stamp']:
        got.setdefault(s[0][3], set()).add(s[3].shape)
    return got


a, b = sizes(), sizes(color=c)
check(len({tuple(v) for v in a.values()}) > 1, 'sizes %s' % a)
check(a == b, 'stamps of a plain run %s, of one where every colour has the '
      'same images %s' % (a, b))
''')
demo('c17-noseg',
     '''weight_type uberseg and two objects close enough to share a stamp''',
     'the pixels of the neighbour keep their weight', r'''
o = [obj(28.3, 28.1), obj(34.2, 37.7)]
w = work(objs=o)
w['cfg']['meds']['weight_type'] = 'uberseg'
st = execute(w).ctx.notes['stamp']
check(len(st) > 1, '%d stamps' % len(st))
for tag, _, _, wt in st:
    check((wt == 0).any(), 'object at %s: no weight removed' % (tag[3],))
''')
demo('c17-sigmaround',
     '''box_type sigma_size and several objects of different ellipticity in
     one image''',
     'the size of a stamp depends on the other objects', r'''
def sizes(objs):
    w = work(objs=objs, dims=(110, 110))
    w['cfg']['meds'].update(box_type='sigma_size', sigma_fac=5.0,
                            min_box_size=8, max_box_size=128)
    return {tuple(int(round(x)) for x in s[0][3]): s[3].shape[0]
            for s in execute(w).ctx.notes['stamp']}


rnd = obj(30.2, 30.1, e1=0.0, e2=0.0)
lng = obj(80.1, 79.8, e1=0.75, e2=0.0, s2=7.0, flux=40.0)
one, two, both = sizes([rnd]), sizes([lng]), sizes([rnd, lng])
for k, v in list(one.items()) + list(two.items()):
    check(both.get(k) == v, 'the stamp at %s is %s wide alone, %s with '
          'another object' % (k, v, both.get(k)))
''')
