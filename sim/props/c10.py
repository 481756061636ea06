"""Model subtraction: the working image is always put back"""
import numpy as np

import base
import core
import hooks
import lw
import simhook

KINDS = ['MemoryError', 'SimError', 'KeyboardInterrupt', 'ValueError',
         'lsst.LengthError', 'lsst.InvalidParameterError']
ENDS = KINDS + ['Stop', 'StopIteration', 'SystemExit', 'GeneratorExit',
                'lsst.TaskError']
CATCH = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)
TOL = 1.0e-3


def models_of(data, p, nband):
    """{source id: ((x, y), (nband, ny, nx) model in the image)}, computed
    from the deblender's output without the code under test"""
    from scipy.signal import convolve2d
    shape = p['dim']
    out = {}
    for full in data.blends.values():
        for bd in full.children.values():
            for sid, cen, yx0, arr in bd.sources:
                m = np.zeros((nband,) + tuple(shape))
                y, x = yx0[0] - 1 - p['xy0'][1], yx0[1] - 1 - p['xy0'][0]
                for b in range(nband):
                    # grown by the psf, inside the image
                    big = np.pad(arr[b].astype('f8'), 1)
                    ys = slice(max(y, 0), min(y + big.shape[0], shape[0]))
                    xs = slice(max(x, 0), min(x + big.shape[1], shape[1]))
                    m[b, ys, xs] = convolve2d(
                        big[ys.start - y:ys.stop - y,
                            xs.start - x:xs.stop - x],
                        data.metadata['psf'][b], mode='same')
                out[sid] = ((cen[1], cen[0]), m)
    return out


class Stop(Exception):
    """raised by the simulated user inside a context"""


class Check(base.Check):
    id = 'C10'
    rule = ('a run is a history of source-inserted contexts (nested, '
            'repeated, ended by errors or interrupts), stamps, models and '
            'bad requests on one subtractor, with failures between the bands '
            'of an insertion; the working image is compared with the '
            'simulator\'s own models after every step; non-trivial when at '
            'least one source was inserted')
    measure = ('distinct (extractor, bands, sources, sequence of operation '
               'outcomes) tuples')
    n_quick = 1600
    n_thorough = 60000
    real = ['metadetect.lsst.model_subtractor, mbobs_extractor, measure, util '
            '(working tree)', 'numpy', 'scipy']
    stubs = ['lsst.* (exposures, footprints, detection, deblending, '
             'scarlet models)', 'ngmix']

    def gen(self, seed):
        r = self.rng(seed)
        plain = r.random() < 0.15
        nband = r.choice([1, 2, 2, 3, 3, 4])
        p = lw.gen_mbexp_params(
            r, nband=nband, nobj=r.choice([1, 2, 3, 4]), need_i=True,
            crowded=r.random() < 0.7, infvar=False)
        for o in p['objs']:
            if nband > 1 and r.random() < 0.25:     # invisible in a band
                o['flux'][r.randrange(nband)] = 0.0
        w = dict(exp=p, clock=[0.001])
        plan = dict(w=w, plain=plain, skip=[], ops=[], ctor=None,
                    thresh=r.choice([4.0, 5.0]))
        if r.random() < 0.15:
            plan['skip'] = [r.randrange(4)]
        if r.random() < 0.15:
            plan['ctor'] = [r.choice(['call', 'point']), r.randrange(30),
                            r.choice([k for k in KINDS if k != 'SimError'])]
        plan['ops'] = self.gen_ops(r, 0, r.choice([2, 4, 8]), nband)
        return plan

    def gen_ops(self, r, depth, n, nband):
        out = []
        for _ in range(n):
            k = r.random()
            if k < (0.55 if depth == 0 else 0.25) and depth < 3:
                op = dict(op='ctx', src=r.randrange(6), fault=None, end=None,
                          body=self.gen_ops(r, depth + 1,
                                            r.choice([0, 1, 1, 2]), nband))
                f = r.random()
                if f < 0.35:
                    op['fault'] = ['band', r.randrange(nband),
                                   r.choice(KINDS)]
                elif f < 0.5:
                    op['fault'] = ['call', r.randrange(14), r.choice(KINDS)]
                if r.random() < 0.35:
                    op['end'] = r.choice(ENDS)
                out.append(op)
            elif k < 0.9:
                op = dict(op=r.choice(['stamp', 'mbobs', 'mbobs', 'model']),
                          src=r.randrange(6),
                          type=r.choice(['deblended', 'deblended',
                                         'original', 'model']),
                          size=r.choice([None, 5, 10, 15, 15, 25]),
                          clip=r.random() < 0.4, fault=None)
                if r.random() < 0.15:
                    op['fault'] = ['call', r.randrange(20), r.choice(KINDS)]
                out.append(op)
            elif k < 0.95:
                out.append(dict(op='full'))
            elif k < 0.98:
                out.append(dict(op='cross', src=[r.randrange(6),
                                                 r.randrange(1, 6)]))
            else:
                out.append(dict(op='bad', how=r.choice(
                    ['ctx', 'stamp', 'mbobs', 'model', 'type'])))
        return out

    # ------------------------------------------------------------------
    def run(self, plan):
        res = core.Result()
        w = plan['w']
        inp = lw.LInputs(w)
        s = State()
        s.res, s.inp, s.p, s.plan = res, inp, w['exp'], plan
        s.hist = []
        out = lw.execute(w, inp=inp, call=lambda: self.history(s))
        res.took(out)
        for k in s.fired:
            res.faults[k] += 1
        if out.exc is not None:
            raise out.exc
        res.sigs.add(repr((plan['plain'], w['exp']['bands'], s.nsrc,
                           s.hist[:12])))
        res.log.append(s.hist)
        res.log.append(core.digest(core.snap_cfg(
            s.sub.mbexp.image.array.copy()) if s.sub is not None else None))
        return res

    def history(self, s):
        from metadetect.lsst import measure
        from metadetect.lsst.model_subtractor import ModelSubtractor
        from metadetect.lsst.mbobs_extractor import MBObsExtractor
        plan, p = s.plan, s.p
        s.ctx = simhook.current()
        nb = len(p['bands'])
        task = measure.get_detect_and_deblend_task(
            rng=np.random.RandomState(1), thresh=plan['thresh'],
            deblender='sdss' if plan['plain'] else 'scarlet')
        if plan['skip']:
            n = plan['skip'][0]
            s.ctx.positional[('scarlet.source', n)] = 'skip'
        s.sources, s.detexp, data = task.run(s.inp.mbexp)
        s.sub, s.nsrc, s.fired = None, 0, []
        if len(s.sources) == 0:
            return
        # a detection image of one band is that band's exposure itself
        s.first = lw.snap_mbexp(s.inp.mbexp, ignore_detected=True)
        for src in s.sources:
            task.meas.callMeasure(src, s.detexp)
        s.orig = np.array([e.image.array for e in s.inp.mbexp.singles])
        if plan['plain']:
            s.models = {
                x.getId(): ((x.getFootprint().getPeaks()[0].getIx(),
                             x.getFootprint().getPeaks()[0].getIy()), None)
                for x in s.sources if x['deblend_nChild'] == 0}
            if plan['ctor'] is not None:
                plan = dict(plan, ctor=None)

            def make():
                return MBObsExtractor(s.inp.mbexp, s.sources)
        else:
            s.models = models_of(data, p, nb)

            def make():
                return ModelSubtractor(mbexp=s.inp.mbexp, sources=s.sources,
                                       model_data=data)
        s.ids = sorted(s.models)
        s.nsrc = len(s.ids)
        s.active = []
        if plan['ctor'] is not None:
            how, n, kind = plan['ctor']
            got = None
            try:
                with self.failing(s, how, n, kind) as st:
                    make()
            except CATCH as e:
                got = e
            if st['fired'] and type(got).__name__ != simhook.exc_name(kind):
                s.res.bad('absorbed', 'a failure (%s) while the models were '
                          'subtracted was absorbed: %r' % (kind, got))
            elif not st['fired'] and got is not None:
                raise got
            self.check_orig(s, 'after a failed construction')
        s.sub = make()
        if sorted(s.sub.child_ids()) != s.ids or sorted(
                x.getId() for x in s.sub.children()) != s.ids:
            s.res.bad('children', 'children %s, modelled sources %s' % (
                sorted(s.sub.child_ids()), s.ids))
            return
        self.check(s, 'after construction')
        self.do(s, plan['ops'])

    # ------------------------------------------------------------------
    def failing(self, s, how, n, kind):
        return Failing(s, how, n, kind)

    def do(self, s, ops):
        for op in ops:
            if s.res.viol or not s.ids:
                return
            self.op(s, op)

    def op(self, s, op):
        kind = op['op']
        if kind == 'ctx':
            self.context(s, op)
        elif kind == 'full':
            if s.plan['plain']:
                return
            m = s.sub.get_full_model()
            want = sum(s.models[i][1] for i in s.ids)
            self.same(s, np.array([e.image.array for e in m.singles]), want,
                      'full-model', 'the model of all sources')
            s.hist.append('full')
            scribble(m)
        elif kind == 'cross':
            self.cross(s, op)
        elif kind == 'bad':
            self.bad_request(s, op)
        else:
            self.stamp(s, op)
        self.check(s, 'after %s' % kind)

    def context(self, s, op):
        sid = s.ids[op['src'] % len(s.ids)]
        (ix, iy), _ = s.models[sid]
        cm = s.sub.add_source(sid)
        f = op['fault']
        got = None
        st = None
        try:
            if f is None:
                cm.__enter__()
            elif f[0] == 'band':
                band = s.p['bands'][f[1] % len(s.p['bands'])]
                with self.failing(s, 'key', ('heavy.addTo', (band, ix, iy)),
                                  f[2]) as st:
                    cm.__enter__()
            else:
                with self.failing(s, 'call', f[1], f[2]) as st:
                    cm.__enter__()
        except CATCH as e:
            got = e
        if st is not None and st['fired']:
            if type(got).__name__ != simhook.exc_name(f[2]):
                s.res.bad('absorbed', 'inserting source %d: %s became %r' % (
                    sid, f[2], got))
                return
            s.hist.append('failed-insert')
            self.check(s, 'after a failed insertion of source %d (%s in %s '
                       '%s)' % (sid, f[2], f[0], f[1]))
            return
        if got is not None:
            s.res.bad('raised', 'inserting source %d raised %r' % (sid, got))
            return
        s.active.append(sid)
        s.res.nontrivial = True
        self.check(s, 'inside the context of source %d' % sid)
        self.do(s, op['body'])
        if s.res.viol:
            return
        self.check(s, 'at the end of the context of source %d' % sid)
        s.active.pop()
        end = op['end']
        if end is None:
            cm.__exit__(None, None, None)
            s.hist.append('ctx')
        else:
            e = Stop('x') if end == 'Stop' else simhook.make_exc(end)
            try:
                raise e
            except CATCH as e1:
                try:
                    sup = cm.__exit__(type(e1), e1, e1.__traceback__)
                except CATCH as e2:
                    if e2 is not e1:
                        s.res.bad('absorbed', '%r inside a context became %r'
                                  % (e1, e2))
                    sup = False
                if sup:
                    s.res.bad('absorbed', '%r inside a context was absorbed'
                              % e1)
            s.fired.append('body-' + end)
            s.hist.append('ctx-' + end)

    def cross(self, s, op):
        """two contexts that end in the order in which they began"""
        a = s.ids[op['src'][0] % len(s.ids)]
        b = s.ids[(op['src'][0] + op['src'][1]) % len(s.ids)]
        if a == b or a in s.active or b in s.active:
            return
        cms = []
        for sid in (a, b):
            cm = s.sub.add_source(sid)
            cm.__enter__()
            cms.append(cm)
            s.active.append(sid)
            self.check(s, 'inside contexts that overlap')
        s.res.nontrivial = True
        for sid, cm in zip((a, b), cms):
            cm.__exit__(None, None, None)
            s.active.remove(sid)
            self.check(s, 'after the context of source %d, which overlapped '
                       'another' % sid)
        s.hist.append('cross')

    def bad_request(self, s, op):
        no = max(s.ids) + 1000
        how = op['how']
        try:
            if how == 'ctx':
                with s.sub.add_source(no):
                    pass
            elif how == 'stamp':
                s.sub.get_stamp(no, stamp_size=5)
            elif how == 'mbobs':
                s.sub.get_mbobs(no, stamp_size=5)
            elif s.plan['plain']:
                return
            elif how == 'model':
                s.sub.get_model(no)
            else:
                s.sub.get_stamp(s.ids[0], type='nothing')
        except (ValueError, AssertionError):
            s.hist.append('refused')
            return
        s.res.bad('accepted', 'a request for an unknown source or type (%s) '
                  'was accepted' % how)

    # ------------------------------------------------------------------
    def box(self, s, sid, size):
        """(y0, y1, x0, x1) inside the array of the requested stamp"""
        (ix, iy), m = s.models[sid]
        x0, y0 = s.p['xy0']
        if size is None:
            ys, xs = np.nonzero((m != 0).any(axis=0))
            return (ys.min(), ys.max() + 1, xs.min(), xs.max() + 1)
        k = size // 2
        return (iy - k - y0, iy + k + 1 - y0, ix - k - x0, ix + k + 1 - x0)

    def working(self, s):
        if s.plan['plain']:
            return s.orig
        im = s.orig.astype('f8')
        for i in s.ids:
            im = im - s.models[i][1]
        for i in s.active:
            im = im + s.models[i][1]
        return im

    def stamp(self, s, op):
        import lsst.afw.image as afw_image
        from lsst.pex.exceptions import LengthError
        from metadetect.lsst import util
        sid = s.ids[op['src'] % len(s.ids)]
        how, size, clip, ty = op['op'], op['size'], op['clip'], op['type']
        plain = s.plan['plain']
        if plain:
            ty = 'deblended'
            size = size or 7
            if how == 'model':
                how = 'stamp'
        if how == 'model':
            ty = 'model'
        kw = dict(stamp_size=size, clip=clip)
        if not plain and how != 'model':
            kw['type'] = ty
        f = {'stamp': s.sub.get_stamp, 'mbobs': s.sub.get_mbobs}.get(
            how) or s.sub.get_model
        got, out, st = None, None, None
        try:
            if op['fault'] is not None:
                with self.failing(s, *op['fault']) as st:
                    out = f(sid, **kw)
            else:
                out = f(sid, **kw)
        except CATCH as e:
            got = e
        what = '%s of source %d (%s, size %s, clip %s)' % (
            how, sid, ty, size, clip)
        if st is not None and st['fired']:
            if type(got).__name__ != simhook.exc_name(
                    op['fault'][2]):
                s.res.bad('absorbed', '%s: %s became %r' % (
                    what, op['fault'][2], got))
            s.hist.append('failed-' + how)
            return
        y0, y1, x0, x1 = self.box(s, sid, size)
        ny, nx = s.p['dim']
        outside = y0 < 0 or x0 < 0 or y1 > ny or x1 > nx
        if ty != 'model':
            if outside and not clip:
                if not isinstance(got, LengthError):
                    s.res.bad('edge', '%s does not fit but gave %r' % (
                        what, got if got is not None else type(out)))
                s.hist.append('edge')
                return
            y0, x0, y1, x1 = max(y0, 0), max(x0, 0), min(y1, ny), min(x1, nx)
        if how == 'mbobs' and ty != 'model' and isinstance(
                got, util.AllZeroWeightError):
            v = [e.variance.array[y0:y1, x0:x1]
                 for e in s.inp.mbexp.singles]
            if all((q > 0).any() and np.isfinite(np.median(q[q > 0]))
                   for q in v):
                s.res.bad('stamp', '%s refused for zero weight' % what)
            return
        if got is not None:
            s.res.bad('raised', '%s raised %r' % (what, got))
            return
        s.hist.append(how + '-' + ty)
        if ty == 'model':
            # the whole model or the requested area, wherever it is
            full = np.zeros_like(s.models[sid][1])
            b = out.getBBox()
            sl = (slice(b.y0 - s.p['xy0'][1], b.y0 - s.p['xy0'][1] + b.h),
                  slice(b.x0 - s.p['xy0'][0], b.x0 - s.p['xy0'][0] + b.w))
            for k, e in enumerate(out.singles):
                full[k][sl] = e.image.array
            want = s.models[sid][1]
            self.same(s, full, want, 'model', what)
            scribble(out)
            return
        im = (s.orig if ty == 'original' else self.working(s))[
            :, y0:y1, x0:x1]
        if how == 'stamp':
            a = np.array([e.image.array for e in out.singles])
            self.same(s, a, im, 'stamp', what)
            b = out.getBBox()
            if (b.x0, b.y0) != (x0 + s.p['xy0'][0], y0 + s.p['xy0'][1]) or \
                    list(out.bands) != s.p['bands']:
                s.res.bad('stamp', '%s is at %s, bands %s' % (
                    what, (b.x0, b.y0), out.bands))
            for k, e in enumerate(out.singles):
                q = s.inp.mbexp.singles[k]
                for n in ('mask', 'variance'):
                    u = getattr(q, n).array[y0:y1, x0:x1]
                    v = getattr(e, n).array
                    if n == 'mask':
                        det = afw_image.Mask.getPlaneBitMask(
                            ['DETECTED', 'DETECTED_NEGATIVE'])
                        u, v = u & ~det, v & ~det
                    if not np.array_equal(u, v):
                        s.res.bad('stamp', '%s has another %s' % (what, n))
            scribble(out)
            return
        if any(not hasattr(ol, 'meta') for ol in out):
            s.res.bad('stamp', '%s: not a list of observations per band: %r'
                      % (what, type(out)))
            return
        if [ol.meta.get('band') for ol in out] != s.p['bands']:
            s.res.bad('stamp', '%s: bands %s' % (
                what, [ol.meta.get('band') for ol in out]))
            return
        for ol in out:
            if len(ol) != 1:
                s.res.bad('stamp', '%s: %d observations of a band' % (
                    what, len(ol)))
                return
        self.same(s, np.array([ol[0].image for ol in out]), im, 'stamp', what)

    # ------------------------------------------------------------------
    def same(self, s, a, b, kind, what):
        if a.shape != b.shape:
            s.res.bad(kind, '%s has shape %s, expected %s' % (
                what, a.shape, b.shape))
            return
        d = np.abs(a - b)
        if d.size and not d.max() < TOL:
            k = np.unravel_index(np.argmax(d), d.shape)
            s.res.bad(kind, '%s: band %s pixel %s is %.4f, expected %.4f' % (
                what, s.p['bands'][k[0]], k[1:], a[k], b[k]))

    def check(self, s, when):
        if s.res.viol or s.sub is None:
            return
        self.check_orig(s, when)
        self.same(s, np.array([e.image.array for e in s.sub.mbexp.singles]),
                  self.working(s), 'working-image', 'working image %s '
                  '(inserted: %s)' % (when, s.active))

    def check_orig(self, s, when):
        d = core.diff(lw.snap_mbexp(s.inp.mbexp), s.first, 'original')
        if d:
            s.res.bad('original', 'the original changed %s: %s' % (when, d))

    def shrink_lists(self, plan):
        return [('ops',)]

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            for k in ('fault', 'end'):
                if op.get(k) is not None:
                    yield base.with_path(plan, ('ops', i, k), None)
            if op.get('body'):
                yield base.with_path(plan, ('ops', i, 'body'), [])
                yield base.with_path(plan, ('ops',), plan['ops'][:i] +
                                     op['body'] + plan['ops'][i + 1:])
        for k, v in (('ctor', None), ('skip', [])):
            if plan[k]:
                yield dict(plan, **{k: v})
        yield from lw.shrink_lsst(plan)


class State(object):
    sub, nsrc, fired = None, 0, ()


class Failing(object):
    """one failure while the block runs, never before or after it"""
    def __init__(self, s, how, n, kind):
        self.s, self.how, self.n, self.kind = s, how, n, kind
        self.st = dict(fired=False)

    def __enter__(self):
        ctx = self.s.ctx
        self.was = (ctx.keyed, ctx.positional, ctx.on_point, len(
            ctx.fired_sites))
        self.hk = None
        if self.how == 'key':
            ctx.keyed = {self.n: self.kind}
        elif self.how == 'point':
            left = [self.n]

            def on_point(site, n, key):
                if left[0] == 0 and not self.st['fired']:
                    self.st['fired'] = True
                    raise simhook.make_exc(self.kind)
                left[0] -= 1
            ctx.on_point = on_point
        else:
            left = [self.n]

            def on_call(site, n):
                if left[0] == 0 and not self.st['fired']:
                    self.st['fired'] = True
                    raise simhook.make_exc(self.kind)
                left[0] -= 1
            self.hk = hooks.interrupting(hooks.CallCtx(on_call=on_call))
            self.hk.__enter__()
        return self.st

    def __exit__(self, *a):
        ctx = self.s.ctx
        if self.hk is not None:
            self.hk.__exit__(None, None, None)
        if self.how == 'key' and len(ctx.fired_sites) > self.was[3]:
            self.st['fired'] = True
        ctx.keyed, ctx.positional, ctx.on_point = self.was[:3]
        if self.st['fired']:
            self.s.fired.append('%s-%s' % (self.how, self.kind))
        return False


def scribble(mbexp):
    """what was handed out is the caller's"""
    for e in mbexp.singles:
        e.image.array[:, :] = -77.0
