"""The caller's data and configuration are never modified"""
import copy
import random

import numpy as np

import base
import core
import hooks
import lw
import mdrun
import simhook
import wl
from props import fitfaults as ff

EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError', 'ValueError']
OPS = ['run', 'run', 'run', 'run', 'detect', 'catmeds', 'wavg', 'joint',
       'coadd', 'symm', 'mfrac', 'fgmask', 'applymask', 'interp', 'shearpos',
       'combine', 'getconfig', 'fitpsfs']
LOPS = ['pipe', 'pipe', 'pipe', 'task', 'task', 'sky', 'sky', 'iter', 'iter',
        'psfs', 'mcal', 'coadd', 'brightmask', 'stamps', 'replacer']


def share_weights(r, cfg):
    """fitters that share one nested dictionary, as configs read from one
    anchor do"""
    if 'fitters' in cfg and len(cfg['fitters']) > 1 and r.random() < 0.4:
        return [r.sample(range(len(cfg['fitters'])), 2)]
    return []


def do_share(cfg, share):
    for i, j in share:
        if i < len(cfg.get('fitters', [])) and j < len(cfg['fitters']):
            wt = cfg['fitters'][i].get('weight')
            if wt and 'fwhm' in wt and 'fwhm_reg' not in wt:
                cfg['fitters'][j]['weight'] = wt


class Op:
    """one call of a public function with caller-owned inputs"""
    def __init__(self, plan):
        self.r = random.Random('op:%s' % plan['opseed'])
        self.plan = plan
        self.inp = mdrun.Inputs(plan['w'])
        do_share(self.inp.cfg, plan['share'])
        self.own = {}            # name -> caller-owned object
        getattr(self, 'op_' + plan['op'])()

    def snap(self):
        d = self.inp.snap()
        for k, v in self.own.items():
            d['own_' + k] = snap_any(v)
        return d

    # ---- operations -----------------------------------------------------
    def op_run(self):
        self.call = None

    def stamps(self):
        from metadetect import detect
        inp = self.inp
        m = detect.MEDSifier(
            mbobs=inp.mbobs, sx_config=None, meds_config=dict(
                inp.cfg['meds']), nodet_flags=0)
        lst = m.get_multiband_meds().get_mbobs_list(
            weight_type=self.r.choice(['weight', 'uberseg']))
        for mb in lst:
            mb.meta['_simkey'] = 'stamp'
        return lst

    def bands(self):
        nb = len(self.inp.mbobs)
        return self.r.sample(range(nb), self.r.randint(1, nb))

    def op_detect(self):
        from metadetect import detect
        inp = self.inp
        sx = copy.deepcopy(inp.cfg.get('sx'))
        meds = copy.deepcopy(inp.cfg['meds'])
        wt = self.r.choice(['weight', 'uberseg'])
        self.own = dict(sx=sx, meds=meds)

        def call():
            m = detect.MEDSifier(mbobs=inp.mbobs, sx_config=sx,
                                 meds_config=meds,
                                 nodet_flags=inp.cfg['nodet_flags'])
            mm = m.get_multiband_meds()
            return mm.get_mbobs_list(weight_type=wt)
        self.call = call

    def op_catmeds(self):
        from metadetect import detect
        inp = self.inp
        objs = inp.w['mb']['objs']
        x = np.array([o['col'] for o in objs])
        y = np.array([o['row'] for o in objs])
        bs = np.array([self.r.choice([16, 24, 32]) for _ in objs])
        num = np.arange(1, len(objs) + 1)
        seg = np.zeros(inp.mbobs[0][0].image.shape, dtype='i4')
        for i, o in enumerate(objs):
            rr, cc = int(o['row']), int(o['col'])
            seg[max(0, rr-3):rr+4, max(0, cc-3):cc+4] = i + 1
        self.own = dict(x=x, y=y, bs=bs, num=num, seg=seg)
        kw = dict(number=num, seg=seg) if self.r.random() < 0.6 else {}
        wt = self.r.choice(['weight', 'uberseg']) if kw else 'weight'

        def call():
            m = detect.CatalogMEDSifier(inp.mbobs, x, y, bs, **kw)
            m.get_meds(0).get_cutout(0, 0, type='weight')
            return m.get_multiband_meds().get_mbobs_list(weight_type=wt)
        self.call = call

    def op_wavg(self):
        import ngmix
        from metadetect import fitting
        st = self.stamps()
        sb = self.bands()
        fitter = self.r.choice([
            ngmix.gaussmom.GaussMom(fwhm=1.2),
            ngmix.prepsfmom.KSigmaMom(fwhm=1.5),
            ngmix.prepsfmom.PGaussMom(fwhm=1.5)])
        kw = dict(symmetrize=self.r.random() < 0.7, bmask_flags=wl.EDGEBIT,
                  fwhm_reg=self.r.choice([0, 0.8]))
        self.own = dict(stamps=st, sb=sb)
        self.call = lambda: fitting.fit_mbobs_list_wavg(
            mbobs_list=st, fitter=fitter, shear_bands=sb, **kw)

    def op_joint(self):
        from metadetect import fitting
        st = self.stamps()
        sb = self.bands()
        self.own = dict(stamps=st, sb=sb)
        kw = dict(symmetrize=self.r.random() < 0.7, bmask_flags=wl.EDGEBIT,
                  fitter_name=self.r.choice(['am', 'admom', 'gauss']),
                  coadd=self.r.random() < 0.5)
        self.call = lambda: fitting.fit_mbobs_list_joint(
            mbobs_list=st, shear_bands=sb, rng=self.inp.rng, **kw)

    def op_coadd(self):
        from metadetect import fitting
        st = self.stamps() if self.r.random() < 0.5 else [self.inp.mbobs]
        sb = self.bands() if self.r.random() < 0.7 else None
        self.own = dict(stamps=st, sb=sb)

        def call():
            return [fitting.make_coadd_obs(mb, shear_bands=sb)
                    for mb in st]
        self.call = call

    def op_symm(self):
        from metadetect import fitting
        st = self.stamps()
        self.own = dict(stamps=st)

        def call():
            return [fitting.symmetrize_obs_weights(ol[0])
                    for mb in st for ol in mb]
        self.call = call

    def op_mfrac(self):
        from metadetect.mfrac import measure_mfrac
        inp = self.inp
        objs = inp.w['mb']['objs']
        x = np.array([o['col'] for o in objs])
        y = np.array([o['row'] for o in objs])
        bs = np.array([self.r.choice([0, 16, 24, 32]) for _ in objs])
        im = np.random.RandomState(5).uniform(
            size=inp.mbobs[0][0].image.shape)
        self.own = dict(x=x, y=y, bs=bs, im=im)
        fw = self.r.choice([None, 1.2, 2.0])
        self.call = lambda: measure_mfrac(
            mfrac=im, x=x, y=y, box_sizes=bs, obs=inp.mbobs[0][0], fwhm=fw)

    def holes(self):
        n = self.r.choice([1, 2, 3])
        d = self.inp.w['mb']['dims']
        dt = self.r.choice(['f8', 'f4', '>f8'])
        xm = np.array([self.r.uniform(-5, d[1] + 5) for _ in range(n)], dt)
        ym = np.array([self.r.uniform(-5, d[0] + 5) for _ in range(n)], dt)
        rm = np.array([self.r.uniform(2, 12) for _ in range(n)], dt)
        return xm, ym, rm

    def op_fgmask(self):
        from metadetect import masking
        xm, ym, rm = self.holes()
        dims = tuple(self.inp.w['mb']['dims'])
        sym = self.r.random() < 0.5 and dims[0] == dims[1]
        self.own = dict(xm=xm, ym=ym, rm=rm)

        def call():
            return [masking.make_foreground_bmask(
                xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=sym,
                mask_bit_val=4),
                masking.make_foreground_apodization_mask(
                xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=sym, ap_rad=1.5)]
        self.call = call

    def op_applymask(self):
        from metadetect import masking
        xm, ym, rm = self.holes()
        dims = self.inp.w['mb']['dims']
        sym = self.r.random() < 0.5 and dims[0] == dims[1]
        self.own = dict(xm=xm, ym=ym, rm=rm)
        target = wl.make_mbobs(self.inp.w['mb'])
        method = self.r.choice(['interp', 'interp-noise', 'apodize'])
        self.call = lambda: masking.apply_foreground_masking_corrections(
            mbobs=target, xm=xm, ym=ym, rm=rm, method=method,
            mask_expand_rad=3, mask_bit_val=4, expand_mask_bit_val=8,
            interp_bit_val=16, symmetrize=sym, ap_rad=1.5, iso_buff=1,
            rng=self.inp.rng)

    def op_interp(self):
        from metadetect.interpolate import interpolate_image_at_mask
        im = np.array(self.inp.mbobs[0][0].image)
        rs = np.random.RandomState(self.r.randrange(2**31))
        bad = rs.uniform(size=im.shape) < self.r.choice([0.02, 0.3])
        bad[10:20, 12:25] = True
        self.own = dict(im=im, bad=bad)
        nf = self.r.random() < 0.5
        self.call = lambda: interpolate_image_at_mask(
            image=im, bad_msk=bad, fill_isolated_with_noise=nf, weight=3.0,
            rng=self.inp.rng)

    def op_shearpos(self):
        from metadetect import shearpos
        rows = np.array([1.0, 20.5, 33.0])
        cols = np.array([5.0, 2.5, 60.0])
        self.own = dict(rows=rows, cols=cols)
        obs = self.inp.mbobs[0][0]
        st = self.r.choice(['noshear', '1p', '1m', '2p', '2m'])

        def call():
            return [shearpos.shear_positions_obs(rows, cols, st, obs),
                    shearpos.unshear_positions_obs(rows, cols, st, obs,
                                                   step=0.02)]
        self.call = call

    def op_combine(self):
        from metadetect import fitting
        import ngmix
        st = self.stamps()
        a = fitting.fit_mbobs_list_wavg(
            mbobs_list=st, fitter=ngmix.gaussmom.GaussMom(fwhm=1.2),
            bmask_flags=0)
        b = fitting.fit_mbobs_list_wavg(
            mbobs_list=st, fitter=ngmix.prepsfmom.PGaussMom(fwhm=1.5),
            bmask_flags=0)
        lst = [a, b]
        self.own = dict(lst=lst)
        self.call = lambda: fitting.combine_fit_res(lst)

    def op_getconfig(self):
        from metadetect.lsst.configs import get_config
        c = {}
        for k, v in [('detect', {'thresh': 7.0}), ('pgauss', {'fwhm': 1.5}),
                     ('metacal', {'types': ['noshear'], 'step': 0.02}),
                     ('shear_bands', ['r', 'i']), ('stamp_size', 51),
                     ('subtract_sky', True), ('detect', {}),
                     ('pgauss', {'fwhm': 1.0, 'bad': 2})]:
            if self.r.random() < 0.5:
                c[k] = v
        self.own = dict(config=c)

        def call():
            new = get_config(c)
            got = core.snap_cfg(dict(new))
            # the owner of the built configuration changes it
            for k in ('detect', 'pgauss', 'metacal'):
                new[k]['verif'] = 1
                new[k].pop('thresh', None)
            new['stamp_size'] = 0
            return got
        self.call = call

    def op_fitpsfs(self):
        from metadetect import fitting
        self.call = lambda: fitting.fit_all_psfs(self.inp.mbobs,
                                                 self.inp.rng)


class LOp:
    """one call of a public LSST function with caller-owned inputs"""
    def __init__(self, plan):
        self.r = random.Random('lop:%s' % plan['opseed'])
        self.plan = plan
        self.w = plan['w']
        self.inp = lw.LInputs(self.w)
        self.own = {}
        self.got = []            # results, for other checks
        self.free = set()        # what the call is for modifying
        self.bands = self.w['exp']['bands']
        getattr(self, 'op_' + plan['op'][2:])()

    def snap(self):
        d = self.inp.snap()
        for k in self.free:
            d.pop(k)
        for k, v in self.own.items():
            d['own_' + k] = core.snap_cfg(v)
        return d

    def op_pipe(self):
        self.call = lambda: lw.go(self.w, self.inp)
        if self.w['cfg'].get('subtract_sky'):
            self.free = {'mbexp'}

    def overrides(self, top=()):
        r = self.r
        d = {}
        for k, v in (('minPixels', 2), ('nSigmaToGrow', 2.0),
                     ('thresholdValue', 9.0)):
            if r.random() < 0.4:
                d[k] = v
        c = dict(top)
        if r.random() < 0.6:
            c['detect'] = d
        return c

    def op_task(self):
        from metadetect.lsst import measure
        r = self.r
        cfg = self.overrides()
        if r.random() < 0.4:
            cfg['seed'] = 7
        if r.random() < 0.2:
            cfg['nothing'] = {'x': 1}
        self.own = dict(config=cfg)
        th = r.choice([None, 4.0, 5.0, 7.0])
        db = self.w['cfg'].get('deblender', 'sdss')

        def call():
            t = measure.get_detect_and_deblend_task(
                rng=self.inp.rng, thresh=th, deblender=db, config=cfg)
            src, detexp, md = t.run(self.inp.mbexp)
            for x in src:
                t.meas.callMeasure(x, detexp)
                p = x.getFootprint().getPeaks()[0]
                self.got.append([x.getId(), p.getIx(), p.getIy()])
        self.call = call

    def op_sky(self):
        from metadetect.lsst import skysub
        r = self.r
        cfg = {}
        if r.random() < 0.7:
            cfg['iterate_detection_and_skysub'] = self.overrides(
                {'niter': 1} if r.random() < 0.5 else {})
        self.own = dict(config=cfg)
        th = r.choice([None, 4.0, 6.0])
        self.free = {'mbexp'}
        self.call = lambda: skysub.subtract_sky_mbexp(
            self.inp.mbexp, thresh=th, config=cfg)

    def op_iter(self):
        from metadetect.lsst import skysub
        r = self.r
        cfg = self.overrides({'niter': 3} if r.random() < 0.4 else {})
        self.own = dict(config=cfg)
        th, n = r.choice([4.0, 6.0]), r.choice([1, 2])
        self.free = {'mbexp'}
        self.call = lambda: skysub.iterate_detection_and_skysub(
            self.inp.mbexp.singles[0], th, niter=n, config=cfg)

    def op_psfs(self):
        from metadetect.lsst import metadetect as md
        from metadetect.lsst.configs import get_config
        cfg = get_config({'shear_bands': self.w['cfg'].get('shear_bands')})
        self.own = dict(config=cfg)

        def call():
            mf, wg = md.get_mfrac_mbexp(self.inp.mbexp,
                                        self.inp.mfrac_mbexp)
            self.got += [mf.copy(), list(wg)]
            self.got.append(md.combine_ormasks(self.inp.mbexp,
                                               self.inp.ormasks).copy())
            self.got.append(md.fit_original_psfs_mbexp(
                mbexp=self.inp.mbexp, rng=self.inp.rng, wgts=wg, config=cfg))
        self.call = call

    def op_mcal(self):
        from metadetect.lsst import metacal_exposures as me
        types = self.r.choice([None, ['noshear'], ['1p', 'noshear'],
                               ['2m']])
        self.own = dict(types=types)

        def call():
            if self.r.random() < 0.5:
                d, n = me.get_metacal_mbexps_fixnoise(
                    mbexp=self.inp.mbexp, noise_mbexp=self.inp.noise_mbexp,
                    types=types)
                self.got += [{k: lw.snap_mbexp(v) for k, v in x.items()}
                             for x in (d, n)]
                return
            d, n = me.get_metacal_exps_fixnoise(
                self.inp.mbexp.singles[0], self.inp.noise_mbexp.singles[0],
                types=types)
            self.got += [{k: v.image.array.copy() for k, v in x.items()}
                         for x in (d, n)]
        self.call = call

    def op_coadd(self):
        from metadetect.lsst import util
        exps = list(self.inp.mbexp.singles)

        def call():
            c = util.coadd_exposures(exps)
            if c is not None:
                self.got += [c.image.array.copy(), c.variance.array.copy(),
                             c.mask.array.copy()]
                c.image.array[:, :] = -5.0
                c.mask.array[:, :] = 0
            n = util.copy_mbexp(self.inp.mbexp)
            n.image.array[:] = -3.0
            n.variance.array[:] = -3.0
            util.get_mbexp(exps).image.array[:] = -2.0
            util.get_noise_image(exps[0], self.inp.rng, False)
        self.call = call

    def op_brightmask(self):
        from metadetect.lsst import masking
        r = self.r
        n = r.choice([0, 1, 2])
        b = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'),
                               ('radius_pixels', r.choice(['f4', 'f8']))])
        b['ra'] = 200.0 + np.array([r.uniform(-1, 1) for _ in range(n)]) / 700
        b['dec'] = np.array([r.uniform(-1, 1) for _ in range(n)]) / 700
        b['radius_pixels'] = [r.uniform(2, 9) for _ in range(n)]
        self.own = dict(info=b)
        self.free = {'mbexp', 'noise_mbexp', 'mfrac_mbexp', 'ormasks'}
        kw = dict(noise_mbexp=self.inp.noise_mbexp,
                  mfrac_mbexp=self.inp.mfrac_mbexp, ormasks=self.inp.ormasks)
        if r.random() < 0.4:
            kw = {}
            self.free = {'mbexp'}
        self.call = lambda: masking.apply_apodized_bright_masks_mbexp(
            mbexp=self.inp.mbexp, bright_info=b, **kw)

    def task(self):
        from metadetect.lsst import measure
        t = measure.get_detect_and_deblend_task(
            rng=self.inp.rng, thresh=5.0,
            deblender=self.w['cfg'].get('deblender', 'sdss'))
        src, detexp, md = t.run(self.inp.mbexp)
        for x in src:
            t.meas.callMeasure(x, detexp)
        return src, md

    def op_stamps(self):
        from metadetect.lsst import util
        from metadetect.lsst.model_subtractor import ModelSubtractor
        from metadetect.lsst.mbobs_extractor import MBObsExtractor
        src, md = self.task()

        def call():
            if len(src) == 0:
                return
            if md is not None:
                ex = ModelSubtractor(mbexp=self.inp.mbexp, sources=src,
                                     model_data=md)
            else:
                ex = MBObsExtractor(self.inp.mbexp, src)
            for i in list(ex.child_ids()):
                with ex.add_source(i):
                    try:
                        st = ex.get_stamp(i, stamp_size=9, clip=True)
                        self.got.append(st.image.array.copy())
                        st.image.array[:] = -1.0
                        ex.get_mbobs(i, stamp_size=9, clip=True)
                    except util.AllZeroWeightError:
                        pass
        self.call = call

    def op_replacer(self):
        from metadetect.lsst import util
        src, md = self.task()
        if md is not None:
            src = []

        def call():
            with util.MultibandNoiseReplacer(self.inp.mbexp, src,
                                             self.inp.rng) as rep:
                for x in list(src)[:2]:
                    with rep.sourceInserted(x.getId()):
                        pass
        self.call = call


def snap_any(v):
    import ngmix
    if isinstance(v, ngmix.Observation):
        return core.snap_obs(v)
    if isinstance(v, ngmix.MultiBandObsList):
        return core.snap_mbobs(v)
    if isinstance(v, (list, tuple)):
        return [snap_any(x) for x in v]
    return core.snap_cfg(v)


class Check(base.Check):
    id = 'C08'
    rule = ('a run is one call of a public entry point with caller-owned '
            'inputs, undisturbed, with failing dependencies or stopped at a '
            'seeded call; non-trivial always (inputs are compared '
            'afterwards), counted when the call did something')
    measure = 'distinct (operation, outcome, stopped at, fault kinds) tuples'
    n_quick = 700
    n_thorough = 30000

    def gen(self, seed):
        r = self.rng(seed)
        if r.random() < 0.3:
            op = 'l_' + r.choice(LOPS)
            w = lw.gen_lsst_workload(
                r, infvar=r.choice([False] * 5 + ['half', 'oneband']))
            plan = dict(w=w, op=op, opseed=r.randrange(2**31), share=[],
                        faults=[], target=None)
            # failures inside replacers belong to another property
            if r.random() < 0.6 and op != 'l_replacer':
                o = self.execute(plan, count=True)
                plan['target'] = hooks.pick_target(r, o.cctx.counts,
                                                   r.choice(EXC))
            return plan
        op = r.choice(OPS)
        color = op == 'run' and r.random() < 0.35
        kw = {}
        if op != 'run':
            kw = dict(nobj=r.choice([1, 2]))
        w = mdrun.gen_workload(r, color=color, noise_image=True if color
                               else None, **kw)
        for f in w['cfg'].get('fitters', [w['cfg']]):
            if f.get('model') in ('am', 'gauss') and r.random() < 0.3:
                f.pop('weight', None)
        plan = dict(w=w, op=op, opseed=r.randrange(2**31),
                    share=share_weights(r, w['cfg']), faults=[], target=None)
        x = r.random()
        if x < 0.3:
            return plan
        if op == 'run':
            if x < 0.6:
                twin = mdrun.execute(w)
                plan['faults'] = ff.choose_faults(
                    r, ff.stamp_keys(twin.ctx, color))[:8]
                if r.random() < 0.3:
                    plan['faults'].append(
                        ['fit.am', ['orig', 'main', 0], None, 'flagged'])
                return plan
            twin = mdrun.execute(w, count_calls=True)
            plan['target'] = hooks.pick_target(r, twin.cctx.counts,
                                               r.choice(EXC))
            return plan
        o = self.execute(plan, count=True)
        plan['target'] = hooks.pick_target(r, o.cctx.counts, r.choice(EXC))
        return plan

    def execute(self, plan, count=False):
        op = (LOp if plan['op'].startswith('l_') else Op)(plan)
        before = op.snap()
        if plan['op'] == 'run':
            o = mdrun.execute(plan['w'], plan['faults'], inp=op.inp,
                              target=plan['target'])
        else:
            o = mdrun.Out()
            o.ctx = mdrun.faults_ctx(plan['faults'])
            o.ctx.imgkeys = plan['op'].startswith('l_')
            o.cctx = hooks.CallCtx(plan['target'])
            o.clock = core.SimClock()
            core.set_clock(o.clock)
            try:
                with simhook.active(o.ctx), hooks.interrupting(o.cctx):
                    op.call()
                    o.result = 'done'
            except (Exception, KeyboardInterrupt) as e:
                o.exc = e
            finally:
                core.set_clock(None)
        o.before, o.after = before, op.snap()
        return o

    def run(self, plan):
        res = core.Result()
        o = self.execute(plan)
        res.took(o)
        fired = o.cctx is not None and o.cctx.fired
        if fired:
            res.faults['interrupt:' + plan['target']['exc']] += 1
        if o.exc is not None and not fired and not o.ctx.fired:
            # rejected input is fine for some operations (bad configs)
            if not (plan['op'] == 'getconfig' and isinstance(
                    o.exc, ValueError)) and not (
                        plan['op'] == 'l_task' and isinstance(
                            o.exc, AttributeError)):
                raise o.exc
        d = core.diff(o.after, o.before, plan['op'])
        if d:
            res.bad('modified', 'after %s (%s): caller-owned input changed: '
                    '%s' % (plan['op'], 'stopped at %s by %s' % (
                        plan['target']['site'], plan['target']['exc'])
                        if fired else repr(o.exc) if o.exc else 'completed',
                        d))
        res.nontrivial = True
        res.sigs.add('%s|%s|%s|%s' % (
            plan['op'], type(o.exc).__name__,
            plan['target']['site'] if fired else '',
            sorted(o.ctx.fired)))
        res.log.append('%s' % core.digest(o.after))
        return res

    def shrink_lists(self, plan):
        return [('faults',), ('share',)]

    def shrink_more(self, plan):
        if plan['target']:
            yield base.with_path(plan, ('target',), None)
        if plan['op'].startswith('l_'):
            yield from lw.shrink_lsst(plan)
        else:
            yield from mdrun.shrink_workload(plan)
