"""Scenarios: complete library calls with their own inputs, whose whole
outcome (result, exception, generator state, data left behind) is compared"""
import copy

import numpy as np

import core
import hooks
import lw
import maskwl as mw
import mdrun
import simhook
import wl


class Scen:
    """spec: dict(kind=..., ...); cfg: a configuration object to share"""
    def __init__(self, spec, cfg=None, inp=None):
        self.spec = spec
        self.kind = spec['kind']
        self.target = spec.get('target')
        self.out = None
        getattr(self, 'init_' + self.kind)(cfg, inp)

    # --- whole runs
    def init_run(self, cfg, inp):
        w = self.spec['w']
        self.inp = inp or mdrun.Inputs(w)
        if cfg is not None:
            self.inp.cfg = cfg
        self.rng = self.inp.rng

    def go_run(self):
        o = mdrun.execute(self.spec['w'], self.spec.get('faults', ()),
                          inp=self.inp, target=self.target)
        self.out = o
        self.fired = list(o.ctx.fired_sites)
        return o.result, o.exc

    def after_run(self):
        return self.inp.snap()

    # --- masking
    def init_mask(self, cfg, inp):
        self.mb = mw.make_mask_mbobs(self.spec['w'])
        self.rng = np.random.RandomState(self.spec['w']['mask']['rng'])

    def go_mask(self):
        def call():
            if self.spec['op'] == 'border':
                from metadetect import masking
                masking.apply_apodization_corrections(
                    mbobs=self.mb, ap_rad=self.spec['ap'],
                    mask_bit_val=mw.MASKBIT)
            else:
                mw.apply_mask(self.spec['w'], self.mb, self.rng)
        return self.guard(call)

    def after_mask(self):
        return core.snap_mbobs(self.mb)

    # --- interpolation
    def init_interp(self, cfg, inp):
        from props import c15
        self.call = c15.Call(self.spec['c'])
        self.rng = self.call.rng

    def go_interp(self):
        return self.guard(self.call.go)

    def after_interp(self):
        return [self.call.im, self.call.bad]

    # --- fits of stamps
    def init_fit(self, cfg, inp):
        import ngmix
        w = self.spec['w']
        self.inp = mdrun.Inputs(w)
        self.rng = self.inp.rng
        self.ngmix = ngmix

    def go_fit(self):
        return self.guard(self.fit)

    def fit(self):
        from metadetect import detect, fitting
        s = self.spec
        m = detect.MEDSifier(
            mbobs=self.inp.mbobs, sx_config=self.inp.cfg.get('sx'),
            meds_config=self.inp.cfg['meds'],
            nodet_flags=self.inp.cfg['nodet_flags'])
        lst = m.get_multiband_meds().get_mbobs_list(
            weight_type=s['wt'])
        fm = {'wmom': self.ngmix.gaussmom.GaussMom,
              'ksigma': self.ngmix.prepsfmom.KSigmaMom,
              'pgauss': self.ngmix.prepsfmom.PGaussMom}
        if s['fitter'] in fm:
            return fitting.fit_mbobs_list_wavg(
                mbobs_list=lst, fitter=fm[s['fitter']](fwhm=1.5),
                bmask_flags=wl.EDGEBIT, shear_bands=s['sb'],
                fwhm_reg=s['reg'], symmetrize=s['symm'])
        return fitting.fit_mbobs_list_joint(
            mbobs_list=lst, fitter_name=s['fitter'],
            bmask_flags=wl.EDGEBIT, rng=self.rng, shear_bands=s['sb'],
            symmetrize=s['symm'], coadd=s['coadd'])

    def after_fit(self):
        return self.inp.snap()

    # --- any public function
    def init_op(self, cfg, inp):
        from props import c08
        self.op = c08.Op(self.spec)
        if cfg is not None:
            self.op.inp.cfg = cfg
        self.rng = self.op.inp.rng

    def go_op(self):
        from props import c08
        return self.guard(lambda: c08.snap_any(self.op.call()))

    def after_op(self):
        return self.op.snap()

    # --- LSST pipelines and operations
    def init_lsst(self, cfg, inp):
        self.inp = inp or lw.LInputs(self.spec['w'])
        if cfg is not None:
            self.inp.cfg = cfg
        self.rng = self.inp.rng

    def go_lsst(self):
        o = lw.execute(self.spec['w'], self.spec.get('faults', ()),
                       inp=self.inp, target=self.target)
        self.out = o
        self.fired = list(o.ctx.fired_sites)
        return o.result, o.exc

    def after_lsst(self):
        return self.inp.snap()

    def init_lop(self, cfg, inp):
        from props import c08
        self.op = c08.LOp(self.spec)
        self.rng = self.op.inp.rng

    def go_lop(self):
        def call():
            self.op.call()
            return list(self.op.got)
        return self.guard(call)

    def after_lop(self):
        d = self.op.inp.snap()
        for k, v in self.op.own.items():
            d['own_' + k] = core.snap_cfg(v)
        return d

    # --- configurations
    def init_config(self, cfg, inp):
        self.rng = None
        self.over = copy.deepcopy(self.spec['over'])

    def go_config(self):
        from metadetect.lsst.configs import get_config
        return self.guard(lambda: get_config(self.over))

    def after_config(self):
        return self.over

    # ------------------------------------------------------------------
    def guard(self, call):
        ctx = mdrun.faults_ctx(self.spec.get('faults', ()))
        ctx.imgkeys = self.kind == 'lop'
        cc = hooks.CallCtx(self.target) if self.target else None
        self.ctx = ctx
        core.set_clock(core.SimClock(steps=self.spec.get('clock', [0.001])))
        try:
            with simhook.active(ctx):
                if cc is not None:
                    with hooks.interrupting(cc):
                        return call(), None
                return call(), None
        except (Exception, KeyboardInterrupt) as e:
            return None, e
        finally:
            core.set_clock(None)
            self.fired = list(ctx.fired_sites)

    def run(self):
        self.result, self.exc = getattr(self, 'go_' + self.kind)()
        return self

    def outcome(self):
        return dict(
            result=self.result,
            exc=None if self.exc is None else '%s: %s' % (
                type(self.exc).__name__, self.exc),
            rng=None if self.rng is None else core.snap_rng(self.rng),
            after=getattr(self, 'after_' + self.kind)())


LOPS = ['task', 'sky', 'iter', 'psfs', 'mcal', 'coadd', 'brightmask',
        'stamps', 'replacer']


def gen_scen(r, kinds=('run', 'run', 'run', 'mask', 'interp', 'fit', 'op',
                       'config', 'lsst', 'lsst', 'lop'),
             small=False):
    kind = r.choice(kinds)
    s = dict(kind=kind)
    if kind == 'run':
        color = r.random() < 0.25
        kw = dict(nobj=r.choice([1, 2])) if small else {}
        w = mdrun.gen_workload(r, color=color, **kw)
        s['w'] = w
        if r.random() < 0.2:
            s['faults'] = [['fit.am', ['orig', 'main', 0], None, 'flagged']]
    elif kind == 'mask':
        s['w'] = mw.gen_mask_workload(r)
        s['op'] = 'fg'
        if r.random() < 0.2:
            s['op'], s['ap'] = 'border', r.choice([0.5, 1.0, 2.5])
            for q in s['w']['bands']:
                q['nan'] = False
    elif kind == 'interp':
        from props import c15
        s['c'] = c15.gen_case(r)
    elif kind == 'fit':
        kw = dict(nobj=r.choice([1, 2]))
        s['w'] = mdrun.gen_workload(r, combs=False, **kw)
        nb = s['w']['mb']['nband']
        s.update(fitter=r.choice(['wmom', 'ksigma', 'pgauss', 'am', 'gauss']),
                 sb=r.choice([None, sorted(r.sample(range(nb), r.randint(
                     1, nb)))]), wt=r.choice(['weight', 'uberseg']),
                 reg=r.choice([0, 0.8]), symm=r.random() < 0.7,
                 coadd=r.random() < 0.5)
    elif kind == 'op':
        s['w'] = mdrun.gen_workload(r, combs=False, nobj=r.choice([1, 2]))
        s.update(op=r.choice(['detect', 'catmeds', 'wavg', 'joint', 'coadd',
                              'symm', 'mfrac', 'fgmask', 'applymask',
                              'interp', 'shearpos', 'combine', 'getconfig',
                              'fitpsfs']),
                 opseed=r.randrange(2**31), share=[])
    elif kind == 'lsst':
        kw = dict(nobj=r.choice([1, 2])) if small else {}
        s['w'] = lw.gen_lsst_workload(r, infvar=r.choice(
            [False] * 6 + ['half', 'oneband']), **kw)
        if r.random() < 0.2:
            s['faults'] = [[r.choice(['detect.run', 'back.run',
                                      'deblend.run']), None, r.choice([0, 1]),
                            r.choice(['lateTaskError', 'lsst.TaskError'])]]
    elif kind == 'lop':
        s['w'] = lw.gen_lsst_workload(r, nobj=r.choice([1, 2]))
        s.update(op='l_' + r.choice(LOPS), opseed=r.randrange(2**31),
                 share=[], target=None)
    else:
        from props import c14
        s['over'] = c14.gen_override(r)
    return s


def dry_counts(s):
    cc = hooks.CallCtx()
    sc = Scen(s)
    with hooks.interrupting(cc):
        sc.run()
    return cc.counts


EXC = ['KeyboardInterrupt', 'MemoryError', 'SimError']


def with_interrupt(r, s):
    n = copy.deepcopy(s)
    t = hooks.pick_target(r, dry_counts(s), r.choice(EXC))
    if t is not None:
        n['target'] = t
    return n
