"""Shared by C03 and C04: whole runs with fit failures and bad stamps placed
on individual (object, band, fitter, sheared image) calls, against a
fault-free twin of the same run"""
import sys

import numpy as np

import base
import core
import mdrun
import wl
from props import stampfit

SITE_MODEL = {'fit.wmom': ('wmom',), 'fit.ksigma': ('ksigma',),
              'fit.pgauss': ('pgauss',), 'fit.am': ('am', 'admom'),
              'fit.gauss': ('gauss',), 'fit.gausspsf': ('gauss',),
              'meds.get_obs': None}
EXC = ['SimError', 'ValueError', 'LinAlgError', 'MemoryError',
       'GMixRangeError']


def kinds_for(r, site, role, nband=0):
    if site in ('fit.wmom', 'fit.ksigma', 'fit.pgauss'):
        if nband == 1 and role != 'psf' and r.random() < 0.3:
            return 'negT'
        return r.choice(['flagged', 'nocov'] if role == 'psf'
                        else ['flagged', 'nocov', 'badflux'])
    if site == 'fit.am':
        return r.choice(['flagged', 'noT'] + EXC)
    if site in ('fit.gauss', 'fit.gausspsf'):
        return r.choice(['flagged', 'flagged'] + EXC)
    if site == 'meds.get_obs':
        return 'GMixFatalError'
    raise AssertionError(site)


def stamp_keys(ctx, color):
    """keys of fits of stamps that may be made to fail; with colour, those
    that decide on the colour only on request"""
    out = []
    for site, key in ctx.seen_keys:
        if site not in SITE_MODEL or len(key) != 5:
            continue
        if color and key[0] == 'main':
            continue
        out.append((site, key))
    return sorted(out, key=repr)


def choose_faults(r, keys, nband=0):
    if not keys:
        return []
    style = r.choice(['single', 'few', 'object', 'band', 'many', 'fitter'])
    s0, k0 = r.choice(keys)
    if style == 'single':
        sel = [(s0, k0)]
    elif style == 'few':
        sel = [r.choice(keys) for _ in range(r.randint(2, 5))]
    elif style == 'object':
        sel = [(s, k) for s, k in keys if k[3] == k0[3] and k[1] == k0[1]
               and r.random() < 0.6]
    elif style == 'band':
        sel = [(s, k) for s, k in keys if k[2] == k0[2] and s == s0
               and r.random() < 0.7]
    elif style == 'fitter':
        sel = [(s, k) for s, k in keys if s == s0 and r.random() < 0.7]
    else:
        sel = [x for x in keys if r.random() < 0.15]
    out, seen = [], set()
    for s, k in sel:
        # failed stamps are rarer than failed fits
        if s == 'meds.get_obs' and r.random() < 0.5:
            continue
        if (s, k) in seen:
            continue
        seen.add((s, k))
        out.append([s, listify(k), None, kinds_for(r, s, k[4], nband)])
    return out


def listify(x):
    return [listify(y) for y in x] if isinstance(x, tuple) else x


class FitFaults(base.Check):
    real = base.Check.real
    rule = ('a run is a generated workload (1-4 bands, 1-5 objects, masks, '
            'fitters, band combinations, colours) with faults placed on '
            'recorded fit calls; one run in five hands stamps with bad bands '
            'straight to the list fitters; non-trivial when at least one fault fired '
            'and at least one object was detected')
    measure = ('distinct (fault site, kind, role, shear band or not, number '
               'of bands, number of combinations, outcome of the row) tuples')
    n_quick = 560
    n_thorough = 20000
    color_faults = False

    def gen(self, seed):
        r = self.rng(seed)
        if r.random() < 0.2:
            return stampfit.gen_plan(r, sys.modules[__name__])
        color = r.random() < 0.15
        w = mdrun.gen_workload(r, color=color, noise_image=True if color
                               else None)
        mb = w['mb']
        if mb['objs'] and r.random() < 0.15:
            # one band has no weight, or rejected pixels, around an object
            o = r.choice(mb['objs'])
            h = r.choice([18, 24, 36])
            mb['masks'].append(dict(
                row=int(o['row'] + r.uniform(-3, 3)),
                col=int(o['col'] + r.uniform(-3, 3)), h=h, w=h,
                band=r.randrange(mb['nband']),
                kind=r.choice(['weight', 'weight', 'weight', 'flagbit'])))
        plan = dict(w=w, faults=[])
        twin = mdrun.execute(w)
        self._twin = (core.jdump(w), twin)
        if color and self.color_faults and r.random() < 0.5:
            color = False
        plan['faults'] = choose_faults(
            r, stamp_keys(twin.ctx, color), w['mb']['nband'])
        return plan

    def twin(self, w):
        t = getattr(self, '_twin', None)
        if t is not None and t[0] == core.jdump(w):
            return t[1]
        return mdrun.execute(w)

    def run(self, plan):
        if 'direct' in plan:
            return stampfit.run(self, plan)
        res = core.Result()
        w = plan['w']
        twin = self.twin(w)
        out = mdrun.execute(w, plan['faults'])
        res.took(twin)
        res.took(out)
        if twin.exc is not None:
            if core_lib(twin.exc):
                raise twin.exc
            raise RuntimeError('twin failed: %r' % twin.exc)
        self.judge(res, w, plan, twin, out)
        res.nontrivial = bool(out.ctx.fired) and bool(
            twin.result and any(v is not None for v in twin.result.values()))
        res.log.append(core.digest(out.result))
        return res

    def judge(self, res, w, plan, twin, out):
        raise NotImplementedError

    def shrink_lists(self, plan):
        return [('faults',)]

    def shrink_more(self, plan):
        if 'direct' in plan:
            yield from stampfit.shrink(plan)
            return
        yield from mdrun.shrink_workload(plan)

    # ------------------------------------------------------------------
    def fired_index(self, out):
        """(type, pos) -> list of (site, key, kind) that fired"""
        idx = {}
        for site, n, key, kind in out.ctx.fired_sites:
            if key is None or len(key) != 5:
                continue
            lst = idx.setdefault((key[1], key[3]), [])
            if (site, key, kind) not in lst:
                lst.append((site, key, kind))
        return idx


def core_lib(e):
    import runner
    return runner.lib_exception(e)


def touches(site, model):
    m = SITE_MODEL[site]
    return m is None or model in m


def finite_cols(model, col, names):
    """columns that must be finite in an unflagged row"""
    want = ['s2n', 'g', 'g_cov', 'T', 'T_err', 'psf_g', 'psf_T', 'T_ratio']
    if model not in ('am', 'admom', 'gauss'):
        want += ['band_flux', 'band_flux_err']
    return [col + '_' + x for x in want if col + '_' + x in names]


_unused = (np, wl)
