"""Outcome of a run: None, dictionary, flags"""
import copy

import numpy as np

import base
import core
import mdrun
import wl
from props.fitfaults import core_lib

NODET2 = 2**7
PSFREC = ['psfrec_flags', 'psfrec_g', 'psfrec_T']


def apply_spoil(w, mbobs):
    """edit the observations of one run: unusable and nearly unusable bands"""
    for sp in w.get('spoil', []):
        obs = mbobs[sp['band'] % len(mbobs)][0]
        with obs.writeable():
            if sp['kind'] == 'zero':
                obs.weight[:, :] = 0
                if sp['near']:
                    obs.weight[3, 4] = 5.0
            elif sp['kind'] == 'nodet':
                obs.bmask[:, :] |= wl.NODET
                if sp['near']:
                    obs.bmask[5, 6] = 0
            elif sp['kind'] in ('halves', 'whalves'):
                # the bands together leave nothing, each alone does
                h = obs.bmask.shape[0] // 2
                for b, ol in enumerate(mbobs):
                    o = ol[0]
                    sl = slice(0, h) if (b + sp['band']) % 2 else \
                        slice(h, None)
                    with o.writeable():
                        if sp['kind'] == 'halves':
                            o.bmask[sl] |= wl.NODET
                        else:
                            o.weight[sl] = 0
            elif sp['kind'] == 'bits':
                # every pixel has one of the two rejected bits
                h = obs.bmask.shape[0] // 2
                obs.bmask[:h] |= wl.NODET
                obs.bmask[h:] |= NODET2
                if sp['near']:
                    obs.bmask[h, 6] = 0
            elif sp['kind'] == 'mfrac':
                for ol in (mbobs if sp['all'] else [mbobs[
                        sp['band'] % len(mbobs)]]):
                    o = ol[0]
                    with o.writeable():
                        m = np.ones(o.image.shape)
                        if sp['near'] and ol is mbobs[-1]:
                            m[2, 2] = 0.97
                        o.set_mfrac(m)


def expect_none(w, mbobs):
    """reference model: can nothing be measured on these data?"""
    nodet = w['cfg'].get('nodet_flags', 0)
    for ol in mbobs:
        o = ol[0]
        if not np.any(o.weight != 0):
            return 'a band has no weight'
        if np.all((o.bmask & nodet) != 0):
            return 'a band is fully masked for detection'
    if all(ol[0].has_mfrac() and np.all(ol[0].mfrac >= 1) for ol in mbobs):
        return 'masked fraction is one everywhere'
    return None


class Check(base.Check):
    id = 'C05'
    rule = ('a run is a workload with spoiled or nearly spoiled bands and '
            'failures of PSF fits, metacal and detection; non-trivial when a '
            'fault fired or a band was spoiled')
    measure = ('distinct (outcome, fired fault kinds, colour run, number of '
               'combinations, types without rows) tuples')
    n_quick = 560
    n_thorough = 20000

    def gen(self, seed):
        r = self.rng(seed)
        color = r.random() < 0.35
        w = mdrun.gen_workload(r, color=color, noise_image=True)
        if color:
            # one combination: the colour of every row is then known
            w['shear'] = [bands] if (bands := mdrun.bands_of_comb(
                dict(w, shear=w['shear'][:1] if w['shear'] else None), 0)
            ) and r.random() < 0.5 else None
            w['det'] = None
        w['spoil'] = []
        if r.random() < 0.4:
            for _ in range(r.choice([1, 1, 2])):
                w['spoil'].append(dict(
                    kind=r.choice(['zero', 'nodet', 'mfrac', 'zero',
                                   'nodet', 'mfrac', 'halves', 'whalves',
                                   'bits']),
                    band=r.randrange(w['mb']['nband']),
                    near=r.random() < 0.6, all=r.random() < 0.7))
        if any(s['kind'] == 'bits' for s in w['spoil']):
            w['cfg']['nodet_flags'] = wl.NODET | NODET2
        types = wl.mcal_types(w['cfg'])
        keys = ['main'] + ([k for k in w['color']['keys']
                            if k != w['color']['alias']] if color else [])
        faults = []
        if r.random() < 0.85:
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                k = r.choice(keys)
                if color and r.random() < 0.6 and len(keys) > 1:
                    k = r.choice(keys[1:])
                if x < 0.4:
                    faults.append(['fit.am', ['orig', k, r.randrange(
                        w['mb']['nband'])], None, 'flagged'])
                elif x < 0.6:
                    faults.append(['metacal', k, None, r.choice(
                        ['BootPSFFailure'] * 3 + ['ValueError', 'SimError',
                                                  'KeyboardInterrupt',
                                                  'MemoryError'])])
                elif x < 0.9:
                    for t in types:
                        if r.random() < 0.5:
                            faults.append(['metacal.type', ['main', t],
                                           None, 'blank'])
                else:
                    for t in types:
                        faults.append(['metacal.type', ['main', t],
                                       None, 'blank'])
        return dict(w=w, faults=faults)

    def execute(self, w, faults):
        inp = mdrun.Inputs(w)
        apply_spoil(w, inp.mbobs)
        none = expect_none(w, inp.mbobs)
        return mdrun.execute(w, faults, inp=inp, md='new'), none

    def run(self, plan):
        res = core.Result()
        w = plan['w']
        twin, none = self.execute(w, [])
        out, _ = self.execute(w, plan['faults'])
        res.took(twin)
        res.took(out)
        if twin.exc is not None:
            raise twin.exc
        res.nontrivial = bool(out.ctx.fired) or bool(w['spoil'])
        self.judge(res, w, twin, out, none)
        res.log.append(core.digest(out.result))
        return res

    def judge(self, res, w, twin, out, none):
        fired = {(s, k): kind for s, n, k, kind in out.ctx.fired_sites}
        types = list(wl.mcal_types(w['cfg']))
        sig = [sorted({'%s:%s' % (s, kd) for (s, k), kd in fired.items()}),
               bool(w.get('color')), mdrun.ncomb(w)]

        def published():
            try:
                out.md.result
                return True
            except RuntimeError:
                return False

        # the fault-free twin
        if (twin.result is None) != (none is not None):
            res.bad('none-model', 'fault-free run: result is %s, reference '
                    'model: %s' % (type(twin.result).__name__,
                                   none or 'measurable'))
            return
        if twin.result is not None:
            self.dict_ok(res, twin.result, types, 'fault-free run')
            for t, rows in twin.result.items():
                if rows is not None and (
                        np.any(rows['psfrec_flags'] != 0)
                        or not np.all(np.isfinite(rows['psfrec_T']))
                        or not np.all(np.isfinite(rows['psfrec_g']))):
                    res.bad('psfrec', 'type %s: undefined psfrec values or '
                            'flags without a failure' % t)
        # conditions that must end the run
        hard = [kd for (s, k), kd in fired.items()
                if s == 'metacal' and kd != 'BootPSFFailure']
        if hard:
            sig.append('raise')
            if out.exc is None:
                res.bad('swallowed', 'metacal raised %s but the run completed'
                        % hard[0])
            elif published():
                res.bad('published', 'a result is available although the run '
                        'ended with %r' % out.exc)
            res.sigs.add(repr(sig))
            return
        if out.exc is not None:
            if core_lib(out.exc):
                res.bad('failed-run', 'the run ended with %r, fired faults '
                        '%s' % (out.exc, sorted(map(repr, fired.items()))))
                return
            raise out.exc
        if none is not None or fired.get(('metacal', 'main')):
            sig.append('none')
            if out.result is not None:
                res.bad('none-expected', 'result is not None although %s' % (
                    none or 'metacal failed for its PSF'))
            res.sigs.add(repr(sig))
            return
        if out.result is None:
            res.bad('none-unexpected', 'result is None although measurement '
                    'was possible; fired %s' % sorted(map(repr,
                                                          fired.items())))
            return
        self.dict_ok(res, out.result, types, 'run with faults')
        badpsf = {k[1] for (s, k), kd in fired.items()
                  if s == 'fit.am' and k[0] == 'orig'}
        badcal = {k for (s, k), kd in fired.items() if s == 'metacal'}
        blank = {k[1] for (s, k), kd in fired.items()
                 if s == 'metacal.type' and k[0] == 'main'}
        sig.append(sorted(blank) and len(blank))
        colors = self.row_colors(twin) if w.get('color') else None
        for t in types:
            if t not in out.result:
                continue
            rows, ref = out.result[t], twin.result.get(t)
            if t in blank:
                if rows is not None:
                    res.bad('not-none', 'type %s has rows although nothing '
                            'was detected in it' % t)
                continue
            if ref is None:
                if rows is not None:
                    res.bad('rows-appeared', 'type %s has rows only when '
                            'something else fails' % t)
                continue
            col = [self.color_of(w, colors, t, r) for r in ref]
            keep = np.array([c not in badcal for c in col], dtype=bool)
            if not keep.any():
                if rows is not None:
                    res.bad('not-none', 'type %s has rows although nothing '
                            'could be measured in it' % t)
                continue
            if rows is None or rows.size != keep.sum():
                res.bad('rows-lost', 'type %s: %s rows, expected %d' % (
                    t, None if rows is None else rows.size, keep.sum()))
                continue
            ref, col = ref[keep], [c for c, k in zip(col, keep) if k]
            failed = np.array([c in badpsf for c in col], dtype=bool)
            for n in ref.dtype.names:
                if n in PSFREC:
                    continue
                d = core.diff(rows[n], ref[n], n)
                if d:
                    res.bad('rows-changed', 'type %s: %s although only the '
                            'original PSF, another colour or another type '
                            'failed' % (t, d))
                    break
            for n in PSFREC:
                d = core.diff(rows[n][~failed], ref[n][~failed], n)
                if d:
                    res.bad('psfrec', 'type %s, rows without a PSF failure: '
                            '%s' % (t, d))
                    break
            if failed.any():
                res.probes['rows with failed original psf'] += int(
                    failed.sum())
                if np.any(rows['psfrec_flags'][failed] == 0):
                    res.bad('psf-unflagged', 'type %s: the original PSF fit '
                            'failed but psfrec_flags is zero' % t)
                if np.any(np.isfinite(rows['psfrec_T'][failed])) or np.any(
                        np.isfinite(rows['psfrec_g'][failed])):
                    res.bad('psf-defined', 'type %s: the original PSF fit '
                            'failed but psfrec values are given' % t)
        res.sigs.add(repr(sig))

    def dict_ok(self, res, result, types, what):
        if not isinstance(result, dict) or set(result) != set(types):
            res.bad('types', '%s: result has %s, configured types %s' % (
                what, sorted(result), sorted(types)))
            return
        for t, rows in result.items():
            if rows is not None and rows.size == 0:
                res.bad('empty', '%s: type %s is an empty array, not None'
                        % (what, t))

    def row_colors(self, twin):
        """(type, pos) -> simulation key of the data the row came from"""
        out = {}
        for tag, anyw, bm, wt in twin.ctx.notes.get('stamp', []):
            k = (tag[1], tag[3])
            if tag[0] != 'main' or k not in out:
                out[k] = tag[0]
        return out

    def color_of(self, w, colors, t, row):
        if colors is None:
            return 'main'
        return colors.get((t, mdrun.row_pos(row)), 'main')

    def shrink_lists(self, plan):
        return [('faults',), ('w', 'spoil')]

    def shrink_more(self, plan):
        yield from mdrun.shrink_workload(plan)


_unused = copy
