"""Sharing work between combinations, colours and repetitions"""
import copy

import numpy as np

import base
import core
import mdrun
import wl
from props import fitfaults as ff

# averaged over the bands in the order in which they were first requested
ORDER_COLS = ('psfrec_g', 'psfrec_T', 'mfrac', 'mfrac_img', 'mfrac_noshear')

IMAGE_COLS = ('mfrac_img', 'psfrec_flags', 'psfrec_g', 'psfrec_T')


def close_rows(a, b):
    """difference of two rows or arrays, rounding allowed in band averages"""
    if a.dtype != b.dtype:
        return 'columns differ: %s vs %s' % (a.dtype, b.dtype)
    if a.shape != b.shape:
        return '%s rows vs %s' % (a.shape, b.shape)
    for n in a.dtype.names:
        if n in ORDER_COLS:
            if not np.allclose(a[n], b[n], rtol=2e-6, atol=1e-9,
                               equal_nan=True):
                return '%s: %r vs %r' % (n, a[n], b[n])
            continue
        d = core.diff(a[n], b[n], n)
        if d:
            return d
    return None


class Check(base.Check):
    id = 'C07'
    rule = ('a run measures several band combinations or colours together, '
            'with the same seeded failures as in the separate runs of each '
            'combination and of each colour it is compared with, and repeats '
            'the run on the same object; non-trivial when more than one '
            'combination or colour was measured')
    measure = ('distinct (combinations, detection bands, colours, alias, '
               'failure kinds, rows per type) tuples')
    n_quick = 240
    n_thorough = 12000

    def gen(self, seed):
        r = self.rng(seed)
        color = r.random() < 0.45
        w = mdrun.gen_workload(
            r, color=color, noise_image=True if color else None,
            nband=r.choice([2, 2, 3, 3, 4]), nobj=r.choice([1, 2, 3]))
        nb = w['mb']['nband']
        if not color or r.random() < 0.4:
            n = r.choice([2, 2, 3, 4])
            w['shear'], w['det'] = wl.gen_combs(r, nb, n)
            if r.random() < 0.5:
                # same bands again, listed in another order or with other
                # detection bands
                i, j = r.randrange(n), r.randrange(n)
                w['shear'][i] = list(w['shear'][j])
                r.shuffle(w['shear'][i])
        if w.get('shear') is not None and r.random() < 0.4:
            # combinations that find different numbers of objects
            for o in w['mb']['objs'][1:]:
                b = r.randrange(nb)
                o['flux'] = [f if i == b else 0.0
                             for i, f in enumerate(o['flux'])]
            if r.random() < 0.7:
                w['det'] = 'shear_bands'
        if color and r.random() < 0.5:
            # observations of a colour with their own masks
            w['color']['masks'] = {}
            for k in w['color']['keys']:
                m = []
                for _ in range(r.choice([0, 1, 2])):
                    o = r.choice(w['mb']['objs'])
                    m.append(dict(
                        row=int(o['row'] + r.uniform(-6, 6)),
                        col=int(o['col'] + r.uniform(-6, 6)),
                        h=r.choice([1, 4, 12]), w=r.choice([1, 4, 12]),
                        band=r.randrange(nb), kind=r.choice(
                            ['mfrac', 'mfrac', 'bmask', 'ormask'])))
                w['color']['masks'][k] = m
        if color and r.random() < 0.3:
            w['color']['tup'] = 'first'
        keys = ['main'] + ([k for k in w['color']['keys']
                            if k != w['color']['alias']] if color else [])
        faults = []
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2])):
                k = r.choice(keys)
                x = r.random()
                if x < 0.35:
                    faults.append(['fit.am', ['orig', k, r.randrange(nb)],
                                   None, 'flagged'])
                elif x < 0.6 and len(keys) > 1:
                    faults.append(['metacal', r.choice(keys[1:]), None,
                                   'BootPSFFailure'])
                elif x < 0.8:
                    faults.append(['metacal.type', ['main', r.choice(
                        wl.mcal_types(w['cfg']))], None, 'blank'])
                else:
                    twin = mdrun.execute(w)
                    ks = ff.stamp_keys(twin.ctx, color)
                    faults += ff.choose_faults(r, ks)[:6]
        return dict(w=w, faults=faults, repeat=r.random() < 0.5)

    def single(self, w, i):
        s = copy.deepcopy(w)
        if w.get('shear') is None:
            return s
        s['shear'] = [copy.deepcopy(w['shear'][i])]
        if isinstance(w.get('det'), list):
            s['det'] = [copy.deepcopy(w['det'][i])]
        return s

    def execute(self, w, faults, force=None, plain=None):
        """force: ('key', k) makes every object have colour k;
        plain: ('key', k) measures the observations of colour k alone"""
        inp = mdrun.Inputs(w)
        if plain is not None:
            inp.mbobs = inp.color_mbobs[plain[1]]
            inp.color_func = inp.color_mbobs = None
        log = []
        holder = {}
        if inp.color_func is not None:
            orig = inp.color_func

            def func(flux):
                k = orig(flux)
                dets = holder['ctx'].notes.get('det', [])
                log.append((len(dets) - 1, k))
                return k if force is None else force[1]
            inp.color_func = func
        o = mdrun.execute(w, faults, inp=inp, md='new', on_ctx=lambda c:
                          holder.__setitem__('ctx', c))
        o.colors = list(log)
        return o

    def run(self, plan):
        res = core.Result()
        w, faults = plan['w'], plan['faults']
        out = self.execute(w, faults)
        res.took(out)
        if out.exc is not None:
            raise out.exc
        if plan['repeat']:
            o2 = mdrun.execute(w, faults, inp=out.inp, md=out.md)
            res.took(o2)
            if o2.exc is not None:
                raise o2.exc
            d = core.diff(o2.result, out.result, 'result')
            if d:
                res.bad('repeat', 'a second go() on the same object differs: '
                        '%s' % d)
        n = mdrun.ncomb(w)
        singles = None
        if n > 1:
            singles = [self.execute(self.single(w, i), faults)
                       for i in range(n)]
            for s in singles:
                res.took(s)
                if s.exc is not None:
                    raise s.exc
            self.combine(res, out.result, [s.result for s in singles])
        if w.get('color'):
            for i in range(n):
                wi = self.single(w, i)
                oi = singles[i] if singles else out
                self.colours(res, wi, faults, oi, i)
        kinds = sorted({'%s:%s' % (s, kd) for s, _, _, kd
                        in out.ctx.fired_sites})
        res.sigs.add(repr((w.get('shear'), w.get('det'),
                           (w.get('color') or {}).get('keys'),
                           (w.get('color') or {}).get('alias'), kinds,
                           sorted((t, 0 if v is None else v.size) for t, v in
                                  (out.result or {}).items()))))
        res.nontrivial = n > 1 or len({k for _, k in out.colors}) > 1
        res.log.append(core.digest(out.result))
        return res

    def combine(self, res, whole, parts):
        if whole is None or any(p is None for p in parts):
            if any(x is not None for x in [whole] + parts):
                res.bad('none', 'combined run gives %s, separate runs %s' % (
                    type(whole).__name__,
                    [type(p).__name__ for p in parts]))
            return
        for p in parts:
            if set(p) != set(whole):
                res.bad('types', '%s vs %s' % (sorted(whole), sorted(p)))
                return
        for t in whole:
            want = [p[t] for p in parts if p[t] is not None]
            if not want:
                if whole[t] is not None:
                    res.bad('rows', '%s: rows only in the combined run' % t)
                continue
            want = np.hstack(want)
            if whole[t] is None:
                res.bad('rows', '%s: no rows in the combined run' % t)
                continue
            d = close_rows(whole[t], want)
            if d:
                res.bad('comb-differs', '%s: combined run differs from the '
                        'separate runs joined in order: %s' % (t, d))

    def colours(self, res, w, faults, out, i):
        if out.result is None:
            return
        keys = []
        for _, k in out.colors:
            if k not in keys:
                keys.append(k)
        if len(keys) > 1:
            res.probes['runs with several colours'] += 1
        if not keys:
            return
        single = {}
        for k in keys:
            o = self.execute(w, faults, force=('key', k))
            res.took(o)
            if o.exc is not None:
                raise o.exc
            if [x for x, _ in o.colors] != [x for x, _ in out.colors]:
                res.bad('detect', 'the detections depend on the colours')
                return
            single[k] = o.result
            if k is not None and out.inp.color_mbobs[k] is not \
                    out.inp.mbobs:
                self.own_image(res, w, faults, k, o.result)
        dets = [(d[0].astype('f4'), d[1].astype('f4'))
                for d in out.ctx.notes.get('det', [])]
        for t in wl.mcal_types(w['cfg']):
            rs = [s[t] for s in single.values() if s and s[t] is not None]
            ti = -1
            for j, (x, y) in enumerate(dets):
                if any(np.array_equal(r['sx_col'], x) and np.array_equal(
                        r['sx_row'], y) for r in rs):
                    ti = j
            mine = [k for d, k in out.colors if d == ti]
            want = []
            for j, k in enumerate(mine):
                rows = single[k][t]
                if rows is None:
                    continue        # this colour cannot be measured
                if rows.size != len(mine):
                    res.bad('colour-rows', '%s: %d detections, %d rows with '
                            'the single colour %s' % (
                                t, len(mine), rows.size, k))
                    return
                want.append(rows[j:j + 1])
            got = out.result[t]
            if not want:
                if got is not None:
                    res.bad('colour-rows', '%s: rows although no colour can '
                            'be measured' % t)
                continue
            want = np.hstack(want)
            if got is None:
                res.bad('colour-rows', '%s: no rows' % t)
                continue
            d = close_rows(got, want)
            if d:
                res.bad('colour-differs', '%s, combination %d: rows differ '
                        'from the single-colour runs: %s' % (t, i, d))

    def own_image(self, res, w, faults, k, rows):
        """what describes the image as a whole is that of the observations
        of the colour"""
        o = self.execute(w, faults, plain=('key', k))
        res.took(o)
        if o.exc is not None:
            raise o.exc
        if not o.result or not rows:
            return
        want = [v for v in o.result.values() if v is not None]
        if not want:
            return
        for t, v in rows.items():
            if v is None:
                continue
            res.probes['colour images compared'] += 1
            for c in IMAGE_COLS:
                a, b = v[c], want[0][c][:1]
                if not np.allclose(a, b, rtol=2e-6, atol=1e-9,
                                   equal_nan=True):
                    res.bad('colour-image', '%s: %s of the rows of colour '
                            '%s is %r, of a run on the observations of this '
                            'colour %r' % (t, c, k, a[0], b[0]))
                    return

    def shrink_lists(self, plan):
        return [('faults',)]

    def shrink_more(self, plan):
        if plan['repeat']:
            yield base.with_path(plan, ('repeat',), False)
        yield from mdrun.shrink_workload(plan)
