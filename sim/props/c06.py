"""Interrupted runs leave nothing behind"""
import numpy as np

import base
import core
import hooks
import lw
import mdrun
import wl

EXC = ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SimError']


class Check(base.Check):
    id = 'C06'
    rule = ('a run is a history: up to four attempts, each stopped at a '
            'seeded external call or inside a stub dependency, on one '
            'Metadetect object, on fresh objects over the same inputs, or '
            'through do_metadetect, then one undisturbed attempt; '
            'non-trivial when at least one attempt was stopped')
    measure = ('distinct (stopped at, exception, way of running) triples')
    n_quick = 400
    n_thorough = 16000
    stubs = base.Check.stubs + ['lsst.*']

    def gen(self, seed):
        r = self.rng(seed)
        if r.random() < 0.2:
            return self.gen_lsst(r)
        color = r.random() < 0.3
        w = mdrun.gen_workload(r, color=color, noise_image=True if color
                               else None)
        if len(w['mb']['objs']) > 3:
            w['mb']['objs'] = w['mb']['objs'][:3]
        shared = r.random() < 0.35
        if shared:
            # masked fractions around the objects in every band
            w['mb']['mfrac'] = True
            for b in range(w['mb']['nband']):
                o = r.choice(w['mb']['objs'])
                w['mb']['masks'].append(dict(
                    row=int(o['row'] + r.uniform(-4, 4)),
                    col=int(o['col'] + r.uniform(-4, 4)), h=3, w=3, band=b,
                    kind='mfrac'))
        twin = mdrun.execute(w, count_calls=True)
        plan = dict(w=w, mode=r.choice(['md', 'md', 'fresh', 'func']),
                    attempts=[])
        # only calls that reach outside during the run; caches make later
        # attempts shorter, so not every planned stop is reached
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            exc = r.choice(EXC)
            if r.random() < 0.7:
                counts = dict(twin.cctx.counts)
                if r.random() < 0.5:
                    # favour the bookkeeping around shared work
                    c2 = {s: n for s, n in counts.items()
                          if not s.startswith(('fit_', 'get_', '_fit',
                                               'symm', 'make_coadd'))}
                    counts = c2 or counts
                    if shared and r.random() < 0.5:
                        c2 = {s: n for s, n in counts.items()
                              if 'mfrac' in s.split('>')[0]}
                        counts = c2 or counts
                t = hooks.pick_target(r, counts, exc)
                if t is not None:
                    plan['attempts'].append(dict(target=t))
            else:
                site = r.choice(sorted(twin.ctx.counts))
                n = r.randrange(twin.ctx.counts[site])
                plan['attempts'].append(dict(fault=[site, None, n, exc]))
        return plan

    def gen_lsst(self, r):
        w = lw.gen_lsst_workload(r)
        w['exp']['objs'] = w['exp']['objs'][:4]
        if w['sky']:      # would subtract from the caller's images again
            w['sky'] = False
            w['cfg'].pop('subtract_sky', None)
        twin = lw.execute(w, count_calls=True)
        plan = dict(w=w, mode='lsst', fresh=r.random() < 0.3, attempts=[])
        for _ in range(r.choice([1, 1, 2, 3])):
            exc = r.choice(EXC)
            if r.random() < 0.6 or not twin.ctx.counts:
                t = hooks.pick_target(r, twin.cctx.counts, exc, trivial=0.1)
                if t is not None:
                    plan['attempts'].append(dict(target=t))
            else:
                site = r.choice(sorted(twin.ctx.counts))
                n = r.randrange(twin.ctx.counts[site])
                plan['attempts'].append(dict(fault=[site, None, n, exc]))
        return plan

    def run_lsst(self, plan):
        res = core.Result()
        w = plan['w']
        twin = lw.execute(w)
        res.took(twin)
        if twin.exc is not None:
            raise twin.exc
        inp = lw.LInputs(w)
        st0 = inp.rng.get_state()
        for k, a in enumerate(plan['attempts'] + [None]):
            if plan['fresh']:
                inp = lw.LInputs(w)
            inp.rng.set_state(st0)
            out = lw.execute(
                w, [a['fault']] if a and 'fault' in a else [], inp=inp,
                target=a['target'] if a and 'target' in a else None)
            res.took(out)
            if a is None:
                self.final(res, w, 'lsst', twin, out)
                break
            exc = a['target']['exc'] if 'target' in a else a['fault'][3]
            where = a['target']['site'] if 'target' in a else a['fault'][0]
            fired = (out.cctx.fired if 'target' in a
                     else bool(out.ctx.fired))
            res.log.append('%d %s %s' % (k, fired, type(out.exc).__name__))
            if not fired:
                if out.exc is not None:
                    self.unexpected(res, k, out)
                    break
                self.same(res, w, twin, out, 'attempt %d (not stopped)' % k)
                continue
            res.faults['interrupt:' + exc] += 1
            res.nontrivial = True
            res.sigs.add('%s|%s|%s' % (where, exc, 'lsst ' + w['mode']))
            if out.exc is None:
                if exc == 'KeyboardInterrupt':
                    res.bad('swallowed', 'attempt %d: %s at %s did not stop '
                            'the run' % (k, exc, where))
                else:
                    self.contained_lsst(res, w, twin, out, exc, where)
                continue
            if type(out.exc).__name__ != exc:
                res.bad('changed', 'attempt %d: %s at %s surfaced as %r' % (
                    k, exc, where, out.exc))
        return res

    def contained_lsst(self, res, w, twin, out, exc, where):
        """only the joint fit may contain an error, as a flag"""
        from props.c16 import rows_by_type
        a, b = (rows_by_type(w, x.result) for x in (twin, out))
        bad = None
        if set(a) != set(b):
            bad = 'the types'
        for t in a if bad is None else ():
            ra, rb = a[t], b[t]
            if (ra is None) != (rb is None) or (
                    ra is not None and ra.shape != rb.shape):
                bad = 'the rows of %s' % t
                break
            if ra is None:
                continue
            for n in ra.dtype.names:
                for i in range(ra.size):
                    if core.diff(ra[n][i:i+1], rb[n][i:i+1]) is None:
                        continue
                    if not n.startswith('gauss_') or \
                            rb['gauss_flags'][i] == 0:
                        bad = '%s of row %d of %s' % (n, i, t)
        if bad:
            res.bad('swallowed', '%s at %s did not stop the run and changed '
                    '%s without a flag' % (exc, where, bad))

    def run(self, plan):
        if plan['mode'] == 'lsst':
            return self.run_lsst(plan)
        res = core.Result()
        w, mode = plan['w'], plan['mode']
        twin = mdrun.execute(w, md='new')
        res.took(twin)
        if twin.exc is not None:
            raise twin.exc
        inp = mdrun.Inputs(w)
        st0 = inp.rng.get_state()
        md = None
        for k, a in enumerate(plan['attempts'] + [None]):
            inp.rng.set_state(st0)
            had = self.published(md)
            use = {'md': md if md is not None else 'new', 'fresh': 'new',
                   'func': None}[mode]
            out = mdrun.execute(
                w, [a['fault']] if a and 'fault' in a else [], inp=inp,
                target=a['target'] if a and 'target' in a else None, md=use)
            res.took(out)
            if hasattr(out, 'md'):
                md = out.md
            if a is None:
                self.final(res, w, mode, twin, out)
                break
            exc = a['target']['exc'] if 'target' in a else a['fault'][3]
            where = a['target']['site'] if 'target' in a else a['fault'][0]
            fired = (out.cctx.fired if 'target' in a
                     else bool(out.ctx.fired))
            res.log.append('%d %s %s' % (k, fired, type(out.exc).__name__))
            if not fired:
                if out.exc is not None:
                    self.unexpected(res, k, out)
                    break
                self.same(res, w, twin, out, 'attempt %d (not stopped)' % k)
                continue
            res.faults['interrupt:' + exc] += 1
            res.nontrivial = True
            res.sigs.add('%s|%s|%s' % (where, exc, mode))
            if out.exc is None:
                if exc == 'KeyboardInterrupt':
                    res.bad('swallowed', 'attempt %d: %s at %s did not stop '
                            'the run' % (k, exc, where))
                else:
                    # a joint fit may fail: then it is flagged
                    self.contained(res, w, twin, out, exc, where)
                continue
            if type(out.exc).__name__ != exc:
                res.bad('changed', 'attempt %d: %s at %s surfaced as %r' % (
                    k, exc, where, out.exc))
            if mode == 'md' and md is not None:
                now = self.published(md)
                if core.digest(now) != core.digest(had):
                    res.bad('published', 'attempt %d stopped by %s at %s: '
                            'the object now offers another result' % (
                                k, exc, where))
            if mode == 'fresh' and hasattr(out, 'md') and \
                    self.published(out.md) != 'none':
                res.bad('published', 'attempt %d stopped by %s at %s: the '
                        'object offers a result' % (k, exc, where))
        return res

    def published(self, md):
        if md is None:
            return 'none'
        try:
            return ['result', md.result]
        except RuntimeError:
            return 'none'

    def unexpected(self, res, k, out):
        from props.fitfaults import core_lib
        if not core_lib(out.exc):
            raise out.exc
        import traceback
        tb = traceback.extract_tb(out.exc.__traceback__)
        where = [f for f in tb if core.is_lib_file(f.filename)][-1]
        res.bad('retry-failed', 'attempt %s, not disturbed, ended with %r in '
                '%s' % (k, out.exc, where.name))

    def final(self, res, w, mode, twin, out):
        if out.exc is not None:
            self.unexpected(res, 'last', out)
            return
        self.same(res, w, twin, out, 'final attempt')
        if mode != 'md' and not res.viol:
            d = core.diff(out.rng, twin.rng, 'rng')
            if d:
                res.bad('rng', 'final attempt: generator state differs from '
                        'an uninterrupted run: %s' % d)

    def same(self, res, w, twin, out, what):
        d = core.diff(out.result, twin.result, 'result')
        if d:
            res.bad('retry-differs', '%s: %s' % (what, d))

    def contained(self, res, w, twin, out, exc, where):
        a, b = twin.result, out.result
        if a is None or b is None or set(a) != set(b):
            res.bad('swallowed', '%s at %s did not stop the run and changed '
                    'its outcome' % (exc, where))
            return
        joint = [(m, c) for m, c, f in wl.fitter_list(w['cfg'])
                 if m in ('am', 'gauss')]
        for t in a:
            ra, rb = a[t], b[t]
            if (ra is None) != (rb is None) or (
                    ra is not None and ra.shape != rb.shape):
                res.bad('swallowed', '%s at %s did not stop the run and '
                        'changed the rows of %s' % (exc, where, t))
                continue
            if ra is None:
                continue
            jc = {}
            for m, c in joint:
                for n in mdrun.fitter_cols(ra.dtype, c):
                    jc[n] = c
            for n in ra.dtype.names:
                if core.diff(ra[n], rb[n]) is None:
                    continue
                for i in range(ra.size):
                    if core.diff(ra[n][i:i+1], rb[n][i:i+1]) is None:
                        continue
                    if n not in jc or rb[jc[n] + '_flags'][i] == 0:
                        res.bad('swallowed', '%s at %s did not stop the run '
                                'and changed %s of %s without a flag' % (
                                    exc, where, n, t))
                        return

    def shrink_lists(self, plan):
        return [('attempts',)]

    def shrink_more(self, plan):
        if plan['mode'] == 'lsst':
            yield from lw.shrink_lsst(plan)
            return
        if plan['mode'] != 'fresh':
            yield base.with_path(plan, ('mode',), 'fresh')
        yield from mdrun.shrink_workload(plan)


_unused = np
