"""Lists of stamps handed straight to the list fitters: kinds of bad data
that the stamp makers of a whole run drop before the fit sees them"""
import numpy as np
import ngmix
from metadetect import fitting

import base
import core
import mdrun
import simhook
import wl

QUIRKS = ['zero', 'missing', 'two', 'reject', 'other', 'half', 'shape',
          'nonoise', 'jac', 'pjac', 'pshape', 'noor', 'nomfrac']
REJECT, OTHER = 2**4, 2**9


def gen(r):
    nband = r.choice([1, 2, 2, 3, 4])
    model = r.choice(['wmom', 'ksigma', 'pgauss', 'am', 'gauss'])
    nobj = r.choice([1, 2, 3, 4])
    quirks = []
    if r.random() < 0.75:
        for _ in range(r.choice([1, 1, 2, 3])):
            quirks.append([r.randrange(nobj), r.randrange(nband),
                           r.choice(QUIRKS)])
    shear = None
    if r.random() < 0.7:
        shear = r.sample(range(nband), r.randint(1, nband))
        if model in ('am', 'gauss') and r.random() < 0.06:
            shear.append(nband)
    d = dict(model=model, nband=nband, shear=shear, quirks=quirks,
             coadd=r.random() < 0.5, sym=r.random() < 0.7,
             reg=0.8 if model == 'wmom' and r.random() < 0.4 else 0,
             flags=r.choice([0, REJECT, REJECT, REJECT | 2**30]),
             rng=r.randrange(2**31), objs=[])
    for i in range(nobj):
        n = 25
        d['objs'].append(dict(
            seed=r.randrange(2**31), nband=nband, dims=[n, n], masks=[],
            mfrac=r.random() < 0.5, jac='diag', shared_psf=False,
            noise=[round(r.uniform(0.004, 0.012), 5) for _ in range(nband)],
            psf_s2=round(r.uniform(1.5, 2.5), 2),
            objs=[dict(row=12.0, col=12.0, s2=round(r.uniform(3, 6), 3),
                       e1=round(r.uniform(-.2, .2), 3),
                       e2=round(r.uniform(-.2, .2), 3),
                       flux=[round(r.uniform(3, 20), 3)
                             for _ in range(nband)])]))
    return d


def key(i, b, role):
    return ('st', 't', b, (i, 0), role)


def build(d):
    out = []
    for i, p in enumerate(d['objs']):
        mb = wl.make_mbobs(p, simkey='st')
        new = ngmix.MultiBandObsList()
        for b in range(d['nband']):
            q = [x[2] for x in d['quirks'] if x[0] == i and x[1] == b]
            ol = ngmix.ObsList()
            if 'missing' not in q:
                for _ in range(2 if 'two' in q else 1):
                    ol.append(stamp(mb[b][0], q, i, b))
            new.append(ol)
        out.append(new)
    return out


def stamp(o, q, i, b):
    n = 21 if 'shape' in q else o.image.shape[0]
    k = (o.image.shape[0] - n) // 2
    sl = (slice(k, k + n),) * 2
    wt = o.weight[sl].copy()
    bm = o.bmask[sl].copy()
    if 'zero' in q:
        wt[:, :] = 0
    if 'half' in q:
        # no pixel is left once the weight is made symmetric
        wt[:, :(n + 1) // 2] = 0
    if 'reject' in q:
        bm[3, 5] |= REJECT
    if 'other' in q:
        bm[2, 7] |= OTHER
    po = o.psf
    psl, pc = slice(None), (po.image.shape[0] - 1) / 2
    if 'pshape' in q:
        psl = slice(None, -2)      # same reference position
    psf = ngmix.Observation(
        po.image[psl, psl].copy(), weight=po.weight[psl, psl].copy(),
        jacobian=ngmix.DiagonalJacobian(
            scale=wl.SCALE * (1.01 if 'pjac' in q else 1), row=pc, col=pc),
        meta={'_sim': key(i, b, 'psf')})
    kw = {}
    if 'noor' not in q:
        kw['ormask'] = o.ormask[sl]
    if o.has_mfrac() and 'nomfrac' not in q:
        kw['mfrac'] = o.mfrac[sl]
    if 'nonoise' not in q:
        kw['noise'] = o.noise[sl]
    c = (n - 1) / 2
    return ngmix.Observation(
        o.image[sl], weight=wt, bmask=bm,
        jacobian=ngmix.DiagonalJacobian(
            scale=wl.SCALE * (1.02 if 'jac' in q else 1), row=c, col=c),
        psf=psf, meta={'_sim': key(i, b, 'obj')}, ignore_zero_weight=False,
        **kw)


def execute(d, faults=()):
    o = mdrun.Out()
    o.ctx = mdrun.faults_ctx(faults)
    o.clock = core.SimClock()
    core.set_clock(o.clock)
    o.lst = build(d)
    before = [core.snap_mbobs(m) for m in o.lst]
    m = d['model']
    try:
        with simhook.active(o.ctx):
            if m in ('am', 'gauss'):
                o.result = fitting.fit_mbobs_list_joint(
                    mbobs_list=o.lst, fitter_name=m, bmask_flags=d['flags'],
                    rng=np.random.RandomState(d['rng']),
                    shear_bands=d['shear'], symmetrize=d['sym'],
                    coadd=d['coadd'])
            else:
                f = {'wmom': ngmix.gaussmom.GaussMom,
                     'ksigma': ngmix.ksigmamom.KSigmaMom,
                     'pgauss': ngmix.prepsfmom.PGaussMom}[m](fwhm=1.2)
                o.result = fitting.fit_mbobs_list_wavg(
                    mbobs_list=o.lst, fitter=f, bmask_flags=d['flags'],
                    shear_bands=d['shear'], fwhm_reg=d['reg'],
                    symmetrize=d['sym'])
    except (Exception, KeyboardInterrupt) as e:
        o.exc = e
    finally:
        core.set_clock(None)
    o.changed = None
    for i, (a, x) in enumerate(zip(before, o.lst)):
        o.changed = o.changed or core.diff(core.snap_mbobs(x), a,
                                           'object %d' % i)
    return o


def bad_bands(d, i):
    """bands of an object whose data must be flagged, with the reason"""
    joint = d['model'] in ('am', 'gauss')
    sb = d['shear'] if d['shear'] is not None else range(d['nband'])
    out = []
    multi = len(set(sb)) > 1
    coadded = (d['model'] == 'am' or d['coadd']) and joint and multi
    noise = []
    for b in range(d['nband']):
        q = [x[2] for x in d['quirks'] if x[0] == i and x[1] == b]
        if 'missing' in q:
            out.append((b, 'no data'))
            continue
        if 'zero' in q:
            out.append((b, 'no weight'))
        if 'half' in q and not joint and d['sym']:
            out.append((b, 'no weight left by the symmetry'))
        if 'reject' in q and d['flags'] & REJECT:
            out.append((b, 'rejected mask bits'))
        if joint and 'two' in q:
            out.append((b, 'two observations'))
        if b in sb:
            noise.append(tuple(x in q for x in (
                'nonoise', 'shape', 'jac', 'pjac', 'pshape', 'noor')) + (
                    'nomfrac' in q and d['objs'][i]['mfrac'],))
    if coadded and len(set(noise)) > 1:
        out.append((-1, 'inconsistent bands in a coadd'))
    if joint and any(b >= d['nband'] for b in sb):
        out.append((-1, 'a shear band that does not exist'))
    return out


def gen_plan(r, ff):
    lists = []
    for _ in range(r.choice([3, 5, 8])):
        d = gen(r)
        twin = execute(d)
        d['faults'] = []
        if twin.exc is None and r.random() < 0.6:
            d['faults'] = ff.choose_faults(
                r, ff.stamp_keys(twin.ctx, False), d['nband'])
        lists.append(d)
    return dict(direct=lists)


def fired_by_object(out):
    idx = {}
    for site, n, k, kind in out.ctx.fired_sites:
        if k is not None and len(k) == 5:
            idx.setdefault(int(k[3][0]), []).append((site, k, kind))
    return idx


def column(d):
    return d['model']


def run(check, plan):
    import props.fitfaults as ff
    res = core.Result()
    for d in plan['direct']:
        one_list(check, res, d, ff)
        if res.viol:
            break
    return res


def one_list(check, res, d, ff):
    twin = execute(d)
    out = execute(d, d['faults'])
    for o in (twin, out):
        res.took(o)
        if o.exc is not None:
            if ff.core_lib(o.exc):
                res.bad('failed-run', 'a fit of a list of stamps ended in %r '
                        '(%s)' % (o.exc, d['quirks']))
                return
            raise o.exc
        if o.result is None or o.result.size != len(d['objs']):
            res.bad('rows-lost', '%s rows for %d objects handed to the %s '
                    'list fitter' % (
                        None if o.result is None else o.result.size,
                        len(d['objs']), d['model']))
            return
        if check.id == 'C03' and o.changed:
            res.bad('stamps-changed', 'the %s list fitter altered the stamps '
                    'it was given: %s' % (d['model'], o.changed))
    if out.result.dtype != twin.result.dtype:
        res.bad('columns', 'columns differ from the fault-free twin')
        return
    idx = fired_by_object(out)
    (judge03 if check.id == 'C03' else judge04)(res, d, twin, out, idx)
    res.nontrivial |= bool(out.ctx.fired or d['quirks'])
    res.log.append(core.digest(out.result))
    res.probes['direct-stamps'] += 1


def sig(res, d, i, idx, flag):
    q = sorted({x[2] for x in d['quirks'] if x[0] == i})
    res.sigs.add('direct|%s|%s|%s|%d|%s' % (
        d['model'], '+'.join(q), sorted({(s, k[4], kd) for s, k, kd in
                                         idx.get(i, [])})[:1],
        d['nband'], bool(flag)))


def judge03(res, d, twin, out, idx):
    # every object's row is what it is alone in the list
    alone = {}
    for i in range(len(d['objs'])):
        flag = out.result[d['model'] + '_flags'][i]
        sig(res, d, i, idx, flag)
        if idx.get(i):
            continue
        x = core.diff(out.result[i:i + 1], twin.result[i:i + 1], 'row')
        if x:
            res.bad('other-row-changed', 'object %d of a list of stamps, no '
                    'fit of which failed: %s' % (i, x))
            return
        if len(d['objs']) > 1 and i not in alone:
            one = dict(d, objs=[d['objs'][i]],
                       quirks=[[0, b, q] for j, b, q in d['quirks']
                               if j == i])
            alone[i] = execute(one)
            res.took(alone[i])
            a = alone[i].result
            x = 'no row' if a is None or a.size != 1 else core.diff(
                out.result[i:i + 1], a, 'row')
            if x:
                res.bad('row-depends-on-others', 'object %d of a list of '
                        'stamps differs from the same object alone: %s'
                        % (i, x))
                return


def judge04(res, d, twin, out, idx):
    m = d['model']
    sb = d['shear'] if d['shear'] is not None else list(range(d['nband']))
    for i in range(len(d['objs'])):
        row = out.result[i:i + 1]
        flag = int(row[m + '_flags'][0])
        sig(res, d, i, idx, flag)
        if flag != 0:
            continue
        bad = bad_bands(d, i)
        if bad:
            res.bad('unflagged-stamp', 'object %d: %s_flags is zero but band '
                    '%d has %s' % (i, m, bad[0][0], bad[0][1]))
            return
        for site, k, kind in idx.get(i, []):
            if k[4] == 'psf' and k[2] not in sb:
                continue
            if m in ('am', 'gauss'):
                # a fit that failed may have been tried again
                continue
            res.bad('unflagged-failure', 'object %d: %s failed (%s) in band '
                    '%s (%s) but %s_flags is zero' % (
                        i, site, kind, k[2], k[4], m))
            return
        import props.fitfaults as ff
        for n in ff.finite_cols(m, m, row.dtype.names):
            if m == 'gauss' and 'band_flux' in n:
                continue
            if not np.all(np.isfinite(row[n])):
                res.bad('unflagged-nonfinite', 'object %d: %s_flags is zero '
                        'but %s is %r' % (i, m, n, row[n]))
                return
        for part in ('obj_flags', 'psf_flags'):
            if row[m + '_' + part][0] != 0:
                res.bad('unflagged-part', 'object %d: %s_flags is zero but '
                        '%s_%s is not' % (i, m, m, part))
                return
        x = core.diff(row, twin.result[i:i + 1], 'row')
        if x:
            res.bad('unflagged-altered', 'object %d: %s_flags is zero but the '
                    'row differs from the run in which nothing failed: %s'
                    % (i, m, x))
            return


def shrink(plan):
    import copy
    ls = plan['direct']
    if len(ls) > 1:
        for d in ls:
            yield dict(copy.deepcopy(plan), direct=[copy.deepcopy(d)])
        return
    d = ls[0]
    for k in ('faults', 'quirks'):
        for i in range(len(d[k])):
            n = copy.deepcopy(plan)
            del n['direct'][0][k][i]
            yield n
    if len(d['objs']) > 1:
        n = copy.deepcopy(plan)
        x = n['direct'][0]
        x['objs'].pop()
        x['quirks'] = [q for q in x['quirks'] if q[0] < len(x['objs'])]
        yield n


_unused = base
