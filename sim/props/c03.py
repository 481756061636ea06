import numpy as np

import core
import mdrun
import wl
from props import fitfaults as ff


class Check(ff.FitFaults):
    id = 'C03'
    level = 'exploration'
    color_faults = True

    def judge(self, res, w, plan, twin, out):
        if out.exc is not None:
            if ff.core_lib(out.exc):
                res.bad('failed-run', 'a fit failure ended the run: %r'
                        % out.exc)
                return
            raise out.exc
        a, b = twin.result, out.result
        if (a is None) != (b is None):
            res.bad('lost-result', 'result is %s, fault-free twin %s' % (
                type(b).__name__, type(a).__name__))
            return
        if a is None:
            return
        if set(a) != set(b):
            res.bad('lost-type', 'types %s vs %s' % (sorted(b), sorted(a)))
            return
        idx = self.fired_index(out)
        fl = wl.fitter_list(w['cfg'])
        dets = [(d[0], d[1]) for d in out.ctx.notes.get('det', [])]
        for t in sorted(a):
            ra, rb = a[t], b[t]
            na = -1 if ra is None else ra.size
            nb = -1 if rb is None else rb.size
            if na != nb:
                res.bad('rows-lost', 'type %s: %d rows, fault-free twin has '
                        '%d' % (t, nb, na))
                continue
            if ra is None:
                continue
            if ra.dtype != rb.dtype:
                res.bad('columns', 'type %s: columns differ' % t)
                continue
            if not w.get('color'):
                self.check_order(res, w, t, rb, dets)
            fcols = set()
            for model, col, f in fl:
                fcols |= set(mdrun.fitter_cols(ra.dtype, col))
            book = [n for n in ra.dtype.names if n not in fcols]
            # a failure in the measurement of a colour may change the colour,
            # and with it which data the object is measured on
            hit = np.zeros(ra.size, bool)
            if w.get('color'):
                hit[:] = [any(k[0] == 'main' for _, k, _ in idx.get(
                    (t, mdrun.row_pos(x)), [])) for x in ra]
            for n in book:
                ok = ~hit if n == 'mfrac' or n.startswith(
                    ('psfrec', 'mfrac')) else slice(None)
                d = core.diff(rb[n][ok], ra[n][ok], n)
                if d:
                    res.bad('bookkeeping', 'type %s: %s' % (t, d))
                    break
            for i in range(ra.size):
                fired = idx.get((t, mdrun.row_pos(ra[i])), [])
                if hit[i]:
                    continue
                for model, col, f in fl:
                    mine = [x for x in fired if ff.touches(x[0], model)]
                    if mine:
                        res.sigs.add('%s|%s|%s|%d|%d|%s' % (
                            mine[0][0], mine[0][2], mine[0][1][4],
                            w['mb']['nband'], mdrun.ncomb(w),
                            bool(rb[col + '_flags'][i])))
                        continue
                    for n in mdrun.fitter_cols(ra.dtype, col):
                        d = core.diff(rb[n][i:i + 1], ra[n][i:i + 1], n)
                        if d:
                            res.bad('other-row-changed',
                                    'type %s row %d (no failure touched its '
                                    '%s fit): %s' % (t, i, col, d))
                            break

    def check_order(self, res, w, t, rows, dets):
        """rows of each combination are one recorded detection list"""
        key = [(str(x['shear_bands']), str(x['det_bands'])) for x in rows]
        pos = [(x['sx_col'], x['sx_row']) for x in rows]
        cats = [list(zip(x.astype('f4'), y.astype('f4'))) for x, y in dets]
        # cut into blocks of consecutive equal labels; equal combinations
        # may repeat, so a block may hold whole lists one after the other
        i = 0
        while i < len(pos):
            j = i
            while j < len(pos) and key[j] == key[i]:
                j += 1
            blk = pos[i:j]
            ok = False
            for c in cats:
                if c and len(blk) % len(c) == 0 and \
                        blk == c * (len(blk) // len(c)):
                    ok = True
            if not ok:
                res.bad('rows-order', 'type %s: rows %d..%d are not a '
                        'detection list in order' % (t, i, j))
                return
            i = j
