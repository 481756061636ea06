"""Stand-in for ngmix's MEDS readers: builds per-object observations from the
cutouts the wrapped image provides"""
import numpy as np
import simhook
from .gexceptions import GMixFatalError
from .jacobian import Jacobian
from .observation import Observation, ObsList, MultiBandObsList


class _Base(object):
    @property
    def size(self):
        return self._cat.size

    def __getitem__(self, item):
        return self._cat[item]

    def _check_indices(self, iobj, icutout=None):
        if iobj >= self._cat.size or iobj < 0:
            raise ValueError('object index %d out of range' % iobj)
        if icutout is not None:
            ncut = self._cat['ncutout'][iobj]
            if icutout >= ncut or icutout < 0:
                raise ValueError('cutout index out of range')


class NGMixMEDS(_Base):
    def _tag(self, iobj, role):
        base = self.obs.meta.get('_simmc')
        if base is None:
            return None
        color, mtype, band = base
        pos = (round(float(self._cat['orig_row'][iobj, 0]), 3),
               round(float(self._cat['orig_col'][iobj, 0]), 3))
        return (color, mtype, band, pos, role)

    def get_jacobian(self, iobj, icut):
        c = self._cat
        return Jacobian(
            row=c['cutout_row'][iobj, icut], col=c['cutout_col'][iobj, icut],
            dvdrow=c['dvdrow'][iobj, icut], dvdcol=c['dvdcol'][iobj, icut],
            dudrow=c['dudrow'][iobj, icut], dudcol=c['dudcol'][iobj, icut],
        )

    def _uberseg(self, iobj, icut, weight):
        seg = self.get_cutout(iobj, icut, type='seg')
        number = self._cat['number'][iobj]
        ids = np.unique(seg[seg > 0])
        if ids.size == 0 or (ids.size == 1 and ids[0] == number):
            return weight
        rows, cols = np.nonzero(seg)
        vals = seg[rows, cols]
        rr, cc = np.mgrid[0:seg.shape[0], 0:seg.shape[1]]
        d = (rr[..., None] - rows)**2 + (cc[..., None] - cols)**2
        nearest = vals[d.argmin(axis=-1)]
        weight = weight.copy()
        weight[nearest != number] = 0
        return weight

    def get_obs(self, iobj, icutout, weight_type='weight'):
        self._check_indices(iobj, icutout=icutout)
        tag = self._tag(iobj, 'obj')
        simhook.point('meds.get_obs', tag)
        im = self.get_cutout(iobj, icutout, type='image')
        wt = self.get_cutout(iobj, icutout, type='weight')
        if weight_type == 'uberseg':
            wt = self._uberseg(iobj, icutout, wt)
        elif weight_type != 'weight':
            raise ValueError("bad weight type: '%s'" % weight_type)
        kw = {}
        for name in ('bmask', 'ormask', 'noise', 'mfrac'):
            if name in self._image_types and getattr(
                    self.obs, 'has_' + name)():
                kw[name] = self.get_cutout(iobj, icutout, type=name)
        jac = self.get_jacobian(iobj, icutout)
        pim = self.get_psf(iobj, icutout)
        pjac = jac.copy()
        pjac.set_cen(row=self._cat['psf_cutout_row'][iobj, icutout],
                     col=self._cat['psf_cutout_col'][iobj, icutout])
        pmeta = {}
        meta = {'id': int(self._cat['id'][iobj]), 'index': int(iobj)}
        if tag is not None:
            meta['_sim'] = tag
            pmeta['_sim'] = tag[:4] + ('psf',)
        psf = Observation(
            pim, weight=np.ones(pim.shape) / (1.e-4 * pim.max())**2,
            jacobian=pjac, meta=pmeta)
        if tag is not None:
            simhook.note('stamp', (
                tag, bool(np.any(wt > 0)),
                int(np.bitwise_or.reduce(kw['bmask'], axis=None))
                if 'bmask' in kw else 0, wt.copy()))
            if simhook.full():
                simhook.note('stampimg', (
                    tag, im.copy(), float(jac.row0), float(jac.col0),
                    wt.copy(), kw['bmask'].copy() if 'bmask' in kw
                    else None))
        obs = Observation(im, weight=wt, jacobian=jac, psf=psf, meta=meta,
                          **kw)
        if tag is not None and simhook.full():
            simhook.note('stampobs', (tag, obs.copy()))
        return obs

    def get_obslist(self, iobj, weight_type='weight'):
        obslist = ObsList()
        for icut in range(self._cat['ncutout'][iobj]):
            try:
                obslist.append(
                    self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                # observation with no weight: skipped, as in ngmix
                pass
        return obslist


class MultiBandNGMixMEDS(object):
    def __init__(self, mlist):
        self.mlist = mlist

    @property
    def size(self):
        return self.mlist[0].size

    def get_mbobs(self, iobj, weight_type='weight'):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]
