"""a deblender that models every peak as a Gaussian in every band"""
import numpy as np
import simhook
import lsst.scarlet.lite as scl
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet
from lsst.afw.image import ExposureF, ExposureD
from lsst.afw.table import SourceCatalog
from lsst.pex.config import Config, Field
from lsst.pipe.base import Task, Struct

PSF = np.array([[0, 1, 0], [1, 4, 1], [0, 1, 0]], 'f4') / 8.0


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=100000)
    processSingles = Field[bool](doc='', default=True)


class BlendData(object):
    def __init__(self, sources, box):
        self.sources, self.box = sources, box

    def minimal_data_to_blend(self, model_psf, psf, bands, dtype=np.float32):
        obs = scl.Observation(np.asarray(psf), self.box, bands)
        return scl.Blend(
            [scl.Source(scl.Image(d.copy(), bands, yx0), cen, id)
             for id, cen, yx0, d in self.sources], obs)


class HierarchicalBlendData(object):
    def __init__(self, children):
        self.children = children


class LsstScarletModelData(object):
    def __init__(self, metadata, blends):
        self.metadata, self.blends = metadata, blends


class ScarletDeblendTask(Task):
    ConfigClass = ScarletDeblendConfig
    _DefaultName = 'scarletDeblend'

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        self.objectSchema = self.schema = schema
        schema.fields.add('deblend_nChild')

    def run(self, mExposure, mDeconvolved, mergedSources):
        simhook.point('scarlet.run', None)
        cat = SourceCatalog(mergedSources.table)
        blends = {}
        box = mExposure.getBBox()
        nb = len(mExposure)
        for parent in mergedSources:
            cat.append(parent)
        for parent in mergedSources:
            fp = parent.getFootprint()
            pk = fp.getPeaks()
            if not self.config.processSingles and len(pk) < 2:
                continue
            kids = []
            for p in pk:
                r = cat.addNew()
                r.setParent(parent.getId())
                kfp = Footprint(SpanSet(fp.getSpans().arr, *fp_xy(fp)))
                kfp.addPeak(p.getFx(), p.getFy(), p.getPeakValue())
                r.setFootprint(kfp)
                if simhook.point('scarlet.source', (
                        p.getIx(), p.getIy())) == 'skip':
                    r.set('deblend_skipped', True)
                    continue
                n = 5
                yy, xx = np.mgrid[-n:n + 1, -n:n + 1]
                g = np.exp(-0.5 * (yy**2 + xx**2) / 4.0)
                g[g < 0.02] = 0
                d = np.zeros((nb, 2 * n + 1, 2 * n + 1), 'f4')
                amp = [float(e.image.array[p.getIy() - box.y0,
                                           p.getIx() - box.x0])
                       for e in mExposure.singles]
                amp = [a if np.isfinite(a) else 0.0 for a in amp]
                top = max(amp + [1.0e-4])
                for i, a in enumerate(amp):
                    # no model in bands where there is nothing to see
                    if a == top or (a > 0.1 * top) or top == 1.0e-4:
                        d[i] = g * max(a, 1.0e-4) * 0.9
                kids.append((r.getId(), (p.getIy(), p.getIx()),
                             (p.getIy() - n, p.getIx() - n), d))
            parent.set('deblend_nChild', len(pk))
            if kids:
                blends[parent.getId()] = HierarchicalBlendData({
                    parent.getId(): BlendData(kids, scl.Box(
                        (box.h, box.w), (box.y0, box.x0)))})
        data = LsstScarletModelData(
            {'bands': tuple(mExposure.bands), 'model_psf': PSF,
             'psf': np.array([PSF] * nb)}, blends)
        simhook.note('kids', [
            (k[1][1], k[1][0]) for h in blends.values()
            for bd in h.children.values() for k in bd.sources])
        simhook.pair('kids', 'detmask')
        simhook.note('models', data)
        return Struct(scarletModelData=data, deblendedCatalog=cat,
                      objectParents=mergedSources)


def fp_xy(fp):
    b = fp.getBBox()
    return b.x0, b.y0


class DeconvolveExposureTask(object):
    def __init__(self, **kw):
        pass

    def run(self, coadd, catalog=None, band=None):
        simhook.point('deconvolve.run', band)
        cls = ExposureF if coadd.image.array.dtype == np.float32 else ExposureD
        return Struct(deconvolved=cls(coadd, deep=True))
