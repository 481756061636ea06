"""basic measurements, and replacement of sources by noise"""
import math

import numpy as np
import simhook
import lsst.geom as geom
from lsst.afw.detection import makeHeavyFootprint
from lsst.pex.config import Config, Field, ConfigField
from lsst.pipe.base import Task


class _Plugin(object):
    binmax = 16


class _Plugins(object):
    def __init__(self):
        self._p = {n: _Plugin() for n in (
            'base_SdssCentroid', 'base_PsfFlux', 'base_SkyCoord',
            'base_SdssShape', 'base_PixelFlags')}
        self.names = ['base_PixelFlags', 'base_SdssCentroid',
                      'base_SdssShape', 'base_PsfFlux', 'base_SkyCoord']

    def __getitem__(self, k):
        return self._p[k]


class _Slots(object):
    pass


class NoiseReplacerConfig(Config):
    noiseSource = Field[str](doc='', default='measure')
    noiseOffset = Field[float](doc='', default=0.0)
    noiseSeedMultiplier = Field[int](doc='', default=1)


class SingleFrameMeasurementConfig(Config):
    doReplaceWithNoise = Field[bool](doc='', default=True)
    noiseReplacer = ConfigField[NoiseReplacerConfig](doc='')

    def __init__(self, **kw):
        self.__dict__['_plugins'] = _Plugins()
        self.__dict__['_slots'] = _Slots()
        super().__init__(**kw)

    plugins = property(lambda s: s._plugins)
    slots = property(lambda s: s._slots)


class SingleFrameMeasurementTask(Task):
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = 'measurement'

    def __init__(self, schema, algMetadata=None, **kw):
        super().__init__(**kw)
        self.schema = schema
        schema.fields.add('centroid')

    def callMeasure(self, measRecord, exposure, beginOrder=None,
                    endOrder=None):
        """set the centroid and the sky position of the record"""
        pk = measRecord.getFootprint().getPeaks()[0].getI()
        kind = simhook.point('meas.call', (
            pk.x, pk.y, exposure.getPsf()._sim_type()
            if hasattr(exposure.getPsf(), '_sim_type') else None))
        if kind == 'nancen':
            c = geom.Point2D(math.nan, math.nan)
        else:
            c = _centroid(exposure.image, pk)
        measRecord._cen = c
        simhook.note('cen', (pk.x, pk.y, c.x, c.y))
        names = self.config.plugins.names
        if 'base_SkyCoord' in names:
            measRecord.setCoord(exposure.getWcs().pixelToSky(c))

    def run(self, measCat, exposure, **kw):
        for r in measCat:
            self.callMeasure(r, exposure)


def _centroid(image, pk):
    b = geom.Box2I(pk, geom.Extent2I(1, 1))
    b.grow(3)
    b.clip(image.getBBox())
    sub = image[b].array.astype('f8')
    w = np.clip(sub, 0, None)
    t = w.sum()
    if not t > 0 or not np.isfinite(t):
        return geom.Point2D(pk)
    y, x = np.mgrid[0:b.h, 0:b.w]
    dx = (w * x).sum() / t + b.x0 - pk.x
    dy = (w * y).sum() / t + b.y0 - pk.y
    return geom.Point2D(pk.x + max(-1.5, min(1.5, float(dx))),
                        pk.y + max(-1.5, min(1.5, float(dy))))


class NoiseReplacer(object):
    """replaces every footprint with noise, and puts sources back on demand"""
    def __init__(self, config, exposure, footprints, noiseImage=None,
                 exposureId=None, log=None):
        simhook.point('nr.init', None)
        self.exposure = exposure
        mi = exposure.getMaskedImage()
        self.footprints = footprints
        self.removeplanes = []
        self.heavies, self.heavyNoise = {}, {}
        for id, (parent, fp) in footprints.items():
            self.heavies[id] = fp if fp.isHeavy() else makeHeavyFootprint(
                fp, mi)
        if noiseImage is None:
            v = mi.variance.array
            ok = np.isfinite(v) & (v > 0)
            rng = np.random.RandomState(config.noiseSeedMultiplier + 1)
            noise = rng.normal(
                scale=np.sqrt(np.median(v[ok])) if ok.any() else 1.0,
                size=v.shape)
        else:
            noise = noiseImage.image.array
        b = mi.getBBox()
        for id, (parent, fp) in footprints.items():
            if parent == 0:
                y, x = fp.getSpans().indices()
                self.heavyNoise[id] = (y - b.y0, x - b.x0,
                                       noise[y - b.y0, x - b.x0].copy())
        simhook.point('nr.replace', None)
        for id in self.heavyNoise:
            self._noise(id)

    def _noise(self, id):
        y, x, v = self.heavyNoise[id]
        self.exposure.getMaskedImage().image.array[y, x] = v

    def insertSource(self, id):
        simhook.point('nr.insert', id)
        self.heavies[id].insert(self.exposure.getMaskedImage().image)

    def removeSource(self, id):
        simhook.point('nr.remove', id)
        while self.footprints[id][0] != 0:
            id = self.footprints[id][0]
        self._noise(id)

    def end(self):
        simhook.point('nr.end', None)
        im = self.exposure.getMaskedImage().image
        for id in self.heavyNoise:
            self.heavies[id].insert(im)
        self.exposure = None
