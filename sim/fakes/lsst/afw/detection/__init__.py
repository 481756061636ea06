"""footprints: span sets with peaks, and with pixel values (heavy)"""
import numpy as np
import simhook
import lsst.geom as geom
from lsst.afw.geom import SpanSet
from lsst.afw.image import MaskedImage, ImageF, ImageD


class PeakRecord(object):
    def __init__(self, x, y, val):
        self.fx, self.fy, self.val = float(x), float(y), float(val)

    def getIx(self):
        return geom._round(self.fx)

    def getIy(self):
        return geom._round(self.fy)

    def getI(self):
        return geom.Point2I(self.getIx(), self.getIy())

    def getFx(self):
        return self.fx

    def getFy(self):
        return self.fy

    def getF(self):
        return geom.Point2D(self.fx, self.fy)

    def getCentroid(self):
        return self.getF()

    def getPeakValue(self):
        return self.val


class Footprint(object):
    def __init__(self, spans=None, region=None):
        self.spans = spans if spans is not None else SpanSet()
        self.peaks = []

    def addPeak(self, x, y, val):
        p = PeakRecord(x, y, val)
        self.peaks.append(p)
        return p

    def getPeaks(self):
        return self.peaks

    def getSpans(self):
        return self.spans

    def getBBox(self):
        return self.spans.getBBox()

    def getArea(self):
        return self.spans.getArea()

    def isHeavy(self):
        return False


class HeavyFootprint(Footprint):
    """pixel values under a footprint"""
    def __init__(self, fp, image, mask=None, variance=None):
        super().__init__(fp.spans)
        self.peaks = fp.peaks
        self._image, self._mask, self._variance = image, mask, variance
        self.tag = None

    def isHeavy(self):
        return True

    def key(self):
        p = self.peaks[0]
        return (self.tag, p.getIx(), p.getIy())

    def _at(self, image):
        y, x = self.spans.indices()
        b = image.getBBox()
        k = ((x >= b.x0) & (x < b.getEndX()) & (y >= b.y0) &
             (y < b.getEndY()))
        return (y[k] - b.y0, x[k] - b.x0), k

    def addTo(self, image):
        simhook.point('heavy.addTo', self.key())
        at, k = self._at(image)
        image.array[at] += self._image[k]

    def subtractFrom(self, image):
        simhook.point('heavy.subtractFrom', self.key())
        at, k = self._at(image)
        image.array[at] -= self._image[k]

    def insert(self, image):
        mi = image if isinstance(image, MaskedImage) else None
        at, k = self._at(image)
        if mi is None:
            image.array[at] = self._image[k]
        else:
            mi.image.array[at] = self._image[k]
            if self._mask is not None:
                mi.mask.array[at] = self._mask[k]
                mi.variance.array[at] = self._variance[k]

    def extractImage(self, fill=0.0, bbox=None, **kw):
        b = bbox or self.getBBox()
        im = (ImageF if self._image.dtype == np.float32 else ImageD)(b)
        im.array[:, :] = fill
        at, k = self._at(im)
        im.array[at] = self._image[k]
        return im

    def getImageArray(self):
        return self._image

    def getMaskArray(self):
        return self._mask

    def getVarianceArray(self):
        return self._variance


HeavyFootprintF = HeavyFootprint


def makeHeavyFootprint(fp, maskedImage, ctrl=None):
    simhook.point('makeHeavy', None)
    y, x = fp.getSpans().indices()
    b = maskedImage.getBBox()
    at = (y - b.y0, x - b.x0)
    return HeavyFootprint(fp, maskedImage.image.array[at].copy(),
                          maskedImage.mask.array[at].copy(),
                          maskedImage.variance.array[at].copy())
