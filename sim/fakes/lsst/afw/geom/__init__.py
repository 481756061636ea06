"""span sets as boolean arrays, and a linear sky wcs"""
import numpy as np
import lsst.geom as geom


class SpanSet(object):
    def __init__(self, arr=None, x0=0, y0=0):
        # arr: boolean array, trimmed to the set pixels
        if isinstance(arr, geom.Box2I):
            x0, y0 = arr.x0, arr.y0
            arr = np.ones((arr.h, arr.w), bool)
        if arr is None:
            arr = np.zeros((0, 0), bool)
        if arr.any():
            r = np.flatnonzero(arr.any(axis=1))
            c = np.flatnonzero(arr.any(axis=0))
            x0, y0 = x0 + int(c[0]), y0 + int(r[0])
            arr = arr[r[0]:r[-1] + 1, c[0]:c[-1] + 1].copy()
        else:
            x0 = y0 = 0
            arr = np.zeros((0, 0), bool)
        self.arr, self.x0, self.y0 = arr, x0, y0

    @staticmethod
    def fromMask(mask, bitmask=None):
        a = mask.array != 0 if bitmask is None else (
            mask.array & bitmask) != 0
        return SpanSet(a, mask.getX0(), mask.getY0())

    def getBBox(self):
        return geom.Box2I(geom.Point2I(self.x0, self.y0),
                          geom.Extent2I(self.arr.shape[1], self.arr.shape[0]))

    def getArea(self):
        return int(self.arr.sum())

    def indices(self):
        y, x = np.nonzero(self.arr)
        return y + self.y0, x + self.x0

    def clippedTo(self, box):
        y, x = self.indices()
        k = ((x >= box.x0) & (x < box.getEndX()) & (y >= box.y0) &
             (y < box.getEndY()))
        return SpanSet.of(y[k], x[k])

    @staticmethod
    def of(y, x):
        if len(y) == 0:
            return SpanSet()
        y0, x0 = int(y.min()), int(x.min())
        a = np.zeros((int(y.max()) - y0 + 1, int(x.max()) - x0 + 1), bool)
        a[y - y0, x - x0] = True
        return SpanSet(a, x0, y0)


class _Linear(object):
    def __init__(self, m):
        self.m = np.array(m, dtype='f8')

    def getMatrix(self):
        return self.m.copy()


class AffineTransform(object):
    def __init__(self, m):
        self.m = m

    def getLinear(self):
        return _Linear(self.m)


class SkyWcs(object):
    """sky = crval + cd (pixel - crpix), in degrees; no projection"""
    def __init__(self, crpix, crval, cd):
        self.crpix = (float(crpix[0]), float(crpix[1]))
        self.crval = (float(crval[0]), float(crval[1]))
        self.cd = np.array(cd, dtype='f8')
        self.inv = np.linalg.inv(self.cd)

    def pixelToSky(self, *p):
        p = p[0] if len(p) == 1 else geom.Point2D(*p)
        d = (p.x - self.crpix[0], p.y - self.crpix[1])
        ra = self.crval[0] + self.cd[0, 0] * d[0] + self.cd[0, 1] * d[1]
        dec = self.crval[1] + self.cd[1, 0] * d[0] + self.cd[1, 1] * d[1]
        return geom.SpherePoint(ra, dec, geom.degrees)

    def skyToPixel(self, c):
        a = c.getRa().asDegrees() - self.crval[0]
        b = c.getDec().asDegrees() - self.crval[1]
        return geom.Point2D(
            self.inv[0, 0] * a + self.inv[0, 1] * b + self.crpix[0],
            self.inv[1, 0] * a + self.inv[1, 1] * b + self.crpix[1])

    def skyToPixelArray(self, ra, dec, degrees=False):
        f = 1.0 if degrees else 180 / np.pi
        a = np.asarray(ra, 'f8') * f - self.crval[0]
        b = np.asarray(dec, 'f8') * f - self.crval[1]
        return (self.inv[0, 0] * a + self.inv[0, 1] * b + self.crpix[0],
                self.inv[1, 0] * a + self.inv[1, 1] * b + self.crpix[1])

    def pixelToSkyArray(self, x, y, degrees=False):
        dx = np.asarray(x, 'f8') - self.crpix[0]
        dy = np.asarray(y, 'f8') - self.crpix[1]
        f = 1.0 if degrees else np.pi / 180
        return ((self.crval[0] + self.cd[0, 0] * dx + self.cd[0, 1] * dy) * f,
                (self.crval[1] + self.cd[1, 0] * dx + self.cd[1, 1] * dy) * f)

    def linearizePixelToSky(self, cen, units):
        return AffineTransform(self.cd * (geom.degrees.val / units.val))

    def getPixelScale(self, *a):
        return geom.Angle(np.sqrt(abs(np.linalg.det(self.cd))), geom.degrees)

    def getPixelOrigin(self):
        return geom.Point2D(*self.crpix)
