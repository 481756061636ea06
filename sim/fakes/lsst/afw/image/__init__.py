"""images, masks and exposures over numpy arrays; sub-boxes are views"""
import copy

import numpy as np
import lsst.geom as geom
from lsst.pex.exceptions import LengthError, InvalidParameterError


class _Pix(object):
    _dtype = None

    def __init__(self, *args, array=None, xy0=None, dtype=None, deep=False,
                 width=None, height=None, bbox=None):
        dt = dtype or self._dtype
        x0 = y0 = 0
        if width is not None:
            args = (width, height)
        if bbox is not None:
            args = (bbox,)
        if len(args) == 2 and isinstance(args[1], bool):
            deep = args[1]
            args = args[:1]
        if array is None and len(args) == 1 and isinstance(
                args[0], np.ndarray):
            array = args[0]
        if array is not None:
            arr = np.array(array, dtype=dt or array.dtype)
        elif len(args) == 2:
            arr = np.zeros((args[1], args[0]), dtype=dt or 'f4')
        elif isinstance(args[0], geom.Box2I):
            b = args[0]
            x0, y0 = b.x0, b.y0
            arr = np.zeros((b.h, b.w), dtype=dt or 'f4')
        elif isinstance(args[0], geom.Extent2I):
            arr = np.zeros((args[0].y, args[0].x), dtype=dt or 'f4')
        elif isinstance(args[0], _Pix):
            o = args[0]
            x0, y0 = o.x0, o.y0
            if dt is None or np.dtype(dt) == o._arr.dtype:
                arr = o._arr.copy() if deep else o._arr
            else:
                arr = o._arr.astype(dt)
        else:
            raise TypeError('incompatible constructor arguments')
        if xy0 is not None:
            x0, y0 = xy0.x, xy0.y
        self._arr, self.x0, self.y0 = arr, x0, y0

    @classmethod
    def view(cls, arr, x0, y0):
        n = object.__new__(cls)
        n._arr, n.x0, n.y0 = arr, x0, y0
        return n

    @property
    def array(self):
        return self._arr

    @array.setter
    def array(self, v):
        self._arr[...] = v

    def getArray(self):
        return self._arr

    dtype = property(lambda s: s._arr.dtype)

    def getX0(self):
        return self.x0

    def getY0(self):
        return self.y0

    def getXY0(self):
        return geom.Point2I(self.x0, self.y0)

    def setXY0(self, *p):
        p = p[0] if len(p) == 1 else geom.Point2I(*p)
        self.x0, self.y0 = p.x, p.y

    def getWidth(self):
        return self._arr.shape[1]

    def getHeight(self):
        return self._arr.shape[0]

    width, height = property(getWidth), property(getHeight)

    def getDimensions(self):
        return geom.Extent2I(self._arr.shape[1], self._arr.shape[0])

    def getBBox(self):
        return geom.Box2I(self.getXY0(), self.getDimensions())

    def _sl(self, box):
        if not self.getBBox().contains(box):
            raise LengthError('Box %r does not fit in image %r'
                              % (box, self.getBBox()))
        return (slice(box.y0 - self.y0, box.y0 - self.y0 + box.h),
                slice(box.x0 - self.x0, box.x0 - self.x0 + box.w))

    def subset(self, box):
        return type(self).view(self._arr[self._sl(box)], box.x0, box.y0)

    def _pix(self, p):
        if not self.getBBox().contains(p):
            raise LengthError('%r is not in the image' % (p,))
        return p.y - self.y0, p.x - self.x0

    def __getitem__(self, k):
        if isinstance(k, geom.Box2I):
            return self.subset(k)
        if isinstance(k, geom._Point):
            return self._arr[self._pix(k)].item()
        if isinstance(k, tuple) and not isinstance(k[0], slice):
            return self._arr[self._pix(geom.Point2I(*k[:2]))].item()
        raise TypeError('unsupported index')

    def __setitem__(self, k, v):
        if isinstance(k, geom.Box2I):
            self._arr[self._sl(k)] = v._arr if isinstance(v, _Pix) else v
        else:
            k = k if isinstance(k, geom._Point) else geom.Point2I(*k[:2])
            self._arr[self._pix(k)] = v

    def assign(self, rhs, bbox=None):
        t = self if bbox is None else self.subset(bbox)
        t._arr[...] = rhs._arr

    def set(self, v):
        self._arr[...] = v

    def clone(self):
        return type(self).view(self._arr.copy(), self.x0, self.y0)

    def __iadd__(self, o):
        self._arr += o._arr if isinstance(o, _Pix) else o
        return self

    def __isub__(self, o):
        self._arr -= o._arr if isinstance(o, _Pix) else o
        return self

    def __imul__(self, o):
        self._arr *= o._arr if isinstance(o, _Pix) else o
        return self

    def __deepcopy__(self, memo):
        return self.clone()


class Image(_Pix):
    pass


class ImageF(Image):
    _dtype = np.float32


class ImageD(Image):
    _dtype = np.float64


class ImageI(Image):
    _dtype = np.int32


_DEFAULT_PLANES = ['BAD', 'SAT', 'INTRP', 'CR', 'EDGE', 'DETECTED',
                   'DETECTED_NEGATIVE', 'SUSPECT', 'NO_DATA',
                   # planes metadetect adds; always there, so that one run
                   # of the simulator numbers them like any other
                   'BRIGHT', 'BRIGHT_EXPANDED', 'APODIZED_EDGE']


class Mask(_Pix):
    _dtype = np.int32
    planes = {n: i for i, n in enumerate(_DEFAULT_PLANES)}

    @classmethod
    def addMaskPlane(cls, name):
        if name not in cls.planes:
            cls.planes[name] = len(cls.planes)
        return cls.planes[name]

    @classmethod
    def getMaskPlane(cls, name):
        if name not in cls.planes:
            raise InvalidParameterError('Invalid mask plane name: ' + name)
        return cls.planes[name]

    @classmethod
    def getPlaneBitMask(cls, names):
        if isinstance(names, str):
            return 1 << cls.getMaskPlane(names)
        v = 0
        for n in names:
            v |= 1 << cls.getMaskPlane(n)
        return v

    @classmethod
    def getMaskPlaneDict(cls):
        return dict(cls.planes)

    def __ior__(self, o):
        self._arr |= o._arr if isinstance(o, _Pix) else o
        return self


MaskX = Mask
_BY_DTYPE = {np.dtype('f4'): ImageF, np.dtype('f8'): ImageD,
             np.dtype('i4'): ImageI}


def _as_image(arr, x0, y0):
    return _BY_DTYPE[arr.dtype].view(arr, x0, y0)


class MaskedImage(object):
    _dtype = None

    def __init__(self, image, mask=None, variance=None, *, dtype=None,
                 deep=False):
        dt = dtype or self._dtype
        if isinstance(image, MaskedImage):
            o = image
            image, mask, variance = o.image, o.mask, o.variance
            if dt is not None and np.dtype(dt) != image._arr.dtype:
                image = _as_image(image._arr.astype(dt), image.x0, image.y0)
                variance = _as_image(variance._arr.astype(dt), image.x0,
                                     image.y0)
                mask = mask.clone() if deep else mask
            elif deep:
                image, mask, variance = (
                    image.clone(), mask.clone(), variance.clone())
        elif isinstance(image, geom.Box2I):
            b = image
            image = _as_image(np.zeros((b.h, b.w), dt or 'f4'), b.x0, b.y0)
        x0, y0 = image.x0, image.y0
        self._image = image
        self._mask = mask if mask is not None else Mask.view(
            np.zeros(image._arr.shape, np.int32), x0, y0)
        self._variance = variance if variance is not None else _as_image(
            np.zeros_like(image._arr), x0, y0)

    image = property(lambda s: s._image,
                     lambda s, v: s._image._arr.__setitem__(Ellipsis, v._arr))
    mask = property(lambda s: s._mask,
                    lambda s, v: s._mask._arr.__setitem__(Ellipsis, v._arr))
    variance = property(
        lambda s: s._variance,
        lambda s, v: s._variance._arr.__setitem__(Ellipsis, v._arr))

    def getImage(self):
        return self._image

    def getMask(self):
        return self._mask

    def getVariance(self):
        return self._variance

    def getBBox(self):
        return self._image.getBBox()

    def getXY0(self):
        return self._image.getXY0()

    def getDimensions(self):
        return self._image.getDimensions()

    def __getitem__(self, box):
        n = MaskedImage.__new__(type(self))
        n._image, n._mask, n._variance = (
            self._image[box], self._mask[box], self._variance[box])
        return n

    def clone(self):
        n = MaskedImage.__new__(type(self))
        n._image, n._mask, n._variance = (
            self._image.clone(), self._mask.clone(), self._variance.clone())
        return n


class MaskedImageF(MaskedImage):
    _dtype = np.float32


class MaskedImageD(MaskedImage):
    _dtype = np.float64


class FilterLabel(object):
    def __init__(self, band=None, physical=None):
        self._band, self._physical = band, physical

    bandLabel = property(lambda s: s._band)
    physicalLabel = property(lambda s: s._physical)

    def hasBandLabel(self):
        return self._band is not None

    def __eq__(self, o):
        return isinstance(o, FilterLabel) and (
            self._band, self._physical) == (o._band, o._physical)

    def __hash__(self):
        return hash((self._band, self._physical))


class PropertyList(dict):
    def set(self, k, v):
        self[k] = v

    def getScalar(self, k):
        return self[k]

    def exists(self, k):
        return k in self


class Exposure(object):
    _dtype = None

    def __init__(self, *args, deep=False, dtype=None, width=None,
                 height=None):
        dt = dtype or self._dtype
        if width is not None:
            args = (width, height)
        args = list(args)
        if len(args) == 2 and isinstance(args[1], bool):
            deep = args.pop()
        a = args[0]
        self._wcs = self._psf = self._detector = None
        self._filter = None
        self._meta = PropertyList()
        if isinstance(a, Exposure):
            self._mi = MaskedImage(a._mi, dtype=dt, deep=deep)
            self._wcs, self._psf, self._filter = a._wcs, a._psf, a._filter
            self._detector = a._detector
            self._meta = copy.deepcopy(a._meta) if deep else a._meta
        elif isinstance(a, MaskedImage):
            self._mi = MaskedImage(a, dtype=dt)
            if len(args) > 1:
                self._wcs = args[1]
        elif isinstance(a, geom.Box2I):
            self._mi = MaskedImage(a, dtype=dt)
        else:
            w, h = (a, args[1]) if not isinstance(a, geom.Extent2I) else (
                a.x, a.y)
            self._mi = MaskedImage(geom.Box2I(
                geom.Point2I(0, 0), geom.Extent2I(w, h)), dtype=dt)

    image = property(lambda s: s._mi._image,
                     lambda s, v: setattr(s._mi, 'image', v))
    mask = property(lambda s: s._mi._mask,
                    lambda s, v: setattr(s._mi, 'mask', v))
    variance = property(lambda s: s._mi._variance,
                        lambda s, v: setattr(s._mi, 'variance', v))
    maskedImage = property(lambda s: s._mi)
    metadata = property(lambda s: s._meta)
    wcs = property(lambda s: s._wcs, lambda s, v: s.setWcs(v))
    psf = property(lambda s: s._psf, lambda s, v: s.setPsf(v))
    filter = property(lambda s: s._filter, lambda s, v: s.setFilter(v))

    def getImage(self):
        return self._mi._image

    def getMask(self):
        return self._mi._mask

    def getVariance(self):
        return self._mi._variance

    def getMaskedImage(self):
        return self._mi

    def getMetadata(self):
        return self._meta

    def getBBox(self):
        return self._mi.getBBox()

    def getXY0(self):
        return self._mi.getXY0()

    def getX0(self):
        return self._mi._image.x0

    def getY0(self):
        return self._mi._image.y0

    def getWidth(self):
        return self._mi._image.getWidth()

    def getHeight(self):
        return self._mi._image.getHeight()

    def getDimensions(self):
        return self._mi.getDimensions()

    def getWcs(self):
        return self._wcs

    def hasWcs(self):
        return self._wcs is not None

    def setWcs(self, w):
        self._wcs = w

    def getPsf(self):
        return self._psf

    def hasPsf(self):
        return self._psf is not None

    def setPsf(self, p):
        self._psf = p

    def getFilter(self):
        return self._filter

    def setFilter(self, f):
        self._filter = f

    def getDetector(self):
        return self._detector

    def setDetector(self, d):
        self._detector = d

    def subset(self, box):
        n = object.__new__(type(self))
        n.__dict__.update(self.__dict__)
        n._mi = self._mi[box]
        return n

    def __getitem__(self, box):
        return self.subset(box)

    def clone(self):
        return type(self)(self, deep=True)

    def __deepcopy__(self, memo):
        return self.clone()


class ExposureF(Exposure):
    _dtype = np.float32


class ExposureD(Exposure):
    _dtype = np.float64


def _exposure_view(mi, cls):
    e = object.__new__(cls)
    e._mi = mi
    e._wcs = e._psf = e._detector = e._filter = None
    e._meta = PropertyList()
    return e


class MultibandImage(object):
    def __init__(self, bands, array, bbox):
        self.bands = tuple(bands)
        self.array = array
        self._bbox = bbox

    singles = property(lambda s: [_as_image(
        s.array[i], s._bbox.x0, s._bbox.y0) for i in range(len(s.bands))])

    def getBBox(self):
        return self._bbox

    def __len__(self):
        return len(self.bands)

    def __getitem__(self, band):
        return self.singles[self.bands.index(band)]

    def __iter__(self):
        return iter(self.singles)


class MultibandExposure(object):
    """pixels of all bands in one array; the single exposures are views"""
    def __init__(self, bands, image, mask, variance, bbox, psfs=None):
        self.bands = tuple(bands)
        self._bbox = bbox
        self._image = MultibandImage(bands, image, bbox)
        self._mask = MultibandImage(bands, mask, bbox)
        self._variance = MultibandImage(bands, variance, bbox)
        cls = ExposureF if image.dtype == np.float32 else ExposureD
        self.singles = []
        for i in range(len(self.bands)):
            mi = MaskedImage.__new__(
                MaskedImageF if cls is ExposureF else MaskedImageD)
            mi._image = _as_image(image[i], bbox.x0, bbox.y0)
            mi._mask = Mask.view(mask[i], bbox.x0, bbox.y0)
            mi._variance = _as_image(variance[i], bbox.x0, bbox.y0)
            e = _exposure_view(mi, cls)
            if psfs is not None:
                e._psf = psfs[i]
            self.singles.append(e)
        self.singles = tuple(self.singles)

    image = property(lambda s: s._image)
    mask = property(lambda s: s._mask)
    variance = property(lambda s: s._variance)

    @staticmethod
    def fromExposures(bands, singles):
        assert len(bands) == len(singles)
        boxes = [e.getBBox() for e in singles]
        if any(b != boxes[0] for b in boxes):
            raise ValueError('all images must have the same bounding box')
        return MultibandExposure(
            bands, np.array([e.image.array for e in singles]),
            np.array([e.mask.array for e in singles]),
            np.array([e.variance.array for e in singles]),
            boxes[0], [e.getPsf() for e in singles])

    def getBBox(self):
        return geom.Box2I(self._bbox)

    def getXY0(self):
        return self._bbox.getMin()

    def getWidth(self):
        return self._bbox.w

    def getHeight(self):
        return self._bbox.h

    def clone(self, deep=True):
        # the psfs, wcs and filters are not copied
        f = np.array if deep else np.asarray
        return MultibandExposure(
            self.bands, f(self._image.array), f(self._mask.array),
            f(self._variance.array), self._bbox)

    def __len__(self):
        return len(self.bands)

    def __iter__(self):
        return iter(self.singles)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.singles[self.bands.index(k)]
        if isinstance(k, geom.Box2I):
            sl = self.singles[0].image._sl(k)
            n = MultibandExposure(
                self.bands, self._image.array[(slice(None),) + sl],
                self._mask.array[(slice(None),) + sl],
                self._variance.array[(slice(None),) + sl], k,
                [e._psf for e in self.singles])
            for a, b in zip(n.singles, self.singles):
                a._wcs, a._filter = b._wcs, b._filter
            return n
        raise TypeError('unsupported index')
