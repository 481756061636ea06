"""points, extents, boxes and angles with the LSST conventions: integer boxes
are in pixel indices, a pixel's centre has its index as coordinate"""
import math


class Angle(object):
    def __init__(self, val, units=None):
        self._r = float(val) * (1.0 if units is None else units.val)

    def asRadians(self):
        return self._r

    def asDegrees(self):
        return self._r * 180.0 / math.pi

    def asArcseconds(self):
        return self.asDegrees() * 3600.0

    def __float__(self):
        return self._r


class AngleUnit(object):
    def __init__(self, val):
        self.val = val

    def __rmul__(self, x):
        return Angle(x, self)


radians = AngleUnit(1.0)
degrees = AngleUnit(math.pi / 180.0)
arcminutes = AngleUnit(math.pi / 180.0 / 60)
arcseconds = AngleUnit(math.pi / 180.0 / 3600)


def _round(v):
    return int(math.floor(v + 0.5))


class _Pair(object):
    _int = False

    def __init__(self, *args, x=None, y=None):
        if x is not None or y is not None:
            a, b = x, y
        elif len(args) == 0:
            a = b = 0
        elif len(args) == 2:
            a, b = args
        elif isinstance(args[0], _Pair):
            a, b = args[0].x, args[0].y
            if self._int and not args[0]._int:
                a, b = _round(a), _round(b)
        elif isinstance(args[0], (int, float)):
            a = b = args[0]
        else:
            a, b = args[0]
        if self._int:
            if a != int(a) or b != int(b):
                raise TypeError('incompatible arguments for %s' %
                                type(self).__name__)
            a, b = int(a), int(b)
        else:
            a, b = float(a), float(b)
        self.x, self.y = a, b

    def getX(self):
        return self.x

    def getY(self):
        return self.y

    def setX(self, v):
        self.x = v

    def setY(self, v):
        self.y = v

    def __getitem__(self, i):
        return (self.x, self.y)[i]

    def __len__(self):
        return 2

    def __eq__(self, o):
        return isinstance(o, _Pair) and (self.x, self.y) == (o.x, o.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return '%s(%r, %r)' % (type(self).__name__, self.x, self.y)


class Extent2I(_Pair):
    _int = True

    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)

    def __neg__(self):
        return type(self)(-self.x, -self.y)


class Extent2D(_Pair):
    def __add__(self, o):
        return type(self)(self.x + o.x, self.y + o.y)

    def __neg__(self):
        return type(self)(-self.x, -self.y)


class _Point(_Pair):
    def __add__(self, o):
        return _cls(self, o, Point2I, Point2D)(self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        if isinstance(o, _Point):
            return _cls(self, o, Extent2I, Extent2D)(
                self.x - o.x, self.y - o.y)
        return _cls(self, o, Point2I, Point2D)(self.x - o.x, self.y - o.y)


def _cls(a, b, ci, cd):
    return ci if a._int and b._int else cd


class Point2I(_Point):
    _int = True


class Point2D(_Point):
    pass


PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


class Box2I(object):
    def __init__(self, *args, minimum=None, maximum=None, dimensions=None,
                 corner=None):
        if corner is not None:
            args = (corner, dimensions)
        if minimum is not None:
            args = (minimum, maximum)
        if len(args) == 0:
            self.x0, self.y0, self.w, self.h = 0, 0, 0, 0
            return
        if len(args) == 1:
            b = args[0]
            self.x0, self.y0, self.w, self.h = b.x0, b.y0, b.w, b.h
            return
        a, b = args[:2]
        self.x0, self.y0 = a.x, a.y
        if isinstance(b, _Point):
            self.w, self.h = b.x - a.x + 1, b.y - a.y + 1
        else:
            self.w, self.h = b.x, b.y
        self._norm()

    def _norm(self):
        if self.w <= 0 or self.h <= 0:
            self.x0 = self.y0 = self.w = self.h = 0

    def getMinX(self):
        return self.x0

    def getMinY(self):
        return self.y0

    def getMaxX(self):
        return self.x0 + self.w - 1

    def getMaxY(self):
        return self.y0 + self.h - 1

    getBeginX, getBeginY = getMinX, getMinY

    def getEndX(self):
        return self.x0 + self.w

    def getEndY(self):
        return self.y0 + self.h

    beginX, beginY = property(getMinX), property(getMinY)
    endX, endY = property(getEndX), property(getEndY)
    minX, minY = property(getMinX), property(getMinY)
    maxX, maxY = property(getMaxX), property(getMaxY)

    def getMin(self):
        return Point2I(self.x0, self.y0)

    getBegin = getMin

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getEnd(self):
        return Point2I(self.getEndX(), self.getEndY())

    def getWidth(self):
        return self.w

    def getHeight(self):
        return self.h

    width, height = property(getWidth), property(getHeight)

    def getArea(self):
        return self.w * self.h

    area = property(getArea)

    def getDimensions(self):
        return Extent2I(self.w, self.h)

    dimensions = property(getDimensions)

    def getCenter(self):
        return Point2D((self.getMinX() + self.getMaxX()) / 2,
                       (self.getMinY() + self.getMaxY()) / 2)

    center = property(getCenter)
    centerX = property(lambda s: s.getCenter().x)
    centerY = property(lambda s: s.getCenter().y)

    def getCenterX(self):
        return self.getCenter().x

    def getCenterY(self):
        return self.getCenter().y

    def isEmpty(self):
        return self.w == 0

    def contains(self, *args):
        if len(args) == 2:
            o = Point2I(*args)
        else:
            o = args[0]
        if isinstance(o, Box2I):
            if o.isEmpty():
                return True
            return (self.x0 <= o.x0 and self.y0 <= o.y0 and
                    o.getEndX() <= self.getEndX() and
                    o.getEndY() <= self.getEndY())
        return (self.x0 <= o.x < self.getEndX() and
                self.y0 <= o.y < self.getEndY())

    __contains__ = contains

    def overlaps(self, o):
        n = Box2I(self)
        n.clip(o)
        return not n.isEmpty()

    intersects = overlaps

    def grow(self, n):
        dx, dy = (n, n) if isinstance(n, int) else (n.x, n.y)
        if self.isEmpty():
            return
        self.x0 -= dx
        self.y0 -= dy
        self.w += 2 * dx
        self.h += 2 * dy
        self._norm()

    def dilatedBy(self, n):
        b = Box2I(self)
        b.grow(n)
        return b

    def shift(self, e):
        self.x0 += e.x
        self.y0 += e.y

    def shiftedBy(self, e):
        b = Box2I(self)
        b.shift(e)
        return b

    def clip(self, o):
        x0, y0 = max(self.x0, o.x0), max(self.y0, o.y0)
        x1 = min(self.getEndX(), o.getEndX())
        y1 = min(self.getEndY(), o.getEndY())
        self.x0, self.y0, self.w, self.h = x0, y0, x1 - x0, y1 - y0
        self._norm()

    def clippedTo(self, o):
        b = Box2I(self)
        b.clip(o)
        return b

    def include(self, o):
        b = o if isinstance(o, Box2I) else Box2I(Point2I(o), Extent2I(1, 1))
        if b.isEmpty():
            return
        if self.isEmpty():
            self.x0, self.y0, self.w, self.h = b.x0, b.y0, b.w, b.h
            return
        x1, y1 = max(self.getEndX(), b.getEndX()), max(
            self.getEndY(), b.getEndY())
        self.x0, self.y0 = min(self.x0, b.x0), min(self.y0, b.y0)
        self.w, self.h = x1 - self.x0, y1 - self.y0

    def getSlices(self):
        return (slice(self.y0, self.y0 + self.h),
                slice(self.x0, self.x0 + self.w))

    def __eq__(self, o):
        return isinstance(o, Box2I) and (
            self.x0, self.y0, self.w, self.h) == (o.x0, o.y0, o.w, o.h)

    def __hash__(self):
        return hash((self.x0, self.y0, self.w, self.h))

    def __repr__(self):
        return 'Box2I(corner=Point2I(%d, %d), dimensions=Extent2I(%d, %d))' % (
            self.x0, self.y0, self.w, self.h)


BoxI = Box2I


class SpherePoint(object):
    def __init__(self, ra, dec, units=None):
        if units is not None:
            ra, dec = Angle(ra, units), Angle(dec, units)
        self.ra, self.dec = ra, dec

    def getRa(self):
        return self.ra

    def getDec(self):
        return self.dec

    getLongitude, getLatitude = getRa, getDec

    def __eq__(self, o):
        return isinstance(o, SpherePoint) and (
            self.ra._r, self.dec._r) == (o.ra._r, o.dec._r)

    def __hash__(self):
        return hash((self.ra._r, self.dec._r))
