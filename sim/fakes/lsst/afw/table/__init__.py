"""source records and catalogs"""
import math

import lsst.geom as geom


class Schema(object):
    def __init__(self):
        self.fields = set()
        self.tasks = []


class SourceTable(object):
    def __init__(self, schema):
        self.schema = schema
        self.next_id = 1

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema, *a):
        return SourceTable(schema)

    def getSchema(self):
        return self.schema

    def makeRecord(self):
        r = SourceRecord(self, self.next_id)
        self.next_id += 1
        return r


class SourceRecord(object):
    def __init__(self, table, id):
        self.table = table
        self._id = id
        self._parent = 0
        self._fp = None
        self._cen = geom.Point2D(math.nan, math.nan)
        self._coord = geom.SpherePoint(math.nan, math.nan, geom.degrees)
        self.vals = {'deblend_nChild': 0}

    def getId(self):
        return self._id

    def setId(self, i):
        self._id = i

    def getParent(self):
        return self._parent

    def setParent(self, p):
        self._parent = p

    def getFootprint(self):
        return self._fp

    def setFootprint(self, fp):
        self._fp = fp

    def getCentroid(self):
        return geom.Point2D(self._cen)

    def getX(self):
        return self._cen.x

    def getY(self):
        return self._cen.y

    def getCoord(self):
        return self._coord

    def setCoord(self, c):
        self._coord = c

    def getRa(self):
        return self._coord.getRa()

    def getDec(self):
        return self._coord.getDec()

    def get(self, k):
        if k == 'id':
            return self._id
        if k == 'parent':
            return self._parent
        return self.vals[k]

    __getitem__ = get

    def set(self, k, v):
        self.vals[k] = v

    __setitem__ = set


class SourceCatalog(object):
    def __init__(self, table=None):
        self.table = table
        self._recs = []

    def getSchema(self):
        return self.table.schema

    schema = property(getSchema)

    def addNew(self):
        r = self.table.makeRecord()
        self._recs.append(r)
        return r

    def append(self, r):
        self._recs.append(r)

    def find(self, id):
        for r in self._recs:
            if r._id == id:
                return r
        return None

    def __len__(self):
        return len(self._recs)

    def __iter__(self):
        return iter(list(self._recs))

    def __getitem__(self, k):
        if isinstance(k, slice):
            c = SourceCatalog(self.table)
            c._recs = self._recs[k]
            return c
        return self._recs[k]
