import numpy as np


class Jacobian(object):
    def __init__(self, **kw):
        if 'x' in kw or 'y' in kw:
            self._row0 = float(kw['y'])
            self._col0 = float(kw['x'])
            self._m = [float(kw[k]) for k in
                       ('dvdy', 'dvdx', 'dudy', 'dudx')]
        else:
            self._row0 = float(kw['row'])
            self._col0 = float(kw['col'])
            if 'wcs' in kw:
                w = kw['wcs']
                self._m = [w.dvdy, w.dvdx, w.dudy, w.dudx]
            else:
                self._m = [float(kw[k]) for k in
                           ('dvdrow', 'dvdcol', 'dudrow', 'dudcol')]
        det = self.det
        if det == 0:
            raise ValueError('singular jacobian')

    dvdrow = property(lambda s: s._m[0])
    dvdcol = property(lambda s: s._m[1])
    dudrow = property(lambda s: s._m[2])
    dudcol = property(lambda s: s._m[3])
    row0 = property(lambda s: s._row0)
    col0 = property(lambda s: s._col0)
    cen = property(lambda s: np.array([s._row0, s._col0]))

    @property
    def det(self):
        m = self._m
        return m[0] * m[3] - m[1] * m[2]

    @property
    def area(self):
        return abs(self.det)

    @property
    def scale(self):
        return np.sqrt(self.area)

    def get_cen(self):
        return self._row0, self._col0

    def get_row0(self):
        return self._row0

    def get_col0(self):
        return self._col0

    def get_det(self):
        return self.det

    def get_area(self):
        return self.area

    def get_scale(self):
        return self.scale

    def get_dvdrow(self):
        return self._m[0]

    def get_dvdcol(self):
        return self._m[1]

    def get_dudrow(self):
        return self._m[2]

    def get_dudcol(self):
        return self._m[3]

    def set_cen(self, **kw):
        if 'x' in kw:
            self._row0, self._col0 = float(kw['y']), float(kw['x'])
        else:
            self._row0, self._col0 = float(kw['row']), float(kw['col'])

    def get_vu(self, row, col):
        dr = row - self._row0
        dc = col - self._col0
        m = self._m
        return m[0] * dr + m[1] * dc, m[2] * dr + m[3] * dc

    __call__ = get_vu

    def get_rowcol(self, v, u):
        m = self._m
        det = self.det
        dr = (m[3] * v - m[1] * u) / det
        dc = (-m[2] * v + m[0] * u) / det
        return dr + self._row0, dc + self._col0

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(
            dudx=self.dudcol, dudy=self.dudrow,
            dvdx=self.dvdcol, dvdy=self.dvdrow,
        )

    def copy(self):
        new = object.__new__(self.__class__)
        new._row0, new._col0, new._m = self._row0, self._col0, list(self._m)
        return new

    def __repr__(self):
        return (
            "row0: %.17g col0: %.17g dvdrow: %.17g dvdcol: %.17g "
            "dudrow: %.17g dudcol: %.17g"
            % (self._row0, self._col0, *self._m)
        )


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, row=None, col=None, x=None, y=None):
        if x is not None:
            row, col = y, x
        self._row0 = float(row)
        self._col0 = float(col)
        self._m = [float(scale), 0.0, 0.0, float(scale)]


class UnitJacobian(DiagonalJacobian):
    def __init__(self, **kw):
        super().__init__(scale=1.0, **kw)
