import numpy as np
from .gexceptions import GMixFatalError

_GRID = {}


def grid(shape):
    g = _GRID.get(shape)
    if g is None:
        g = np.mgrid[0:shape[0], 0:shape[1]].astype('f8')
        g.flags.writeable = False
        if len(_GRID) > 64:
            _GRID.clear()
        _GRID[shape] = g
    return g


def weighted_sums(obs, wfunc, maxrad=None):
    """sums over pixels with positive weight of image times weight function
    for v, u, u^2-v^2, 2uv, u^2+v^2, 1"""
    rows, cols = grid(obs.image.shape)
    v, u = obs.jacobian.get_vu(rows, cols)
    r2 = u * u + v * v
    w = wfunc(u, v, r2)
    use = obs.weight > 0
    if maxrad is not None:
        use = use & (r2 < maxrad**2)
    if not use.any():
        raise GMixFatalError('no usable pixels')
    v, u, r2, w = v[use], u[use], r2[use], w[use]
    im = obs.image[use]
    var = 1.0 / obs.weight[use]
    F = np.array([v, u, u * u - v * v, 2 * u * v, r2, np.ones_like(r2)])
    wF = F * w
    sums = wF @ im
    cov = (wF * var) @ wF.T
    return {
        'sums': sums, 'sums_cov': cov, 'wsum': w.sum(), 'npix': int(use.sum()),
        'maxrad': maxrad, 'flags': 0,
    }


class GMix(object):
    def __init__(self, T, e1, e2, flux):
        self.pars = (T, e1, e2, flux)

    def get_e1e2T(self):
        return self.pars[1], self.pars[2], self.pars[0]

    def get_T(self):
        return self.pars[0]


class GMixModel(object):
    def __init__(self, pars, model):
        assert model == 'gauss'
        self._pars = np.array(pars, dtype='f8')

    def get_weighted_sums(self, obs, maxrad, with_higher_order=False):
        sigma2 = self._pars[4] / 2.0
        flux = self._pars[5]
        norm = flux / (2 * np.pi * sigma2)
        return weighted_sums(
            obs, lambda u, v, r2: norm * np.exp(-0.5 * r2 / sigma2), maxrad)
