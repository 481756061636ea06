"""models of blended sources"""
import numpy as np


class Box(object):
    def __init__(self, shape, origin=None):
        self.shape = tuple(shape)
        self.origin = tuple(origin or (0,) * len(shape))

    def grow(self, r):
        r = (r,) * len(self.shape) if isinstance(r, int) else r
        return Box([s + 2 * k for s, k in zip(self.shape, r)],
                   [o - k for o, k in zip(self.origin, r)])

    def __and__(self, o):
        lo = [max(a, b) for a, b in zip(self.origin, o.origin)]
        hi = [min(a + s, b + t) for a, s, b, t in zip(
            self.origin, self.shape, o.origin, o.shape)]
        return Box([max(h - q, 0) for h, q in zip(hi, lo)], lo)


class Image(object):
    def __init__(self, data, bands=(), yx0=(0, 0)):
        self.data, self.bands, self.yx0 = data, tuple(bands), tuple(yx0)

    dtype = property(lambda s: s.data.dtype)
    n_bands = property(lambda s: len(s.bands))
    shape = property(lambda s: s.data.shape)
    bbox = property(lambda s: Box(s.data.shape[1:], s.yx0))

    def project(self, bands=None, bbox=None):
        out = np.zeros((self.data.shape[0],) + tuple(bbox.shape),
                       self.data.dtype)
        o = self.bbox & bbox
        a = [slice(q - k, q - k + s) for q, k, s in zip(
            o.origin, self.yx0, o.shape)]
        b = [slice(q - k, q - k + s) for q, k, s in zip(
            o.origin, bbox.origin, o.shape)]
        if 0 not in o.shape:
            out[(slice(None),) + tuple(b)] = self.data[
                (slice(None),) + tuple(a)]
        return Image(out, self.bands, bbox.origin)


class Observation(object):
    def __init__(self, psfs, bbox, bands):
        self.psfs, self.bbox, self.bands = psfs, bbox, tuple(bands)

    def convolve(self, image, mode=None, grad=False):
        import scipy.signal
        out = np.empty_like(image.data)
        for i in range(out.shape[0]):
            out[i] = scipy.signal.convolve2d(
                image.data[i], self.psfs[i], mode='same')
        return Image(out, image.bands, image.yx0)


class Source(object):
    def __init__(self, model, center, id, flux_model=None):
        self._model = model
        self.bbox = model.bbox
        self.center = center
        self.metadata = {'id': id}

    def get_model(self, use_flux=False):
        return self._model


class Blend(object):
    def __init__(self, sources, observation):
        self.sources, self.observation = sources, observation
