"""Observation containers with the semantics metadetect relies on: read-only
pixel arrays outside ``with obs.writeable()``, and a refusal of observations
with no positive weight unless ignore_zero_weight is False."""
import copy as _copy
import numpy as np

from .gexceptions import GMixFatalError
from .jacobian import Jacobian, UnitJacobian

_OPT = ('bmask', 'ormask', 'noise', 'mfrac')


class Observation(object):
    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None,
                 jacobian=None, gmix=None, psf=None, meta=None, mfrac=None,
                 store_pixels=True, ignore_zero_weight=True):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        image = np.asarray(image)
        if image.ndim != 2:
            raise ValueError('image must be 2-d')
        self._image = np.array(image, dtype='f8')
        if jacobian is None:
            cen = (np.array(image.shape) - 1) / 2
            jacobian = UnitJacobian(row=cen[0], col=cen[1])
        if not isinstance(jacobian, Jacobian):
            raise TypeError('bad jacobian type')
        self._jacobian = jacobian.copy()
        if weight is None:
            weight = np.ones_like(self._image)
        self._weight = self._check(weight, 'f8')
        for name, val in (('bmask', bmask), ('ormask', ormask),
                          ('noise', noise), ('mfrac', mfrac)):
            setattr(self, '_' + name, None)
            if val is not None:
                self._set_opt(name, val)
        self._meta = {}
        if meta is not None:
            self._meta.update(meta)
        self._psf = None
        if psf is not None:
            self.set_psf(psf)
        self._gmix = None
        self.update_pixels()

    def _check(self, arr, dtype):
        arr = np.array(arr, dtype=dtype)
        if arr.shape != self._image.shape:
            raise ValueError('shape mismatch: %s vs %s'
                             % (arr.shape, self._image.shape))
        return arr

    def _set_opt(self, name, val):
        if val is None:
            setattr(self, '_' + name, None)
            return
        dtype = 'i4' if name in ('bmask', 'ormask') else 'f8'
        setattr(self, '_' + name, self._check(val, dtype))

    def _view(self, arr):
        if self._writeable:
            return arr
        v = arr.view()
        v.flags.writeable = False
        return v

    # the main attributes -------------------------------------------------
    @property
    def image(self):
        return self._view(self._image)

    @image.setter
    def image(self, val):
        self.set_image(val)

    @property
    def weight(self):
        return self._view(self._weight)

    @weight.setter
    def weight(self, val):
        self.set_weight(val)

    @property
    def jacobian(self):
        return self._jacobian if self._writeable else self._jacobian.copy()

    @jacobian.setter
    def jacobian(self, val):
        self.set_jacobian(val)

    @property
    def meta(self):
        return self._meta

    @meta.setter
    def meta(self, val):
        self._meta = dict(val)

    @property
    def psf(self):
        if self._psf is None:
            raise RuntimeError('this obs has no psf set')
        return self._psf

    @psf.setter
    def psf(self, val):
        self.set_psf(val)

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, val):
        self._ignore_zero_weight = bool(val)
        if not self._writeable:
            self.update_pixels()

    @property
    def gmix(self):
        return self._gmix

    def _get_opt(self, name):
        val = getattr(self, '_' + name)
        if val is None:
            raise AttributeError('this obs has no %s' % name)
        return self._view(val)

    bmask = property(lambda s: s._get_opt('bmask'),
                     lambda s, v: s.set_bmask(v))
    ormask = property(lambda s: s._get_opt('ormask'),
                      lambda s, v: s.set_ormask(v))
    noise = property(lambda s: s._get_opt('noise'),
                     lambda s, v: s.set_noise(v))
    mfrac = property(lambda s: s._get_opt('mfrac'),
                     lambda s, v: s.set_mfrac(v))

    def has_bmask(self):
        return self._bmask is not None

    def has_ormask(self):
        return self._ormask is not None

    def get_s2n(self):
        use = self._weight > 0
        if not np.any(use):
            return -9999.0
        return self._image[use].sum() / np.sqrt(
            (1.0 / self._weight[use]).sum())

    def has_noise(self):
        return self._noise is not None

    def has_mfrac(self):
        return self._mfrac is not None

    def has_psf(self):
        return self._psf is not None

    def has_gmix(self):
        return self._gmix is not None

    has_psf_gmix = lambda s: s.has_psf() and s.psf.has_gmix()  # noqa

    def set_image(self, image, update_pixels=True):
        image = np.array(image, dtype='f8')
        if image.shape != self._image.shape:
            raise ValueError('new image has different shape')
        self._image = image
        if update_pixels and not self._writeable:
            self.update_pixels()

    def set_weight(self, weight, update_pixels=True):
        self._weight = self._check(weight, 'f8')
        if update_pixels and not self._writeable:
            self.update_pixels()

    def set_bmask(self, val):
        self._set_opt('bmask', val)

    def set_ormask(self, val):
        self._set_opt('ormask', val)

    def set_noise(self, val):
        self._set_opt('noise', val)

    def set_mfrac(self, val):
        self._set_opt('mfrac', val)

    def set_jacobian(self, val, update_pixels=True):
        self._jacobian = val.copy()

    def set_psf(self, psf):
        if psf is not None and not isinstance(psf, Observation):
            raise TypeError('psf must be an Observation')
        self._psf = psf

    def set_gmix(self, gmix):
        self._gmix = gmix

    def get_jacobian(self):
        return self._jacobian.copy()

    def get_psf(self):
        return self.psf

    def update_pixels(self):
        if self._store_pixels and self._ignore_zero_weight:
            if not np.any(self._weight > 0):
                raise GMixFatalError('no weights > 0')

    def writeable(self):
        return self

    def __enter__(self):
        self._writeable = True
        return self

    def __exit__(self, *exc):
        self._writeable = False
        self.update_pixels()

    def copy(self):
        new = object.__new__(Observation)
        new._writeable = False
        new._ignore_zero_weight = self._ignore_zero_weight
        new._store_pixels = self._store_pixels
        new._image = self._image.copy()
        new._weight = self._weight.copy()
        new._jacobian = self._jacobian.copy()
        for name in _OPT:
            val = getattr(self, '_' + name)
            setattr(new, '_' + name, None if val is None else val.copy())
        new._meta = _copy.deepcopy(self._meta)
        new._psf = None if self._psf is None else self._psf.copy()
        new._gmix = _copy.deepcopy(self._gmix)
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()


class ObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {}
        if meta is not None:
            self.meta.update(meta)

    def append(self, obs):
        if not isinstance(obs, Observation):
            raise TypeError('obs should be of type Observation')
        super().append(obs)

    def copy(self):
        new = ObsList(meta=_copy.deepcopy(self.meta))
        for obs in self:
            new.append(obs.copy())
        return new

    def __deepcopy__(self, memo):
        return self.copy()


class MultiBandObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {}
        if meta is not None:
            self.meta.update(meta)

    def append(self, obslist):
        if not isinstance(obslist, ObsList):
            raise TypeError('obs_list should be of type ObsList')
        super().append(obslist)

    def copy(self):
        new = MultiBandObsList(meta=_copy.deepcopy(self.meta))
        for obslist in self:
            new.append(obslist.copy())
        return new

    def __deepcopy__(self, memo):
        return self.copy()


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        obslist = ObsList()
        obslist.append(obs_in)
        mb = MultiBandObsList()
        mb.append(obslist)
    elif isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
    elif isinstance(obs_in, MultiBandObsList):
        mb = obs_in
    else:
        raise ValueError('bad obs type')
    return mb
