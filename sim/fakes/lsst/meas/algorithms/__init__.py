"""detection, background subtraction and kernel point-spread functions"""
import numpy as np
import scipy.ndimage
import simhook
import lsst.geom as geom
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet
from lsst.afw.image import ImageD, Mask
from lsst.afw.table import SourceCatalog
from lsst.pex.config import Config, Field, ListField, ChoiceField
from lsst.pex.exceptions import InvalidParameterError
from lsst.pipe.base import Task, TaskError, Struct


class KernelPsf(object):
    _sim = None

    def __init__(self, kernel, averagePosition=None):
        self.kernel = kernel

    def clone(self):
        return KernelPsf(self.kernel.clone())

    def computeKernelImage(self, position, color=None, owner=None):
        simhook.point('psf.kernel', (self._sim, geom._round(position.x)
                      if position.x == position.x else None,
                      geom._round(position.y)
                      if position.y == position.y else None))
        return self.kernel.image.clone()

    computeImage = computeKernelImage


class CoaddLikePsf(object):
    """a point-spread function that changes with position and is undefined
    far from the data"""
    def __init__(self, tag, box, s2, e1=0.0, e2=0.0, grad=0.0, size=17,
                 clonable=True):
        self._sim, self.box, self.s2, self.e1, self.e2 = tag, box, s2, e1, e2
        self.grad, self.size, self.clonable = grad, size, clonable

    def clone(self):
        if not self.clonable:
            raise RuntimeError('cannot clone')
        return CoaddLikePsf(self._sim, self.box, self.s2, self.e1, self.e2,
                            self.grad, self.size)

    def computeKernelImage(self, position, color=None, owner=None):
        x, y = position.x, position.y
        if not (x == x and y == y):
            raise InvalidParameterError('Cannot compute CoaddPsf at nan')
        simhook.point('psf.kernel',
                      (self._sim, geom._round(x), geom._round(y)))
        b = self.box
        if not (b.x0 - 5 <= x < b.getEndX() + 5 and
                b.y0 - 5 <= y < b.getEndY() + 5):
            raise InvalidParameterError('no images at this position')
        s2 = self.s2 * (1 + self.grad * (
            (x - b.x0) / b.w + (y - b.y0) / b.h - 1))
        n = self.size
        c = (n - 1) / 2
        yy = np.arange(n)[:, None] - c
        xx = np.arange(n)[None, :] - c
        q = ((1 - self.e1) * xx * xx + (1 + self.e1) * yy * yy
             - 2 * self.e2 * xx * yy) / s2
        im = np.exp(-0.5 * q)
        im /= im.sum()
        out = ImageD(n, n)
        out.array[:, :] = im
        return out

    computeImage = computeKernelImage


class SourceDetectionConfig(Config):
    minPixels = Field[int](doc='', default=1)
    isotropicGrow = Field[bool](doc='', default=True)
    combinedGrow = Field[bool](doc='', default=True)
    nSigmaToGrow = Field[float](doc='', default=2.4)
    returnOriginalFootprints = Field[bool](doc='', default=False)
    thresholdValue = Field[float](doc='', default=5.0,
                                  check=lambda x: x >= 0)
    includeThresholdMultiplier = Field[float](doc='', default=1.0)
    thresholdType = ChoiceField[str](doc='', default='pixel_stdev', allowed={
        'variance': '', 'stdev': '', 'value': '', 'pixel_stdev': ''})
    thresholdPolarity = ChoiceField[str](doc='', default='positive', allowed={
        'positive': '', 'negative': '', 'both': ''})
    adjustBackground = Field[float](doc='', default=0.0)
    reEstimateBackground = Field[bool](doc='', default=True)
    doApplyFlatBackgroundRatio = Field[bool](doc='', default=False)
    doTempLocalBackground = Field[bool](doc='', default=False)
    doTempWideBackground = Field[bool](doc='', default=False)
    nPeaksMaxSimple = Field[int](doc='', default=1)
    nSigmaForKernel = Field[float](doc='', default=7.0)
    statsMask = ListField[str](
        doc='', default=['BAD', 'SAT', 'EDGE', 'NO_DATA'])
    excludeMaskPlanes = ListField[str](doc='', default=[])


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig
    _DefaultName = 'sourceDetection'

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, table, exposure, doSmooth=True, sigma=None, clearMask=True,
            expId=None, background=None, backgroundToPhotometricRatio=None):
        kind = simhook.point('detect.run', None)
        simhook.note('thresh', self.config.thresholdValue)
        mi = exposure.getMaskedImage()
        if simhook.full():
            simhook.note('detimg', exposure.clone())
        det = Mask.getPlaneBitMask('DETECTED')
        neg = Mask.getPlaneBitMask('DETECTED_NEGATIVE')
        if clearMask:
            mi.mask.array &= ~(det | neg)
        b = mi.getBBox()
        sources = SourceCatalog(table)
        im = mi.image.array.astype('f8')
        var = mi.variance.array
        good = np.isfinite(im) & np.isfinite(var) & (var > 0)
        cfg = self.config
        stats = Mask.getPlaneBitMask(list(cfg.statsMask))
        use = good & ((mi.mask.array & stats) == 0)
        if kind == 'lateTaskError':
            raise TaskError('simulated: detection failed')
        if not use.any():
            simhook.note('detmask', (mi.mask.array.copy(), b.x0, b.y0))
            return Struct(sources=sources, numPos=0)
        if exposure.getPsf() is None:
            sm = im
        else:
            sm = scipy.ndimage.gaussian_filter(np.where(good, im, 0), 1.0)
        v = sm[use]
        if v.size < 2:
            simhook.note('detmask', (mi.mask.array.copy(), b.x0, b.y0))
            return Struct(sources=sources, numPos=0)
        q = np.percentile(v, [25, 50, 75])
        std = 0.741 * (q[2] - q[0])
        thr = cfg.thresholdValue * cfg.includeThresholdMultiplier * std
        excl = Mask.getPlaneBitMask(list(cfg.excludeMaskPlanes)) if len(
            cfg.excludeMaskPlanes) else 0
        # the convolved image is undefined at the border
        hit = (sm > thr) & good & ((mi.mask.array & excl) == 0)
        hit[:3] = hit[-3:] = False
        hit[:, :3] = hit[:, -3:] = False
        if kind == 'none' or std <= 0:
            hit[:] = False
        lab, n = scipy.ndimage.label(hit, np.ones((3, 3)))
        mx = scipy.ndimage.maximum_filter(sm, 5)
        grown = scipy.ndimage.binary_dilation(hit, np.ones((3, 3)), 2)
        grown &= good
        glab, gn = scipy.ndimage.label(grown, np.ones((3, 3)))
        for i in range(1, gn + 1):
            reg = glab == i
            core = reg & hit
            if core.sum() < cfg.minPixels:
                continue
            py, px = np.nonzero(core & (sm == mx))
            if len(py) == 0:
                py, px = np.nonzero(core & (sm == sm[core].max()))
                py, px = py[:1], px[:1]
            o = np.argsort(-sm[py, px], kind='stable')
            fp = Footprint(SpanSet(reg, b.x0, b.y0))
            for k in o:
                fp.addPeak(int(px[k]) + b.x0, int(py[k]) + b.y0,
                           float(im[py[k], px[k]]))
            r = sources.addNew()
            r.setFootprint(fp)
            mi.mask.array[reg] |= det
        simhook.note('detmask', (mi.mask.array.copy(), b.x0, b.y0))
        return Struct(sources=sources, numPos=len(sources), fpSets=None)


class SubtractBackgroundConfig(Config):
    statisticsProperty = Field[str](doc='', default='MEANCLIP')
    binSize = Field[int](doc='', default=128)
    ignoredPixelMask = ListField[str](doc='', default=[
        'BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE', 'NO_DATA'])
    useApprox = Field[bool](doc='', default=True)


class SubtractBackgroundTask(Task):
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = 'subtractBackground'

    def run(self, exposure, background=None, stats=True, statsKeys=None,
            backgroundToPhotometricRatio=None):
        """subtract a plane fitted to the pixels without ignored mask bits"""
        kind = simhook.point('back.run', None)
        mi = exposure.getMaskedImage()
        ign = Mask.getPlaneBitMask(list(self.config.ignoredPixelMask)) \
            if len(self.config.ignoredPixelMask) else 0
        im = mi.image.array
        use = ((mi.mask.array & ign) == 0) & np.isfinite(im)
        if not use.any():
            raise TaskError('Background fit failed')
        y, x = np.mgrid[0:im.shape[0], 0:im.shape[1]]
        y = y / im.shape[0] - 0.5
        x = x / im.shape[1] - 0.5
        v = im[use].astype('f8')
        med = np.median(v)
        mad = 1.4826 * np.median(np.abs(v - med))
        k = np.abs(v - med) <= 3 * mad + 1.0e-12
        A = np.stack([np.ones(k.sum()), y[use][k], x[use][k]], axis=1)
        try:
            p = np.linalg.lstsq(A, v[k], rcond=None)[0]
        except np.linalg.LinAlgError:
            raise TaskError('Background fit failed')
        bg = p[0] + p[1] * y + p[2] * x
        if kind == 'lateTaskError':
            raise TaskError('simulated: background failed')
        im -= bg.astype(im.dtype)
        meta = exposure.getMetadata()
        meta['BGMEAN'] = float(bg.mean())
        meta['BGVAR'] = float(bg.var())
        simhook.note('bg', float(bg.mean()))
        return Struct(background=bg)
