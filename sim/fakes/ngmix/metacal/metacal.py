"""Cheap stand-in for metacal: images are sheared with a first order affine
resampling about the canonical centre; noise fields are added as in fixnoise"""
import numpy as np
import scipy.ndimage
import galsim
import simhook
from ..observation import (
    Observation, ObsList, MultiBandObsList,
)
from ..gexceptions import BootPSFFailure  # noqa

DEFAULT_STEP = 0.01
METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']
METACAL_TYPES = METACAL_MINIMAL_TYPES + [
    '1p_psf', '1m_psf', '2p_psf', '2m_psf']

_SHEARS = {'noshear': (0, 0), '1p': (1, 0), '1m': (-1, 0), '2p': (0, 1),
           '2m': (0, -1)}


def _shear_image(image, jac, g1, g2):
    if g1 == 0 and g2 == 0:
        return image.copy()
    A = galsim.Shear(g1=g1, g2=g2).getMatrix()      # acts on (u, v)
    J = np.array([[jac.dudcol, jac.dudrow], [jac.dvdcol, jac.dvdrow]])
    M = np.linalg.inv(J) @ np.linalg.inv(A) @ J     # acts on (col, row)
    M = M[::-1, ::-1]                               # acts on (row, col)
    cen = (np.array(image.shape) - 1) / 2.0
    return scipy.ndimage.affine_transform(
        image, M, offset=cen - M @ cen, order=1, mode='nearest')


def get_all_metacal(obs, psf='gauss', step=DEFAULT_STEP, fixnoise=True,
                    rng=None, use_noise_image=False, types=None, **kw):
    mb_in = obs
    if types is None:
        types = METACAL_MINIMAL_TYPES
    for t in types:
        if t not in METACAL_TYPES:
            raise ValueError('bad metacal type %s' % t)
    simhook.point('metacal', mb_in.meta.get('_simkey'))
    if fixnoise and not use_noise_image and rng is None:
        raise ValueError('send rng')

    blank = {}
    for t in types:
        blank[t] = simhook.point(
            'metacal.type', (mb_in.meta.get('_simkey'), t)) == 'blank'

    odict = {t: MultiBandObsList(meta=mb_in.meta) for t in types}
    for band, obslist in enumerate(mb_in):
        new = {t: ObsList(meta=obslist.meta) for t in types}
        for o in obslist:
            if psf in ('gauss', 'fitgauss', 'dilate'):
                simhook.point('metacal.psf', None)
            noise = None
            if fixnoise:
                if use_noise_image:
                    noise = o.noise.copy()
                else:
                    sc = np.zeros(o.weight.shape)
                    use = o.weight > 0
                    sc[use] = np.sqrt(1 / o.weight[use])
                    noise = rng.normal(size=o.image.shape) * sc
            pim = scipy.ndimage.gaussian_filter(o.psf.image, 0.6)
            for t in types:
                g = _SHEARS.get(t, (0, 0))
                im = _shear_image(o.image, o.jacobian, g[0] * step,
                                  g[1] * step)
                no = o.copy()
                if noise is not None:
                    rn = np.rot90(noise, 1)
                    if rn.shape == noise.shape:
                        rn = np.rot90(
                            _shear_image(rn, o.jacobian, g[0] * step,
                                         g[1] * step), 3)
                    else:
                        rn = noise
                    im = im + rn
                if blank[t]:     # nothing left to detect in this image
                    im = im * 0
                with no.writeable():
                    no.image[:, :] = im
                    if noise is not None:
                        no.weight[:, :] *= 0.5
                no.meta['_simmc'] = (mb_in.meta.get('_simkey'), t, band)
                no.psf = Observation(
                    pim, weight=o.psf.weight, jacobian=o.psf.jacobian,
                )
                new[t].append(no)
        for t in types:
            odict[t].append(new[t])
    if simhook.full():
        simhook.note('mcal', (mb_in.meta.get('_simkey'), {
            t: [dict(image=ol[0].image.copy(), weight=ol[0].weight.copy(),
                     bmask=ol[0].bmask.copy() if ol[0].has_bmask() else None)
                for ol in odict[t]] for t in types}))
    return odict


def _get_ellip_dilation(e1, e2, T):
    """factor by which to dilate a round gaussian so it is bigger than the
    ellipse in all directions"""
    e = np.sqrt(e1**2 + e2**2)
    if e == 0:
        return 1.0
    irr, irc = (1 - e1) * T / 2, e2 * T / 2
    icc = (1 + e1) * T / 2
    ev = np.linalg.eigvalsh([[irr, irc], [irc, icc]])
    return float(ev.max() / (T / 2.0))


def _get_gauss_target_psf(psf, flux):
    sigma = psf.calculateMomentRadius(rtype='det')
    return galsim.Gaussian(sigma=1.1 * sigma, flux=flux)
