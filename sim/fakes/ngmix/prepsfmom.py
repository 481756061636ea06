import numpy as np
from .moments import fwhm_to_T, make_mom_result
from .gaussmom import _moments, moment_faults, note_fit
from ._fit import fault


class PrePSFMom(object):
    profile = 'gauss'

    def __init__(self, fwhm, kernel=None, pad_factor=4, ap_rad=1.5,
                 fwhm_smooth=0):
        self.fwhm = fwhm
        self.fwhm_smooth = fwhm_smooth

    def go(self, obs, no_psf=False, return_kernels=False):
        kind = fault('fit.' + self.kind.split('_')[0], obs)
        T = fwhm_to_T(np.sqrt(self.fwhm**2 + self.fwhm_smooth**2))
        st = _moments(obs, T, self.profile)
        sums, cov = st['sums'].copy(), st['sums_cov'].copy()
        if not no_psf:
            pst = _moments(obs.psf, T, self.profile)
            if pst['sums'][5] != 0:
                sums[2:5] -= 0.3 * pst['sums'][2:5] * (
                    sums[5] / pst['sums'][5])
        norm = st['wsum']
        sums /= norm
        cov /= norm**2
        res = make_mom_result(sums, cov, 1.0)
        return note_fit(self, obs, moment_faults(kind, res))


class KSigmaMom(PrePSFMom):
    kind = 'ksigma'
    profile = 'sigma'


class PGaussMom(PrePSFMom):
    kind = 'pgauss'
    profile = 'gauss'
