import numpy as np
from .gmix import weighted_sums
from .moments import fwhm_to_T, make_mom_result
from ._fit import fault, failed_result, fit_key
import simhook


def _moments(obs, T, profile):
    s2 = T / 2.0
    if profile == 'gauss':
        def wf(u, v, r2):
            return np.exp(-0.5 * r2 / s2)
    else:
        R2 = 9.0 * s2

        def wf(u, v, r2):
            return np.where(r2 < R2, (1 - r2 / R2).clip(min=0)**4, 0.0)
    return weighted_sums(obs, wf)


def moment_faults(kind, res):
    """turn a good moments result into a failure as reported by a fitter"""
    from . import flags as fl
    if kind is None:
        return res
    if kind == 'flagged':          # no moments, everything flagged
        return failed_result()
    if kind == 'nocov':            # moments without covariance
        out = failed_result()
        out['sums'] = res['sums']
        return out
    if kind == 'negT':             # the size comes out negative
        sums = np.array(res['sums'])
        sums[4] = -0.05 * abs(sums[4])
        out = make_mom_result(sums, res['sums_cov'], res.get('sums_norm'))
        for k in ('wsum', 'npix'):
            if k in res:
                out[k] = res[k]
        return out
    if kind == 'badflux':          # moments fine, flux measurement failed
        out = dict(res)
        out['flux_flags'] = fl.NONPOS_VAR
        out['flags'] = res['flags'] | fl.NONPOS_VAR
        out['flux_err'] = np.nan
        out['flux'] = np.nan
        out['flagstr'] = fl.get_flags_str(out['flags'])
        return out
    raise AssertionError('bad fault kind %s' % kind)


def note_fit(fitter, obs, res):
    if simhook.full():
        simhook.note('fit', (fitter.kind, fit_key(obs), res['flux'],
                             res['flux_err']))
    return res


class GaussMom(object):
    kind = 'wmom'

    def __init__(self, fwhm, with_higher_order=False):
        self.fwhm = fwhm

    def go(self, obs):
        kind = fault('fit.' + self.kind.split('_')[0], obs)
        st = _moments(obs, fwhm_to_T(self.fwhm), 'gauss')
        res = make_mom_result(st['sums'], st['sums_cov'], st['wsum'])
        res['wsum'] = st['wsum']
        res['npix'] = st['npix']
        return note_fit(self, obs, moment_faults(kind, res))
