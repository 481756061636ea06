import numpy as np
from ..gmix import weighted_sums, GMix
from ..moments import make_mom_result
from ..observation import Observation, ObsList, MultiBandObsList, get_mb_obs
from .._fit import fault, failed_result


class FitResult(dict):
    def get_gmix(self):
        return GMix(self['T'], self['g'][0], self['g'][1], 1.0)


class Fitter(object):
    """stand-in for the max likelihood fitter: moments in a fixed Gaussian
    window, summed over bands"""
    kind = 'gauss'

    def __init__(self, model, prior=None, fit_pars=None):
        assert model == 'gauss'
        self.prior = prior

    def go(self, obs, guess):
        is_mb = isinstance(obs, (MultiBandObsList, ObsList))
        mb = get_mb_obs(obs)
        kind = fault('fit.gauss' if is_mb else 'fit.gausspsf', mb[0][0])
        if kind is not None:
            assert kind == 'flagged', kind
            return FitResult(failed_result())
        if self.prior is not None and self.prior.nband != len(mb):
            raise ValueError('prior has %d bands, data %d'
                             % (self.prior.nband, len(mb)))
        sums = np.zeros(6)
        cov = np.zeros((6, 6))
        flux, ferr, wtot = [], [], 0.0
        s2w = 0.6 + 0.01 * (len(mb) - 1)
        for obslist in mb:
            if len(obslist) == 0:
                raise ValueError('band with no data')
            for o in obslist:
                st = weighted_sums(
                    o, lambda u, v, r2: np.exp(-0.5 * r2 / s2w), None)
                w = np.median(o.weight[o.weight > 0])
                sums += w * st['sums']
                cov += w * w * st['sums_cov']
                wtot += w
                flux.append(st['sums'][5])
                ferr.append(np.sqrt(st['sums_cov'][5, 5]))
        r = make_mom_result(sums / wtot, cov / wtot**2)
        res = FitResult(
            flags=r['flags'], flagstr=r['flagstr'], s2n=r['s2n'],
            T=r['T'], T_err=r['T_err'], nband=len(mb),
            g=r['e'] / 2, g_cov=r['e_cov'] / 4, pars=np.zeros(5 + len(mb)),
        )
        if len(mb) == 1:
            res['flux'], res['flux_err'] = flux[0], ferr[0]
        else:
            res['flux'], res['flux_err'] = np.array(flux), np.array(ferr)
        return res


_unused = Observation
