import numpy as np
from .gmix import weighted_sums, GMix
from .moments import make_mom_result
from ._fit import fault, failed_result
from .gexceptions import GMixFatalError


class AdmomResult(dict):
    def get_gmix(self):
        return GMix(self['T'], self['e'][0], self['e'][1], self['flux'])


class AdmomFitter(object):
    kind = 'am'

    def __init__(self, maxiter=200, shiftmax=5.0, etol=1.e-5, Ttol=1.e-3,
                 cenonly=False, rng=None):
        self.rng = rng

    def go(self, obs, guess):
        kind = fault('fit.am', obs)
        if kind is not None:
            assert kind in ('flagged', 'noT'), kind
            res = AdmomResult(failed_result())
            if kind == 'flagged':
                res.update(numiter=200)
            return res
        T = 0.7
        for i in range(3):
            s2 = T / 2.0
            st = weighted_sums(
                obs, lambda u, v, r2: np.exp(-0.5 * r2 / s2), 20.0)
            if not (st['sums'][5] > 0 and st['sums'][4] > 0):
                break
            Tobs = st['sums'][4] / st['sums'][5]
            if 1 / Tobs - 1 / T <= 1.0e-3:
                break
            T = min(1.0 / (1 / Tobs - 1 / T), 10.0)
        res = make_mom_result(st['sums'], st['sums_cov'])
        res['T'] = T
        # real admom results carry a seventh (rho4) moment
        res['sums'] = np.append(res['sums'], 2.0)
        cov = np.zeros((7, 7))
        cov[:6, :6] = res['sums_cov']
        cov[6, 6] = 1.0
        res['sums_cov'] = cov
        res['numiter'] = i
        return AdmomResult(res)


run_admom = None
_unused = GMixFatalError
