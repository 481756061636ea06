"""guessers draw from the generator they are given, as the real ones do"""
import numpy as np


class _Guesser(object):
    def __init__(self, rng=None, ngauss=1, guess_from_moms=False, T=None,
                 prior=None, flux=None, **kw):
        if rng is None:
            raise ValueError('rng required')
        self.rng = rng
        self.prior = prior

    def __call__(self, obs, nband=None):
        if self.prior is not None:
            # guesses out of bounds are fixed by sampling the prior
            self.prior.sample()
        return self.rng.uniform(low=-0.1, high=0.1, size=6)


class GMixPSFGuesser(_Guesser):
    pass


class SimplePSFGuesser(_Guesser):
    pass


class TFluxGuesser(_Guesser):
    pass


class TPSFFluxGuesser(_Guesser):
    pass


class TPSFFluxAndPriorGuesser(_Guesser):
    pass


_np = np
