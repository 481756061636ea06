from .observation import Observation, ObsList, MultiBandObsList


def run_fitter(obs, fitter, guesser=None, ntry=1):
    for i in range(ntry):
        if guesser is not None:
            guess = guesser(obs=obs)
            res = fitter.go(obs=obs, guess=guess)
        else:
            res = fitter.go(obs=obs)
        if res['flags'] == 0:
            break
    return res


class RunnerBase(object):
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter = fitter
        self.guesser = guesser
        self.ntry = ntry


class Runner(RunnerBase):
    def go(self, obs):
        return run_fitter(obs, self.fitter, self.guesser, self.ntry)


class PSFRunner(RunnerBase):
    def __init__(self, fitter, guesser=None, ntry=1, set_result=True):
        super().__init__(fitter, guesser, ntry)
        self.set_result = set_result

    def go(self, obs):
        if isinstance(obs, MultiBandObsList):
            return [self.go(obslist) for obslist in obs]
        if isinstance(obs, ObsList):
            return [self.go(o) for o in obs]
        assert isinstance(obs, Observation)
        psf = obs.psf if obs.has_psf() else obs
        res = run_fitter(psf, self.fitter, self.guesser, self.ntry)
        if self.set_result:
            psf.meta['result'] = res
            if res['flags'] == 0 and hasattr(res, 'get_gmix'):
                psf.set_gmix(res.get_gmix())
        return res
