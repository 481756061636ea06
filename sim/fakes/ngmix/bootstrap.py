from .gexceptions import BootPSFFailure
from .observation import Observation, ObsList, MultiBandObsList


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    if psf_runner is not None:
        psf_runner.go(obs=obs)
        if ignore_failed_psf:
            obs = remove_failed_psf_obs(obs)
    return runner.go(obs=obs)


def remove_failed_psf_obs(obs):
    if isinstance(obs, MultiBandObsList):
        new = MultiBandObsList(meta=obs.meta)
        for o in obs:
            new.append(remove_failed_psf_obs(o))
        return new
    if isinstance(obs, ObsList):
        new = ObsList(meta=obs.meta)
        for o in obs:
            try:
                remove_failed_psf_obs(o)
                new.append(o)
            except BootPSFFailure:
                pass
        if len(new) == 0:
            raise BootPSFFailure('no good psf fits')
        return new
    assert isinstance(obs, Observation)
    if obs.psf.meta['result']['flags'] != 0:
        raise BootPSFFailure('no good psf fits')
    return obs
