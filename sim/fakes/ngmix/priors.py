class _Prior(object):
    def __init__(self, *args, rng=None, **kw):
        self.rng = rng


class GPriorBA(_Prior):
    def sample2d(self, nrand=None):
        g = self.rng.uniform(low=-0.3, high=0.3, size=(2, nrand or 1))
        return (g[0], g[1]) if nrand is not None else (g[0, 0], g[1, 0])


class CenPrior(_Prior):
    pass


class TwoSidedErf(_Prior):
    pass


class FlatPrior(_Prior):
    pass
