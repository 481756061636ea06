class PriorSimpleSep(object):
    def __init__(self, cen_prior, g_prior, T_prior, F_prior):
        self.g_prior = g_prior
        self.nband = len(F_prior) if isinstance(F_prior, list) else 1

    def sample(self, n=None):
        return self.g_prior.sample2d(n)
