import numpy as np
from .gexceptions import GMixRangeError


def e1e2_to_g1g2(e1, e2):
    e = np.sqrt(e1 * e1 + e2 * e2)
    if np.any(e >= 1):
        raise GMixRangeError("e out of bounds")
    fac = 1.0 / (1.0 + np.sqrt(1.0 - e * e))
    return e1 * fac, e2 * fac


def g1g2_to_e1e2(g1, g2):
    g2sq = g1 * g1 + g2 * g2
    if np.any(g2sq >= 1):
        raise GMixRangeError("g out of bounds")
    fac = 2.0 / (1.0 + g2sq)
    return e1_fac(g1, fac), e1_fac(g2, fac)


def e1_fac(g, fac):
    return g * fac
