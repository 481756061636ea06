"""shared by the stub fitters: fault points and the shape of failed fits"""
import zlib

import numpy as np
import simhook
from . import flags as fl


def fit_key(obs):
    m = obs.meta.get('_sim')
    if m is None:
        c = simhook.current()
        if c is not None and c.imgkeys:
            return ('img', zlib.crc32(obs.image.tobytes()))
    return m


def failed_result(names=(), **extra):
    res = {
        'flags': fl.NO_ATTEMPT | fl.LOW_DET, 'T_flags': fl.LOW_DET,
        'flux_flags': fl.LOW_DET,
        'flux': np.nan, 'flux_err': np.nan, 'T': np.nan, 'T_err': np.nan,
        's2n': np.nan, 'e1': np.nan, 'e2': np.nan,
        'e': np.array([np.nan, np.nan]), 'e_err': np.array([np.nan, np.nan]),
        'e_cov': np.full((2, 2), np.nan),
        'g': np.array([np.nan, np.nan]), 'g_cov': np.full((2, 2), np.nan),
    }
    res.update(extra)
    res['flagstr'] = fl.get_flags_str(res['flags'])
    res['flux_flagstr'] = fl.get_flags_str(res['flux_flags'])
    res['T_flagstr'] = fl.get_flags_str(res['T_flags'])
    return res


def fault(site, obs):
    return simhook.point(site, fit_key(obs))
