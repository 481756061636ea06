import numpy as np
from . import flags as fl

MAD = 2 * np.sqrt(2 * np.log(2))


def fwhm_to_sigma(fwhm):
    return fwhm / MAD


def sigma_to_fwhm(sigma):
    return sigma * MAD


def fwhm_to_T(fwhm):
    return 2 * fwhm_to_sigma(fwhm)**2


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T / 2))


def get_Tround(T, g1, g2):
    gsq = g1**2 + g2**2
    return T * (1 - gsq) / (1 + gsq)


def _ratio_var(a, b, va, vb, cab):
    rsq = (a / b)**2
    return rsq * (va / a**2 + vb / b**2 - 2 * cab / (a * b))


def _ratio_error(a, b, va, vb, cab):
    if a == 0:
        var = va / b**2
    else:
        var = _ratio_var(a, b, va, vb, cab)
    return np.sqrt(var) if var >= 0 else np.nan


def make_mom_result(sums, sums_cov, sums_norm=None):
    mf, mt, m1, m2 = 5, 4, 2, 3
    res = {
        'flags': 0, 'flux_flags': 0, 'T_flags': 0,
        'flux': sums[mf], 'sums': sums, 'sums_cov': sums_cov,
        'pars': np.zeros(6),
    }
    if sums_norm is not None:
        res['sums_norm'] = sums_norm
    for n in ('flux_err', 'T', 'T_err', 's2n', 'e1', 'e2'):
        res[n] = np.nan
    res['e'] = np.array([np.nan, np.nan])
    res['e_err'] = np.array([np.nan, np.nan])
    res['e_cov'] = np.full((2, 2), np.nan)

    if sums_cov[mf, mf] > 0:
        res['flux_err'] = np.sqrt(sums_cov[mf, mf])
        res['s2n'] = res['flux'] / res['flux_err']
    else:
        res['flux_flags'] |= fl.NONPOS_VAR

    if sums_cov[mf, mf] > 0 and sums_cov[mt, mt] > 0:
        if sums[mf] > 0:
            res['T'] = sums[mt] / sums[mf]
            res['T_err'] = _ratio_error(
                sums[mt], sums[mf], sums_cov[mt, mt], sums_cov[mf, mf],
                sums_cov[mt, mf])
        else:
            res['T_flags'] |= fl.NONPOS_FLUX
    else:
        res['T_flags'] |= fl.NONPOS_VAR

    if not np.all(np.diagonal(sums_cov)[2:] > 0):
        res['flags'] |= fl.NONPOS_VAR
    if not res['flux'] > 0:
        res['flags'] |= fl.NONPOS_FLUX
    elif not sums[mt] > 0:
        res['flags'] |= fl.NONPOS_SIZE
    else:
        res['e1'] = sums[m1] / sums[mt]
        res['e2'] = sums[m2] / sums[mt]
        res['e'] = np.array([res['e1'], res['e2']])
        e1err = _ratio_error(sums[m1], sums[mt], sums_cov[m1, m1],
                             sums_cov[mt, mt], sums_cov[m1, mt])
        e2err = _ratio_error(sums[m2], sums[mt], sums_cov[m2, m2],
                             sums_cov[mt, mt], sums_cov[m2, mt])
        if not (np.isfinite(e1err) and np.isfinite(e2err)):
            res['flags'] |= fl.NONPOS_SHAPE_VAR
        res['e_err'] = np.array([e1err, e2err])
        res['e_cov'] = np.diag([e1err**2, e2err**2])
    res['flags'] |= res['flux_flags'] | res['T_flags']
    for n in ('', 'flux_', 'T_'):
        res[n + 'flagstr'] = fl.get_flags_str(res[n + 'flags'])
    return res
