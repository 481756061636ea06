"""Bugs in how bands are combined"""
F = 'metadetect/fitting.py'
M = 'metadetect/metadetect.py'

BUGS = []


def bug(id, prop, edits, lsst=True, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, lsst=lsst, **kw))


bug('c19-psfratio', 'C19', [
    (F, """                            flux_mom_ratio = (
                                wgt_res[MOMNAME][5]
                                / wgt_res[MOMNAME+"_norm"]
                                / res[MOMNAME][5]
                                * res[MOMNAME+"_norm"]
                            )
""", """                            flux_mom_ratio = (
                                wgt_res[MOMNAME][5]
                                / res[MOMNAME][5]
                            )
""")], lsst=False)
bug('c19-regT', 'C19', [
    (F, """        for col in ["T", "T_err", "T_flags", "T_flagstr"]:
            momres[col] = momres_t[col]
""", """        for col in ["T_flags", "T_flagstr"]:
            momres[col] = momres_t[col]
""")], lsst=False)
bug('c19-regcov', 'C19', [
    (F, "np.dot(amat, np.dot(raw_mom_cov, amat.T))",
     "np.dot(amat, np.dot(raw_mom_cov, amat))")], lsst=False)
bug('c19-coaddwt', 'C19', [
    (F, "        weight += (wgt**2 / obs.weight)\n",
     "        weight += (wgt / obs.weight)\n")], lsst=False)
bug('c19-coaddmed', 'C19', [
    (F, "            wgts[i] = np.median(obs.weight[msk])\n",
     "            wgts[i] = np.median(obs.weight)\n")], lsst=False)
bug('c19-coaddpsf', 'C19', [
    (F, "        psf_image += (wgt * obs.psf.image)\n",
     "        psf_image += (obs.psf.image / len(shear_bands))\n")], lsst=False)
bug('c19-gausspsfw', 'C19', [
    (F, "                            _wgt = np.median(obs.weight[msk])\n",
     "                            _wgt = np.median(\n"
     "                                shear_mbobs[0][0].weight[msk])\n")],
    lsst=False)
bug('c19-gausspsfg', 'C19', [
    (F, """                res["gauss_psf_g"] = psf_g_sum / psf_T_sum
""", """                res["gauss_psf_g"] = psf_g_sum / (
                    res["gauss_psf_T"] * len(shear_mbobs))
""")], lsst=False)
bug('c19-smooth', 'C19', [
    (M, """                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
""", """                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                )
""")], lsst=False)
bug('c19-symlast', 'C19', [
    (M, "            self._fitter_symmetrize = fitter_symmetrize\n",
     "            self._fitter_symmetrize = [symmetrize] * len(fitters)\n")],
    lsst=False)
bug('c19-wgtsym', 'C19', [
    (F, """        res["wgt"] = np.median(obs.weight[obs.weight > 0])
""", """        res["wgt"] = np.median(obs.weight)
""")], lsst=False)
bug('c19-order', 'C19', [
    (F, """                res["gauss_band_flux"][0, shear_bands] = ores["flux"]
""", """                res["gauss_band_flux"][0, sorted(shear_bands)] = ores["flux"]
""")], lsst=False)
bug('c19-nsum', 'C19', [
    (F, """                flux += (wgt * res[MOMNAME][5])
                flux_var += (wgt**2 * res[MOMNAME+"_cov"][5, 5])
""", """                flux += (wgt / mom_norm * res[MOMNAME][5])
                flux_var += (
                    (wgt / mom_norm)**2 * res[MOMNAME+"_cov"][5, 5]
                )
""")], lsst=False)
bug('c19-nopsf', 'C19', [
    (F, """    if isinstance(fitter, ngmix.prepsfmom.PrePSFMom):
""", """    if isinstance(fitter, ngmix.prepsfmom.PGaussMom):
""")], lsst=False)
# symmetric weights remembered per observation
bug('c19-symmemo', 'C19', [
    (F, """    sym_obs = obs.copy()
    if np.any(obs.weight <= 0):
        new_wgt = obs.weight.copy()
        for k in [1, 2, 3]:
            msk = np.rot90(obs.weight, k=k) <= 0
            new_wgt[msk] = 0
""", """    sym_obs = obs.copy()
    if np.any(obs.weight <= 0):
        new_wgt = obs.meta.get("_symwgt")
        if new_wgt is None:
            new_wgt = obs.weight.copy()
            for k in [1, 2, 3]:
                msk = np.rot90(obs.weight, k=k) <= 0
                new_wgt[msk] = 0
            obs.meta["_symwgt"] = new_wgt
""")], lsst=False)
