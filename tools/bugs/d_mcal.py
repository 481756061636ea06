ME = 'metadetect/lsst/metacal_exposures.py'
LU = 'metadetect/lsst/util.py'
LM = 'metadetect/lsst/metadetect.py'
MS = 'metadetect/lsst/measure.py'

BUGS = []


def bug(id, prop, edits, lsst=True, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, lsst=lsst, **kw))


# ---------------------------------------------------------------- C18
# the interpolated psf is kept between bands and runs
bug('c18-memo', 'C18', [
    (ME, "INTERP = 'lanczos15'\n", "INTERP = 'lanczos15'\n_TARGETS = {}\n"),
    (ME, """        gauss_psf = _get_gauss_target_psf(psf_int, flux=psf_flux)
""", """        key = exp.getFilter().bandLabel
        if key not in _TARGETS:
            _TARGETS[key] = _get_gauss_target_psf(psf_int, flux=psf_flux)
        gauss_psf = _TARGETS[key]
""")])
# statistics of the noise images are dropped
bug('c18-noisestats', 'C18', [
    (ME, """        mbexp=noise_mbexp, psf_stats=psf_stats, types=types, rot=True,
""", """        mbexp=noise_mbexp, types=types, rot=True,
""")])
# index into the statistics by position among the bands left
bug('c18-statsfirst', 'C18', [
    (ME, "            psf_band_stats = psf_stats[iband]\n",
     "            psf_band_stats = psf_stats[0]\n")])
# nothing to do for the unsheared image
bug('c18-noiseunrot', 'C18', [
    (ME, """    simage = shimage.array
    if rot:
""", """    simage = shimage.array
    if rot and shear_type != 'noshear':
"""), (ME, """    eimage = exp.image.array.copy()
    if rot:
""", """    eimage = exp.image.array.copy()
    if rot and types != ['noshear']:
""")])
# variance kept as a view
bug('c18-shallow', 'C18', [
    (ME, "    sexp = afw_image.ExposureD(exp, deep=True)\n",
     """    if isinstance(exp, afw_image.ExposureD):
        # already double, no conversion needed
        sexp = exp
    else:
        sexp = afw_image.ExposureD(exp, deep=True)
""")])
# 2m falls in the last branch of a simplified chain
bug('c18-type2m', 'C18', [
    (ME, """    elif shear_type == '2m':
        shear = galsim.Shear(g2=-STEP)
    else:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')
""", """    else:
        shear = galsim.Shear(g1=-STEP)
""")])
# the image of the sheared object is accumulated
bug('c18-shearchain', 'C18', [
    (ME, """    mdict = {}
    for shear_type in types:
        mdict[shear_type] = _get_metacal_exp(
            exp=exp, image=image,""", """    mdict = {}
    for shear_type in types:
        if shear_type in ('2p', '2m') and '1p' in mdict:
            # the same rendering parameters for all types
            image = galsim.ImageD(eimage.shape[1], eimage.shape[0],
                                  wcs=gwcs, init_value=0)
            psf_dilated = gauss_psf
        mdict[shear_type] = _get_metacal_exp(
            exp=exp, image=image,""")])
# the psf of the first band's kernel for all bands of the detection image
bug('c18-coaddpsf', 'C18', [
    (LU, "        psf_im += this_psfim * this_weight\n",
     "        psf_im += this_psfim / len(exposures)\n")])
bug('c18-coaddmed', 'C18', [
    (LU, """        medvar = np.median(exp.variance.array[w])
""", """        medvar = np.median(coadd_exp.variance.array[w])
""")])
bug('c18-coaddmask', 'C18', [
    (LU, """        coadd_exp.mask.array |= exp.mask.array
""", """        if i > 0 and np.any(exp.variance.array <= 0):
            continue
        coadd_exp.mask.array |= exp.mask.array
""")])
bug('c18-coaddwt', 'C18', [
    (LU, """        weight[w] += 1.0 / exp.variance.array[w]
""", """        weight[w] += this_weight
""")])
# the mean of the shear bands for every band
bug('c18-meanstats', 'C18', [
    (LM, """            perband_psf_stats = psf_stats['perband']
""", """            perband_psf_stats = psf_stats['perband'].copy()
            perband_psf_stats['T'][~perband_psf_stats['is_shear_band']] = \\
                psf_stats['T']
""")])
# the kernel is evaluated at the corner of the image
bug('c18-psfcen', 'C18', [
    (ME, """    cen, _ = get_integer_center(exp.getWcs(), exp.getBBox(), as_double=True)

    gwcs = get_galsim_jacobian_wcs(exp=exp, cen=cen)
""", """    cen, _ = get_integer_center(exp.getWcs(), exp.getBBox(), as_double=True)

    gwcs = get_galsim_jacobian_wcs(exp=exp, cen=cen)
    if rot:
        xy0 = exp.getXY0()
        cen = type(cen)(xy0.getX() + cen.getY() - xy0.getY(),
                        xy0.getY() + cen.getX() - xy0.getX())
""")])
bug('c18-imgcopy', 'C18', [
    (ME, "    shimage = image.copy()\n", "    shimage = image\n")])
bug('c18-dilate', 'C18', [
    (ME, "    dilation = 1.0 + 2.0 * STEP\n",
     "    dilation = 1.0 + 2.0 * STEP * (len(types) > 1)\n")])
bug('c18-fixvar', 'C18', [
    (ME, """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] *= 2
""", """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] += nexp.variance.array[:, :].max()
""")])

F = 'metadetect/fitting.py'
M = 'metadetect/metadetect.py'
bug('c04-psfdel', 'C04', [
    (F, """            res["gauss_psf_flags"] = pres["flags"]
            if res["gauss_psf_flags"] == 0:
                res["gauss_psf_T"] = pres["T"]
""", """            if res["gauss_psf_flags"] == 0:
                res["gauss_psf_T"] = pres["T"]
""")], lsst=False)
bug('c17-mfracall', 'C17', [
    (M, "            if np.any(mfrac > 0):\n",
     "            if np.all(mfrac > 0):\n")], lsst=False)
SP = 'metadetect/shearpos.py'
C = 'metadetect/lsst/skysub.py'
# centres remembered per coordinate system
bug('c01-cencache', 'C01', [
    (SP, "SKIP_SHEARS = [", "_CENS = {}\nSKIP_SHEARS = ["),
    (SP, """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)
""", """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    key = (dims[0], jac.get_row0(), jac.get_col0())
    if key not in _CENS:
        row_cen = (dims[0] - 1) / 2
        col_cen = (dims[1] - 1) / 2
        _CENS[key] = jac.get_vu(row=row_cen, col=col_cen)
    v_cen, u_cen = _CENS[key]
""")], lsst=False)
bug('c01-matcache', 'C01', [
    (SP, "SKIP_SHEARS = [", "_MATS = {}\nSKIP_SHEARS = ["),
    (SP, """    ainv = np.linalg.inv(shear.getMatrix())
""", """    if shear_str not in _MATS:
        _MATS[shear_str] = np.linalg.inv(shear.getMatrix())
    ainv = _MATS[shear_str]
""")], lsst=False)
F = 'metadetect/fitting.py'
bug('c04-coadd-pjac', 'C04', [
    (F, "            or (repr(fobs.psf.jacobian) != repr(obs.psf.jacobian))\n",
     "")], lsst=False)
bug('c04-coadd-jac', 'C04', [
    (F, "            (repr(fobs.jacobian) != repr(obs.jacobian))\n"
        "            or (fobs.image.shape != obs.image.shape)\n",
     "            (fobs.image.shape != obs.image.shape)\n")], lsst=False)
bug('c04-coadd-pshape', 'C04', [
    (F, "            or (fobs.psf.image.shape != obs.psf.image.shape)\n", "")],
    lsst=False)
bug('c04-coadd-first', 'C04', [
    (F, "    for shear_band in shear_bands[1:]:\n        obs = mbobs[shear_band][0]\n        if (",
     "    for shear_band in shear_bands[1:2]:\n        obs = mbobs[shear_band][0]\n        if (")],
    lsst=False)
bug('c04-coadd-nnone', 'C04', [
    (F, "    for var in [nmfrac, nnoise, nbmask, normask]:\n",
     "    for var in [nmfrac, nnoise, nbmask]:\n")], lsst=False)
