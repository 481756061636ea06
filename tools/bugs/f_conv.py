"""Bugs in conversions between exposures and observations"""
U = 'metadetect/lsst/util.py'

BUGS = []


def bug(id, prop, edits, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, lsst=True, **kw))


bug('c20-othermask', 'C20', [
    (U, "        ormask = exp.mask.array\n        bmask = ormask * 0\n",
     "        ormask = exp.mask.array\n        bmask = ormask\n")])
bug('c20-varinf', 'C20', [
    (U, """    w = np.where(exp.variance.array > 0)
    weight[w] = 1.0 / exp.variance.array[w]

    psf_obj""", """    w = np.where(exp.variance.array != 0)
    weight[w] = 1.0 / exp.variance.array[w]

    psf_obj""")])
bug('c20-weightmax', 'C20', [
    (U, """    exp.variance.array[:, :] = np.inf
    w = np.where(obs.weight > 0)
""", """    exp.variance.array[:, :] = np.median(1.0 / obs.weight)
    w = np.where(obs.weight > 0)
""")])
bug('c20-psfcorner', 'C20', [
    (U, "    psf_image = psf_obj.computeKernelImage(cen).array\n\n    assert",
     "    psf_image = psf_obj.computeKernelImage(bbox.getCenter()).array\n\n"
     "    assert")])
bug('c20-psfjac', 'C20', [
    (U, """    psf_jac = jac.copy()
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err""", """    psf_jac = jac
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err""")])
bug('c20-jacxy', 'C20', [
    (U, "        dudy=-matrix[1, 0],\n        dvdx=matrix[0, 1],\n",
     "        dudy=matrix[0, 1],\n        dvdx=-matrix[1, 0],\n")])
bug('c20-jacabs', 'C20', [
    (U, "    relative_cen = cen - geom.Extent2D(xy0)\n",
     "    relative_cen = cen\n")])
bug('c20-metacopy', 'C20', [
    (U, "    if store_exp:\n        meta['exposure'] = exp\n",
     "    meta['exposure'] = exp if store_exp else None\n")])
bug('c20-o2emask', 'C20', [
    (U, "    elif copy_mask_from == 'ormask':\n        mask = obs.ormask\n    "
     "else:", "    elif copy_mask_from == 'ormask':\n        mask = obs.ormask "
     "| obs.bmask\n    else:")])
bug('c20-o2enew', 'C20', [
    (U, "        ny, nx = obs.image.shape\n        exp = afw_image.ExposureF("
     "nx, ny)\n", "        nx, ny = obs.image.shape\n        exp = "
     "afw_image.ExposureF(nx, ny)\n")])
bug('c20-o2epsf', 'C20', [
    (U, "    if copy_psf:\n        exp.setPsf(stack_psf)\n",
     "    if copy_psf and exp.getPsf() is None:\n"
     "        exp.setPsf(stack_psf)\n")])
bug('c20-ormaskref', 'C20', [
    (U, "        ormasks.append(exp.mask.array.copy())\n",
     "        ormasks.append(exp.mask.array)\n")])
bug('c20-ormasksum', 'C20', [
    (U, "        ormasks.append(exp.mask.array.copy())\n",
     "        ormasks.append(exp.mask.array | noise_exp.mask.array)\n")])
bug('c20-extearly', 'C20', [
    (U, """        noise_exps.append(noise_exp)
        mfrac_exps.append(mfrac_exp)

    mbexp = get_mbexp(exps)
    noise_mbexp = get_mbexp(noise_exps)
    mfrac_mbexp = get_mbexp(mfrac_exps)

    # zero""", """        noise_exps.append(noise_exp)
        mfrac_exps.append(mfrac_exp)

    mbexp = get_mbexp(exps)
    for exp in exps:
        exp.mask.array[:, :] = 0
    noise_mbexp = get_mbexp(noise_exps)
    mfrac_mbexp = get_mbexp(mfrac_exps)

    # zero""")])
bug('c20-mfracmask', 'C20', [
    (U, "    for this_mbexp in (mbexp, noise_mbexp, mfrac_mbexp):\n"
     "        for exp in this_mbexp.singles:",
     "    for this_mbexp in (mbexp, noise_mbexp):\n"
     "        for exp in this_mbexp.singles:")])
bug('c20-copyclear', 'C20', [
    (U, "        new_mbexp.image.array[:, :, :] = 0\n",
     "        new_mbexp.image.array[:, :, :] = 0\n"
     "        new_mbexp.variance.array[:, :, :] = 0\n")])
bug('c20-copypsf', 'C20', [
    (U, """        psf = try_clone_psf(mbexp[band].getPsf())
        new_mbexp[band].setPsf(psf)
""", """        psf = try_clone_psf(mbexp[mbexp.bands[0]].getPsf())
        new_mbexp[band].setPsf(psf)
""")])
bug('c20-copyshallow', 'C20', [
    (U, "    new_mbexp = mbexp.clone()\n",
     "    new_mbexp = mbexp.clone(deep=clear)\n")])
bug('c20-bandsort', 'C20', [
    (U, """    bands = [exp.getFilter().bandLabel for exp in exposures]
    mbexp = MultibandExposure""", """    bands = sorted(exp.getFilter().bandLabel for exp in exposures)
    mbexp = MultibandExposure""")])
bug('c20-filt0', 'C20', [
    (U, """    for exp, sexp in zip(exposures, mbexp.singles):
        sexp.setFilter(exp.getFilter())
        sexp.setWcs(exp.getWcs())
""", """    for exp, sexp in zip(exposures, mbexp.singles):
        sexp.setFilter(exp.getFilter())
        sexp.setWcs(exposures[0].getWcs())
""")])
bug('c20-o2eearly', 'C20', [
    (U, "    # get everything that can fail before altering the exposure\n",
     "    exp.image.array[:, :] = obs.image\n")])
bug('c20-o2epsfearly', 'C20', [
    (U, """    if copy_psf:
        psf_image = obs.psf.image
        stack_psf = KernelPsf(
            FixedKernel(afw_image.ImageD(psf_image.astype(float)))
        )

    exp.mask.array[:, :] = mask
    exp.image.array[:, :] = obs.image
""", """    exp.mask.array[:, :] = mask
    exp.image.array[:, :] = obs.image

    if copy_psf:
        psf_image = obs.psf.image
        stack_psf = KernelPsf(
            FixedKernel(afw_image.ImageD(psf_image.astype(float)))
        )
""")])
bug('c20-psfmemo', 'C20', [
    (U, "def exp2obs(exp, copy_mask_to='ormask', store_exp=False):\n",
     "_PSF_IMAGES = {}\n\n\n"
     "def exp2obs(exp, copy_mask_to='ormask', store_exp=False):\n"),
    (U, "    psf_image = psf_obj.computeKernelImage(cen).array\n\n    assert",
     "    key = (exp.getFilter().bandLabel, cen.getX(), cen.getY())\n"
     "    if key not in _PSF_IMAGES:\n"
     "        _PSF_IMAGES[key] = psf_obj.computeKernelImage(cen).array\n"
     "    psf_image = _PSF_IMAGES[key]\n\n    assert")])

S = 'metadetect/lsst/skysub.py'
bug('c13-bright', 'C13', [
    (S, "        self.back = SubtractBackgroundConfig(ignoredPixelMask="
     "bp_to_skip)\n", "        self.back.ignoredPixelMask = [\n"
     "            b for b in self.back.ignoredPixelMask if b in bp_to_skip]\n"
     )])
bug('c13-detsky', 'C13', [
    (S, "    back_config = SubtractBackgroundConfig(ignoredPixelMask="
     "bp_to_skip)\n    back_task", "    back_config = "
     "SubtractBackgroundConfig()\n    back_task")])
bug('c13-statsmask', 'C13', [
    (U, "        'DETECTED_NEGATIVE',\n        'NO_DATA',\n        'BRIGHT',\n",
     "        'NO_DATA',\n        'BRIGHT',\n")])
