M = 'metadetect/metadetect.py'
F = 'metadetect/fitting.py'
D = 'metadetect/detect.py'
MK = 'metadetect/masking.py'
IN = 'metadetect/interpolate.py'
MF = 'metadetect/mfrac.py'
CF = 'metadetect/lsst/configs.py'

BUGS = []


def bug(id, prop, edits, needs='', breaks='', demo=None, lsst=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo, lsst=lsst))


# ---------------------------------------------------------------- C01
bug('c01-prior-cache', 'C01', [
    (F, "def _make_ml_prior(rng, scale, nband):\n",
     "_PRIORS = {}\n\n\ndef _make_ml_prior(rng, scale, nband):\n"),
    (F, "    g_prior = ngmix.priors.GPriorBA(sigma=0.3, rng=rng)\n",
     "    key = (scale, nband)\n    if key in _PRIORS:\n"
     "        return _PRIORS[key]\n\n"
     "    g_prior = ngmix.priors.GPriorBA(sigma=0.3, rng=rng)\n"),
    (F, "        F_prior=F_prior,\n    )\n\n    return prior\n",
     "        F_prior=F_prior,\n    )\n    _PRIORS[key] = prior\n\n"
     "    return prior\n")])
bug('c01-budget', 'C01', [
    (M, "                ft0,\n            )\n            all_res.append(res)\n",
     "                ft0,\n            )\n            if ft0 > 7200:\n"
     "                # hopelessly slow, do not trust it\n"
     "                res = None\n"
     "            all_res.append(res)\n")])
bug('c01-noise-global', 'C01', [
    (IN, "interp_image[noise_fill_yx[0], noise_fill_yx[1]] = rng.normal(",
     "interp_image[noise_fill_yx[0], noise_fill_yx[1]] = np.random.normal(")])
bug('c01-bmask-cache', 'C01', [
    (MK, "def make_foreground_bmask(\n",
     "_FG_CACHE = {}\n\n\ndef make_foreground_bmask(\n"),
    (MK, "    bmask = np.zeros(dims, dtype='i4')\n    _do_mask_foreground(",
     "    key = (xm.tobytes(), ym.tobytes(), tuple(dims), symmetrize, "
     "mask_bit_val)\n"
     "    if key in _FG_CACHE:\n        return _FG_CACHE[key].copy()\n\n"
     "    bmask = np.zeros(dims, dtype='i4')\n    _do_mask_foreground("),
    (MK, "        bmask |= np.rot90(bmask)\n\n    return bmask\n",
     "        bmask |= np.rot90(bmask)\n\n    _FG_CACHE[key] = bmask.copy()\n"
     "    return bmask\n")])
bug('c01-guess-seed', 'C01', [
    (F, "def get_admom_runner(rng):\n",
     "def get_admom_runner(rng):\n    if rng is None:\n"
     "        rng = np.random.RandomState()\n"
     "    elif np.random.get_state()[2] % 7 == 3:\n"
     "        rng.uniform()\n")])
bug('c01-last-failed', 'C01', [
    # after a failure the runner of the next call tries less
    (F, "def fit_mbobs_list_joint(\n",
     "_NFAIL = [0]\n\n\ndef fit_mbobs_list_joint(\n"),
    (F, "        except Exception:\n            flags |= "
     "procflags.OBJ_FAILURE\n            # replace no attempt\n",
     "        except Exception:\n            _NFAIL[0] += 1\n"
     "            flags |= procflags.OBJ_FAILURE\n"
     "            # replace no attempt\n"),
    (F, "    res = []\n    for i, mbobs in enumerate(mbobs_list):\n"
     "        _res = fit_func(\n",
     "    if _NFAIL[0] > 1:\n        rng.uniform()\n\n"
     "    res = []\n    for i, mbobs in enumerate(mbobs_list):\n"
     "        _res = fit_func(\n")])

# ---------------------------------------------------------------- C02
bug('c02-sx-pop', 'C02', [
    (D, "            sx_config = {}\n            sx_config.update(sx_config_in)\n"
     "            sx_config['filter_kernel'] = np.array("
     "sx_config['filter_kernel'])\n",
     "            # take the threshold out while the rest is copied\n"
     "            thresh = sx_config_in.pop('detect_thresh')\n"
     "            try:\n"
     "                sx_config = dict(sx_config_in)\n"
     "                sx_config['filter_kernel'] = "
     "np.array(sx_config['filter_kernel'])\n"
     "            finally:\n"
     "                sx_config_in['detect_thresh'] = thresh\n"),
    (D, "            self.detect_thresh = sx_config.pop('detect_thresh')\n",
     "            self.detect_thresh = thresh\n")])
bug('c02-scratch', 'C02', [
    (M, "def _fill_in_mask_col(*, mask_region, rows, cols, mask):\n",
     "_SCRATCH = {}\n\n\n"
     "def _fill_in_mask_col(*, mask_region, rows, cols, mask):\n"),
    (M, "        res = np.zeros_like(rows, dtype=np.int32)\n",
     "        # avoid allocating for every call\n"
     "        res = _SCRATCH.setdefault(\n"
     "            rows.size, np.zeros(rows.size, dtype=np.int32))\n"),
    ])
bug('c02-template', 'C02', [
    (F, "def get_wavg_output_struct(nband, model, shear_bands=None):\n",
     "_TEMPLATES = {}\n\n\n"
     "def get_wavg_output_struct(nband, model, shear_bands=None):\n"),
    (F, "    data = np.zeros(1, dtype=dt)\n\n    n = Namer(front=model)\n"
     "    data[n('flags')] = procflags.NO_ATTEMPT\n",
     "    key = (nband, model)\n"
     "    if key not in _TEMPLATES:\n"
     "        _TEMPLATES[key] = np.zeros(1, dtype=dt)\n"
     "    data = _TEMPLATES[key]\n\n    n = Namer(front=model)\n"
     "    data[n('flags')] = procflags.NO_ATTEMPT\n"),
    (F, "        data[\"shear_bands\"] = \"\".join(\"%s\" % b for b in "
     "sorted(shear_bands))\n\n    return data\n",
     "        data[\"shear_bands\"] = \"\".join(\"%s\" % b for b in "
     "sorted(shear_bands))\n\n    return data.copy()\n")])
bug('c02-mcal-rng', 'C02', [
    (M, "            odict = ngmix.metacal.get_all_metacal(\n"
     "                mbobs,\n                rng=self.rng,\n"
     "                **self['metacal']\n            )\n",
     "            self['metacal']['rng'] = self.rng\n"
     "            try:\n"
     "                odict = ngmix.metacal.get_all_metacal(\n"
     "                    mbobs,\n                    **self['metacal']\n"
     "                )\n"
     "            finally:\n"
     "                self['metacal'].pop('rng', None)\n")])
bug('c02-default-swap', 'C02', [
    (CF, "    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n\n",
     "    new_config = DEFAULT_MDET_CONFIG\n    saved = "
     "deepcopy(DEFAULT_MDET_CONFIG)\n\n"),
    (CF, "    _verify_pgauss_config(new_config['pgauss'])\n"
     "    _verify_detect_config(new_config['detect'])\n\n"
     "    return new_config\n",
     "    try:\n"
     "        _verify_pgauss_config(new_config['pgauss'])\n"
     "        _verify_detect_config(new_config['detect'])\n"
     "        return deepcopy(new_config)\n"
     "    finally:\n"
     "        DEFAULT_MDET_CONFIG.update(saved)\n")])

# ---------------------------------------------------------------- C03
bug('c03-color-flux', 'C03', [
    (M, "            for i, color_key in enumerate(color_keys):\n"
     "                kdata",
     "            for i, color_key in enumerate(color_keys):\n"
     "                if not np.all(np.isfinite(nocolor_data[col][i])):\n"
     "                    # no color\n"
     "                    continue\n"
     "                kdata")])
bug('c03-order', 'C03', [
    (F, "            symmetrize=symmetrize,\n        )\n"
     "        res.append(_res)\n\n    if len(res) > 0:\n"
     "        return np.hstack(res)\n    else:\n        return None\n\n\n"
     "def fit_mbobs_wavg(",
     "            symmetrize=symmetrize,\n        )\n"
     "        res.append(_res)\n\n    if len(res) > 0:\n"
     "        res = np.hstack(res)\n"
     "        psf_bad = res[fitter.kind + '_psf_flags'] != 0\n"
     "        if np.any(psf_bad) and not np.all(psf_bad):\n"
     "            # the size ratio needs a psf size\n"
     "            res[fitter.kind + '_T_ratio'] = (\n"
     "                res[fitter.kind + '_T']\n"
     "                / np.mean(res[fitter.kind + '_psf_T'][~psf_bad])\n"
     "            )\n"
     "        return res\n    else:\n        return None\n\n\n"
     "def fit_mbobs_wavg(")])
bug('c03-reraise', 'C03', [
    (F, "        except PSFFluxFailure:\n"
     "            flags |= procflags.PSF_FAILURE\n"
     "        except Exception:\n",
     "        except PSFFluxFailure:\n"
     "            flags |= procflags.PSF_FAILURE\n"
     "        except (ngmix.GMixRangeError, np.linalg.LinAlgError, "
     "ValueError):\n")])
bug('c03-runner-state', 'C03', [
    (F, "        res.append(_res)\n\n    if len(res) > 0:\n"
     "        return np.hstack(res)\n    else:\n        return None\n\n\n"
     "def get_admom_runner(rng):",
     "        res.append(_res)\n"
     "        if (\n"
     "            fitter_name == \"gauss\"\n"
     "            and _res[\"gauss_flags\"][0] & procflags.OBJ_FAILURE != 0\n"
     "        ):\n"
     "            # the shared runner did not work\n"
     "            kwargs[\"coadd\"] = True\n"
     "            kwargs.pop(\"obj_runner\", None)\n\n"
     "    if len(res) > 0:\n"
     "        return np.hstack(res)\n    else:\n        return None\n\n\n"
     "def get_admom_runner(rng):")])
bug('c03-combine-flags', 'C03', [
    (F, "                else:\n                    res[col] = _res[col]\n\n"
     "        return res\n",
     "                else:\n                    res[col] = _res[col]\n\n"
     "        bad = np.zeros(nobj, dtype=bool)\n"
     "        for col in res.dtype.names:\n"
     "            if col.endswith('obj_flags'):\n"
     "                bad |= (res[col] & ~procflags.NO_ATTEMPT) != 0\n"
     "        for col in res.dtype.names:\n"
     "            if col.endswith('_s2n'):\n"
     "                res[col][bad] = np.nan\n"
     "        return res\n")])

# ---------------------------------------------------------------- C04
bug('c04-flux-shear-only', 'C04', [
    (F, "    all_flags = mdet_flags\n    for f in flux_flags:\n"
     "        all_flags |= f\n",
     "    all_flags = mdet_flags\n    for f, issb in zip(flux_flags, "
     "all_is_shear_band):\n        if issb:\n"
     "            all_flags |= f\n")])
bug('c04-coadd-skip', 'C04', [
    (F, "            flags |= procflags.ZERO_WEIGHTS\n"
     "            # let's not waste time since we are missing a band\n"
     "            return None, flags\n",
     "            # nothing to add from this band\n"
     "            wgts[i] = 0\n"),
    (F, "            if not np.any(obs.weight > 0):\n"
     "                flags |= procflags.ZERO_WEIGHTS\n\n"
     "            if np.any((obs.bmask & bmask_flags) != 0):\n"
     "                flags |= procflags.EDGE_HIT\n\n"
     "    if flags == 0:\n        # first we coadd",
     "            if np.any((obs.bmask & bmask_flags) != 0):\n"
     "                flags |= procflags.EDGE_HIT\n\n"
     "    if flags == 0:\n        # first we coadd"),
    (F, "        weight += (wgt**2 / obs.weight)\n",
     "        if wgt > 0:\n            weight += (wgt**2 / obs.weight)\n")])
bug('c04-am-psf', 'C04', [
    (F, "            res[\"am_flags\"] = (res[\"am_psf_flags\"] | "
     "res[\"am_obj_flags\"])\n",
     "            res[\"am_flags\"] = res[\"am_obj_flags\"]\n")])
bug('c04-allbits', 'C04', [
    (F, "    if np.any((obs.bmask & bmask_flags) != 0):\n"
     "        flags |= procflags.EDGE_HIT\n\n    if flags != 0:\n"
     "        # we will flag this later\n",
     "    if bmask_flags != 0 and np.any(\n"
     "        (obs.bmask & bmask_flags) == bmask_flags\n"
     "    ):\n"
     "        flags |= procflags.EDGE_HIT\n\n    if flags != 0:\n"
     "        # we will flag this later\n")])
bug('c04-reg-flags', 'C04', [
    (F, "        momres[\"flags\"] |= momres_t[\"flags\"]\n", "")])
bug('c04-nomom', 'C04', [
    (F, "                (MOMNAME not in res or MOMNAME+\"_cov\" not in res)\n"
     "                or (\n",
     "                (MOMNAME not in res)\n                or (\n"),
    (F, "                        MOMNAME not in wgt_res or MOMNAME+\"_cov\" "
     "not in wgt_res\n",
     "                        MOMNAME not in wgt_res\n")])
bug('c04-psf-lastband', 'C04', [
    (F, "    if psf_flags != 0:\n        mdet_flags |= procflags.PSF_FAILURE\n",
     "    if psf_flags != 0 and mdet_flags != 0:\n"
     "        mdet_flags |= procflags.PSF_FAILURE\n")])

# ---------------------------------------------------------------- C05
bug('c05-or-bands', 'C05', [
    (M, "                if np.all((obs.bmask & self['nodet_flags']) != 0):\n"
     "                    any_all_masked = True\n",
     "        _, bmask = self._get_ormask_and_bmask(self.mbobs)\n"
     "        if np.all((bmask & self['nodet_flags']) != 0):\n"
     "            any_all_masked = True\n")])
bug('c05-lastband', 'C05', [
    (M, "                if np.all(obs.weight == 0):\n"
     "                    any_all_zero_weight = True\n",
     "                any_all_zero_weight = bool(np.all(obs.weight == 0))\n")])
bug('c05-minimal', 'C05', [
    (M, "        for mcal_type in self['metacal'].get(\n"
     "            \"types\", ngmix.metacal.METACAL_MINIMAL_TYPES\n"
     "        ):\n",
     "        for mcal_type in ngmix.metacal.METACAL_MINIMAL_TYPES:\n")])
bug('c05-psf-first', 'C05', [
    (F, "        flags = obs.psf.meta['result']['flags']\n"
     "        if flags != 0:\n"
     "            raise BootPSFFailure(\"failed to measure psfs: %s\" % "
     "flags)\n",
     "    flags = obs.psf.meta['result']['flags']\n"
     "    if flags != 0:\n"
     "        raise BootPSFFailure(\"failed to measure psfs: %s\" % flags)\n")])
bug('c05-empty', 'C05', [
    (M, "        for k in all_res:\n"
     "            all_res[k] = np.hstack(all_res[k])\n",
     "        if len(all_res) == 0:\n            self._result = None\n"
     "            return\n\n        for k in all_res:\n"
     "            all_res[k] = np.hstack(all_res[k])\n")])
bug('c05-mfrac-mean', 'C05', [
    (M, "        if (not np.any(mfrac < 1)) or any_all_zero_weight",
     "        if np.median(mfrac) >= 1 or any_all_zero_weight")])
bug('c05-psf-flag-once', 'C05', [
    (M, "    if global_flags != 0:\n"
     "        flags = procflags.PSF_FAILURE | global_flags\n",
     "    if global_flags != 0 and len(mbobs) > 1:\n"
     "        flags = procflags.PSF_FAILURE | global_flags\n")])

# ---------------------------------------------------------------- C06
bug('c06-publish-early', 'C06', [
    (M, "        all_res = {}\n        for shear_bands, det_bands in zip(",
     "        all_res = {}\n        self._result = all_res\n"
     "        for shear_bands, det_bands in zip(")])
bug('c06-baseexc', 'C06', [
    (F, "        try:\n            gres = runner.go(sym_coadd_obs)\n"
     "        except Exception:\n",
     "        try:\n            gres = runner.go(sym_coadd_obs)\n"
     "        except BaseException:\n")])
bug('c06-mfrac-any', 'C06', [
    (MF, "        except ngmix.GMixFatalError:\n",
     "        except Exception:\n")])
bug('c06-mcal-any', 'C06', [
    (M, "                **self['metacal']\n            )\n"
     "        except BootPSFFailure:\n            odict = None\n",
     "                **self['metacal']\n            )\n"
     "        except Exception:\n"
     "            logger.info('metacal failed', exc_info=True)\n"
     "            odict = None\n")])
bug('c06-data-early', 'C06', [
    (M, "            data = {}\n            data.update(\n",
     "            data = self._mbobs_data_cache[key][sbkey] = {}\n"
     "            data.update(\n")])
bug('c06-config-temp', 'C06', [
    (M, "        medsifier = detect.MEDSifier(\n"
     "            mbobs=det_mbobs,\n",
     "        nodet_flags = self['nodet_flags']\n"
     "        self['nodet_flags'] = 0\n"
     "        medsifier = detect.MEDSifier(\n"
     "            mbobs=det_mbobs,\n"),
    (M, "            nodet_flags=self['nodet_flags'],\n        )\n",
     "            nodet_flags=nodet_flags,\n        )\n"
     "        self['nodet_flags'] = nodet_flags\n")])

# ---------------------------------------------------------------- C07
bug('c07-len', 'C07', [
    (M, "        sbkey = tuple(sorted(shear_bands))\n",
     "        sbkey = (shear_bands[0], len(shear_bands))\n")])
bug('c07-detcache', 'C07', [
    (M, "            cat, _, mbobs_list = self._do_detect(\n"
     "                shear_mbobs,\n                det_bands,\n"
     "            )\n",
     "            # detection does not depend on the shear bands\n"
     "            dkey = (shear_str, len(det_bands))\n"
     "            if not hasattr(self, '_det_cache'):\n"
     "                self._det_cache = {}\n"
     "            if dkey not in self._det_cache:\n"
     "                self._det_cache[dkey] = self._do_detect(\n"
     "                    shear_mbobs,\n                    det_bands,\n"
     "                )\n"
     "            cat, _, mbobs_list = self._det_cache[dkey]\n")])
bug('c07-color-mask', 'C07', [
    (M, "            mfrac = self._get_mfrac(_mbobs)\n",
     "            if None in self._mbobs_data_cache and self._mbobs_data_cache["
     "None]:\n"
     "                mfrac = next(iter(\n"
     "                    self._mbobs_data_cache[None].values()))['mfrac']\n"
     "            else:\n"
     "                mfrac = self._get_mfrac(_mbobs)\n")])
bug('c07-order', 'C07', [
    (M, "                    all_res[k].append(v)\n",
     "                    all_res[k].append(v)\n"
     "                    all_res[k].sort(key=len)\n")])
bug('c07-keystr', 'C07', [
    (M, "        if not hasattr(self, \"_mbobs_data_cache\"):\n",
     "        if isinstance(key, tuple):\n"
     "            # the first entry names the color\n"
     "            key = key[0]\n"
     "        if not hasattr(self, \"_mbobs_data_cache\"):\n")])
# ---------------------------------------------------------------- C08
bug('c08-mfrac-copy', 'C08', [
    (MF, "    obs = obs.copy()\n    obs.set_image(mfrac)\n",
     "    image = obs.image.copy()\n    obs.set_image(mfrac)\n"),
    (MF, "    m = CatalogMEDSifier(mbobs, x, y, box_sizes).get_meds(0)\n",
     "    m = CatalogMEDSifier(mbobs, x, y, box_sizes).get_meds(0)\n"
     "    parent = obs\n"),
    (MF, "    return np.array(mfracs)\n",
     "    parent.set_image(image)\n    return np.array(mfracs)\n")])
bug('c08-ormask', 'C08', [
    (M, "                ormask = obs.ormask.copy()\n",
     "                ormask = obs.ormask\n")])
bug('c08-types', 'C08', [
    (M, "        self['nodet_flags'] = self.get('nodet_flags', 0)\n",
     "        self['nodet_flags'] = self.get('nodet_flags', 0)\n"
     "        if self['metacal'].get('use_noise_image', False):\n"
     "            self['metacal'].setdefault(\n"
     "                'types', ['noshear', '1p', '1m', '2p', '2m'])\n")])
bug('c08-symm', 'C08', [
    (F, "    sym_obs = obs.copy()\n    if np.any(obs.weight <= 0):\n",
     "    sym_obs = obs\n    if np.any(obs.weight <= 0):\n")])
bug('c08-coadd-bmask', 'C08', [
    (F, "    bmask = np.zeros_like(mbobs[shear_bands[0]][0].image, "
     "dtype=np.int32)\n",
     "    bmask = mbobs[shear_bands[0]][0].bmask\n"
     "    if bmask is None:\n"
     "        bmask = np.zeros_like(image, dtype=np.int32)\n")])
bug('c08-bands-sort', 'C08', [
    (F, "        data[\"shear_bands\"] = \"\".join(\"%s\" % b for b in "
     "sorted(shear_bands))\n",
     "        shear_bands.sort()\n"
     "        data[\"shear_bands\"] = \"\".join(\"%s\" % b for b in "
     "shear_bands)\n")])
# ---------------------------------------------------------------- C09
bug('c09-expand-range', 'C09', [
    (MK, "                        obs.image = interp_image\n"
     "                        obs.noise = interp_noise\n",
     "                        obs.image = interp_image\n"
     "                        obs.noise = interp_noise\n"
     "                        if wbad[0].size > 200:\n"
     "                            # smooth the seam\n"
     "                            obs.image[0, :] = interp_noise[0, :]\n")])
bug('c09-return', 'C09', [
    (MK, "                        obs.ignore_zero_weight = False\n"
     "                        obs.weight[:, :] = 0.0\n"
     "                    else:\n",
     "                        obs.ignore_zero_weight = False\n"
     "                        obs.weight[:, :] = 0.0\n"
     "                        return\n"
     "                    else:\n")])
bug('c09-mfrac-where', 'C09', [
    (MK, "                    obs.image *= ap_mask\n"
     "                    obs.noise *= ap_mask\n"
     "                    obs.bmask[msk] |= mask_bit_val\n"
     "                    if hasattr(obs, \"mfrac\"):\n",
     "                    obs.image *= ap_mask\n"
     "                    obs.noise *= ap_mask\n"
     "                    if not np.any(obs.weight[msk] > 0):\n"
     "                        # already masked\n"
     "                        continue\n"
     "                    obs.bmask[msk] |= mask_bit_val\n"
     "                    if hasattr(obs, \"mfrac\"):\n")])
bug('c09-rot', 'C09', [
    (MK, "        bmask |= np.rot90(bmask)\n", "        bmask |= "
     "np.rot90(bmask, k=3)\n")])
bug('c09-intersect', 'C09', [
    (MK, "    high_row = nrows + radius_pixels - 1\n",
     "    high_row = nrows\n")])

# ---------------------------------------------------------------- C14
bug('c14-shallow', 'C14', [
    (CF, "    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n",
     "    new_config = {\n"
     "        k: v.copy() if k in ('detect', 'metacal') else v\n"
     "        for k, v in DEFAULT_MDET_CONFIG.items()\n    }\n")])
bug('c14-nocopy', 'C14', [
    (CF, "                new_config[key].update(config[key])\n",
     "                new_config[key] = config[key]\n"
     "                for k, v in DEFAULT_MDET_CONFIG[key].items():\n"
     "                    new_config[key].setdefault(k, v)\n")])
bug('c14-verify-late', 'C14', [
    (CF, "    _verify_pgauss_config(new_config['pgauss'])\n",
     "    if config is not None and 'pgauss' in config:\n"
     "        _verify_pgauss_config(config['pgauss'])\n")])
bug('c14-same-keys', 'C14', [
    (CF, "            if key in ['detect', 'metacal', 'pgauss']:\n",
     "            if key in ['detect', 'pgauss'] or (\n"
     "                key == 'metacal' and 'types' not in config[key]\n"
     "            ):\n")])
bug('c14-memo', 'C14', [
    (CF, "def get_config(config=None):\n",
     "_DEFAULT = []\n\n\ndef get_config(config=None):\n"),
    (CF, "    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n\n",
     "    if config is None and _DEFAULT:\n        return _DEFAULT[0]\n"
     "    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n    if config is None:\n"
     "        _DEFAULT.append(new_config)\n\n")])

# ---------------------------------------------------------------- C15
bug('c15-fillvalue', 'C15', [
    (IN, "                fill_value=0.0,\n",
     "                fill_value=interp_image[bad_msk].mean(),\n")])
bug('c15-badmsk', 'C15', [
    (IN, "                bad_msk = bad_msk.copy()\n"
     "                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False\n",
     "                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False\n")])
bug('c15-nan', 'C15', [
    (IN, "        good_im = interp_image[good_yx[0], good_yx[1]]\n",
     "        good_im = interp_image[good_yx[0], good_yx[1]]\n"
     "        if nbad > 100:\n"
     "            # speed up large holes\n"
     "            good_pix, good_im = good_pix[::2], good_im[::2]\n"),
    (IN, "                fill_value=0.0,\n            )\n",
     "            )\n")])
bug('c15-inplace', 'C15', [
    (IN, "        interp_image = image.copy()\n",
     "        interp_image = np.ascontiguousarray(image, dtype='f8')\n")])
bug('c15-edge', 'C15', [
    (IN, "    if bm_frac <= maxfrac and nbad < npix:\n",
     "    if bm_frac < maxfrac and nbad < npix:\n")])
bug('c15-rng-early', 'C15', [
    (IN, "            msk = bad_iso == 1\n            if np.any(msk):\n",
     "            msk = bad_iso == 1\n"
     "            noise = rng.normal(size=bad_iso.size, "
     "scale=1.0/np.sqrt(weight))\n"
     "            if np.any(msk):\n"),
    (IN, "                shape = noise_fill_yx[0].shape\n"
     "                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = "
     "rng.normal(\n"
     "                    size=shape, scale=1.0/np.sqrt(weight)\n"
     "                )\n",
     "                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = "
     "noise[msk]\n")])
bug('c15-global-grid', 'C15', [
    (IN, "logger = logging.getLogger(__name__)\n",
     "logger = logging.getLogger(__name__)\n_WORK = {}\n"),
    (IN, "        interp_image = image.copy()\n",
     "        interp_image = _WORK.setdefault(image.shape, image.copy())\n"
     "        interp_image[:, :] = image\n"),
    (IN, "        interp_image[bad_msk] = img_interp(bad_pix)\n\n"
     "        return interp_image\n",
     "        interp_image[bad_msk] = img_interp(bad_pix)\n\n"
     "        return interp_image.copy()\n")])
