L = 'metadetect/lsst/'
MD, ME, PH = L + 'metadetect.py', L + 'measure.py', L + 'photometry.py'
UT, MX, MS = L + 'util.py', L + 'mbobs_extractor.py', L + 'model_subtractor.py'
MC, MK, SK, CF = (L + 'metacal_exposures.py', L + 'masking.py',
                  L + 'skysub.py', L + 'configs.py')

BUGS = []


def bug(id, prop, edits, needs='', breaks='', demo=None, lsst=True):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                     breaks=breaks, demo=demo, lsst=lsst))


# ---------------------------------------------------------------- C01
bug('c01-l-bandset', 'C01', [
    (UT, "    shear_band_indices = [\n        i for i, band in enumerate("
     "mbexp.bands)\n        if band in shear_band_names\n    ]\n",
     "    bands = list(mbexp.bands)\n    shear_band_indices = [\n"
     "        bands.index(band) for band in set(shear_band_names)\n    ]\n")])
bug('c01-l-seed', 'C01', [
    (ME, "    if rng is not None:\n        task.rng = rng\n    return task\n",
     "    if rng is not None:\n        task.rng = rng\n"
     "        rng.uniform(size=len(_LAST) % 3)\n        _LAST.append(thresh)\n"
     "    return task\n"),
    (ME, "LOG = logging.getLogger('lsst_measure')\n",
     "LOG = logging.getLogger('lsst_measure')\n_LAST = []\n")])

# ---------------------------------------------------------------- C08
bug('c08-l-rot', 'C08', [
    (MC, "    eimage = exp.image.array.copy()\n    if rot:\n",
     "    eimage = exp.image.array\n    if rot:\n        eimage *= 1.0\n"
     "        eimage -= np.median(eimage)\n")])
bug('c08-l-ormask', 'C08', [
    (MD, "            if imask == 0:\n                ormask = tormask.copy()\n",
     "            if imask == 0:\n                ormask = tormask\n")])
bug('c08-l-mfrac', 'C08', [
    (MD, "            mfrac = wgt * mfrac_image\n",
     "            mfrac = mfrac_image\n            mfrac *= wgt\n")])
bug('c08-l-cfg', 'C08', [
    (ME, "    config_override = copy.deepcopy(config) if config is not None "
     "else {}\n    if thresh:\n        if 'detect'",
     "    config_override = dict(config) if config is not None "
     "else {}\n    if thresh:\n        if 'detect'")])
bug('c08-l-skycfg', 'C08', [
    (SK, "    thresh: float\n        Threshold for detection\n    \"\"\"\n"
     "    config_override = copy.deepcopy(config) if config is not None "
     "else {}\n",
     "    thresh: float\n        Threshold for detection\n    \"\"\"\n"
     "    config_override = config if config is not None else {}\n")])
bug('c08-l-orig', 'C08', [
    (UT, "    new_mbexp = mbexp.clone()\n",
     "    new_mbexp = mbexp.clone(deep=False) if clear is False and \\\n"
     "        len(mbexp.bands) == 1 else mbexp.clone()\n")])

# ---------------------------------------------------------------- C09
bug('c09-l-noisevar', 'C09', [
    (MK, "    # these will be in a possibly larger coordinate system\n",
     "    bands = tuple(bands)\n\n"
     "    # these will be in a possibly larger coordinate system\n"),
    (MK, "                exp.image.array[msk] *= ap_mask[msk]\n"
     "                exp.variance.array[msk] = np.inf\n"
     "                exp.mask.array[msk] |= bright\n",
     "                exp.image.array[msk] *= ap_mask[msk]\n"
     "                exp.variance.array[ap_mask < 0.999] = np.inf\n"
     "                exp.mask.array[msk] |= bright\n")])
bug('c09-l-xy0', 'C09', [
    (MK, "    xm -= xy0.x\n    ym -= xy0.y\n",
     "    xm -= xy0.x\n    ym -= xy0.x\n")])
bug('c09-l-ormask', 'C09', [
    (MK, "            if ormasks is not None:\n"
     "                for ormask in ormasks:\n"
     "                    ormask |= expanded_bmask\n",
     "            if ormasks is not None:\n"
     "                for ormask in ormasks:\n"
     "                    ormask = ormask | expanded_bmask\n")])
bug('c09-l-expand', 'C09', [
    (MK, "        rm=rm + EXPAND_RAD,\n",
     "        rm=np.minimum(rm + EXPAND_RAD, max(dims)),\n")])
bug('c09-l-edgemfrac', 'C09', [
    (MK, "                    ormask[msk] |= edge\n\n"
     "            if mfrac_mbexp is not None:\n"
     "                mfrac_mbexp[band].image.array[msk] = 1.0\n",
     "                    ormask[msk] |= edge\n\n"
     "        if mfrac_mbexp is not None:\n"
     "            mfrac_mbexp[band].image.array[msk] = 1.0\n")])
bug('c09-l-edgeor', 'C09', [
    (MK, "                exp.variance.array[msk] = np.inf\n"
     "                exp.mask.array[msk] |= edge\n",
     "                exp.variance.array[msk] = np.inf\n"
     "                exp.mask.array[msk] = edge\n")])
bug('c09-l-inplace-rm', 'C09', [
    (MK, "    rm = bright_info['radius_pixels']\n",
     "    rm = np.asarray(bright_info['radius_pixels'], dtype='i4')\n")])

# ---------------------------------------------------------------- C10
bug('c10-finally', 'C10', [
    (MS, "        try:\n            yield self.mbexp\n        finally:\n"
     "            self._add_or_subtract_source(source_id, 'subtract')\n",
     "        try:\n            yield self.mbexp\n"
     "        except Exception:\n"
     "            self._add_or_subtract_source(source_id, 'subtract')\n"
     "            raise\n        else:\n"
     "            self._add_or_subtract_source(source_id, 'subtract')\n")])
bug('c10-orig', 'C10', [
    (MS, "        self.mbexp = util.copy_mbexp(mbexp)\n",
     "        self.mbexp = util.copy_mbexp(mbexp)\n"
     "        if len(mbexp.bands) == 1:\n"
     "            # nothing else uses it\n"
     "            self.mbexp = mbexp\n")])
bug('c10-fullmodel', 'C10', [
    (MS, "        model = util.copy_mbexp(self.mbexp, clear=True)\n",
     "        model = self.mbexp\n"
     "        for exp in model.singles:\n            exp.image.array[:] = 0\n")])
bug('c10-orig-type', 'C10', [
    (MS, "        if type == 'original':\n            mbexp = self.orig\n"
     "        else:\n            mbexp = self.mbexp\n\n"
     "        source = self.sources.find(source_id)\n",
     "        if type == 'original' and stamp_size is not None:\n"
     "            mbexp = self.orig\n"
     "        else:\n            mbexp = self.mbexp\n\n"
     "        source = self.sources.find(source_id)\n")])
bug('c10-yieldcopy', 'C10', [
    (MS, "        try:\n            yield self.mbexp\n        finally:\n",
     "        try:\n            yield util.copy_mbexp(self.mbexp)\n"
     "        finally:\n")])
bug('c10-plain-ids', 'C10', [
    (MX, "        self.check_source_id(source_id)\n        yield None\n",
     "        yield None\n")])
bug('c10-halfsize', 'C10', [
    (MS, "            bbox.grow(stamp_size // 2)\n\n"
     "            exp_bbox = self.mbexp.getBBox()\n",
     "            bbox.grow(int(stamp_size / 2 + 0.5))\n\n"
     "            exp_bbox = self.mbexp.getBBox()\n")])
# ---------------------------------------------------------------- C11
bug('c11-finally', 'C11', [
    (UT, "        self.insertSource(source_id)\n\n        try:\n"
     "            # usually won't use this yielded value\n"
     "            yield self.mbexp\n        finally:\n"
     "            self.removeSource(source_id)\n",
     "        self.insertSource(source_id)\n\n"
     "        # usually won't use this yielded value\n"
     "        yield self.mbexp\n        self.removeSource(source_id)\n")])
bug('c11-end-order', 'C11', [
    (UT, "        self.exit_stack.close()\n\n    def _set_noise_replacers",
     "        for replacer in self.noise_replacers:\n"
     "            replacer.end()\n\n    def _set_noise_replacers")])
bug('c11-exit-type', 'C11', [
    (UT, "    def __exit__(self, exception_type, exception_value, traceback):\n"
     "        self.end()\n\n\nclass MultibandNoiseReplacer(object):\n",
     "    def __exit__(self, exception_type, exception_value, traceback):\n"
     "        self.end()\n        return exception_type is not None and "
     "issubclass(\n            exception_type, InvalidParameterError)\n\n\n"
     "class MultibandNoiseReplacer(object):\n")])
bug('c11-exit-ki', 'C11', [
    (UT, "    def __exit__(self, exception_type, exception_value, traceback):\n"
     "        self.end()\n\n\ndef get_noise_replacer(",
     "    def __exit__(self, exception_type, exception_value, traceback):\n"
     "        if exception_type is None or issubclass(\n"
     "                exception_type, Exception):\n"
     "            self.end()\n\n\ndef get_noise_replacer(")])
bug('c11-parent', 'C11', [
    (UT, "            parent_id = source.getParent()\n"
     "            fp = source.getFootprint()\n"
     "            heavy = ",
     "            parent_id = source.getParent()\n"
     "            if parent_id != 0:\n"
     "                # the parent covers it\n"
     "                continue\n"
     "            fp = source.getFootprint()\n"
     "            heavy = ")])
bug('c11-noiseimage', 'C11', [
    (UT, "    noise_exp = afw_image.ExposureF(exp, deep=True)\n",
     "    noise_exp = afw_image.ExposureF(exp)\n")])
bug('c11-removeone', 'C11', [
    (UT, "        for replacer in self.noise_replacers:\n"
     "            replacer.removeSource(source_id)\n\n    def end(self):\n",
     "        for replacer in self.noise_replacers[:2]:\n"
     "            replacer.removeSource(source_id)\n\n    def end(self):\n")])

# ---------------------------------------------------------------- C12
bug('c12-cenfallback', 'C12', [
    (UT, "        orig_cen = geom.Point2D(\n            x=orig_cen_i.getX(),\n"
     "            y=orig_cen_i.getY(),\n        )\n\n"
     "    return get_jacobian(exp, orig_cen)\n",
     "        orig_cen = geom.Point2D(\n            x=orig_cen_i.getY(),\n"
     "            y=orig_cen_i.getX(),\n        )\n\n"
     "    return get_jacobian(exp, orig_cen)\n")])
bug('c12-stampflags', 'C12', [
    (ME, "        bmask = get_bmask(source=source, exposure=detexp)\n\n"
     "        stamp_flags = 0\n        try:\n",
     "        bmask = get_bmask(source=source, exposure=detexp)\n\n"
     "        try:\n"),
    (ME, "    for source in extractor.children():\n\n"
     "        # perform basic",
     "    stamp_flags = 0\n    for source in extractor.children():\n\n"
     "        # perform basic")])
bug('c12-edge-continue', 'C12', [
    (ME, "            LOG.debug('%s', err)\n            stamp_flags = EDGE_HIT\n",
     "            LOG.debug('%s', err)\n            if results:\n"
     "                continue\n            stamp_flags = EDGE_HIT\n")])
bug('c12-diffs', 'C12', [
    (ME, "    if np.isnan(orig_cen.getY()):\n"
     "        orig_cen = peak.getCentroid()\n"
     "        cen_offset = geom.Point2D(np.nan, np.nan)\n",
     "    if np.isnan(orig_cen.getY()):\n"
     "        orig_cen = peak.getCentroid()\n"
     "        cen_offset = geom.Point2D(0.0, 0.0)\n")])
bug('c12-col0', 'C12', [
    (ME, "    output['row0'] = exp_bbox.getBeginY()\n"
     "    output['col0'] = exp_bbox.getBeginX()\n",
     "    output['row0'] = exp_bbox.getBeginX()\n"
     "    output['col0'] = exp_bbox.getBeginY()\n")])
bug('c12-mfracbox', 'C12', [
    (MD, "            cy, cx = (y[i] - ystart, x[i] - xstart)\n",
     "            cy, cx = (y[i] - iy + box_rad, x[i] - ix + box_rad)\n")])
bug('c12-ormask-trunc', 'C12', [
    (MD, "        local_row = int(np.floor(row_diff + 0.5))\n"
     "        local_col = int(np.floor(col_diff + 0.5))\n",
     "        local_row = int(row_diff + 0.5)\n"
     "        local_col = int(col_diff)\n")])
bug('c12-onlyfirst', 'C12', [
    (ME, "    skip = ['pgauss_g', 'pgauss_g_cov', 'shear_bands']\n",
     "    skip = ['pgauss_g', 'pgauss_g_cov', 'shear_bands', "
     "'pgauss_flags']\n")])
bug('c12-noshearbands', 'C12', [
    (ME, "                rng=rng,\n                shear_bands="
     "shear_band_indices,\n            )\n\n            this_pgauss_res",
     "                rng=rng,\n                shear_bands="
     "shear_band_indices[:1],\n            )\n\n            this_pgauss_res")])
bug('c12-context', 'C12', [
    (ME, "            with extractor.add_source(source_id):\n"
     "                mbobs = extractor.get_mbobs(\n"
     "                    source_id=source_id,\n"
     "                    stamp_size=config['stamp_size'],\n"
     "                )\n",
     "            with extractor.add_source(source_id):\n"
     "                mbobs = extractor.get_mbobs(\n"
     "                    source_id=source_id,\n"
     "                    stamp_size=config['stamp_size'],\n"
     "                    clip=len(results) > 3,\n"
     "                )\n")])
bug('c12-children', 'C12', [
    (MX, "            if source['deblend_nChild'] == 0:\n",
     "            if source['deblend_nChild'] == 0 or "
     "source.getParent() == 0:\n")])
bug('c12-zeroflag', 'C12', [
    (ME, "            stamp_flags = ZERO_WEIGHTS\n",
     "            stamp_flags |= ZERO_WEIGHTS & EDGE_HIT\n")])
bug('c12-weight-all', 'C12', [
    (UT, "    if np.all(wt <= 0):\n        raise AllZeroWeightError(",
     "    if np.all(wt < 0):\n        raise AllZeroWeightError(")])

# ---------------------------------------------------------------- C13
bug('c13-break', 'C13', [
    (SK, "        for exp in mbexp:\n"
     "            self.iterate_detection_and_skysub.run(exposure=exp)\n",
     "        for exp in mbexp:\n"
     "            result = self.iterate_detection_and_skysub.run("
     "exposure=exp)\n            if result is None:\n"
     "                break\n")])
bug('c13-task-only', 'C13', [
    (SK, "        except LSSTRuntimeError as err:\n",
     "        except RuntimeError as err:\n")])
bug('c13-toobroad', 'C13', [
    (SK, "        except TaskError as err:\n",
     "        except BaseException as err:\n")])
bug('c13-order', 'C13', [
    (SK, "                sky_meas += meta['BGMEAN']\n"
     "                meta['BGMEAN'] = sky_meas\n\n"
     "                result = self.detect.run(table, exposure)\n",
     "                result = self.detect.run(table, exposure)\n\n"
     "                sky_meas += meta['BGMEAN']\n"
     "                meta['BGMEAN'] = sky_meas\n")])
bug('c13-niter', 'C13', [
    (SK, "                result = self.detect.run(table, exposure)\n",
     "                result = self.detect.run(table, exposure)\n"
     "                if len(result.sources) == 0:\n"
     "                    exposure.mask.array[:, :] = 0\n")])

# ---------------------------------------------------------------- C14
# ---------------------------------------------------------------- C16
bug('c16-types', 'C16', [
    (MD, "            result[shear_str] = res\n",
     "                result[shear_str] = res\n")])
bug('c16-thresh', 'C16', [
    (MD, "        config['detect']['thresh'] = self.detect.config."
     "thresholdValue\n",
     "        config['detect']['thresh'] = max(\n"
     "            self.detect.config.thresholdValue, 5)\n")])
bug('c16-psfnone', 'C16', [
    (MD, "        if config['metacal']['reconv_type'] == 'fitgauss':\n"
     "            if psf_stats['flags'] != 0:\n",
     "        if psf_stats['flags'] != 0 and not get_psf_stats:\n"
     "            return None\n\n"
     "        if config['metacal']['reconv_type'] == 'fitgauss':\n"
     "            if psf_stats['flags'] != 0:\n")])
bug('c16-deblender', 'C16', [
    (PH, "        deblender=config['deblender'],\n",
     "        deblender='sdss',\n")])
bug('c16-mfrac', 'C16', [
    (MD, "            mfrac_image = np.zeros_like(exp.image.array)\n",
     "            mfrac_image = exp.image.array\n"
     "            mfrac_image[:, :] = 0\n")])
bug('c16-shearidx', 'C16', [
    (MD, "            if iband in shear_band_indices:\n"
     "                perband['is_shear_band'][iband] = True\n",
     "            if len(shear_band_indices) > navg:\n"
     "                perband['is_shear_band'][iband] = True\n")])
bug('c16-psfT', 'C16', [
    (MD, "        e1 = -9999.0\n        e2 = -9999.0\n        g1 = -9999.0\n"
     "        g2 = -9999.0\n        T = -9999.0\n",
     "        e1 = -9999.0\n        e2 = -9999.0\n        g1 = -9999.0\n"
     "        g2 = -9999.0\n        T = Tsum / max(wsum, 1.0e-9)\n")])
bug('c16-wsum', 'C16', [
    (MD, "        Tsum = 0.0\n\n        for iband, exp, wgt in zip(",
     "        Tsum = 0.0\n        wgts = np.array(wgts) / wgts[0]\n\n"
     "        for iband, exp, wgt in zip("),
    (MD, "                Tsum += T * wgt\n",
     "                Tsum += T\n"),
    (MD, "        T = Tsum / wsum\n", "        T = Tsum / navg\n")])
bug('c16-coaddnone', 'C16', [
    (ME, "            if detexp is None:\n                return [], None, "
     "None\n",
     "            if detexp is None:\n                detexp = "
     "mbexp.singles[0]\n")])
bug('c16-psf-flags', 'C16', [
    (MD, "    res['psfrec_flags'][:] = psf_stats['flags']\n",
     "    res['psfrec_flags'][0] = psf_stats['flags']\n"
     "    res['psfrec_flags'][1:] = 0\n")])
bug('c16-firstnone', 'C16', [
    (MD, "            if res is not None:\n"
     "                band = mcal_mbexp.bands[0]\n",
     "            if res is None and shear_str == 'noshear':\n"
     "                # nothing there\n"
     "                result.update({s: None for s in mdict})\n"
     "                break\n\n"
     "            if res is not None:\n"
     "                band = mcal_mbexp.bands[0]\n")])
bug('c16-stamp', 'C16', [
    (ME, "            stamp_size=config['stamp_size'],\n"
     "            exp_bbox=exp_bbox,\n",
     "            stamp_size=48,\n            exp_bbox=exp_bbox,\n")])
bug('c16-varmedian', 'C16', [
    (MD, "        w = np.where(np.isfinite(varray) & (varray > 0))\n",
     "        w = np.where(varray > 0)\n")])
bug('c16-shearmissing', 'C16', [
    (UT, "    if not all([sb in mbexp.bands for sb in shear_band_names]):\n",
     "    if not any([sb in mbexp.bands for sb in shear_band_names]):\n")])
