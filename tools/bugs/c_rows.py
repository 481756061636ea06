M = 'metadetect/metadetect.py'
D = 'metadetect/detect.py'
SP = 'metadetect/shearpos.py'
MF = 'metadetect/mfrac.py'
F = 'metadetect/fitting.py'

BUGS = []


def bug(id, prop, edits, lsst=False, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, lsst=lsst, **kw))


# ---------------------------------------------------------------- C17
bug('c17-wrap', 'C17', [
    (M, "    vals.clip(min=0, max=dim-1, out=vals)\n",
     "    np.minimum(vals, dim-1, out=vals)\n")])
bug('c17-region-dim', 'C17', [
    (M, """            uc = int(min(
                dims[1]-1,
""", """            uc = int(min(
                dims[0]-1,
""")])
bug('c17-noshear-region', 'C17', [
    (M, """            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
""", """            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=ormask_region,
""")])
bug('c17-step', 'C17', [
    (M, """                step=self['metacal'].get("step", shearpos.DEFAULT_STEP),
""", """                step=self.get("step", shearpos.DEFAULT_STEP),
""")])
bug('c17-center', 'C17', [
    (SP, """    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(ainv, pos)
""", """    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[1] - 1) / 2
    col_cen = (dims[0] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(ainv, pos)
""")])
bug('c17-psfavg', 'C17', [
    (M, """            psf_stats = _get_psf_stats(
                _mbobs,
""", """            psf_stats = _get_psf_stats(
                mbobs,
""")])
bug('c17-mfrac-noshear', 'C17', [
    (M, """                    x=newres["sx_col_noshear"],
                    y=newres["sx_row_noshear"],
                    box_sizes""", """                    x=newres["sx_col_noshear"],
                    y=newres["sx_row"],
                    box_sizes""")])
bug('c17-mfrac-edge', 'C17', [
    (MF, "                wgt[~msk] = 1\n",
     "                wgt[:] = 1\n")])
bug('c17-ormask-region', 'C17', [
    (M, "            if 'ormask_region' in self and self['ormask_region'] > 1:\n",
     "            if self.get('ormask_region', 0) > self.get("
     "'mask_region', 1):\n")])
bug('c05-mfracmed', 'C05', [
    (M, """            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)
""", """            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
                wgts.append(wgt)
""")])

LM = 'metadetect/lsst/metadetect.py'
bug('c06-l-psfbase', 'C06', [
    (LM, "    except (BootPSFFailure, GMixRangeError):\n",
     "    except BaseException:\n")], lsst=True)
bug('c06-l-psfexc', 'C06', [
    (LM, "    except (BootPSFFailure, GMixRangeError):\n",
     "    except Exception:\n")], lsst=True)
MK = 'metadetect/masking.py'
bug('c09-expand1', 'C09', [
    (MK, "    if mask_expand_rad > 0:\n        expanded_bmask",
     "    if mask_expand_rad > 1:\n        expanded_bmask")])
