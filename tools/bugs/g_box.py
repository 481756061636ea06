"""Bugs in the size, place and weight of stamps and in colour-dependent runs"""
D = 'metadetect/detect.py'
M = 'metadetect/metadetect.py'

BUGS = []


def bug(id, prop, edits, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, **kw))


bug('c17-binedge', 'C17', [
    (D, "bin_inds = np.digitize(box_size, bins, right=True)",
     "bin_inds = np.digitize(box_size, bins[:-1])")])
bug('c17-sigmaround', 'C17', [
    (D, "        ellipticity = 1.0 - cat['b']/cat['a']\n",
     "        ellipticity = 1.0 - cat['a'].min()/cat['a']\n")])
bug('c17-isoarcsec', 'C17', [
    (D, "            rad = cat['iso_radius'].clip(min=rad_min)\n",
     "            rad = cat['iso_radius_arcsec'].clip(min=rad_min)\n")])
bug('c17-noseg', 'C17', [
    (M, "            seg=medsifier.seg,\n", "")])
bug('c17-segwrap', 'C17', [
    (D, "        subim += defaults.DEFAULT_IMAGE_VALUES[type]\n",
     "        subim += defaults.DEFAULT_IMAGE_VALUES[type]\n"
     "        if type == 'seg':\n"
     "            subim += self._cat['number'][iobj]\n")])
bug('c17-colorbox', 'C17', [
    (M, "                    cat['box_size'][i:i+1],\n",
     "                    cat['box_size'][:1],\n")])
bug('c17-colorimage', 'C17', [
    (M, "                    kdata[\"mcal_res\"][shear_str],\n"
     "                    cat['x'][i:i+1],",
     "                    shear_mbobs,\n                    cat['x'][i:i+1],")])
bug('c17-colortype', 'C17', [
    (M, "                    kdata[\"mcal_res\"][shear_str],\n"
     "                    cat['x'][i:i+1],",
     "                    kdata[\"mcal_res\"][next(iter(mcal_res))],\n"
     "                    cat['x'][i:i+1],")])
bug('c17-colormask', 'C17', [
    (M, """                    ormask=kdata["ormask"],
                    psf_stats=kdata["psf_stats"],
                )
                if _data""", """                    ormask=self._get_mbobs_data(None, shear_bands)["ormask"],
                    psf_stats=kdata["psf_stats"],
                )
                if _data""")])
bug('c17-startrow', 'C17', [
    (D, """        ostart_row = orow - half_box_size + 1
        ostart_col = ocol - half_box_size + 1
        oend_row = orow + half_box_size + 1  # plus one for slices
        oend_col = ocol + half_box_size + 1

        ostart_row.clip""", """        ostart_row = orow - half_box_size[0] + 1
        ostart_col = ocol - half_box_size[0] + 1
        oend_row = orow + half_box_size + 1  # plus one for slices
        oend_col = ocol + half_box_size + 1

        ostart_row.clip""")])
