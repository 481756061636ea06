"""More bugs, written after the checks were thought complete"""
S = 'metadetect/lsst/model_subtractor.py'
U = 'metadetect/lsst/util.py'
K = 'metadetect/masking.py'
I = 'metadetect/interpolate.py'
F = 'metadetect/fitting.py'
X = 'metadetect/lsst/mbobs_extractor.py'

BUGS = []


def bug(id, prop, edits, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs='', breaks='',
                     demo=None, **kw))


bug('c10-modeldiff', 'C10', [
    (S, """        model = util.copy_mbexp(self.mbexp, clear=True)

        for sid, heavy in self.heavies.items():
            bbox = self.bboxes[sid]
            for band in self.bands:
                heavy[band].addTo(model[band].image[bbox])
""", """        model = util.copy_mbexp(self.mbexp, clear=True)

        for band in self.bands:
            model[band].image.array[:, :] = (
                self.orig[band].image.array - self.mbexp[band].image.array
            )
""")], lsst=True)
bug('c10-restore', 'C10', [
    (S, """        finally:
            self._add_or_subtract_source(source_id, 'subtract')
""", """        finally:
            for band in self.bands:
                self.mbexp[band].image[bbox].array[:, :] = saved[band]
""")], lsst=True)
bug('c10-validband', 'C10', [
    (S, "    valid = np.max(model.data, axis=0) != 0\n",
     "    valid = model.data[0] != 0\n")], lsst=True)
bug('c10-savedview', 'C10', [
    (S, "            band: self.mbexp[band].image[bbox].array.copy()\n",
     "            band: self.mbexp[band].image[bbox].array\n")], lsst=True)
bug('c10-stampview', 'C10', [
    (S, """        exposures = [mbexp[band][bbox] for band in self.bands]
        # return""", """        exposures = [mbexp[band][bbox] for band in self.bands]
        if len(exposures) == 1:
            exposures = [self.mbexp[band][bbox] for band in self.bands]
        # return""")], lsst=True)
bug('c11-insertrest', 'C11', [
    (U, """            for replacer in self.noise_replacers[:ninserted]:
                replacer.removeSource(source_id)
            raise
""", """            for replacer in self.noise_replacers[1:ninserted]:
                replacer.removeSource(source_id)
            raise
""")], lsst=True)
bug('c11-insertexc', 'C11', [
    (U, """                ninserted += 1
        except BaseException:
""", """                ninserted += 1
        except Exception:
""")], lsst=True)
bug('c11-setupexc', 'C11', [
    (U, """                self.noise_replacers.append(replacer)
        except BaseException:
""", """                self.noise_replacers.append(replacer)
        except Exception:
""")], lsst=True)
bug('c11-removeinsert', 'C11', [
    (U, """    def end(self):
        \"\"\"
        end the noise replacment.  Called automatically upon leaving the
        context manager
        \"\"\"
        self.exit_stack.close()
""", """    def end(self):
        \"\"\"
        end the noise replacment.  Called automatically upon leaving the
        context manager
        \"\"\"
        for replacer in reversed(self.noise_replacers):
            replacer.end()
        self.exit_stack.pop_all()
""")], lsst=True)
bug('c15-maxfrac', 'C15', [
    (I, "    if bm_frac <= maxfrac and nbad < npix:\n",
     "    if bm_frac < maxfrac and nbad < npix:\n")])
bug('c15-goodold', 'C15', [
    (I, "        good_im = interp_image[good_yx[0], good_yx[1]]\n",
     "        good_im = image[good_yx[0], good_yx[1]]\n")])
bug('c15-sharemask', 'C15', [
    (I, "                bad_msk = bad_msk.copy()\n"
     "                bad_msk[bad_yx", "                bad_msk[bad_yx")])
bug('c02-interpbuf', 'C02', [
    (I, "        interp_image = image.copy()\n",
     "        interp_image = _BUF.setdefault(image.shape, image.copy())\n"
     "        interp_image[...] = image\n"),
    (I, "def interpolate_image_at_mask(",
     "_BUF = {}\n\n\ndef interpolate_image_at_mask(")])
