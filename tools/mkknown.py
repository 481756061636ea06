"""Write known_findings.json: repaired defects, and those left in place"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = {
 'do not coadd one band when others were asked for': ('C04', 'with a single band of data, a joint fit asked to use further shear bands dropped them silently and gave an unflagged result'),
 'do not leave partly filled mbobs data caches behind': ('C06', 'a run stopped while the metacal data were made left a partly filled cache entry; the next run on the object failed with a KeyError or used it'),
 'do not write fitter defaults into the caller\'s configuration': ('C08', 'the sub-dictionaries of fitters in the caller\'s configuration were edited'),
 'return None when the good pixels cannot be triangulated': ('C09', 'collinear good pixels raised QhullError out of interpolation and masking instead of giving a flagged band (also C15)'),
 'do not make interpolation noise from a band without weight': ('C09', 'noise filling of a band without weight raised or produced undefined noise'),
 'record the subtracted sky also when detection fails': ('C13', 'an exposure whose detection failed kept a BGMEAN without the sky already removed'),
 'evaluate the psf inside the image when coadding exposures': ('C16', 'the detection coadd evaluated the psf at array coordinates, outside images whose origin is not zero'),
 'proceed when the fit of the original psfs fails': ('C16', 'a failed psf fit ended the run with an error although the code says it can fail and the run proceeds'),
 'let the masked fraction exposures be absent': ('C16', 'running without masked fraction exposures raised an error'),
 'use the configured stamp size': ('C16', 'the configured stamp_size was ignored (also C14)'),
 'give no sources when the bands cannot be coadded for detection': ('C16', 'a sheared image without any weight ended the run with an error instead of giving None for its type'),
 'use the configured deblender for photometry': ('C16', 'photometry ignored the configured deblender'),
 'flag sources without a psf instead of failing the measurement': ('C12', 'one source without a psf ended the whole measurement'),
 'index the masked fraction image by row, then column': ('C12', 'masked fractions were measured at the transposed position'),
 'give each source the mask bits at its own peak': ('C12', 'mask bits of blended catalogs were those of another source'),
 'use the footprint for stamps without a size': ('C10', 'a stamp without a size raised a TypeError'),
 'leave no band with a partly inserted model': ('C10', 'a failure between the bands of an insertion left some bands with the model'),
 'take stamps from the bands of the exposures': ('C10', 'the plain extractor\'s get_stamp raised an AttributeError'),
 'subtract models from data of a single band': ('C10', 'models of single-band data raised a TypeError'),
 'insert a source in all bands or in none': ('C11', 'a failure between the bands of an insertion left some bands with the source'),
 'do not write the threshold into the caller\'s LSST configuration': ('C08', 'the detection threshold was written into the caller\'s detect and skysub configuration'),
 'do not alter the exposure when an observation cannot be converted': ('C20', 'an observation that could not be converted (a wrong mask name, no mask, no psf) had already overwritten the image and variance of the given exposure'),
 'keep the masks of coadds whose multiband data cannot be made': ('C20', 'the masks of the coadds were zeroed before the multiband data were made: after a failure (an item missing in a later band, bands that do not match, no memory) they were lost and a second attempt gave empty ormasks'),
 'exclude pixels of neighbours in colour-dependent runs too': ('C17', 'with weight_type uberseg objects measured again on the observations of their colour kept the weight of their neighbours\' pixels (no segmentation map was given for these stamps)'),
 'restore all bands when setting up a noise replacer fails': ('C11', 'a failure in a later band left the earlier bands replaced by noise'),
}
WHAT.update(json.load(open(os.path.join(V, 'tools', 'more_known.json')))
            if os.path.exists(os.path.join(V, 'tools', 'more_known.json'))
            else {})
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s'], capture_output=True, text=True)
fixed = []
for line in log.stdout.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        p, what = WHAT[s[5:]]
        fixed.append('fixed: property=%s %s %s' % (p, h, what))
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(
    V, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
