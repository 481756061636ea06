import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
M="metadetect/metadetect.py";F="metadetect/fitting.py";D="metadetect/detect.py";K="metadetect/masking.py";I="metadetect/interpolate.py"
L="metadetect/lsst/"
p("C01","Same inputs, configuration and RNG seed always give the same result",
 "Running metadetection, foreground masking, mask interpolation or the LSST pipeline twice on equal inputs, an equal configuration and an equally seeded random generator gives identical results, bit for bit, and leaves the caller's generator in the same state. The result does not depend on the time of day, the process's hash seed, process-global random state, or what the process ran (or failed to run) before. A run neither reads nor advances process-global random state.",
 ["histories","configurations","fault_sequences","inputs"],
 "every workload and configuration, every history of earlier completed, failed or interrupted runs in the same process, every clock behaviour (jumps, stalls, backward steps), every hash seed and every state of the global random generators",
 "Tests run a workload once or twice in one fresh process with one hash seed and a normal clock; they cannot sample earlier histories, clock faults or fresh interpreters with other hash seeds.",
 [M,F,D,K,I,L+"metadetect.py",L+"measure.py",L+"util.py"],
 [("all randomness comes from the generator argument",M+" Metadetect.__init__/go; "+K+" apply_foreground_masking_corrections; "+I+" interpolate_image_at_mask"),("timings only go to log messages",M+" _get_mbobs_data, _measure, _do_detect"),("per-object state only",M+" Metadetect.__init__")])
p("C02","Concurrent callers get the results they would get alone",
 "Threads that run metadetection, fitting, masking, interpolation or configuration building at the same time, each on its own observations and generator but sharing the same configuration objects, each get exactly the result they get when run alone. This holds for every interleaving of the threads and also when one of them fails part way.",
 ["schedules","fault_sequences","configurations"],
 "every preemption schedule of 2-4 caller threads down to single source lines of the library, with and without faults injected in one of them",
 "No test starts a thread; a shared scratch buffer, module level cache or temporary edit of a shared configuration passes every sequential test.",
 [M,F,D,K,I,"metadetect/mfrac.py","metadetect/procflags.py",L+"configs.py"],
 [("instance-level caches and fitters",M+" Metadetect._get_mbobs_data, _set_fitter"),("fresh arrays per call",F+" get_wavg_output_struct, make_coadd_obs, symmetrize_obs_weights; "+I+" interpolate_image_at_mask"),("config is copied, not edited",L+"configs.py get_config; "+D+" MEDSifier._set_sx_config")])
p("C03","A failed measurement costs only that object's row",
 "When the fit of some objects, bands or point-spread functions fails (the fitter reports flags, returns no moments, or in a joint fit raises), every detected object still has exactly one row, in detection order, in every fitter's columns. The rows of all other objects, in all sheared images, are identical to those of the same run without the failures, and for the failed object the columns of other fitters and the position, mask and detection bookkeeping are unchanged.",
 ["fault_sequences","inputs","configurations"],
 "every set of failing (object, band, fitter, sheared image) calls, every failure kind a fitter can report, every fitter combination, band combination and layout of objects",
 "Tests build single-object results by hand or run with fitters that succeed; which call fails and how, among hundreds in a run, is never varied.",
 [M,F,D],
 [("one result row per stamp",F+" fit_mbobs_list_wavg, fit_mbobs_list_joint, combine_fit_res"),("bookkeeping joined by row",M+" _add_positions_and_psf, _go_bands_with_color")])
p("C04","An unflagged measurement is a genuine one",
 "If an object's overall flag for a fitter is zero, all the data and fits it depends on succeeded: its shape, size, signal-to-noise and fluxes are finite and equal to those of the run in which nothing failed. Any failure among the object's own fits (in a band used for shear, the point-spread function fit of such a band, or a band's flux), and any stamp with zero weight, missing band or rejected mask bits, gives a non-zero overall flag; failures are never replaced by plausible numbers or by silently dropping a band, and a joint fit reports no point-spread function failure that did not happen.",
 ["fault_sequences","inputs","configurations"],
 "every placement and kind of fit failure and of bad stamp data over objects, bands, fitters and sheared images",
 "The tests check flags for a few hand-made single-object failures; the property is about every failure position in whole runs, with all fitters sharing state.",
 [F,M,"metadetect/procflags.py"],
 [("flag accumulation over bands",F+" _fit_obs, _sum_bands_wavg, _combine_fit_results_wavg, fit_mbobs_admom, fit_mbobs_gauss, make_coadd_obs"),("per-row flags",F+" get_wavg_output_struct")])
p("C05","A run's outcome always tells whether measurement was possible",
 "A completed run gives None if and only if some band has no weight anywhere, some band is fully masked for detection, the masked fraction is one everywhere, or the point-spread function failure makes metacal impossible; otherwise it gives a dictionary with every configured metacal type, holding None for types in which nothing was measured. A failed point-spread-function fit of the original data is reported as a flag on every row, with undefined values, and never prevents or changes the object measurements.",
 ["fault_sequences","configurations","inputs"],
 "every combination of point-spread function fit failures, metacal failures, images without detections and unusable bands, over band and metacal-type configurations, including colour-dependent runs",
 "Tests cover a few of these conditions one at a time; the combinations with failures at particular calls (one colour's metacal, one sheared image without detections) are not reachable with real fitters on test images.",
 [M,F],
 [("None versus dictionary",M+" Metadetect.go"),("psf failure handling",M+" _get_mbobs_data, _get_psf_stats, _get_all_metacal; "+F+" fit_all_psfs")])
p("C06","An interrupted run leaves nothing behind",
 "If a run is stopped (by an unexpected error, an interrupt or memory exhaustion) at any external call, the condition reaches the caller and no new result is published. Running again on the same object or the same inputs, with the generator restored, gives exactly the result of a run that was never stopped, however often it was stopped before. The failures a run is documented to contain (a joint fit that raises, a masked fraction or point-spread function that cannot be determined) become flags instead.",
 ["crash_points","fault_sequences","histories"],
 "every interruption point at a call into a dependency, every kind of interruption, and every sequence of up to several interruptions followed by a retry, on the same instance or a fresh one",
 "Tests never interrupt a run; the caches inside an instance are only exercised on the success path.",
 [M,F,K],
 [("caches filled before use",M+" Metadetect._get_mbobs_data"),("result published last",M+" Metadetect.go")],
 state=[{"name":"per-instance caches","meaning":"metacal images, psf fit flags, mask images keyed by colour and bands"}])
p("C07","Sharing work between runs never changes an answer",
 "Measuring several shear-band combinations, detection-band combinations or colours in one run gives, for each, the rows that a separate run for that combination alone gives (original point-spread function and masked fraction averages up to rounding where the same bands are listed in another order), in the order the combinations were listed; repeating a run on the same object gives the same rows. Work reused between combinations or colours is reused only for the same data and bands, whatever the order and repetition of the requests and whichever of them failed.",
 ["histories","configurations","fault_sequences"],
 "every order, repetition and overlap of shear-band and detection-band combinations and every history of colour keys, including keys that alias the original observations and combinations whose fits fail",
 "Tests use a few fixed combinations and compare shapes of results rather than each row against an independent run; cache collisions need particular histories.",
 [M],
 [("cache keyed by colour and shear bands",M+" Metadetect._get_mbobs_data"),("results stacked per combination",M+" Metadetect.go, _go_bands, _go_bands_with_color")])
p("C08","The caller's data and configuration are never modified",
 "Running metadetection, detection, fitting, configuration building or metacal leaves the caller's images, weights, masks, noise, masked-fraction maps, point-spread functions, colour-dependent observations, band lists and configuration dictionaries (including nested ones) exactly as they were, whether the run succeeds, fails or is interrupted. Only the documented exceptions change: fit results stored in a point-spread function's metadata, and the images passed to the masking and sky-subtraction functions whose purpose is to modify them.",
 ["fault_sequences","crash_points","configurations","inputs"],
 "every workload, configuration shape (nested, shared between fitters) and interruption point",
 "Tests do not snapshot inputs, and no test looks at them after a failure part way.",
 [M,F,D,"metadetect/mfrac.py",L+"configs.py",L+"measure.py",L+"skysub.py",L+"metacal_exposures.py",L+"metadetect.py"],
 [("copies before edits",F+" symmetrize_obs_weights, make_coadd_obs; metadetect/mfrac.py measure_mfrac; "+D+" get_cutout, _set_detim; "+M+" _get_ormask_and_bmask"),("configuration defaults",M+" _set_fitter; "+L+"measure.py get_detect_and_deblend_task; "+L+"skysub.py subtract_sky_mbexp")])
p("C09","Foreground masking never leaves altered pixels that look good",
 "Foreground masking, apodization and edge masking, completed or stopped at any point and then repeated, never alter the image, noise, weight or mask bits of pixels outside the holes. Once complete, every band has all hole pixels flagged, with zero weight (infinite variance in LSST exposures), masked fraction one and finite data. A band that cannot be interpolated (no, too few or collinear good pixels, no weight to make noise from) is flagged and zero-weighted everywhere instead of failing, and the other bands come out as without it. Repeating a stopped interpolation with the generator restored gives exactly the result of one that was never stopped.",
 ["crash_points","fault_sequences","inputs","histories"],
 "every hole layout (overlapping, off-image, covering everything, leaving few or collinear good pixels), masking method, band count, and every interruption at an external or allocation call followed by a retry",
 "Tests check the final state for a few layouts in which nothing fails; stopped calls and degenerate interpolation geometry are never observed.",
 [K,I,L+"masking.py"],
 [("order of updates to bit mask, weight and data",K+" _apply_mask_interp, _apply_mask_apodize, apply_apodization_corrections"),("fallback when interpolation is impossible",K+" _apply_mask_interp; "+I+" interpolate_image_at_mask")])
p("C10","Model subtraction always puts the image back",
 "After any use of a source-inserted context of the model subtractor, left normally or by an exception or interrupt raised inside it, the working image is the fully model-subtracted image in every band up to rounding; while inside, it differs from that by the models of exactly the inserted sources in every band. A failure while a model is being inserted reaches the caller and leaves no band with the model. The original image is never modified, and stamps, observations and models, of any type and size, always show those images at the right place, whatever failed before; one that does not fit is refused unless clipping was asked for. The plain extractor gives the same stamps of the unmodified image.",
 ["crash_points","fault_sequences","histories"],
 "every sequence of inserted sources, nested and repeated, stamps taken, and failures at any per-band insertion or inside the context",
 "The tests need the LSST stack and use each source once without failures; partial insertion over bands needs a failure between two bands.",
 [L+"model_subtractor.py",L+"mbobs_extractor.py",L+"util.py"],
 [("add/subtract context",L+"model_subtractor.py ModelSubtractor.add_source, _add_or_subtract_source"),("working copy",L+"model_subtractor.py _build_subtracted_image; "+L+"util.py copy_mbexp")])
p("C11","Noise replacement is always undone, in every band",
 "After a noise replacer ends, normally, by an exception or interrupt inside it, or because it failed while being set up for a later band, every band's pixels are exactly the original pixels. Within it, pixels outside the footprints are untouched, inserting a source restores that source's own pixels in all bands or, on failure, in none, and removing it restores the noise. Failures inside reach the caller; after a failing removal the end still restores everything, and when ending fails in one band the others are still restored.",
 ["crash_points","fault_sequences","histories"],
 "every sequence of insertions and removals over bands, every failure point in construction, insertion, removal and ending in any band",
 "Tests need the LSST stack and exercise only the success path of one construction; partial construction needs a failure in a later band.",
 [L+"util.py"],
 [("exit stack over bands",L+"util.py MultibandNoiseReplacer._set_noise_replacers"),("insert/remove context",L+"util.py ContextNoiseReplacer.sourceInserted, MultibandNoiseReplacer.sourceInserted")])
p("C12","LSST measurement: one flagged row per source, whatever fails",
 "Every deblended source gives exactly one catalog row, whose position, offsets, mask bits, masked fraction, stamp and fits all belong to that same source, with other sources' models removed when the scarlet deblender is used. A stamp that leaves the image, has no weight or no point-spread function, or whose fit fails, only flags its own row (stamp or fit flags) and leaves all other rows as they are in the run without the failure.",
 ["fault_sequences","inputs","configurations"],
 "every set of failing stamps (edge, zero weight, missing PSF, failing fits) over blends of any structure, in SDSS and scarlet deblending modes, one or more bands",
 "The LSST tests cannot run without the stack and use scenes without failures; misaligned rows show only with blended catalogs.",
 [L+"measure.py",L+"mbobs_extractor.py",L+"model_subtractor.py",L+"util.py"],
 [("row loop",L+"measure.py measure, get_bmasks, get_output"),("stamp errors to flags",L+"measure.py measure; "+L+"util.py extract_obs, get_bbox")])
p("C13","A sky-subtraction failure stays in its own exposure",
 "When background estimation or detection fails in one band, or at one iteration, with one of the stack's own errors, the failure is absorbed: the other bands are sky-subtracted exactly as without the failure. In every exposure, including a failing one, the recorded total background (none counts as zero) equals the background actually removed from its pixels, and nothing else of it changes. Pixels marked bad, at the edge, without data, bright or detected have no part in a background, whichever way it is asked for. Interrupts and memory exhaustion reach the caller.",
 ["fault_sequences","configurations"],
 "every (band, iteration, step) at which background estimation or detection raises one of its documented errors, for every number of bands and iterations",
 "Tests need the LSST stack and never make a task fail.",
 [L+"skysub.py"],
 [("iteration and error handling",L+"skysub.py IterateDetectionSkySubTask.run, SubtractSkyMbExpTask.run")])
p("C14","Configuration defaults survive every history of use",
 "Building a configuration from user overrides always gives the library's defaults with exactly those overrides applied, or a rejection of unknown or missing keys, whatever configurations were built, rejected, interrupted or modified by their owners before, and however many threads build them at once. Building never modifies the caller's overrides, and setting entries of a built configuration or its sub-configurations never changes the defaults, the caller's override dictionaries or another built configuration.",
 ["histories","schedules","fault_sequences"],
 "every history of building, mutating and rejecting configurations, in every interleaving of several threads, with interruptions",
 "Tests build a handful of configurations in a fixed order in one thread; contamination needs a history.",
 [L+"configs.py",L+"defaults.py"],
 [("deep copy of defaults",L+"configs.py get_config"),("shared default dictionaries",L+"defaults.py")],
 state=[{"name":"default configuration","meaning":"module-level nested dictionary"}])
p("C15","Mask interpolation is all-or-nothing and touches only bad pixels",
 "Interpolating an image at masked pixels returns a new image in which all good pixels are unchanged and every bad pixel is replaced by a finite value that does not depend on its previous content, or returns None when the good pixels are too few or cannot be triangulated, or raises, and in all three cases the input image and mask are unmodified. It draws random numbers only from the given generator, only when noise filling is requested and needed, and concurrent or interrupted calls never affect other calls.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "every mask (none, all, isolated, edge, collinear good pixels), corrupted content under the mask, every interruption of the interpolator or allocation, every interleaving of concurrent calls and every history of earlier calls",
 "The tests interpolate one or two fixed masks of a smooth image, once.",
 [I],
 [("copy before fill",I+" interpolate_image_at_mask"),("noise fill of isolated pixels",I+" interpolate_image_at_mask, _get_nearby_good_pixels")])
p("C16","An LSST run always ends with every type and honest PSF flags",
 "A run of the LSST pipeline or photometry whose original point-spread-function fit fails still completes where the configured reconvolution does not need that fit, with the failure flagged on every row, and gives None where it does; a run in which some or all sheared images have no detections or cannot be detected on gives None for exactly those types; optional inputs may be absent. Every configured type is present in the result, an unaffected type's rows equal those of the run without the failure, and the configured stamp size, threshold, deblender, weight function and shear bands are the ones used, also for the original point-spread function; shear bands that were not given are refused.",
 ["fault_sequences","configurations","inputs"],
 "every combination of PSF-fit failures, images without detections, zero-weight bands and absent optional inputs over deblenders, reconvolution kinds, bands and shear-band selections",
 "The LSST tests cannot run without the stack and inject no failures; the documented 'can fail but we proceed' paths are never executed.",
 [L+"metadetect.py",L+"photometry.py",L+"measure.py",L+"metacal_exposures.py"],
 [("psf failure handling",L+"metadetect.py fit_original_psfs_mbexp"),("per-type loop",L+"metadetect.py MetadetectTask.run"),("empty detection",L+"measure.py DetectAndDeblendTask.run, measure")])
p("C17","Every row is measured and described at its own place",
 "Whatever fits failed, and whatever was measured or stopped before on the same object, each row of a metadetection catalog sits at a position detected in that type's own sheared image (the average of exactly the listed detection bands) and was measured on cutouts of that type's images, weights and masks around that position in every band; each cutout has the configured size for its detection, no weight beyond the image and, where so configured, no weight on pixels nearer to another object's segment. In a colour-dependent run the images, weights, masks, masked fractions and original point-spread function are those of the observations of the row's own colour. Its unsheared position undoes that type's configured shear about the image centre; its mask and or-mask bits are those of its shear bands at, or in the configured region around, its own pixel in each frame, clipped to the image; its masked fractions are those of the map at its two positions; its original point-spread function is the average over its shear bands. Every detection has its row, in order, and no other rows exist.",
 ["histories","fault_sequences","inputs","configurations"],
 "every scene (objects at and beyond edges, masks anywhere, several bands and combinations, non-square images, rotated coordinates), sheared type, shear step, mask region, stamp size and weight type, and colours with their own observations, with any fits failing and any earlier attempts",
 "The tests look at a few central objects of one scene; swapped axes, wrapped edges, wrong bands or a stale cache show only at particular positions and combinations.",
 [M,D,"metadetect/shearpos.py","metadetect/mfrac.py"],
 [("row bookkeeping",M+" _add_positions_and_psf, _fill_in_mask_col"),("cutouts",D+" CatalogMEDSifier, MEDSInterface.get_cutout"),("unshearing","metadetect/shearpos.py unshear_positions")])
p("C18","LSST sheared and detection images are made from their own data alone",
 "In an LSST run every configured type gets, in every band, that band's image with its own point-spread function replaced by a round kernel and sheared by exactly that type's shear, plus that band's noise image treated the same in the rotated frame; the kernel is that band's own (from its fitted shape and size, or measured on its point-spread function, as configured), larger by the configured shear step, and is attached as the point-spread function of the result. The variance is doubled; mask, box, coordinates and filter are those of the data. The detection image of a type is the average of exactly its bands weighted by inverse median variance, with combined variance, mask and point-spread function, and is missing exactly when no band has weight. This holds for all types and orders requested and any selection of bands, and whatever was made or stopped before; an unknown type or statistics for another number of bands are refused, an error of the point-spread function reaches the caller, and the inputs are never changed.",
 ["histories","fault_sequences","inputs","configurations"],
 "every history of requests over nearly equal inputs in one process, each possibly stopped at any operation; every selection and order of types and bands, image shape, origin, rotation and kernel",
 "The LSST tests cannot run without the stack; they compare a few images of one scene and have no history and no failures.",
 [L+"metacal_exposures.py",L+"util.py",L+"metadetect.py",L+"measure.py"],
 [("sheared images",L+"metacal_exposures.py get_metacal_exps, get_metacal_mbexps_fixnoise"),("detection image",L+"util.py coadd_exposures")])
p("C19","A combined measurement uses exactly its shear bands, each by its own data",
 "For every fitter, the shape, size, signal to noise, covariance and point-spread-function columns of an object are what combining the cutouts of exactly the requested shear bands gives, in whatever order they were listed: moments are each divided by their own normalisation and averaged by each band's median positive weight, point-spread-function moments counting by the object's flux in that band; joint fits are made of the shear bands, or of their average by the same weights with the combined noise and point-spread function when a coadd is asked for; sizes enter the shapes regularised by exactly the configured amount while the reported size does not change; weights are made four-fold symmetric when configured and only then; each fitter of a run uses its own window and smoothing. Every band's flux and error are that band's own measurement, also where another band or another object failed. An object whose bands are all usable and consistent and whose fits succeed is not flagged. None of this depends on the other objects in the list, on earlier requests over the same cutouts, or on ones that were stopped.",
 ["histories","fault_sequences","inputs","configurations"],
 "every list of cutouts (missing, unweighted, rejected or inconsistent bands, bad pixels of any shape), fitter, setting and band selection, with any fits failing, and every history of finished and stopped requests over the same cutouts or attempts on the same object",
 "The tests compare a few one- and two-band fits with each other for one scene and setting, without failures or earlier requests; wrong weights, bands or remembered state give plausible numbers.",
 [F,M],
 [("weighted average over bands",F+" _sum_bands_wavg, _make_mom_res"),("coadding",F+" make_coadd_obs"),("joint fits",F+" fit_mbobs_gauss, fit_mbobs_admom"),("fitter settings",M+" _set_fitter")])
p("C20","Exposures convert to observations and back exactly, or stay as they are",
 "The observation made from an exposure holds its image, the inverse of its variance where that is positive and no weight elsewhere, its mask in the requested slot and nothing in the other, its wcs linearised at the box's whole-pixel centre and relative to the box's corner, and the point-spread function drawn there; the exposure filled from an observation holds the observation's image, variance, requested mask and, when asked for, its point-spread function, within its own box and nowhere else, so that there and back is the identity. The multi-band data made of a list of coadds hold every band's own pixels, wcs, filter and point-spread function in the order given, with cleared masks, and independent copies of the original masks; a copy of multi-band data is equal and independent. A conversion that cannot be made (a wrong name, a missing or ill-shaped item, bands that do not match, a failed allocation or an undefined point-spread function) raises and leaves every exposure and observation as it was - in particular the masks of the coadds - so that it can be made later; and no conversion depends on earlier ones.",
 ["histories","fault_sequences","inputs"],
 "every history of finished, refused and stopped conversions over exposures of any size, position, wcs, band order, precision and with undefined variances",
 "One test converts one square exposure there and back; no test has an exposure away from the origin, an asymmetric wcs, a refused conversion or a second one after it.",
 [L+"util.py"],
 [("exposures and observations",L+"util.py exp2obs, obs2exp, get_jacobian, get_integer_center"),("multi-band data of coadds",L+"util.py extract_multiband_coadd_data, get_mbexp, copy_mbexp")])
import sys
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
