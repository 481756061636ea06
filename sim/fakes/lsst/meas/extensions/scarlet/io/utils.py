import numpy as np
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet


def updateCatalogFootprints(modelData, catalog, band, imageForRedistribution=None,
                            removeScarletData=True, updateFluxColumns=True):
    """give every modelled source the footprint of its convolved model"""
    md = modelData.metadata
    if band not in md['bands']:
        raise ValueError('%r is not in bands' % band)
    for full in modelData.blends.values():
        for bd in full.children.values():
            blend = bd.minimal_data_to_blend(
                model_psf=md['model_psf'][None], psf=md['psf'],
                bands=md['bands'])
            obs = blend.observation
            dh, dw = (k // 2 for k in obs.psfs.shape[1:])
            for s in blend.sources:
                box = s.bbox.grow((dh, dw)) & obs.bbox
                m = obs.convolve(s.get_model().project(bbox=box), mode='real')
                valid = np.max(m.data, axis=0) != 0
                fp = Footprint(SpanSet(valid, m.yx0[-1], m.yx0[-2]))
                fp.addPeak(s.center[1], s.center[0], float(np.max(m.data)))
                catalog.find(s.metadata['id']).setFootprint(fp)
