"""Stub of sxdes: SExtractor-like detection using the real sep library"""
import numpy as np
import sep
import simhook

SX_CONFIG = {
    'filter_type': 'conv',
    'minarea': 6,
    'deblend_nthresh': 32,
    'deblend_cont': 0.00001,
    'filter_kernel': np.array([
        [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
        [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
        [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
        [0.068707, 0.296069, 0.710525, 0.951108, 0.710525, 0.296069, 0.068707],
        [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
        [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
        [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
    ]),
}
DETECT_THRESH = 0.8


def run_sep(image, noise, config=None, mask=None, thresh=DETECT_THRESH):
    if config is None:
        config = SX_CONFIG
    kind = simhook.point('detect', None)
    if kind == 'nodetect':
        objs, seg = sep.extract(
            np.zeros_like(image), 1.0, err=1.0, segmentation_map=True)
    else:
        objs, seg = sep.extract(
            np.ascontiguousarray(image, dtype='f8'), thresh, err=noise,
            mask=mask, segmentation_map=True, **config)
    dt = objs.dtype.descr + [
        ('number', 'i4'), ('iso_radius', 'f4'), ('flux_radius', 'f4'),
        ('kron_radius', 'f4'), ('flux_auto', 'f4'), ('isoarea_image', 'f4'),
    ]
    cat = np.zeros(objs.size, dtype=dt)
    for n in objs.dtype.names:
        cat[n] = objs[n]
    cat['number'] = np.arange(1, objs.size + 1)
    cat['isoarea_image'] = objs['npix']
    cat['iso_radius'] = np.sqrt(objs['npix'].clip(min=1) / np.pi)
    cat['flux_radius'] = 0.7 * cat['iso_radius']
    cat['flux_auto'] = objs['flux']
    simhook.note('det', (cat['x'].copy(), cat['y'].copy()))
    return cat, seg
