"""Workloads and reference model for foreground masking and interpolation"""
import numpy as np
import scipy.ndimage

import wl

MASKBIT, EXPBIT, INTERPBIT = 2**8, 2**9, 2**10
BUFF = 4


def gen_mask(r, dims, square):
    """holes and options, degenerate ones included"""
    style = r.choice(['few', 'few', 'few', 'edge', 'huge', 'leave', 'off',
                      'none', 'border', 'many'])
    holes = []
    d0, d1 = dims

    def hole(x, y, rad):
        holes.append([round(x, 3), round(y, 3), round(rad, 3)])

    if style in ('few', 'many'):
        for _ in range(r.choice([1, 1, 2, 3]) if style == 'few' else 8):
            hole(r.uniform(-3, d1 + 3), r.uniform(-3, d0 + 3),
                 r.choice([0.4, 1.0, 1.5, r.uniform(1, 10)]))
    elif style == 'edge':
        hole(r.choice([0, d1 - 1]), r.uniform(0, d0), r.uniform(3, 12))
    elif style == 'huge':
        hole(d1 / 2, d0 / 2, 2.0 * max(dims))
    elif style == 'leave':
        # leave only a few pixels in one corner
        hole(d1 - 1, d0 - 1,
             np.hypot(d0 - 1, d1 - 1) + r.uniform(-3.0, 0.3))
    elif style == 'border':
        # a huge radius leaves at most a strip along one side
        hole(d1 / 2, d0 * 60.0, 60.0 * d0 - r.uniform(0.2, 2.5))
    elif style == 'off':
        hole(-30.0, -30.0, r.uniform(1, 20))
    method = r.choice(['interp', 'interp', 'interp-noise', 'interp-noise',
                       'apodize'])
    return dict(
        holes=holes, method=method, style=style,
        sym=square and r.random() < 0.4,
        expand=r.choice([0, 0, 0.7, 1, 2, 5.5]), ap_rad=r.choice([0.4, 1.0, 2.0]),
        iso_buff=r.choice([1, 1, 2, 4, 6]), dt=r.choice(['f8', 'f4', '>f8']),
        rng=r.randrange(2**31))


def gen_mask_workload(r):
    d = r.choice([20, 28, 36])
    dims = [d, d] if r.random() < 0.6 else [d, r.choice([17, 24, 33])]
    nb = r.choice([1, 2, 2, 3])
    mb = wl.gen_mbobs_params(r, nband=nb, nobj=1, dims=dims,
                             masks=r.random() < 0.5)
    bands = []
    for b in range(nb):
        bands.append(dict(
            kind=r.choice(['ok', 'ok', 'ok', 'ok', 'zero', 'thin']),
            ignore=r.random() < 0.5, nan=r.random() < 0.3))
    return dict(mb=mb, bands=bands, mask=gen_mask(r, dims,
                                                  dims[0] == dims[1]))


def arrays(m):
    h = np.array(m['holes'], dtype='f8').reshape(-1, 3)
    return tuple(np.ascontiguousarray(h[:, i]).astype(m['dt'])
                 for i in range(3))


def hole_map(m, dims, grow=0.0):
    """(inside, undecided) reference maps of the holes"""
    xm, ym, rm = [a.astype('f8') for a in arrays(m)]
    # the caller adds the expansion in the dtype of the radii
    rm = (arrays(m)[2] + grow).astype('f8')
    inside = np.zeros(dims, bool)
    near = np.zeros(dims, bool)
    rr, cc = np.mgrid[:dims[0], :dims[1]]
    for x, y, rad in zip(xm, ym, rm):
        r2 = (rr - y)**2 + (cc - x)**2
        inh = r2 < rad * rad
        rim = np.abs(r2 - rad * rad) <= 1e-9 * max(rad * rad, 1e-9)
        if m['method'] == 'apodize' and grow == 0.0:
            # so close to the rim the apodization may round to one
            rad_in = max(rad - 0.02 * m['ap_rad'], 0)
            rim |= inh & (r2 >= rad_in**2)
            inh &= ~rim
        inside |= inh
        near |= rim
    if m['sym']:
        inside = inside | np.rot90(inside)
        near = near | np.rot90(near)
    if m['method'] == 'apodize' and grow == 0.0:
        near &= ~inside
    return inside, near


def make_mask_mbobs(w):
    """observations, with the band quirks applied"""
    mb = wl.make_mbobs(w['mb'])
    dims = tuple(w['mb']['dims'])
    inside, _ = hole_map(w['mask'], dims)
    for b, q in enumerate(w['bands']):
        if b >= len(mb):
            break
        o = mb[b][0]
        with o.writeable():
            if q['kind'] == 'zero':
                o.weight[:, :] = 0
            elif q['kind'] == 'thin':
                # positive weight only inside the holes
                o.weight[~inside] = 0
            if q['nan'] and w['mask']['method'] != 'apodize':
                o.image[inside] = np.nan
                o.noise[inside] = np.inf
        if q['ignore'] and np.any(o.weight > 0):
            o.ignore_zero_weight = True
    return mb


def only_band(mb, b):
    import ngmix
    new = ngmix.MultiBandObsList(meta=mb.meta)
    new.append(mb[b])
    return new


def apply_mask(w, mb, rng):
    from metadetect import masking
    m = w['mask']
    xm, ym, rm = arrays(m)
    masking.apply_foreground_masking_corrections(
        mbobs=mb, xm=xm, ym=ym, rm=rm, method=m['method'],
        mask_expand_rad=m['expand'], mask_bit_val=MASKBIT,
        expand_mask_bit_val=EXPBIT, interp_bit_val=INTERPBIT,
        symmetrize=m['sym'], ap_rad=m['ap_rad'], iso_buff=m['iso_buff'],
        rng=rng)


# ---------------------------------------------------------------------------
def isolated(bad, iso_buff):
    """bad pixels with no good pixel within iso_buff"""
    n = 2 * int(iso_buff) + 1
    near_good = scipy.ndimage.maximum_filter(
        (~bad).astype('u1'), size=n, mode='constant', cval=0)
    return bad & (near_good == 0)


def good_points(bad, buff=BUFF):
    n = 2 * buff + 1
    near_bad = scipy.ndimage.maximum_filter(
        bad.astype('u1'), size=n, mode='constant', cval=0)
    return np.argwhere(~bad & (near_bad != 0))


def spans(pts):
    """can these points be triangulated?"""
    if len(pts) < 3:
        return False
    d = pts - pts[0]
    return bool(np.linalg.matrix_rank(d.astype('f8')) == 2)


def interpolable(bad, fill, iso_buff, buff=BUFF):
    """can the bad pixels be filled?"""
    if bad.all():
        return False
    if not bad.any():
        return True
    use = bad
    if fill:
        use = bad & ~isolated(bad, iso_buff)
        if not use.any():
            return True
    return spans(good_points(use, buff))
