import numpy as np


def get_image_info_struct(nimage, path_len, image_id_len=None, wcs_len=None,
                          ext_len=None):
    dtype = [
        ('image_id', 'i8'),
        ('image_flags', 'i8'),
        ('magzp', 'f4'),
        ('scale', 'f4'),
        ('position_offset', 'f8'),
        ('image_path', 'U%d' % path_len),
        ('image_ext', 'i2'),
        ('weight_path', 'U%d' % path_len),
        ('weight_ext', 'i2'),
    ]
    st = np.zeros(nimage, dtype=dtype)
    st['scale'] = 1.0
    return st
