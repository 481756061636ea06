"""Base class of the checks and shrinking helpers"""
import copy
import random


class Check:
    id = None
    level = 'exploration'
    n_quick = 100
    n_thorough = 2000
    rule = ''
    measure = ''
    real = ['metadetect (all code of the working tree)', 'numpy', 'scipy',
            'numba', 'esutil', 'sep']
    stubs = ['ngmix', 'sxdes', 'meds']
    assumptions = [
        'the stub dependencies report success and failure the way the real '
        'ones do (result dictionaries, exceptions, skipped observations)',
        'a clean batch is evidence from sampled runs, not proof',
    ]
    known = []
    isolate = False      # every run in a process of its own

    def warm(self):
        """compile the numba functions once, before workers are forked"""
        try:
            import numpy as np
            from metadetect import masking, interpolate
            a = np.array([5.0])
            masking.make_foreground_bmask(
                xm=a, ym=a, rm=a, dims=(12, 12), symmetrize=False,
                mask_bit_val=4)
            masking.make_foreground_apodization_mask(
                xm=a, ym=a, rm=a, dims=(12, 12), symmetrize=False,
                ap_rad=1.5)
            bad = np.zeros((12, 12), bool)
            bad[4, 5] = True
            interpolate.interpolate_image_at_mask(
                image=np.ones((12, 12)), bad_msk=bad)
            masking._build_square_apodization_mask(0.2, np.ones((12, 12)))
        except Exception:
            pass

    def rng(self, seed):
        return random.Random('plan:' + str(seed))

    def gen(self, seed):
        raise NotImplementedError

    def run(self, plan):
        raise NotImplementedError

    def shrink(self, plan):
        """candidate simpler plans, most aggressive first"""
        for path in self.shrink_lists(plan):
            yield from drop_from_list(plan, path)
        yield from self.shrink_more(plan)

    def shrink_lists(self, plan):
        return []

    def shrink_more(self, plan):
        return []


def get_path(plan, path):
    x = plan
    for k in path:
        if isinstance(x, dict):
            if k not in x:
                return None
            x = x[k]
        elif isinstance(x, list):
            if k >= len(x):
                return None
            x = x[k]
        else:
            return None
    return x


def with_path(plan, path, val):
    new = copy.deepcopy(plan)
    x = new
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = val
    return new


def drop_from_list(plan, path, minlen=0):
    lst = get_path(plan, path)
    if not isinstance(lst, list) or len(lst) <= minlen:
        return
    n = len(lst)
    size = n
    while size >= 1:
        for lo in range(0, n, size):
            keep = lst[:lo] + lst[lo + size:]
            if len(keep) >= minlen and len(keep) < n:
                yield with_path(plan, path, copy.deepcopy(keep))
        size //= 2
