"""one footprint with pixel values in several bands"""
from lsst.afw.detection import HeavyFootprint


class MultibandFootprint(object):
    def __init__(self, bands, singles):
        self.bands = tuple(bands)
        self.singles = singles

    @staticmethod
    def fromImages(bands, image, mask=None, variance=None, footprint=None,
                   xy0=None, thresh=None):
        y, x = footprint.getSpans().indices()
        b = image.getBBox()
        singles = []
        for i, band in enumerate(bands):
            h = HeavyFootprint(
                footprint, image.array[i][y - b.y0, x - b.x0].copy())
            h.tag = band
            singles.append(h)
        return MultibandFootprint(bands, singles)

    def __getitem__(self, band):
        return self.singles[self.bands.index(band)]

    def __iter__(self):
        return iter(self.singles)

    def __len__(self):
        return len(self.bands)

    def getBBox(self):
        return self.singles[0].getBBox()

    spans = property(lambda s: s.singles[0].spans)
    peaks = property(lambda s: s.singles[0].peaks)
