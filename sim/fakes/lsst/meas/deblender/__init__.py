"""deblending by assigning every pixel to its nearest peak"""
import numpy as np
import simhook
from lsst.afw.detection import Footprint
from lsst.afw.geom import SpanSet
from lsst.pex.config import Config, Field
from lsst.pipe.base import Task


class SourceDeblendConfig(Config):
    maxFootprintArea = Field[int](doc='', default=1000000)
    maxFootprintSize = Field[int](doc='', default=0)
    maxNumberOfPeaks = Field[int](doc='', default=0)


class SourceDeblendTask(Task):
    ConfigClass = SourceDeblendConfig
    _DefaultName = 'sourceDeblend'

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = schema
        schema.fields.add('deblend_nChild')

    def run(self, exposure, sources):
        simhook.point('deblend.run', None)
        for parent in list(sources):
            fp = parent.getFootprint()
            if len(fp.getPeaks()) < 2:
                continue
            for cfp in split(fp):
                r = sources.addNew()
                r.setParent(parent.getId())
                r.setFootprint(cfp)
            parent.set('deblend_nChild', len(fp.getPeaks()))
        simhook.note('kids', [
            (r.getFootprint().getPeaks()[0].getIx(),
             r.getFootprint().getPeaks()[0].getIy())
            for r in sources if r['deblend_nChild'] == 0])
        simhook.pair('kids', 'detmask')


def split(fp):
    y, x = fp.getSpans().indices()
    pk = fp.getPeaks()
    d = np.array([(y - p.getIy())**2 + (x - p.getIx())**2 for p in pk])
    own = d.argmin(axis=0)
    out = []
    for i, p in enumerate(pk):
        k = own == i
        c = Footprint(SpanSet.of(y[k], x[k]))
        c.addPeak(p.getFx(), p.getFy(), p.getPeakValue())
        out.append(c)
    return out
