"""Ellipse parameter cache (HOMOG2D_OPTIMIZE_SPEED)"""
import cache
from core import *
from props.P01 import check
from props.P02 import scaled
RULE = ('Typestate dataflow (same engine as P01/P02) in the HOMOG2D_OPTIMIZE_SPEED configuration: one cache per field of the stored parameter record; after any write of the matrix '
        'the record may be flagged valid only once every field was written again, on every path of every public function. One obligation per (function instantiation, object, field).')
ASSUMPTIONS = ['scaling the whole matrix leaves the parameters unchanged (a conic is defined up to a factor)']
def protos(F):
    par = [r for r in F.records if r['q'] == 'h2d::detail::EllParams']
    return [cache.Proto('cached ellipse parameter ' + fd['n'], 'h2d::Ellipse_', ('_mdata',), ('_epHasChanged',), False, ('_par', fd['n']), scaled, True) for fd in (par[0]['fields'] if par else ())]
def run(cx):
    cfgs = ('speed',)
    for F in cx.extract(*cfgs):
        check(cx, F, protos(F), 20, 'ellipse')
