"""degenerate or invalid arguments are rejected, valid ones are not"""
import imply
from core import *
from util import *
RULE = ('Implied-facts dataflow: what the mere fact that a public function returns normally implies on its arguments and object (forward must-analysis over the CFG, boolean helper results and normal return of callees summarised interprocedurally). '
        'For each function that documents a precondition, normal return must imply it: points/lines/circles told apart with the documented threshold, sizes and indices within their bounds, distances and radii of the right sign, '
        'or (requests without meaning) the function must not return at all. A bound on a size or sign must not be stricter than the documented one. One obligation per (function instantiation, documented precondition).')
ASSUMPTIONS = ['build without HOMOG2D_NOCHECKS', 'the formula measuring the compared quantity (distance, angle, determinant) is right; which operands it is computed from is decided']
D, O, A, Z, T = 'nullDistance', 'nullOrthogDistance', 'nullAngleValue', 'nullDenom', 'nullDeter'
NE = lambda roots, thr, axis=None: ('NE', tuple(roots.split()), thr, axis)
EQ = lambda roots, thr: ('EQ', tuple(roots.split()), thr, None)
MIN = lambda r, k: ('MIN', (r,), k)
MAX = lambda r, k: ('MAX', (r,), k)
NOT = lambda r, k: ('NOT', (r,), k)
GE0 = lambda r: ('FGE', (r,), 0.0)
GT0 = lambda r: ('FGT', (r,), 0.0)
LT = lambda a, b: ('LT', (a,), (b,))
IS = lambda field: ('IS', field)
ELEM = ('ELEM', ('0',), D)          # consecutive elements of the container compared, unless there is at most one
TOP = ('TOP',)
RAD = lambda r: [GE0(r), NE(r, D)]
TABLE = {
 # name(parameter kinds): documented preconditions;  P point L line S/O segment C circle R rectangle E ellipse H homography Y polyline V container d real number i integer e enum
 'Circle_::Circle_(d)': RAD('0'), 'Circle_::Circle_(P d)': RAD('1'), 'Circle_::Circle_(P i)': RAD('1'), 'Circle_::Circle_(d d d)': RAD('2'), 'Circle_::set(d)': RAD('0'), 'Circle_::set(P d)': RAD('1'), 'Circle_::set(d d d)': RAD('2'),
 'Circle_::Circle_(P P)': [NE('0 1', D)], 'Circle_::set(P P)': [NE('0 1', D)],
 'Circle_::Circle_(P P P)': [NE('0 1', D), NE('0 2', D), NE('1 2', D), ('COLL',)], 'Circle_::set(P P P)': [NE('0 1', D), NE('0 2', D), NE('1 2', D), ('COLL',)],
 'Circle_::Circle_(V)': [MIN('0', 2)], 'Circle_::set(V)': [MIN('0', 2)],
 'Circle_::isInside(P P)': [NE('0 1', O, 'x'), NE('0 1', O, 'y')], 'LPBase::isInside<P>(P P)': [NE('0 1', O, 'x'), NE('0 1', O, 'y')],
 'FRect_::FRect_(P P)': [NE('0 1', O, 'x'), NE('0 1', O, 'y')], 'FRect_::set(P P)': [NE('0 1', O, 'x'), NE('0 1', O, 'y')], 'FRect_::FRect_(pair)': [NE('0', O, 'x'), NE('0', O, 'y')],
 'FRect_::FRect_(P d d)': [NE('0 1', O, 'x'), NE('0 2', O, 'y')], 'FRect_::FRect_(d d d d)': [NE('0 2', O), NE('1 3', O)], 'FRect_::set(d d d d)': [NE('0 2', O), NE('1 3', O)],
 'Hmatrix_::inverse()': [NE('this', T)], 'Hmatrix_::normalize()': [NE('this', Z)],
 'Hmatrix_::set(i i d)': [MAX('0', 2), MAX('1', 2)], 'Hmatrix_::value(i i)': [MAX('0', 2), MAX('1', 2)],
 'LPBase::LPBase<P>(L L)': [NE('0 1', A)], 'LPBase::LPBase<L>(P P)': [NE('0 1', D)], 'LPBase::LPBase<L>(d d d d)': [NE('0 1 2 3', D)],
 'LPBase::LPBase<L>(V)': [MIN('0', 3), MAX('0', 3)], 'LPBase::LPBase<P>(V)': [MIN('0', 3), MAX('0', 3)],
 'operator*(P P)': [NE('0 1', D)], 'operator*(L L)': [NE('0 1', A)], 'operator*(S S)': [NE('0 1', A)],
 'LPBase::getBB<P>()': [TOP], 'LPBase::getBB<L>()': [TOP], 'LPBase::length<L>()': [TOP], 'SegVec::getBB<S>()': [TOP], 'SegVec::getBB<O>()': [TOP], 'length(L)': [TOP], 'getBB(P)': [TOP], 'getBB(S)': [TOP],
 'PolylineBase::centroid<o>()': [TOP], 'ppair::getPointPair(L)': [TOP],
 'LPBase::getCoord<L>(e d)': [NE('this', Z)], 'LPBase::getPoint<L>(e d)': [NE('this', Z)], 'LPBase::getPoints<L>(e d d)': [NE('this', Z)], 'LPBase::getOrthogLine<L>(e d)': [NE('this', Z)],
 'LPBase::getPoints<L>(P d)': [EQ('0 this', D)], 'LPBase::getPoints<L>(P i)': [EQ('0 this', D)], 'LPBase::getRotatedLine<L>(P d)': [EQ('0 this', D)], 'LPBase::getOrthogSegment<L>(P)': [NE('0 this', D)],
 'getParallelDistance(L L)': [EQ('0 1', A)],
 'PolylineBase::getBB<c>()': [MIN('this', 2), NE('this', O, 'x'), NE('this', O, 'y')], 'PolylineBase::getBB<o>()': [MIN('this', 2), NE('this', O, 'x'), NE('this', O, 'y')],
 'getBB(Y)': [MIN('0', 2), NE('0', O, 'x'), NE('0', O, 'y')], 'getBB(VP)': [MIN('0', 2)], 'getBB(VS)': [MIN('0', 1)], 'getBB(VC)': [MIN('0', 1)], 'getBB(VR)': [MIN('0', 1)], 'getBB(VE)': [MIN('0', 1)], 'getBB(VY)': [MIN('0', 1)],
 'PolylineBase::getBisectorLines<c>()': [MIN('this', 3)], 'PolylineBase::getBisectorLines<o>()': [MIN('this', 3)], 'getBisectorLines(Y)': [MIN('0', 3)],
 'PolylineBase::getOSegment<c>(i)': [LT('0', 'this'), MIN('this', 2)], 'PolylineBase::getOSegment<o>(i)': [LT('0', 'this'), MIN('this', 2)],
 'PolylineBase::getSegment<c>(i)': [LT('0', 'this'), MIN('this', 2)], 'PolylineBase::getSegment<o>(i)': [LT('0', 'this'), MIN('this', 2)],
 'PolylineBase::getPoint<c>(i)': [LT('0', 'this')], 'PolylineBase::getPoint<o>(i)': [LT('0', 'this')],
 'PolylineBase::moveTo<c>(P)': [MIN('this', 1)], 'PolylineBase::moveTo<o>(P)': [MIN('this', 1)], 'PolylineBase::moveTo<c>(d d)': [MIN('this', 1)], 'PolylineBase::moveTo<o>(d d)': [MIN('this', 1)],
 'PolylineBase::PolylineBase<c>(V)': [NOT('0', 1), ELEM], 'PolylineBase::PolylineBase<o>(V)': [NOT('0', 1), ELEM], 'PolylineBase::set<c>(V)': [NOT('0', 1), ELEM], 'PolylineBase::set<o>(V)': [NOT('0', 1), ELEM],
 'PolylineBase::set<c>(d i)': [GT0('0'), MIN('1', 3)], 'PolylineBase::PolylineBase<c>(d i)': [GT0('0'), MIN('1', 3)],
 'SegVec::SegVec<S>(P P)': [NE('0 1', D)], 'SegVec::SegVec<O>(P P)': [NE('0 1', D)], 'SegVec::SegVec<S>(d d d d)': [NE('0 1 2 3', D)], 'SegVec::SegVec<O>(d d d d)': [NE('0 1 2 3', D)],
 'SegVec::SegVec<S>(pair)': [NE('0', D)], 'SegVec::SegVec<O>(pair)': [NE('0', D)], 'SegVec::set<S>(pair)': [NE('0', D)], 'SegVec::set<O>(pair)': [NE('0', D)],
 'SegVec::set<S>(P P)': [NE('0 1', D)], 'SegVec::set<O>(P P)': [NE('0 1', D)], 'SegVec::set<S>(d d d d)': [NE('0 1 2 3', D)], 'SegVec::set<O>(d d d d)': [NE('0 1 2 3', D)],
 'SegVec::getParallelSegs<S>(d)': [GT0('0')], 'SegVec::getParallelSegs<O>(d)': [GT0('0')], 'getParallelSegs(S d)': [GT0('1')],
 'SegVec::getPointAt<O>(d)': [GE0('0')], 'SegVec::split<O>(d)': [GT0('0'), LT('0', 'this')], 'split(S d)': [GT0('1'), LT('1', '0')],
 'findFarthestPoint(P V)': [MIN('1', 2)], 'findNearestPoint(P V)': [MIN('1', 2)], 'findNearestFarthestPoint(P V)': [MIN('1', 2)],
 'getClosestPoints(Y Y)': [MIN('0', 1), MIN('1', 1)], 'getTanSegs(C C)': [NE('0 1', D)], 'getLine(C C)': [NE('0 1', D)], 'getSegment(C C)': [NE('0 1', D)],
 'ppair::getPointPair(Y)': [MIN('0', 1)], 'img::genRandomColors(i i i)': [LT('1', '2')],
 'operator*(H C)': [NE('0', T)], 'operator*(H E)': [NE('0', T)],
 'detail::Intersect::get()': [IS('_doesIntersect')], 'detail::RectArea::get()': [IS('_success')],
}
for n in 'Bm Tm Lm Rm'.split():
    for k in 'co': TABLE['PolylineBase::get%sPoint<%s>()' % (n, k)] = [MIN('this', 1)]
    TABLE['get%sPoint(V)' % n] = [MIN('0', 1)]; TABLE['get%sPoint(Y)' % n] = [MIN('0', 1)]
for k in 'co': TABLE['PolylineBase::getExtremePoint<%s>(e)' % k] = [MIN('this', 1)]
TABLE['getExtremePoint(e V)'] = [MIN('1', 1)]; TABLE['getExtremePoint(e Y)'] = [MIN('1', 1)]

TL = {'h2d::base::SegVec': 'S', 'h2d::Circle_': 'C', 'h2d::FRect_': 'R', 'h2d::Ellipse_': 'E', 'h2d::Hmatrix_': 'H', 'h2d::base::PolylineBase': 'Y'}
def letter(F, t, deep=False):
    q = F.recq(t) or ''; n = F.tname(t)
    if q == 'h2d::base::LPBase': return 'P' if 'IsPoint' in n else 'L'
    if q in TL: return TL[q]
    if q in ('std::vector', 'std::list', 'std::array'):
        if deep and 'std::variant' in n: return 'VV'
        for k, l in [('LPBase', 'P' if 'IsPoint' in n else 'L')] + [(x.split('::')[-1], y) for x, y in TL.items()]:
            if deep and ('h2d::' + k in n or 'base::' + k in n): return 'V' + l
        return 'V'
    if q == 'std::pair': return 'pair'
    if q: return q.split('::')[-1]
    return {'int': 'i', 'float': 'd', 'enum': 'e', 'bool': 'b'}.get(F.t(F.strip(t))['k'], '?')

def names(F, f):
    c = ''
    if f.clsq == 'h2d::base::LPBase': c = '<P>' if 'IsPoint' in f.cls else '<L>'
    if f.clsq == 'h2d::base::SegVec': c = '<O>' if 'IsOSeg' in f.cls else '<S>'
    if f.clsq == 'h2d::base::PolylineBase': c = '<c>' if 'IsClosed' in f.cls else '<o>'
    q = f.q.replace('h2d::base::', '').replace('h2d::', '')
    return {q + c + '(' + ' '.join(letter(F, p['t'], d) for p in f.params) + ')' for d in (False, True)}

def root(y): return 'this' if y[0] == 'this' else str(y[1])
def roots(s): return tuple(sorted({root(y) for y in s}))

def thresholds(F):
    """threshold variable -> public accessor giving access to it"""
    m = {}
    for f in F.fns:
        if f.q.startswith('h2d::thr::') and len(f.params) == 0:
            for p in ret_places(F, f):
                if p[0] == 'g': m[p[1]] = f.name
    return m

def holds(I, F, f, N, req, thr):
    k = req[0]
    if k == 'TOP': return N is None
    if N is None: return False
    if k in ('NE', 'EQ'):
        for x in N:
            if x[0] != k or not any(thr.get(d) == req[2] for d in x[2]): continue
            r = roots(x[1])
            if r != req[1]: continue
            if req[3]:
                bad = '[1]' if req[3] == 'x' else '[0]'; good = '[0]' if req[3] == 'x' else '[1]'
                if any(y[-1] == bad for y in x[1]) or not any(y[-1] == good for y in x[1]): continue
            return True
        return False
    if k == 'MIN':
        b = [x[2] for x in N if x[0] == 'MIN' and roots(x[1]) == req[1] and not any('[]' in y for y in x[1])]
        return bool(b) and max(b) == req[2]
    if k == 'MAX':
        b = [x[2] for x in N if x[0] == 'MAX' and roots(x[1]) == req[1]]
        return bool(b) and min(b) == req[2]
    if k == 'NOT': return ('NOT', req[1], req[2]) in {(x[0], roots(x[1]), x[2]) for x in N if x[0] == 'NOT'} and not any(x[0] == 'MIN' and roots(x[1]) == req[1] for x in N)
    if k in ('FGE', 'FGT'):
        b = [(x[2], x[0] == 'FGT') for x in N if x[0] in ('FGE', 'FGT') and roots(x[1]) == req[1]]
        return bool(b) and max(b) == (req[2], k == 'FGT')
    if k == 'LT': return any(x[0] == 'LT' and roots(x[1]) == req[1] and roots(x[2]) == req[2] for x in N)
    if k == 'IS': return any(x[0] == 'IS' and x[3] and ('this', req[1]) in x[2] for x in N)
    if k == 'COLL': return any(x[0] == 'IS' and not x[3] and roots(x[2]) == ('0', '1', '2') for x in N) or any(x[0] == 'NE' and roots(x[1]) == ('0', '1', '2') for x in N)
    if k == 'ELEM': return some_elem(I, F, f, thr)
    raise KeyError(k)

def some_elem(I, F, f, thr, depth=0):
    """a point of the function (or of one it unconditionally delegates to) where the elements are known to be told apart, conditioned at most on the container holding 2 elements"""
    ins, outs = I.at.get(f.id, ({}, {}))
    for st in outs.values():
        if st is None: continue
        if any(x[0] == 'MIN' and x[2] > 2 for x in st): continue
        for x in st:
            if x[0] == 'NE' and roots(x[1]) == ('0',) and any('[]' in y for y in x[1]) and any(thr.get(d) == D for d in x[2]): return True
    if depth < 3:
        for c in calls(f):
            g = F.byid.get(c.callee)
            if g is not None and g.clsq == f.clsq and len(g.params) == 1 and len(c.args) == 1:
                s = I.mapset(f, c, {('p', 0)}) if F.is_ref(g.params[0]['t']) else set()
                st = I.state_before(f, c.node)
                if st is None or any(x[0] == 'MIN' and x[2] > 2 for x in st): continue
                if roots(s) == ('0',) and some_elem(I, F, g, thr, depth + 1): return True
    return False

TXT = {'NE': lambda r: '%s told apart by more than thr::%s()%s' % (' and '.join(map(nm, r[1])), r[2], ' along ' + r[3] if r[3] else ''), 'EQ': lambda r: '%s match within thr::%s()' % (' and '.join(map(nm, r[1])), r[2]),
       'MIN': lambda r: 'size/value of %s at least %d (and nothing stricter)' % (nm(r[1][0]), r[2]), 'MAX': lambda r: '%s at most %d' % (nm(r[1][0]), r[2]), 'NOT': lambda r: 'size of %s is not %d (0 allowed)' % (nm(r[1][0]), r[2]),
       'FGE': lambda r: '%s is not negative (0 allowed)' % nm(r[1][0]), 'FGT': lambda r: '%s is above 0' % nm(r[1][0]), 'LT': lambda r: '%s below %s' % (nm(r[1][0]), nm(r[2][0])), 'IS': lambda r: '%s is true' % r[1],
       'COLL': lambda r: 'the three points are not collinear', 'ELEM': lambda r: 'consecutive points differ', 'TOP': lambda r: 'never returns (throws)'}
def nm(r): return 'object' if r == 'this' else 'argument ' + str(int(r) + 1)

def run(cx):
    cfgs = ('base',) if cx.tier == 'quick' else ('base', 'plain', 'speed', 'float', 'ldld')
    for F in cx.extract(*cfgs):
        I = imply.imply(F); thr = thresholds(F); n = 0; hit = set()
        cx.need(len(thr), 5, 'threshold accessors')
        for f in F.fns:
            if not (public(f) or f.q.startswith('h2d::detail::Intersect::get') or f.q.startswith('h2d::detail::RectArea')): continue
            for k in names(F, f) & TABLE.keys():
                hit.add(k); N = I.N[f.id]
                for req in TABLE[k]:
                    if req[0] in ('MIN', 'MAX') and req[1][0].isdigit() and F.recq(f.params[int(req[1][0])]['t']) == 'std::array': continue   # size fixed by the type
                    n += 1
                    cx.check(holds(I, F, f, N, req, thr), '%s|%s' % (k, ' '.join(map(str, req))),
                             '%s (homog2d.hpp:%d, config %s): normal return does not imply: %s' % (f.sig(), f.line, F.config, TXT[req[0]](req)), '%s => %s' % (f.sig(), TXT[req[0]](req)))
        if F.config == 'base':
            cx.need(len(hit), 115, 'functions with documented preconditions')
        cx.need(n, 100, 'preconditions in config ' + F.config)
