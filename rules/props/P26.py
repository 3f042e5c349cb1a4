"""x and y never get mixed up"""
import flow, axis
from core import *
from util import *
from flow import src
RULE = ('Value-provenance dataflow (interprocedural, field- and coordinate-sensitive): for every function of the frozen list of axis-separable operations (construction, set, translate, moveTo, bounding boxes, corners, centers, '
        'rectangle union, copies and conversions), the set of inputs each output coordinate is computed from is derived; an output x must not be computed from an input y, nor y from x, and each numeric argument may only reach '
        'the coordinate its position stands for. Getters (x, y, width, height, vector) are checked the same way, and the entries of translation/scale/rotation matrices against the parameter they must come from. One obligation per (function instantiation, output coordinate or argument).')
ASSUMPTIONS = ['values computed through arithmetic on whole homogeneous vectors (cross products) are not traced per coordinate']
C, R, S, L, P = 'h2d::Circle_::', 'h2d::FRect_::', 'h2d::base::SegVec::', 'h2d::base::LPBase::', 'h2d::base::PolylineBase::'
SEP = {C + x for x in ('Circle_', 'getBB', 'moveTo', 'set', 'translate')} | \
      {R + x for x in ('FRect_', 'get4Pts', 'getBoundingCircle', 'getCenter', 'getDiagonals', 'getExtended', 'getInscribedCircle', 'getSegs', 'moveTo', 'operator|', 'set', 'translate', 'unionArea')} | \
      {S + x for x in ('SegVec', 'getCenter', 'moveTo', 'set', 'translate')} | \
      {L + x for x in ('LPBase', 'moveTo', 'set', 'translate')} | \
      {P + x for x in ('PolylineBase', 'getBB', 'moveTo', 'translate')} | \
      {'h2d::Ellipse_::' + x for x in ('Ellipse_', 'translate', 'moveTo')} | \
      {'h2d::detail::getCorrectPoints', 'h2d::ppair::getPointPair', 'h2d::priv::getBB_FRect', 'h2d::priv::getBB_Points', 'h2d::priv::getBB_Segments'} | \
      {'h2d::' + x for x in ('get4Pts', 'getBB', 'getBoundingCircle', 'getCenter', 'getCenters', 'getClosestPoints', 'getDiagonals', 'getInscribedCircle', 'getMinMax', 'getSegs', 'moveTo', 'translate', 'unionArea')}
SCALAR = {L + 'getX': 'X', L + 'getY': 'Y', 'h2d::getX': 'X', 'h2d::getY': 'Y', R + 'width': 'X', R + 'height': 'Y', 'h2d::width': 'X', 'h2d::height': 'Y'}
PAIRS = {S + 'getVector': ('X', 'Y'), 'h2d::getVector': ('X', 'Y')}
POLYREG = 3          # set(rad,n)

def num_params(F, f):
    return [i for i, p in enumerate(f.params) if F.t(p['t'])['k'] in ('float', 'int') and F.t(F.strip(p['t']))['s'] not in ('bool',)]

def expected(F, f):
    """{numeric parameter: axis}, from its position"""
    n = num_params(F, f)
    if f.name in ('set', 'PolylineBase') and f.q.startswith(P): return {}
    if f.q.startswith('h2d::detail') or f.q.startswith('h2d::priv'): return {}
    if f.q.startswith(L) and len(n) == 3: return dict(zip(n, 'XYW'))
    if f.name == 'Circle_' or (f.q == C + 'set'): return dict(zip(n, 'XY')) if len(n) == 3 else {}
    if f.name == 'Ellipse_': return dict(zip(n, 'XY')) if len(n) >= 4 else {}
    if len(n) == 2: return dict(zip(n, 'XY'))
    if len(n) == 4: return dict(zip(n, 'XYXY'))
    return {}


def outputs(F, fl, f):
    for path, s in fl.ret[f.id].items(): yield axis.axis_from(F, F.strip(f.ret), path), s, 'result.' + '.'.join(path)
    for p, V in fl.out[f.id].items():
        for path, s in V.items(): yield axis.axis(f, p + path), s, '.'.join(map(str, p + path))

H = 'h2d::Hmatrix_::'
# (function, nb of numeric params) -> {entry: parameter index}; every other entry depends on no parameter
MAT = {('setTranslation', 2): {(0, 2): 0, (1, 2): 1}, ('setScale', 1): {(0, 0): 0, (1, 1): 0}, ('setScale', 2): {(0, 0): 0, (1, 1): 1},
       ('setRotation', 1): {(0, 0): 0, (0, 1): 0, (1, 0): 0, (1, 1): 0}, ('Hmatrix_', 2): {(0, 2): 0, (1, 2): 1}, ('Hmatrix_', 1): {(0, 0): 0, (0, 1): 0, (1, 0): 0, (1, 1): 0}}

def run(cx):
    cfgs = ('base', 'speed') if cx.tier == 'quick' else ('base', 'speed', 'boost', 'opencv', 'ldld', 'float', 'svg', 'nocheck')
    for F in cx.extract(*cfgs):
        fl = flow.flow(F); seen = set()
        for f in F.fns:
            if f.lambda_: continue
            where = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), f.line, F.config)
            if f.q in SCALAR or f.q in PAIRS:
                seen.add(f.q)
                want = {(): SCALAR[f.q]} if f.q in SCALAR else {('first',): 'X', ('second',): 'Y'}
                for path, s in fl.ret[f.id].items():
                    w = want.get(path)
                    if w is None: continue
                    ax = {axis.axis(f, src(x)) for x in s}
                    other = 'Y' if w == 'X' else 'X'
                    cx.check(other not in ax and (w in ax or 'P' in ax or 'O' in ax or '?' in ax), f.q + '|' + '.'.join(path), '%s: the value must come from %s coordinates, it comes from %s' % (where, w, sorted(str(src(x)) for x in s)), '%s <- %s coordinates only' % (f.sig(), w))
            if f.q in SEP:
                if any('Ellipse' in F.tname(p['t']) or 'variant' in F.tname(p['t']) for p in f.params) and not f.q.startswith('h2d::Ellipse_'): continue
                exp = expected(F, f); any_ = False
                for a, s, nm in outputs(F, fl, f):
                    if a not in ('X', 'Y'): continue
                    other = 'Y' if a == 'X' else 'X'
                    mixed = [src(x) for x in s if axis.axis(f, src(x)) == other]
                    wrong = [src(x) for x in s if src(x)[0] == 'v' and len(src(x)) == 2 and exp.get(src(x)[1], a) != a]
                    any_ = True
                    cx.check(not mixed, '%s|%s|mixed' % (f.q, nm), '%s: %s (%s coordinate) is computed from the %s coordinate %s' % (where, nm, a, other, sorted(map(str, mixed))), '%s: %s computed from %s only' % (f.sig(), nm, a))
                    for i in exp:
                        cx.check(not any(x[1] == i for x in wrong), '%s|%s|arg%d' % (f.q, nm, i), '%s: argument %d (%s) reaches %s' % (where, i, exp[i], nm))
                if any_: seen.add(f.q)
            if f.q.startswith(H):
                m = MAT.get((f.name, len(num_params(F, f)))) if len(num_params(F, f)) == len(f.params) else None
                if m is None: continue
                seen.add(f.q)
                for p, V in fl.out[f.id].items():
                    if p[:2] != ('this', '_mdata') or len(p) != 4 or p[2] == '[]' or p[3] == '[]': continue
                    k = (int(p[2][1:-1]), int(p[3][1:-1]))
                    s = {src(x) for x in flow.vflat(V)}; par = {x[1] for x in s if x[0] == 'v'}
                    # an entry may be copied from another entry of the matrix: follow it
                    for x in s:
                        if x[0] == 'this' and x in fl.out[f.id]: par |= {src(y)[1] for y in flow.vflat(fl.out[f.id][x]) if y[0] == 'v'}
                    want = {m[k]} if k in m else set()
                    cx.check(par == want, '%s|%d%d' % (f.q, k[0], k[1]), '%s: entry [%d][%d] must depend on parameter(s) %s, it depends on %s' % (where, k[0], k[1], sorted(want), sorted(par)), '%s: entry [%d][%d] from parameter %s' % (f.sig(), k[0], k[1], sorted(want)))
        cx.need(seen, 55, 'axis-separable functions present (%s)' % F.config)
        miss = (SEP | set(SCALAR) | set(PAIRS)) - seen
        cx.cov.setdefault('not_found', {})[F.config] = sorted(miss)
