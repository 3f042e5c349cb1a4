"""containment answers"""
import cover, imply
from core import *
from util import *
from props.P25 import letter, roots, thresholds, D
RULE = ('Implied-facts dataflow (what a true answer implies on the operands, interprocedural, with loops run to their end): for every pair of types, isInside() is never true where the manual says so, and elsewhere can give both answers; a true answer implies the strict '
        'comparisons for points, circles and rectangles, that ALL the points of a segment, rectangle or polyline were found inside, and for a closed polyline that it is simple and that no intersection exists. The containment of a point in a polyline is never '
        'decided from the supporting line of one of its segments. Points returned by getPtsInside() were found inside, and all the points were tried. The loops of the containment functions start at the first element, end at the last one and step over none.')
ASSUMPTIONS = ['the ray crossing count and the conic sign test are right (not decided); the ellipse border is treated as outside']
TF = {'P': 'RYCE', 'S': 'RYCE', 'O': 'RYCE', 'R': 'RYCE', 'c': 'RYCE', 'o': 'RYCE', 'C': 'RYC', 'E': 'RYC'}     # manual, section 5.2
NAME = {'P': 'point', 'L': 'line', 'S': 'segment', 'O': 'oriented segment', 'R': 'FRect', 'c': 'closed polyline', 'o': 'open polyline', 'C': 'circle', 'E': 'ellipse', 'Y': 'closed polyline', 'y': 'open polyline', 'PP': 'rectangle given by 2 points', 'Pd': 'circle given by center and radius'}

def kind(F, q, name):
    if q == 'h2d::base::LPBase': return 'P' if 'IsPoint' in name else 'L'
    if q == 'h2d::base::SegVec': return 'O' if 'IsOSeg' in name else 'S'
    if q == 'h2d::base::PolylineBase': return 'c' if 'IsClosed' in name else 'o'
    return {'h2d::FRect_': 'R', 'h2d::Circle_': 'C', 'h2d::Ellipse_': 'E', 'h2d::detail::Common': 'any'}.get(q)

def col(F, f):
    k = [kind(F, F.recq(p['t']), F.tname(p['t'])) for p in f.params]
    if len(k) == 1: return {'c': 'Y', 'o': 'y'}.get(k[0], k[0])
    if k == ['P', 'P']: return 'PP'
    if len(k) == 2 and k[0] == 'P': return 'Pd'
    return None

def has(s, *fields): return all(any(fd in y for y in s) for fd in fields)
def axis(s, a):
    """every element access of s is on axis a or on the homogeneous term"""
    e = [y[-1] for y in s if '_v' in y]
    o = '[1]' if a == '[0]' else '[0]'
    return o not in e and a in e

def lt(T, l, r): return any(x[0] == 'LT' and l(x[1]) and r(x[2]) for x in T)

def box(T, lo, hi, c):
    """c (predicate on places, axis) strictly between the places lo and hi on both axes"""
    return all(lt(T, lambda s: lo(s) and axis(s, a), lambda s: c(s) and axis(s, a)) and lt(T, lambda s: c(s) and axis(s, a), lambda s: hi(s) and axis(s, a)) for a in ('[0]', '[1]'))

def R(s): return set(roots(s))
def inside_all(T, row):
    """all the points of the object were found inside"""
    both = [x for x in T if x[0] == 'IS' and x[3] and R(x[2]) == {'this', '0'}]
    if row in 'SO':
        return all(any(has([y for y in x[2] if y[0] == 'this'], fd) for x in both) for fd in ('_ptS1', '_ptS2'))
    if row == 'R':
        d = any(x[0] == 'DONE' and has(x[1], '_ptR1', '_ptR2') for x in T)
        if d and any(has([y for y in x[2] if y[0] == 'this'], '_ptR1', '_ptR2') for x in both): return True
        mine = lambda s: R(s) == {'this'}; his = lambda s: R(s) == {'0'}
        return all(lt(T, lambda s: his(s) and axis(s, a), lambda s: mine(s) and axis(s, a)) and lt(T, lambda s: mine(s) and axis(s, a), lambda s: his(s) and axis(s, a)) for a in ('[0]', '[1]'))
    d = any(x[0] == 'DONE' and R(x[1]) == {'this'} and has(x[1], '_plinevec') for x in T)
    return d and any(has([y for y in x[2] if y[0] == 'this'], '_plinevec', '[]') for x in both)

def no_inter(T):
    for x in T:
        if x[0] == 'IS' and not x[3] and 'ntersect' in x[1] and R(x[2]) == {'this', '0'}: return True
        if x[0] == 'MAX' and x[2] == 0 and R(x[1]) == {'this', '0'}: return True
    return False

def isq(T, name, truth): return any(x[0] == 'IS' and x[3] is truth and x[1].split('::')[-1] == name for x in T)

def reqs(F, f, row, c, T, thr):
    me = lambda s: R(s) == {'this'}; hi = lambda s: R(s) == {'0'}
    if row == 'P':
        if c == 'R': yield 'strictly between the rectangle corners on both axes', box(T, lambda s: hi(s) and has(s, '_ptR1'), lambda s: hi(s) and has(s, '_ptR2'), me)
        if c == 'PP': yield 'strictly between the two points on both axes', all(lt(T, lambda s: R(s) <= {'0', '1'} and axis(s, a), lambda s: me(s) and axis(s, a)) and lt(T, lambda s: me(s) and axis(s, a), lambda s: R(s) <= {'0', '1'} and axis(s, a)) for a in ('[0]', '[1]'))
        if c == 'C': yield 'distance to the center strictly below the radius', lt(T, lambda s: R(s) == {'this', '0'} and has(s, '_center') and not has(s, '_radius'), lambda s: hi(s) and has(s, '_radius'))
        if c == 'Pd': yield 'distance to the center strictly below the radius', lt(T, lambda s: R(s) == {'this', '0'}, lambda s: R(s) == {'1'})
        if c == 'Y':
            yield 'the polyline is simple', any(x[0] == 'IS' and x[3] and (x[1].split('::')[-1] == 'isSimple' or has(x[2], '_isSimplePolyg')) for x in T)
            yield 'the distance to every segment exceeds thr::nullDistance()', any(x[0] == 'NE' and any(thr.get(d) == D for d in x[2]) and R(x[1]) == {'this', '0'} and has(x[1], '_plinevec', '[]') for x in T) and any(x[0] == 'DONE' and R(x[1]) == {'0'} for x in T)
    elif row == 'C':
        if c == 'C': yield 'distance between centers and radius strictly below the other radius', lt(T, lambda s: R(s) == {'this', '0'} and has([y for y in s if y[0] == 'this'], '_radius') and has([y for y in s if y[0] != 'this'], '_center') and not has([y for y in s if y[0] != 'this'], '_radius'), lambda s: hi(s) and has(s, '_radius'))
        if c in ('R', 'PP'):
            other = (lambda s: R(s) <= {'0', '1'}) ; mine = lambda s: me(s) and has(s, '_center') and has(s, '_radius')
            yield 'strictly inside the four sides', all(lt(T, lambda s: other(s) and axis(s, a), lambda s: mine(s) and axis(s, a)) and lt(T, lambda s: mine(s) and axis(s, a), lambda s: other(s) and axis(s, a)) for a in ('[0]', '[1]'))
        if c == 'Y':
            yield 'the polyline is simple', isq(T, 'isSimple', True)
            yield 'the center is inside', any(x[0] == 'IS' and x[3] and R(x[2]) == {'this', '0'} and has([y for y in x[2] if y[0] == 'this'], '_center') for x in T)
            yield 'no point of the polyline is inside the circle', any(x[0] == 'IS' and x[3] is False and x[1].endswith('isInside') and R(x[2]) == {'this', '0'} for x in T)
            yield 'no intersection', no_inter(T)
    else:
        yield 'all its points are inside', inside_all(T, row)
        if c == 'Y': yield 'no intersection', no_inter(T)
        if row in 'co': yield 'it is not empty', any(x[0] == 'MIN' and x[2] >= 1 and R(x[1]) == {'this'} for x in T)

def run(cx):
    cfgs = ('base',) if cx.tier == 'quick' else ('base', 'plain', 'speed', 'float', 'ldld', 'nocheck')
    for F in cx.extract(*cfgs):
        I = imply.imply(F); thr = thresholds(F); seen = set(); n = 0; walked = set()
        for f in F.fns:
            if f.name != 'isInside' or f.d.get('acc') != 0: continue
            row = kind(F, f.clsq, f.cls or ''); c = col(F, f)
            if row is None or c is None: continue
            cover.report(cx, F, f, 'whether or not it is inside', None, walked)
            T, Fa = I.T[f.id], I.Fa[f.id]; n += 1; seen.add((row, c))
            what = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), f.line, F.config); key = '%s in %s' % (NAME.get(row, row), NAME.get(c, c))
            varies = c in ('PP', 'Pd') and row in 'PC' or c in TF.get(row, '')
            if not varies:
                cx.check(T is None, key + '|false', what + ': may answer true, although a %s is never inside a %s' % (NAME.get(row, 'object'), NAME.get(c, 'shape')), key + ': never true'); continue
            cx.check(T is not None and Fa is not None, key + '|answers', what + ': gives the same answer for all arguments', key + ': both answers')
            for txt, ok in reqs(F, f, row, c, T or (), thr) if T is not None else ():
                cx.check(ok, key + '|' + txt, what + ': a true answer does not imply: ' + txt, key + ' => ' + txt)
        for row in TF:
            for c in TF[row]:
                if F.config == 'base': cx.check((row, c) in seen, '%s in %s|missing' % (NAME[row], NAME[c]), 'no member function decides if a %s is inside a %s: isInside() always answers false, although the manual announces both answers' % (NAME[row], NAME[c]), None)
        cx.need(n, 30, 'isInside() functions (%s)' % F.config)
        simple(cx, F, I); lines(cx, F); collect(cx, F, I)

def simple(cx, F, I):
    for f in F.fns:
        if f.q != 'h2d::base::PolylineBase::isSimple': continue
        T = I.T[f.id]
        if 'IsOpen' in f.cls: cx.check(T is None, 'isSimple|open', '%s: an open polyline may be announced as simple (polygon)' % f.sig(), 'open polyline never simple')
        else: cx.check(T is not None and any(x[0] == 'MIN' and x[2] == 3 and R(x[1]) == {'this'} for x in T), 'isSimple|3 points', '%s: a true answer does not imply (exactly) at least 3 points' % f.sig(), 'simple => 3 points')

def lines(cx, F):
    """containment of a point in a polyline: nothing but segments"""
    E = effects(F)
    for f in F.fns:
        if f.name != 'isInside' or col(F, f) != 'Y' or kind(F, f.clsq, f.cls or '') != 'P': continue
        st = [f.id]; seen = {f.id}; hit = None
        while st:
            x = st.pop()
            for g, c in E.cg[x]:
                if g.clsq == 'h2d::base::LPBase' and 'IsLine' in g.cls and g.name in ('distTo', 'impl_distToPoint', 'intersects', 'getAngle', 'isInside'): hit = hit or (F.byid[x], c.node, g)
                if g.id not in seen and g.clsq not in ('h2d::base::SegVec', 'h2d::FRect_') and g.name not in ('isSimple', 'getBB'): seen.add(g.id); st.append(g.id)
        cx.check(hit is None, 'point in polyline|line', '' if hit is None else '%s calls %s at %s: a point is on a segment or crosses it, or not; its supporting line does not tell' % (hit[0].sig(), hit[2].sig(), hit[0].loc(hit[1])), 'point in polyline: no decision on a supporting line')

def collect(cx, F, I):
    n = 0
    for f in F.fns:
        if f.q != 'h2d::getPtsInside': continue
        n += 1
        N = I.N[f.id]
        done = N is not None and any(x[0] == 'DONE' and R(x[1]) == {'0'} for x in N)
        pushes = [c for c in calls(f) if c.name in ('push_back', 'emplace_back', 'insert', 'emplace', 'copy_if')]
        for c in pushes:
            if c.name == 'copy_if': done = True; continue
            st = I.state_before(f, c.node)
            cx.check(st is None or any(x[0] == 'IS' and x[3] and x[1].endswith('isInside') and R(x[2]) == {'0', '1'} for x in st), 'getPtsInside|inside', '%s: a point not found inside the shape is stored at %s' % (f.sig(), f.loc(c.node)), 'getPtsInside(): stored points are inside')
        cx.check(bool(done and pushes), 'getPtsInside|all', '%s: not every point of the container is tried' % f.sig(), 'getPtsInside(): all the points are tried')
    cx.need(n, 1, 'getPtsInside()')
