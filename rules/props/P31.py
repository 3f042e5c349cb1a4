"""elementary measures and constructions obey their defining equations"""
import collections, re
import geo, vn, poly, axis
from poly import Q, q, Sqrt, Abs, Sym, Sin, Cos
from vn import PI
from core import *
from util import *
RULE = ('Value numbering: the value of every output coordinate, coefficient and measure is derived as a rational function (with roots, trigonometric functions, min and max as uninterpreted but normalised terms) of the input '
        'coordinates, over the CFGs and through all the calls; every alternative reaching the exit must satisfy the defining equation of the construction (incidence, orthogonality, distance, midpoint, translation, matrix, conic).')
ASSUMPTIONS = ['exact arithmetic (rounding is not modelled); class invariants of the inputs: a line is normalised (a^2+b^2=1), a rectangle and a plain segment hold their points in order, the radius is positive',
               'a function whose formula cannot be derived (loops over a number of points known only at run time, pointers) is not decided; the number of decided functions is in the evidence']
half = q(1) / 2
def d2(a, b): return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
def dist(a, b): return Sqrt(d2(a, b))
def ev(l, p): return l[0] * p[0] + l[1] * p[1] + l[2]
def mid(a, b): return ((a[0] + b[0]) * half, (a[1] + b[1]) * half)
def add(p, d): return (p[0] + d[0], p[1] + d[1])
def mn(a, b): return Sym('min', a, b)
def mx(a, b): return Sym('max', a, b)
def cross3(u, v): return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
def thru(a, b): return cross3((a[0], a[1], q(1)), (b[0], b[1], q(1)))

class Und(Exception): pass

PRE = {}
class O:
    """one function under check"""
    def __init__(self, cx, G, f, st, ctx=None, tag=''):
        self.cx, self.G, self.f, self.st = cx, G, f, st; self.tag = tag
        s = G.V.sum[f.id] if ctx is None else G.V.analyse(f, ctx)
        G.asm = G.V.asm.get(f.id, ()) if ctx is None else G.V.casm
        # without the checks, the inputs are assumed to be those that pass them in the default configuration
        if f.facts.config == 'base': PRE[f.sig(), tag] = G.asm
        elif f.facts.config in ('nocheck', 'speed'): G.asm = G.asm + PRE.get((f.sig(), tag), ())
        self.s = s if s is not None else (None, {}); self.done = 0; self.kinds = collections.Counter(); self.bad = []
        self.extra = None
    def a(self, j): return self.G.inp(self.f, j)
    @property
    def this(self): return self.G.inp(self.f, 'this')
    @property
    def ret(self): return self.G.dec(self.f, self.s[0], self.f.ret) if self.s[0] is not None else None
    @property
    def after(self):
        f = self.f; t = self.G.V.ptype(f, ('this',))
        return self.G.dec(f, self.s[1].get(('this',), vn.T(None, frozenset([('this',)]))), t)
    def aft(self, j):
        f = self.f; r = self.G.root(f, j)
        return self.G.dec(f, self.s[1].get(r, vn.T(None, frozenset([r]))), F_strip(f, j))
    def rec(self, what, r):
        ok, why = r
        if ok is None: return
        self.done += 1; self.kinds['%s' % why if ok else 'bad'] += 1
        if not ok: self.bad.append((what, why))
    def is_(self, what, alts, *specs, cover=True, loose=False):
        try: self.rec(what, self.G.agree(self.f, alts, list(specs), 0, self.extra, cover=cover, loose=loose))
        except poly.Big: pass
    def zero(self, what, alts, res):
        """res(alternative) is identically 0"""
        if not alts: return
        try:
            out = []
            for a in alts:
                t = a if isinstance(a, tuple) else (a,)
                for c in geo.cases([geo.Alt(geo.flat(t), getattr(a, 'guard', ()))]):
                    for z in (c, [poly.fn('id', w) for w in c]):          # large formulas: their value is substituted
                        y = geo.like(t, iter(z))
                        lim = poly.steps[1]
                        if z is c: poly.steps[1] = poly.steps[0] + 20000
                        try: r = res(y if isinstance(a, tuple) else y[0])
                        except (poly.Big, poly.Over):
                            if z is c: continue
                            raise
                        finally: poly.steps[1] = lim
                        out.append(geo.Alt((r,), c.guard)); break
            self.rec(what, self.G.agree(self.f, out, [q(0)], 0, self.extra, strict=len(alts) == 1))
        except (poly.Big, ZeroDivisionError): pass
    # compound
    def pts(self, what, ps, specs):
        """the points ps are the points specs, in any order"""
        if any(p is None for p in ps): return
        n = len(self.bad)
        for k, p in enumerate(ps): self.is_('%s, point %d' % (what, k + 1), p, *specs, cover=False)
        if len(self.bad) > n: return
        u = []
        for p in ps: u += [x for x in p if x not in u]
        self.is_(what, u, *specs)
        if len(self.bad) == n and len(ps) == len(specs) and all(len(p) == 1 for p in ps):
            for k in range(len(ps)):
                for j in range(k):
                    if same(ps[k][0], ps[j][0]): self.rec(what, (False, 'points %d and %d are the same' % (j + 1, k + 1)))
    def seg(self, what, s, A, B, oriented=None):
        if s is None or s[0] is None or s[1] is None: return
        if oriented: self.is_(what + ', start', s[0], A); self.is_(what + ', end', s[1], B)
        else: self.pts(what, list(s), [A, B])
    def rect(self, what, r, lo, hi):
        if r is None: return
        self.is_(what + ', lower corner', r[0], lo); self.is_(what + ', upper corner', r[1], hi)
    def circle(self, what, c, ctr, rad):
        if c is None: return
        self.is_(what + ', center', c[0], ctr); self.is_(what + ', radius', c[1], rad)
    def line(self, what, ls, thr=(), ortho=None, par=None, same_=None):
        if ls is None: return
        for k, p in enumerate(thr): self.zero('%s goes through point %d' % (what, k + 1), ls, lambda l: ev(l, p))
        if ortho is not None: self.zero(what + ' is orthogonal', ls, lambda l: l[0] * ortho[0] + l[1] * ortho[1])
        if par is not None: self.zero(what + ' is parallel', ls, lambda l: l[0] * par[1] - l[1] * par[0])
        if same_ is not None:
            for i, j in ((0, 1), (1, 2), (0, 2)): self.zero(what + ' has the given coefficients', ls, lambda l: l[i] * same_[j] - l[j] * same_[i])
        self.zero(what + ' is normalised', ls, lambda l: l[0] * l[0] + l[1] * l[1] - 1)
    def mat(self, what, m, spec):
        """equality up to a common factor"""
        if m is None or any(x is None for x in m): return
        try: self.rec(what, self.G.mat_agree(self.f, m, spec, self.extra))
        except (poly.Big, ZeroDivisionError): pass

def F_strip(f, j): return f.facts.strip(f.params[j]['t'])
def same(a, b): return all(x == y for x, y in zip(a, b))

SPEC = []
def spec(keys):
    def d(fn):
        for k in keys.split(): SPEC.append((k, fn))
        return fn
    return d

# ---------------------------------------------------------------- points
@spec('P.LPBase(dd) P.set(dd)')
def _(o): o.is_('coordinates', o.after, (o.a(0), o.a(1)))
@spec('P.LPBase(P)')
def _(o): o.is_('coordinates', o.after, o.a(0))
@spec('P.LPBase(ddd) P.set(ddd)')
def _(o): o.is_('coordinates', o.after, (o.a(0) / o.a(2), o.a(1) / o.a(2)))
@spec('P.LPBase(LL)')
def _(o):
    for j in (0, 1): o.zero('lies on line %d' % (j + 1), o.after, lambda p: ev(o.a(j), p))
@spec('P.getX()')
def _(o): o.is_('x', o.ret, o.this[0])
@spec('P.getY()')
def _(o): o.is_('y', o.ret, o.this[1])
@spec('.getX(P)')
def _(o): o.is_('x', o.ret, o.a(0)[0])
@spec('.getY(P)')
def _(o): o.is_('y', o.ret, o.a(0)[1])
@spec('.getPt(P)')
def _(o): o.is_('point', o.ret, o.a(0))
@spec('P.getPt()')
def _(o): o.is_('point', o.ret, o.this)
@spec('P.distTo(P)')
def _(o): o.is_('distance', o.ret, dist(o.this, o.a(0)))
@spec('.dist(PP)')
def _(o): o.is_('distance', o.ret, dist(o.a(0), o.a(1)))
@spec('P.distTo(L)')
def _(o): o.is_('distance', o.ret, Abs(ev(o.a(0), o.this)))
@spec('L.distTo(P)')
def _(o): o.is_('distance', o.ret, Abs(ev(o.this, o.a(0))))
def segdist(o, s, p):
    A, B = s; D = dist(A, B)
    o.is_('distance', o.ret, dist(A, p), dist(B, p), Abs((B[0] - A[0]) * (p[1] - A[1]) - (B[1] - A[1]) * (p[0] - A[0])) / D)
@spec('S.distTo(P*) O.distTo(P*)')
def _(o): segdist(o, o.this, o.a(0))
@spec('P.distTo(S) P.distTo(O)')
def _(o): segdist(o, o.a(0), o.this)

# ---------------------------------------------------------------- translation
def vec(o, k=0):
    return (o.a(k), o.a(k + 1)) if len(o.f.params) > k + 1 else o.a(k)
@spec('P.translate(dd) P.translate((dd))')
def _(o): o.is_('translated', o.after, add(o.this, vec(o)))
@spec('P.moveTo(P)')
def _(o): o.is_('moved', o.after, o.a(0))
@spec('S.translate(dd) O.translate(dd) S.translate((dd)) O.translate((dd))')
def _(o): o.seg('translated', o.after, *(add(p, vec(o)) for p in o.this), oriented=True)
@spec('R.translate(dd) R.translate((dd))')
def _(o): o.rect('translated', o.after, *(add(p, vec(o)) for p in o.this))
@spec('C.translate(dd) C.translate((dd))')
def _(o): o.circle('translated', o.after, add(o.this[0], vec(o)), o.this[1])
def dest(o, k=0): return (o.a(k), o.a(k + 1)) if len(o.f.params) == k + 2 else o.a(k)
def sub(a, b): return (a[0] - b[0], a[1] - b[1])
@spec('S.moveTo(dd) O.moveTo(dd) S.moveTo(P) O.moveTo(P)')
def _(o):
    v = sub(dest(o), o.this[0]); o.seg('moved', o.after, *(add(p, v) for p in o.this), oriented=True)
@spec('R.moveTo(dd) R.moveTo(P)')
def _(o):
    v = sub(dest(o), o.this[0]); o.rect('moved', o.after, *(add(p, v) for p in o.this))
@spec('C.moveTo(dd) C.moveTo(P)')
def _(o): o.circle('moved', o.after, dest(o), o.this[1])

@spec('.translate(Pdd) .translate(P(dd))')
def _(o): o.is_('translated', o.aft(0), add(o.a(0), vec(o, 1)))
@spec('.moveTo(PP) .moveTo(Pdd)')
def _(o): o.is_('moved', o.aft(0), dest(o, 1))
@spec('.translate(Sdd) .translate(Odd) .translate(S(dd)) .translate(O(dd))')
def _(o): o.seg('translated', o.aft(0), *(add(p, vec(o, 1)) for p in o.a(0)), oriented=True)
@spec('.translate(Rdd) .translate(R(dd))')
def _(o): o.rect('translated', o.aft(0), *(add(p, vec(o, 1)) for p in o.a(0)))
@spec('.translate(Cdd) .translate(C(dd))')
def _(o): o.circle('translated', o.aft(0), add(o.a(0)[0], vec(o, 1)), o.a(0)[1])
@spec('.moveTo(Sdd) .moveTo(Odd) .moveTo(SP) .moveTo(OP)')
def _(o):
    v = sub(dest(o, 1), o.a(0)[0]); o.seg('moved', o.aft(0), *(add(p, v) for p in o.a(0)), oriented=True)
@spec('.moveTo(Rdd) .moveTo(RP)')
def _(o):
    v = sub(dest(o, 1), o.a(0)[0]); o.rect('moved', o.aft(0), *(add(p, v) for p in o.a(0)))
@spec('.moveTo(Cdd) .moveTo(CP)')
def _(o): o.circle('moved', o.aft(0), dest(o, 1), o.a(0)[1])
@spec('L.translate(dd) L.translate((dd))')
def _(o): o.line('unchanged', o.after, same_=o.this)
@spec('.translate(Ldd) .translate(L(dd))')
def _(o): o.line('unchanged', o.aft(0), same_=o.a(0))
# ---------------------------------------------------------------- copies
@spec('P.operator=(P)')
def _(o): o.is_('assigned', o.after, o.a(0))
@spec('L.operator=(L)')
def _(o): o.line('assigned', o.after, same_=o.a(0))
@spec('S.operator=(S) O.operator=(O)')
def _(o): o.seg('assigned', o.after, *o.a(0), oriented=True)
@spec('R.operator=(R)')
def _(o): o.rect('assigned', o.after, *o.a(0))
@spec('C.operator=(C)')
def _(o): o.circle('assigned', o.after, *o.a(0))
@spec('E.operator=(E) H.operator=(H) H.Hmatrix_(H)')
def _(o): o.mat('assigned', o.after, hm(o, 0))
@spec('H.Hmatrix_([[d]])')
def _(o):
    r = o.G.root(o.f, 0); o.mat('matrix', o.after, [poly.A(('in', r + ('[%d]' % i, '[%d]' % j))) for i in range(3) for j in range(3)])
@spec('P.LPBase()')
def _(o): o.is_('origin', o.after, (q(0), q(0)))
@spec('P.area() P.length() L.area() S.area() O.area() .area(P) .area(L) .area(S) .area(O) .length(P)')
def _(o): o.is_('measure', o.ret, q(0))
@spec('P.size() .size(P) C.size() E.size() .size(C) .size(E)')
def _(o): o.is_('number of points', o.ret, q(1))
@spec('S.size() O.size() .size(S) .size(O)')
def _(o): o.is_('number of points', o.ret, q(2))
@spec('R.size() .size(R)')
def _(o): o.is_('number of points', o.ret, q(4))

# ---------------------------------------------------------------- bounding boxes of pairs
def ends(o, j, k):
    x = o.a(j)
    if k == 'P': return [x]
    if k in 'SOR': return list(x)
    if k == 'C':
        (a, b), r = x; return [(a - r, b - r), (a + r, b + r)]
def fold(g, xs):
    r = xs[0]
    for x in xs[1:]: r = g(r, x)
    return r
def hull2(o):
    ps = []
    for j in range(2): ps += ends(o, j, geo.letter(o.f.facts, o.f.params[j]['t']))
    o.rect('common bounding box', o.ret, tuple(fold(mn, [p[i] for p in ps]) for i in (0, 1)), tuple(fold(mx, [p[i] for p in ps]) for i in (0, 1)))
for _a in 'PSORC':
    for _b in 'PSORC': SPEC.append(('.getBB(%s%s)' % (_a, _b), hull2))

# ---------------------------------------------------------------- lines
@spec('L.LPBase(PP)')
def _(o): o.line('line', o.after, thr=(o.a(0), o.a(1)))
@spec('.operator*(PP)')
def _(o): o.line('line', o.ret, thr=(o.a(0), o.a(1)))
@spec('L.LPBase(P)')
def _(o): o.line('line', o.after, thr=((q(0), q(0)), o.a(0)))
@spec('L.LPBase(dd)')
def _(o): o.line('line', o.after, thr=((q(0), q(0)), (o.a(0), o.a(1))))
@spec('L.LPBase(dddd)')
def _(o): o.line('line', o.after, thr=((o.a(0), o.a(1)), (o.a(2), o.a(3))))
@spec('L.LPBase(ddd) L.set(ddd)')
def _(o): o.line('line', o.after, same_=(o.a(0), o.a(1), o.a(2)))
@spec('L.LPBase(L)')
def _(o): o.line('line', o.after, same_=o.a(0))
@spec('L.LPBase(nd)')
def _(o, ):
    v = o.a(1); o.line('line', o.after, same_=(q(0), q(1), -v) if o.tag == 'H' else (q(1), q(0), -v))
@spec('L.LPBase(nP)')
def _(o):
    p = o.a(1); o.line('line', o.after, same_=(q(0), q(1), -p[1]) if o.tag == 'H' else (q(1), q(0), -p[0]))
@spec('.operator*(LL)')
def _(o):
    if o.f.ret is not None and geo.letter(o.f.facts, o.f.ret) == 'P':
        for j in (0, 1): o.zero('lies on line %d' % (j + 1), o.ret, lambda p: ev(o.a(j), p))
@spec('.operator*(SS) .operator*(OO)')
def _(o):
    for j in (0, 1): o.zero('lies on the supporting line of segment %d' % (j + 1), o.ret, lambda p: ev(thru(*o.a(j)), p))
@spec('L.getCoord(nd)')
def _(o):
    l = o.this; v = o.a(1)
    if o.tag == 'X': o.zero('point lies on the line', o.ret, lambda y: ev(l, (v, y)))
    else: o.zero('point lies on the line', o.ret, lambda x: ev(l, (x, v)))
@spec('L.getPoint(nd)')
def _(o):
    if o.ret is None: return
    o.zero('point lies on the line', o.ret, lambda p: ev(o.this, p)); o.zero('has the given coordinate', o.ret, lambda p: p[0 if o.tag == 'X' else 1] - o.a(1))
def twopts(o, r, c, d, what):
    l = o.this
    if r is None or r[0] is None or r[1] is None: return
    n = (-l[1], l[0])
    o.pts(what, list(r), [(c[0] + n[0] * d, c[1] + n[1] * d), (c[0] - n[0] * d, c[1] - n[1] * d)])
def onl(o, tag, v):
    l = o.this
    return (v, -(l[0] * v + l[2]) / l[1]) if tag == 'X' else (-(l[1] * v + l[2]) / l[0], v)
@spec('L.getPoints(Pd) L.getPoints(Pi)')
def _(o): twopts(o, o.ret, o.a(0), o.a(1), 'points at the given distance')
@spec('L.getPoints(ndd)')
def _(o): twopts(o, o.ret, onl(o, o.tag, o.a(1)), o.a(2), 'points at the given distance')
@spec('L.getOrthogLine(P)')
def _(o): o.line('orthogonal line', o.ret, thr=(o.a(0),), ortho=o.this)
@spec('L.getOrthogLine(nd)')
def _(o): o.line('orthogonal line', o.ret, thr=(onl(o, o.tag, o.a(1)),), ortho=o.this)
@spec('L.getParallelLine(P)')
def _(o): o.line('parallel line', o.ret, thr=(o.a(0),), par=o.this)
def parlines(o, l, d, r):
    if r is None or r[0] is None or r[1] is None: return
    for k in (0, 1): o.line('parallel line %d' % (k + 1), r[k], par=l)
    # signed offsets, for a unit normal (the sign of the normal may be changed)
    off = [[l[0] * x[0] * (x[2] - l[2] * (l[0] * x[0] + l[1] * x[1])) + l[1] * x[1] * (x[2] - l[2] * (l[0] * x[0] + l[1] * x[1])) for x in r[k]] for k in (0, 1)]
    o.pts('offsets', [[(y, q(0)) for y in z] for z in off], [(d, q(0)), (-d, q(0))])
@spec('L.getParallelLines(d)')
def _(o): parlines(o, o.this, o.a(0), o.ret)
@spec('.getParallelLines(Ld)')
def _(o): parlines(o, o.a(0), o.a(1), o.ret)
@spec('L.getOrthogSegment(P)')
def _(o):
    l, p = o.this, o.a(0); e = ev(l, p)
    o.seg('orthogonal segment', o.ret, p, (p[0] - l[0] * e, p[1] - l[1] * e))
@spec('L.getRotatedLine(Pd)')
def _(o):
    l, p, t = o.this, o.a(0), o.a(1)
    if o.ret is None: return
    # the point is on the line (checked by the function): the line keeps its value there
    o.zero('rotated line keeps its distance to the center', o.ret, lambda x: ev(x, p) * ev(x, p) - ev(l, p) * ev(l, p))
    o.line('rotated line', o.ret, par=(l[0] * Cos(t) - l[1] * Sin(t), l[0] * Sin(t) + l[1] * Cos(t)))
def lang(o, l, m): o.is_('angle', o.ret, poly.fn('acos', Abs(l[0] * m[0] + l[1] * m[1])))
def unit(s):
    d = dist(*s); l = thru(*s); return (l[0] / d, l[1] / d, l[2] / d)
def oang(o, s, t):
    u, v = sub(s[1], s[0]), sub(t[1], t[0])
    o.is_('angle', o.ret, poly.fn('atan2', u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]))
@spec('L.getAngle(L) S.getAngle(S) L.getAngle(S) S.getAngle(L) O.getAngle(L) L.getAngle(O)')
def _(o):
    k = geo.letter(o.f.facts, o.f.params[0]['t'])
    lang(o, o.this if o.cl == 'L' else unit(o.this), o.a(0) if k == 'L' else unit(o.a(0)))
@spec('O.getAngle(O)')
def _(o): oang(o, o.this, o.a(0))
@spec('.getAngle(OO)')
def _(o): oang(o, o.a(0), o.a(1))
@spec('.getAngle(LL)')
def _(o): lang(o, o.a(0), o.a(1))
@spec('.getAngle(SS)')
def _(o): lang(o, unit(o.a(0)), unit(o.a(1)))

# ---------------------------------------------------------------- segments
@spec('S.SegVec(PP) S.set(PP)')
def _(o): o.seg('segment', o.after, o.a(0), o.a(1))
@spec('O.SegVec(PP) O.set(PP)')
def _(o): o.seg('segment', o.after, o.a(0), o.a(1), True)
@spec('S.SegVec(dddd) S.set(dddd)')
def _(o): o.seg('segment', o.after, (o.a(0), o.a(1)), (o.a(2), o.a(3)))
@spec('O.SegVec(dddd) O.set(dddd)')
def _(o): o.seg('segment', o.after, (o.a(0), o.a(1)), (o.a(2), o.a(3)), True)
@spec('S.SegVec((PP)) S.set((PP))')
def _(o): o.seg('segment', o.after, *o.a(0))
@spec('O.SegVec((PP)) O.set((PP)) O.SegVec(O) O.SegVec(S) S.SegVec(S)')
def _(o): o.seg('segment', o.after, *o.a(0), oriented=True)
@spec('S.SegVec(O)')
def _(o): o.seg('segment', o.after, *o.a(0))
@spec('S.getPts() O.getPts()')
def _(o): o.seg('points', o.ret, *o.this, oriented=True)
@spec('.getPts(S) .getPts(O)')
def _(o): o.seg('points', o.ret, *o.a(0), oriented=True)
@spec('O.operator-()')
def _(o): o.seg('opposite', o.ret, o.this[1], o.this[0], True)
@spec('O.getVector()')
def _(o):
    if o.ret is None: return
    v = sub(o.this[1], o.this[0]); o.is_('x', o.ret[0], v[0]); o.is_('y', o.ret[1], v[1])
@spec('S.length() O.length()')
def _(o): o.is_('length', o.ret, dist(*o.this))
@spec('.length(S) .length(O)')
def _(o): o.is_('length', o.ret, dist(*o.a(0)))
@spec('S.getCenter() O.getCenter()')
def _(o): o.is_('middle', o.ret, mid(*o.this))
@spec('.getCenter(S) .getCenter(O)')
def _(o): o.is_('middle', o.ret, mid(*o.a(0)))
@spec('S.getLine() O.getLine()')
def _(o): o.line('supporting line', o.ret, thr=o.this)
@spec('.getLine(S) .getLine(O)')
def _(o): o.line('supporting line', o.ret, thr=o.a(0))
@spec('S.getBisector() O.getBisector()')
def _(o): o.line('bisector', o.ret, thr=(mid(*o.this),), ortho=thru(*o.this))
@spec('.getBisector(S) .getBisector(O)')
def _(o): o.line('bisector', o.ret, thr=(mid(*o.a(0)),), ortho=thru(*o.a(0)))
def square(s):
    A, B = s; v = sub(B, A); n = (-v[1], v[0])
    return [add(A, n), sub(A, n), add(B, n), sub(B, n)]
@spec('S.getOrthogPts() O.getOrthogPts()')
def _(o):
    if o.ret is not None: o.pts('orthogonal points', o.ret, square(o.this))
@spec('.getOrthogPts(S) .getOrthogPts(O)')
def _(o):
    if o.ret is not None: o.pts('orthogonal points', o.ret, square(o.a(0)))
def osegs(o, s, r):
    if r is None or any(x is None or None in x for x in r): return
    A, B = s; v = sub(B, A)
    o.pts('orthogonal segments', [p for x in r for p in x], square(s) + [A, B])
    for k, x in enumerate(r):
        if len(x[0]) == len(x[1]) == 1: o.zero('segment %d is orthogonal' % (k + 1), [(x[0][0], x[1][0])], lambda y: (y[1][0] - y[0][0]) * v[0] + (y[1][1] - y[0][1]) * v[1])
@spec('S.getOrthogSegs() O.getOrthogSegs()')
def _(o): osegs(o, o.this, o.ret)
@spec('.getOrthogSegs(S) .getOrthogSegs(O)')
def _(o): osegs(o, o.a(0), o.ret)
def parsegs(o, s, d, r):
    if r is None or any(x is None or None in x for x in r): return
    A, B = s; v = sub(B, A); L = dist(A, B); n = (-v[1] / L * d, v[0] / L * d)
    up = [add(A, n), add(B, n)]; dn = [sub(A, n), sub(B, n)]
    for k in (0, 1): o.pts('parallel segment %d' % (k + 1), list(r[k]), up + dn) if False else [o.is_('parallel segment %d' % (k + 1), p, *(up + dn), cover=False) for p in r[k]]
    u = []
    for x in r:
        for p in x: u += [y for y in p if y not in u]
    o.is_('parallel segments', u, *(up + dn))
    for k, x in enumerate(r):
        if len(x[0]) == len(x[1]) == 1: o.zero('segment %d is parallel' % (k + 1), [(x[0][0], x[1][0])], lambda y: (y[1][0] - y[0][0]) * v[1] - (y[1][1] - y[0][1]) * v[0])
@spec('S.getParallelSegs(d) O.getParallelSegs(d)')
def _(o): parsegs(o, o.this, o.a(0), o.ret)
@spec('.getParallelSegs(Sd) .getParallelSegs(Od)')
def _(o): parsegs(o, o.a(0), o.a(1), o.ret)
@spec('S.getPointAt(d) O.getPointAt(d)')
def _(o):
    A, B = o.this; d = o.a(0); L = dist(A, B)
    o.is_('point at the given distance', o.ret, (A[0] + (B[0] - A[0]) * d / L, A[1] + (B[1] - A[1]) * d / L))
def splitted(o, s, c, r):
    if r is None: return
    orient = None
    o.seg('first part', r[0], s[0], c, orient); o.seg('second part', r[1], c, s[1], orient)
@spec('S.split() O.split()')
def _(o): splitted(o, o.this, mid(*o.this), o.ret)
@spec('.split(S) .split(O)')
def _(o): splitted(o, o.a(0), mid(*o.a(0)), o.ret)
def at(s, d):
    A, B = s; L = dist(A, B); return (A[0] + (B[0] - A[0]) * d / L, A[1] + (B[1] - A[1]) * d / L)
@spec('S.split(d) O.split(d)')
def _(o): splitted(o, o.this, at(o.this, o.a(0)), o.ret)
@spec('.split(Sd) .split(Od)')
def _(o): splitted(o, o.a(0), at(o.a(0), o.a(1)), o.ret)
def extended(o, s, r):
    A, B = s; lo, hi = sub(add(A, A), B), sub(add(B, B), A)
    if r is None or r[0] is None or r[1] is None: return
    if len(r[0]) == len(r[1]) == 1: return o.seg('extended', r, lo, hi)
    # which of the two intersections of the line with a circle comes first is decided by a comparison
    for k in (0, 1): o.is_('extended, point %d' % (k + 1), r[k], lo, hi, A, B, cover=False)
    o.is_('extended', [y for x in r for y in x], lo, hi, A, B)
@spec('S.getExtended() O.getExtended()')
def _(o): extended(o, o.this, o.ret)
@spec('.getExtended(S) .getExtended(O)')
def _(o): extended(o, o.a(0), o.ret)

# ---------------------------------------------------------------- circles
@spec('C.Circle_(d)')
def _(o): o.circle('circle', o.after, (q(0), q(0)), o.a(0))
@spec('C.Circle_(Pd) C.Circle_(Pi) C.set(Pd) C.set(Pi)')
def _(o): o.circle('circle', o.after, o.a(0), o.a(1))
@spec('C.Circle_(ddd) C.set(ddd)')
def _(o): o.circle('circle', o.after, (o.a(0), o.a(1)), o.a(2))
@spec('C.Circle_(P)')
def _(o): o.is_('center', o.after[0] if o.after else None, o.a(0))
@spec('C.set(P)')
def _(o): o.circle('circle', o.after, o.a(0), o.this[1])
@spec('C.set(d)')
def _(o): o.circle('circle', o.after, o.this[0], o.a(0))
@spec('C.Circle_(C)')
def _(o): o.circle('circle', o.after, *o.a(0))
@spec('C.Circle_(PP) C.set(PP)')
def _(o): o.circle('circle', o.after, mid(o.a(0), o.a(1)), dist(o.a(0), o.a(1)) * half)
@spec('C.Circle_(PPP) C.set(PPP)')
def _(o):
    c = o.after
    if c is None or c[0] is None or c[1] is None or len(c[1]) != 1: return
    for k in range(3): o.zero('goes through point %d' % (k + 1), c[0], lambda p: d2(p, o.a(k)) - c[1][0] * c[1][0])
@spec('C.radius()')
def _(o): o.is_('radius', o.ret, o.this[1])
@spec('C.center() C.getCenter()')
def _(o): o.is_('center', o.ret, o.this[0])
@spec('.radius(C)')
def _(o): o.is_('radius', o.ret, o.a(0)[1])
@spec('.center(C) .getCenter(C)')
def _(o): o.is_('center', o.ret, o.a(0)[0])
@spec('C.area()')
def _(o): o.is_('area', o.ret, PI * o.this[1] * o.this[1])
@spec('.area(C)')
def _(o): o.is_('area', o.ret, PI * o.a(0)[1] * o.a(0)[1])
@spec('C.length()')
def _(o): o.is_('perimeter', o.ret, 2 * PI * o.this[1])
@spec('.length(C)')
def _(o): o.is_('perimeter', o.ret, 2 * PI * o.a(0)[1])
def cbb(o, c, r):
    (x, y), rad = c; o.rect('bounding box', r, (x - rad, y - rad), (x + rad, y + rad))
@spec('C.getBB()')
def _(o): cbb(o, o.this, o.ret)
@spec('.getBB(C)')
def _(o): cbb(o, o.a(0), o.ret)
@spec('.getSegment(CC)')
def _(o): o.seg('segment between the centers', o.ret, o.a(0)[0], o.a(1)[0])
@spec('.getLine(CC)')
def _(o): o.line('line through the centers', o.ret, thr=(o.a(0)[0], o.a(1)[0]))

# ---------------------------------------------------------------- intersection points
def ipts(o):
    G, f = o.G, o.f; t = f.ret; r = o.s[0]
    if r is not None and f.facts.recq(t) == 'h2d::detail::IntersectM':
        v = next((kid for k, kid in r.kids.items() if isinstance(kid, vn.T) and '#' in kid.kids), None) if isinstance(r, vn.T) else None
        return [] if v is None else [[p for p in geo.cases(G.point(f, v.kids[k]) or []) if not (p[0].zero() and p[1].zero())] for k in sorted(v.kids) if k[:1] == '[' and k[1:-1].isdigit()]
    if r is None or f.facts.recq(t) not in ('h2d::detail::Intersect',): return []
    return [[p for p in geo.cases(G.point(f, vn.kid(r, k)) or ()) if not (p[0].zero() and p[1].zero())] for k in G.fields(t, 'P')]
def prim(k, x):
    """equations satisfied by the points of x"""
    if k == 'L': return [lambda p: ev(x, p)]
    if k in 'SO': return [lambda p: ev(thru(*x), p)]
    if k == 'C': return [lambda p: d2(p, x[0]) - x[1] * x[1]]
@spec('L.intersects(L) S.intersects(S) S.intersects(L) O.intersects(O) O.intersects(S) S.intersects(O) O.intersects(L) L.intersects(S) L.intersects(O) L.intersects(C) C.intersects(L) C.intersects(C) S.intersects(C) C.intersects(S) O.intersects(C) C.intersects(O)')
def _(o):
    k = geo.letter(o.f.facts, o.f.params[0]['t'])
    for j, ps in enumerate(ipts(o)):
        if not ps: continue
        for n, kk, x in (('this object', o.cl, o.this), ('the parameter', k, o.a(0))):
            # an end of the segment that was found to be on the circle is returned as is
            ends = list(o.this if o.cl in 'SO' else o.a(0)) if kk == 'C' and {o.cl, k} & {'S', 'O'} else []
            qs = [p for p in ps if not any(same(p, z) for z in ends)]
            for e in prim(kk, x): o.zero('intersection point %d lies on %s' % (j + 1, n), qs, e)

# ---------------------------------------------------------------- rectangles
def box(a, b): return (mn(a[0], b[0]), mn(a[1], b[1])), (mx(a[0], b[0]), mx(a[1], b[1]))
@spec('R.FRect_(PP) R.set(PP)')
def _(o): o.rect('rectangle', o.after, *box(o.a(0), o.a(1)))
@spec('R.FRect_(dddd) R.set(dddd)')
def _(o): o.rect('rectangle', o.after, *box((o.a(0), o.a(1)), (o.a(2), o.a(3))))
@spec('R.FRect_((PP))')
def _(o): o.rect('rectangle', o.after, *box(*o.a(0)))
@spec('R.FRect_(R)')
def _(o): o.rect('rectangle', o.after, *o.a(0))
@spec('R.FRect_(Pdd)')
def _(o):
    c, w, h = o.a(0), o.a(1) * half, o.a(2) * half
    o.rect('rectangle', o.after, *box((c[0] - w, c[1] - h), (c[0] + w, c[1] + h)))
def on(member, free, cls):
    """same check for a member function and the free function of the same name"""
    def d(fn):
        SPEC.append(('%s.%s()' % (cls, member), lambda o: fn(o, o.this))); SPEC.append(('.%s(%s)' % (free, cls), lambda o: fn(o, o.a(0))))
        return fn
    return d
@on('width', 'width', 'R')
def _(o, r): o.is_('width', o.ret, r[1][0] - r[0][0])
@on('height', 'height', 'R')
def _(o, r): o.is_('height', o.ret, r[1][1] - r[0][1])
@on('area', 'area', 'R')
def _(o, r): o.is_('area', o.ret, (r[1][0] - r[0][0]) * (r[1][1] - r[0][1]))
@on('length', 'length', 'R')
def _(o, r): o.is_('perimeter', o.ret, 2 * (r[1][0] - r[0][0]) + 2 * (r[1][1] - r[0][1]))
@on('getCenter', 'getCenter', 'R')
def _(o, r): o.is_('center', o.ret, mid(*r))
@on('getPts', 'getPts', 'R')
def _(o, r): o.seg('corners', o.ret, *r, oriented=True)
@on('getBB', 'getBB', 'R')
def _(o, r): o.rect('bounding box', o.ret, *r)
def corners(r): return [r[0], (r[0][0], r[1][1]), r[1], (r[1][0], r[0][1])]
@on('get4Pts', 'get4Pts', 'R')
def _(o, r):
    if o.ret is None: return
    o.pts('corners', o.ret, corners(r))
    cyc(o, o.ret)
def cyc(o, ps):
    if len(ps) == 4 and all(p is not None and len(p) == 1 for p in ps):
        for k in range(4):
            a, b = ps[k][0], ps[(k + 1) % 4][0]
            o.zero('consecutive corners %d,%d share a coordinate' % (k + 1, (k + 1) % 4 + 1), [(a[0] - b[0]) * (a[1] - b[1])], lambda x: x)
@on('getSegs', 'getSegs', 'R')
def _(o, r):
    if o.ret is None or any(x is None or None in x for x in o.ret): return
    C = corners(r); left = list(range(4))
    o.pts('corners', [p for x in o.ret for p in x], C)
    for k, x in enumerate(o.ret):
        u = x[0] + [y for y in x[1] if y not in x[0]]
        m = next((j for j in left if all(any(same(y, z) for z in (C[j], C[(j + 1) % 4])) for y in u)), None)
        if all(any(same(y, z) for z in C) for y in u): o.rec('side %d' % (k + 1), (m is not None, 'joins %s, not two consecutive corners of a remaining side' % ' '.join(geo.show(y) for y in u) if m is None else 'nf'))
        if m is not None: left.remove(m)
@on('getDiagonals', 'getDiagonals', 'R')
def _(o, r):
    if o.ret is None or any(x is None or None in x for x in o.ret): return
    C = corners(r); D = [(C[0], C[2]), (C[1], C[3])]
    for k, x in enumerate(o.ret):
        u = x[0] + [y for y in x[1] if y not in x[0]]
        o.rec('diagonal %d' % (k + 1), (any(all(any(same(y, z) for z in d) for y in u) and all(any(same(y, z) for y in u) for z in d) for d in D), 'joins %s' % ' '.join(geo.show(y) for y in u)))
    o.pts('diagonals', [p for x in o.ret for p in x], C)
@on('getBoundingCircle', 'getBoundingCircle', 'R')
def _(o, r): o.circle('bounding circle', o.ret, mid(*r), dist(*r) * half)
@on('getInscribedCircle', 'getInscribedCircle', 'R')
def _(o, r): o.circle('inscribed circle', o.ret, mid(*r), mn(r[1][0] - r[0][0], r[1][1] - r[0][1]) * half)
@on('getExtended', 'getExtended', 'R')
def _(o, r): o.rect('extended', o.ret, sub(add(r[0], r[0]), r[1]), sub(add(r[1], r[1]), r[0]))
def rot(tag, p, c):
    x, y = p[0] - c[0], p[1] - c[1]
    x, y = {'CCW': (-y, x), 'CW': (y, -x), 'Full': (-x, -y), 'VMirror': (-x, y), 'HMirror': (x, -y)}[tag]
    return (x + c[0], y + c[1])
def rrot(o, r, c, after):
    o.rect('rotated', after, *box(rot(o.tag, r[0], c), rot(o.tag, r[1], c)))
@spec('R.rotate(nP)')
def _(o): rrot(o, o.this, o.a(1), o.after)
@spec('R.rotate(n)')
def _(o): rrot(o, o.this, o.this[0] if False else (q(0), q(0)), o.after)
@spec('.rotate(Rn)')
def _(o): rrot(o, o.a(0), (q(0), q(0)), o.aft(0))
@spec('.rotate(RnP)')
def _(o): rrot(o, o.a(0), o.a(2), o.aft(0))

# ---------------------------------------------------------------- homographies
def T_(dx, dy): return [1, 0, dx, 0, 1, dy, 0, 0, 1]
def R_(t): return [Cos(t), -Sin(t), 0, Sin(t), Cos(t), 0, 0, 0, 1]
def S_(x, y): return [x, 0, 0, 0, y, 0, 0, 0, 1]
def mul(A, B): return [sum((q(A[3 * i + k]) * q(B[3 * k + j]) for k in range(3)), q(0)) for i in range(3) for j in range(3)]
ID = [1, 0, 0, 0, 1, 0, 0, 0, 1]
@spec('H.Hmatrix_() H.init()')
def _(o): o.mat('matrix', o.after, ID)
@spec('H.Hmatrix_(d) H.setRotation(d)')
def _(o): o.mat('matrix', o.after, R_(o.a(0)))
@spec('H.Hmatrix_(dd) H.setTranslation(dd)')
def _(o): o.mat('matrix', o.after, T_(o.a(0), o.a(1)))
@spec('H.setScale(d)')
def _(o): o.mat('matrix', o.after, S_(o.a(0), o.a(0)))
@spec('H.setScale(dd)')
def _(o): o.mat('matrix', o.after, S_(o.a(0), o.a(1)))
def hm(o, j):
    m = o.G.dec(o.f, vn.T(None, frozenset([o.G.root(o.f, j)])), o.G.V.ptype(o.f, o.G.root(o.f, j)))
    return [x[0] for x in m]
def matv(o, m, spec_, what): o.mat(what, m, spec_)
@spec('H.addTranslation(dd)')
def _(o): matv(o, o.after, mul(T_(o.a(0), o.a(1)), hm(o, 'this')), 'matrix')
@spec('H.addRotation(d)')
def _(o): matv(o, o.after, mul(R_(o.a(0)), hm(o, 'this')), 'matrix')
@spec('H.addScale(dd)')
def _(o): matv(o, o.after, mul(S_(o.a(0), o.a(1)), hm(o, 'this')), 'matrix')
@spec('H.addScale(d)')
def _(o): matv(o, o.after, mul(S_(o.a(0), o.a(0)), hm(o, 'this')), 'matrix')
@spec('.operator*(HH)')
def _(o): matv(o, o.ret, mul(hm(o, 0), hm(o, 1)), 'product')
@spec('H.transpose()')
def _(o):
    m = hm(o, 'this'); matv(o, o.after, [m[3 * j + i] for i in range(3) for j in range(3)], 'transposed')
def adj(m):
    a, b, c, d, e, f, g, h, i = m
    return [e * i - f * h, c * h - b * i, b * f - c * e, f * g - d * i, a * i - c * g, c * d - a * f, d * h - e * g, b * g - a * h, a * e - b * d]
@spec('H.inverse()')
def _(o): o.mat('inverse', o.after, adj(hm(o, 'this')))
@spec('H.normalize()')
def _(o): matv(o, o.after, hm(o, 'this'), 'normalised')
def hp(m, p): return tuple((m[3 * i] * p[0] + m[3 * i + 1] * p[1] + m[3 * i + 2]) / (m[6] * p[0] + m[7] * p[1] + m[8]) for i in (0, 1))
@spec('.operator*(HC)')
def _(o):
    (x, y), r = o.a(1); a = adj(hm(o, 0)); c = [1, 0, -x, 0, 1, -y, -x, -y, x * x + y * y - r * r]
    o.mat('conic of the transformed circle', o.ret, mul(mul([a[3 * j + i] for i in range(3) for j in range(3)], c), a))
@spec('.operator*(HE)')
def _(o):
    a = adj(hm(o, 0)); o.mat('conic of the transformed ellipse', o.ret, mul(mul([a[3 * j + i] for i in range(3) for j in range(3)], hm(o, 1)), a))
@spec('.operator*(HP)')
def _(o): o.is_('transformed', o.ret, hp(hm(o, 0), o.a(1)))
@spec('.operator*(HS)')
def _(o): o.seg('transformed', o.ret, *(hp(hm(o, 0), p) for p in o.a(1)))
@spec('.operator*(HO)')
def _(o): o.seg('transformed', o.ret, *(hp(hm(o, 0), p) for p in o.a(1)), oriented=True)
@spec('.operator*(HL)')
def _(o):
    m, l = hm(o, 0), o.a(1)
    if o.ret is None: return
    # what a previous call left in the cache of the homography is the business of the caching properties
    ls = [x for x in o.ret if not any('_hmt' in a[1] for c in x for a in c.allatoms() if len(a) > 1 and isinstance(a[1], tuple))]
    if not ls: return
    for k in range(3): o.zero('transformed line carries the transformed points', ls, lambda x: cross3([sum((m[3 * i + j] * x[i] for i in range(3)), q(0)) for j in range(3)], l)[k])
@spec('.operator*(HR)')
def _(o):
    m = hm(o, 0); ps = pl(o, o.s[0], 4)
    if ps: o.pts('transformed corners', ps, [hp(m, p) for p in corners(o.a(1))])

# ---------------------------------------------------------------- ellipses
def conic(x0, y0, a, b, t):
    c, s = Cos(t), Sin(t); A2, B2 = a * a, b * b
    A = c * c / A2 + s * s / B2; B = c * s * (1 / A2 - 1 / B2); C = s * s / A2 + c * c / B2
    D = -A * x0 - B * y0; E = -B * x0 - C * y0; F = A * x0 * x0 + 2 * B * x0 * y0 + C * y0 * y0 - 1
    return [A, B, D, B, C, E, D, E, F]
def conic_is(o, m, spec_, what): o.mat(what, m, spec_)
@spec('E.Ellipse_(ddddd)')
def _(o): conic_is(o, o.after, conic(o.a(0), o.a(1), *half_axes(o, 2), o.a(4)), 'conic')
@spec('E.Ellipse_(Pddd)')
def _(o): conic_is(o, o.after, conic(*o.a(0), *half_axes(o, 1), o.a(3)), 'conic')
def half_axes(o, k): return mx(o.a(k), o.a(k + 1)), mn(o.a(k), o.a(k + 1))
@spec('E.Ellipse_(C)')
def _(o):
    (x, y), r = o.a(0); conic_is(o, o.after, conic(x, y, r, r, q(0)), 'conic')
@spec('E.Ellipse_(E)')
def _(o):
    m = hm(o, 0); conic_is(o, o.after, m, 'conic')

def ell(o, j='this'):
    r = o.G.root(o.f, j); return [poly.A(('ell', r, k)) for k in range(5)]
def one_(member, free):
    def d(fn):
        SPEC.append(('E.%s()' % member, lambda o: fn(o, ell(o)))); SPEC.append(('.%s(E)' % free, lambda o: fn(o, ell(o, 0))))
        return fn
    return d
@one_('getCenter', 'getCenter')
def _(o, e): o.is_('center', o.ret, (e[0], e[1]), loose=True)
@one_('angle', 'angle')
def _(o, e): o.is_('angle', o.ret, e[4], loose=True)
@one_('getMajMin', 'getMajMin')
def _(o, e):
    if o.ret is None: return
    o.is_('major half axis', o.ret[0], e[2], loose=True); o.is_('minor half axis', o.ret[1], e[3], loose=True)
@one_('area', 'area')
def _(o, e): o.is_('area', o.ret, PI * e[2] * e[3], loose=True)
@one_('length', 'length')
def _(o, e):
    h = (e[2] - e[3]) * (e[2] - e[3]) / ((e[2] + e[3]) * (e[2] + e[3]))
    o.is_('perimeter (Ramanujan)', o.ret, PI * (e[2] + e[3]) * (1 + 3 * h / (10 + Sqrt(4 - 3 * h))), loose=True)
@one_('getBB', 'getBB')
def _(o, e):
    if o.ret is None: return
    c, s = Cos(e[4]), Sin(e[4]); w, h = Sqrt(e[2] * e[2] * c * c + e[3] * e[3] * s * s), Sqrt(e[2] * e[2] * s * s + e[3] * e[3] * c * c)
    o.is_('bounding box, lower corner', o.ret[0], (e[0] - w, e[1] - h), loose=True); o.is_('bounding box, upper corner', o.ret[1], (e[0] + w, e[1] + h), loose=True)
@one_('getAxisLines', 'getAxisLines')
def _(o, e):
    if o.ret is None or o.ret[0] is None or o.ret[1] is None: return
    d = (Cos(e[4]), Sin(e[4])); c = (e[0], e[1])
    for k, (n, dd) in enumerate((('major', (-d[1], d[0])), ('minor', d))):
        for what, fn in (('has the right direction', lambda l: l[0] * dd[1] - l[1] * dd[0]),):
            o.is_('%s axis line %s' % (n, what), [fn(l) for l in o.ret[k]], q(0), loose=True)
        o.is_('%s axis line goes through the center' % n, [-(l[0] * c[0] + l[1] * c[1]) / l[2] for l in o.ret[k]], q(1), loose=True)
@spec('E.translate(dd) E.translate((dd))')
def _(o):
    e = ell(o); v = vec(o); conic_is(o, o.after, conic(e[0] + v[0], e[1] + v[1], *e[2:]), 'translated')
@spec('.translate(Edd) .translate(E(dd))')
def _(o):
    e = ell(o, 0); v = vec(o, 1); conic_is(o, o.aft(0), conic(e[0] + v[0], e[1] + v[1], *e[2:]), 'translated')
@spec('E.moveTo(dd) E.moveTo(P)')
def _(o):
    e = ell(o); conic_is(o, o.after, conic(*dest(o), *e[2:]), 'moved')
# ---------------------------------------------------------------- polylines
def pl(o, v, n):
    """points of the polyline value v, when there are n of them"""
    out = []
    for k in range(n):
        p = o.G.point(o.f, vn.sub(v, ('_plinevec', '[%d]' % k))) if isinstance(v, vn.T) else None
        if p is None: return None
        out.append(p)
    return out
def plafter(o, n):
    v = o.s[1].get(('this',))
    return pl(o, v, n)
@spec('Y.PolylineBase(R) Y.set(R)')
def _(o):
    ps = plafter(o, 4)
    if ps: o.pts('corners', ps, corners(o.a(0))); cyc(o, ps)
# ---------------------------------------------------------------- extreme points of sets of points
def elem(o, r, w, ax):
    n = re.search(r'std::array<.*, (\d+)>$', o.f.facts.t(o.G.V.ptype(o.f, r))['s'])
    if n:
        ps = [r + ('[%d]' % k,) for k in range(int(n.group(1)))]; g = mn if w == 'least' else mx
        return tuple(fold(g, [poly.A((x, p)) for p in ps]) if x == ax else None for x in 'XY')
    p = r + ('[%s:%s]' % (w, ax),); return poly.A(('X', p)), poly.A(('Y', p))
def pts_of(o, j):
    r = o.G.root(o.f, j); t = o.G.V.ptype(o.f, r)
    return r + ('_plinevec',) if geo.letter(o.f.facts, t) == 'Y' else r
def known_(o, x): return x is not None and not any(len(a) > 1 and isinstance(a[1], tuple) and '[]' in a[1] for y in x for z in (y if isinstance(y, tuple) else (y,)) for a in z.allatoms())
EXT = {'Tm': ('Top', 'greatest', 'Y'), 'Bm': ('Bottom', 'least', 'Y'), 'Lm': ('Left', 'least', 'X'), 'Rm': ('Right', 'greatest', 'X')}
def extreme(o, ret, j, d):
    if not known_(o, ret): return
    e = elem(o, pts_of(o, j), *EXT[d][1:])
    if any(x is None for x in e): k = int(e[0] is None); o.is_('%s-most coordinate' % EXT[d][0].lower(), [x[k] for x in ret], e[k])
    else: o.is_('%s-most point' % EXT[d][0].lower(), ret, e)
for _d in EXT:
    SPEC.append(('Y.get%sPoint()' % _d, lambda o, d=_d: extreme(o, o.ret, 'this', d)))
    SPEC.append(('.get%sPoint(Y)' % _d, lambda o, d=_d: extreme(o, o.ret, 0, d)))
    SPEC.append(('.get%sPoint([P])' % _d, lambda o, d=_d: extreme(o, o.G.point(o.f, vn.kid(o.s[0], 'first')) if isinstance(o.s[0], vn.T) else None, 0, d)))
def cardinal(o, j):
    d = [k for k, x in EXT.items() if x[0] == o.tag]
    if d: extreme(o, o.ret, j, d[0])
SPEC.append(('Y.getExtremePoint(n)', lambda o: cardinal(o, 'this'))); SPEC.append(('.getExtremePoint(nY)', lambda o: cardinal(o, 1)))
def setbb(o, j):
    r = pts_of(o, j); ret = o.ret
    if ret and all(known_(o, x) for x in ret): o.rect('bounding box', ret, *((elem(o, r, w, 'X')[0], elem(o, r, w, 'Y')[1]) for w in ('least', 'greatest')))
SPEC.append(('Y.getBB()', lambda o: setbb(o, 'this'))); SPEC.append(('.getBB(Y)', lambda o: setbb(o, 0))); SPEC.append(('.getBB([P])', lambda o: setbb(o, 0)))
@spec('Y.setParallelogram(PPP)')
def _(o):
    ps = plafter(o, 4)
    if ps:
        a, b, c = o.a(0), o.a(1), o.a(2)
        for k, (p, s) in enumerate(zip(ps, (a, b, c, sub(add(a, c), b)))): o.is_('point %d' % (k + 1), p, s)
def star(o, j='this'):
    r = o.G.root(o.f, j); v = o.s[1].get(r)
    if not isinstance(v, vn.T): return None, None, None
    w = vn.kid(v, '_plinevec')
    p = o.G.point(o.f, w.kids['[A]']) if isinstance(w, vn.T) and '[A]' in w.kids else None
    e = ('_plinevec', '[*]')
    X = lambda k: (poly.A(('X', r + ('_plinevec', k))), poly.A(('Y', r + ('_plinevec', k))))
    return p, X('[*]'), X('[0]')
@spec('Y.translate(dd) Y.translate((dd))')
def _(o):
    p, x, _ = star(o)
    if p: o.is_('every point translated', p, add(x, vec(o)))
@spec('Y.moveTo(dd) Y.moveTo(P)')
def _(o):
    p, x, z = star(o)
    if p: o.is_('every point moved', p, add(x, sub(dest(o), z)))
@spec('Y.rotate(nP)')
def _(o):
    p, x, _ = star(o)
    if p: o.is_('every point rotated', p, rot(o.tag, x, o.a(1)))
@spec('Y.rotate(n)')
def _(o):
    p, x, _ = star(o)
    if p: o.is_('every point rotated', p, rot(o.tag, x, (q(0), q(0))))
@spec('.rotate(YnP)')
def _(o):
    p, x, _ = star(o, 0)
    if p: o.is_('every point rotated', p, rot(o.tag, x, o.a(2)))
@spec('.rotate(Yn)')
def _(o):
    p, x, _ = star(o, 0)
    if p: o.is_('every point rotated', p, rot(o.tag, x, (q(0), q(0))))

@spec('.getParallelDistance(LL)')
def _(o):
    r = [o.G.root(o.f, j) for j in (0, 1)]; a, b = o.a(0), o.a(1)
    o.G.parallel = {r[1]: r[0]}; o.G.total = True
    d = a[0] * b[0] + a[1] * b[1]              # 1 or -1
    try: o.is_('distance of parallel lines', o.ret, Abs(a[2] - d * b[2]))
    finally: o.G.parallel = {}; o.G.total = False
@spec('.moveTo(EP) .moveTo(Edd)')
def _(o):
    e = ell(o, 0); conic_is(o, o.aft(0), conic(*dest(o, 1), *e[2:]), 'moved')
@spec('E.Ellipse_()')
def _(o): conic_is(o, o.after, conic(q(0), q(0), q(2), q(1), q(0)), 'conic')
@spec('.translate(Ydd) .translate(Y(dd))')
def _(o):
    p, x, _ = star(o, 0)
    if p: o.is_('every point translated', p, add(x, vec(o, 1)))
@spec('.moveTo(Ydd) .moveTo(YP)')
def _(o):
    p, x, z = star(o, 0)
    if p: o.is_('every point moved', p, add(x, sub(dest(o, 1), z)))
def ebox(e):
    c, s = Cos(e[4]), Sin(e[4]); w, h = Sqrt(e[2] * e[2] * c * c + e[3] * e[3] * s * s), Sqrt(e[2] * e[2] * s * s + e[3] * e[3] * c * c)
    return [(e[0] - w, e[1] - h), (e[0] + w, e[1] + h)]
def hull2e(o):
    if o.ret is None: return
    ps = []
    for j in range(2):
        k = geo.letter(o.f.facts, o.f.params[j]['t']); ps += ebox(ell(o, j)) if k == 'E' else ends(o, j, k)
    for k, g in (('lower', mn), ('upper', mx)): o.is_('common bounding box, %s corner' % k, o.ret[k == 'upper'], tuple(fold(g, [p[i] for p in ps]) for i in (0, 1)), loose=True)
for _a in 'PSORCE':
    SPEC.append(('.getBB(%sE)' % _a, hull2e))
    if _a != 'E': SPEC.append(('.getBB(E%s)' % _a, hull2e))
# default constructors
@spec('C.Circle_()')
def _(o): o.circle('unit circle', o.after, (q(0), q(0)), q(1))
@spec('S.SegVec() O.SegVec()')
def _(o): o.seg('default segment', o.after, (q(0), q(0)), (q(1), q(1)), oriented=True)
@spec('R.FRect_()')
def _(o): o.rect('default rectangle', o.after, (q(0), q(0)), (q(1), q(1)))
@spec('L.LPBase()')
def _(o): o.line('vertical line', o.after, thr=((q(0), q(0)), (q(0), q(1))))
# ---------------------------------------------------------------- driver
def enum_of(G, f):
    for j, p in enumerate(f.params):
        t = f.facts.t(f.facts.strip(p['t']))
        if t['k'] == 'enum':
            e = G.en.get(t['s'].split('::')[-1])
            if e: return j, e
    return None
def subjects(cx, F, G):
    table = collections.defaultdict(list)
    for k, fn in SPEC: table[k].append(fn)
    for f in F.fns:
        if not public(f) or not f.blocks(): continue
        t = axis.this_type(F, f.cls) if f.cls else None
        cl = geo.letter(F, t) if t is not None else ''
        key = '%s.%s(%s)' % (cl, f.name, ''.join({'i': 'd'}.get(geo.letter(F, p['t']), ptrl(F, p['t'])) for p in f.params))
        if key in table: yield f, cl, key, table[key]
def ptrl(F, t):
    l = geo.letter(F, t); return l

def run(cx):
    for F in cx.extract(*(['base'] if cx.tier == 'quick' else ['base', 'float', 'ldld', 'nocheck', 'speed', 'thr'])): check(cx, F)
def check(cx, F):
    G = geo.Geo(F); dec = 0; und = set(); nf = evn = 0; keys = set()
    for f, cl, key, fns in subjects(cx, F, G):
        e = enum_of(G, f) if 'n' in key.split('(')[1] else None
        for tag, v in (e[1].items() if e else (('', None),)):
            try: o = O(cx, G, f, None, {e[0]: vn.num(v)} if e else None, tag)
            except (poly.Over, RecursionError): und.add('%s%s (%s)' % (key, ' [%s]' % tag if tag else '', F.config)); continue
            o.cl = cl; poly.steps[1] = poly.steps[0] + 4 * vn.BUDGET
            for fn in fns:
                try: fn(o)
                except (poly.Big, poly.Over, RecursionError, ZeroDivisionError): pass
            poly.steps[1] = None
            where = '%s%s' % (key, ' [%s]' % tag if tag else '')
            for what, why in o.bad: cx.bad('%s:%s' % (where, what), '%s (homog2d.hpp:%d, config %s): %s %s' % (f.sig() + (' [%s]' % tag if tag else ''), f.line, F.config, what, why))
            if o.done: dec += 1; keys.add(where)
            else: und.add('%s (%s)' % (where, F.config))
            for _ in range(o.done - len(o.bad)): cx.good('%s%s' % (f.sig(), ' [%s]' % tag if tag else ''))
            nf += o.kinds['nf']; evn += o.kinds['eval']
    cx.cov['configurations'].setdefault(F.config, {}).update(functions_decided=dec, equations_by_normal_form=nf, equations_by_evaluation_of_the_formulas=evn)
    cx.cov['not_decided'] = sorted(set(cx.cov.get('not_decided', [])) | und)
    cx.need(len(keys), 60, 'functions whose formulas were derived (%s)' % F.config)
