"""Geometric objects out of value-numbering results, and the comparison of their formulas with defining equations.
Formulas are compared in normal form (poly.Q).  Two formulas whose normal forms differ can still be equal (nested roots) or, where several paths
were joined, equal on the part of the input space its path is for: the difference is confirmed by evaluating the two *formulas* over valuations of
the input atoms that respect the class invariants, and a formula is refuted only when it agrees on none."""
import math, random
import poly, vn, axis
from poly import Q, q
from core import *

NG, ND = 14, 40
Q0 = {'h2d::base::SegVec': 'S', 'h2d::Circle_': 'C', 'h2d::FRect_': 'R', 'h2d::Ellipse_': 'E', 'h2d::Hmatrix_': 'H', 'h2d::base::PolylineBase': 'Y'}
def letter(F, t):
    x = F.t(F.strip(t)); qn = F.recq(t) or ''
    if qn == 'h2d::base::LPBase': return 'P' if 'IsPoint' in x['s'].split(',')[0] else 'L'
    if qn == 'h2d::base::SegVec': return 'O' if 'IsOSeg' in x['s'].split(',')[0] else 'S'
    if qn in Q0: return Q0[qn]
    if qn == 'std::pair': return '(' + ''.join(letter(F, y) for y in x.get('a', ()) if not isinstance(y, str)) + ')'
    if qn in ('std::vector', 'std::array', 'std::list'):
        e = axis.elem_type(F, t); return '[' + (letter(F, e) if e is not None else '?') + ']'
    if qn: return qn.split('::')[-1]
    return {'int': 'i', 'float': 'd', 'enum': 'n', 'bool': 'b', 'void': '', 'arr': '[]', 'ptr': '*'}.get(x['k'], '?')

class Geo:
    def __init__(self, F, only=None):
        self.F = F; self.V = vn.vn(F) if only is None else vn.VN(F, only); self.gs = {}; self.asm = ()
        self.en = {}
        for e in F.enums: self.en[e['q'].split('::')[-1]] = {x['n']: int(x['v']) for x in e['e'] if x.get('v') is not None}

    def norm(self, f, x):
        """x, with the comparisons the class invariants of the inputs decide"""
        for i in sorted(poly.gates(x) | poly.mms(x)):
            k = (f.id, i)
            if k not in self.gs: self.gs[k] = self.V.sign(f, poly._atoms[i][2][0].v)
            if self.gs[k]:
                try: x = poly.assume(x, i, int(self.gs[k] < 0))
                except (poly.Big, ZeroDivisionError): pass
        return x
    # ---- decoding
    def fields(self, t, want):
        F = self.F; r = F.recs.get(F.t(F.strip(t)).get('u'))
        st = [r] if r else []; out = []
        while st:
            r = st.pop(0)
            out += [fd['n'] for fd in r['fields'] if letter(F, fd['t']) == want]
            st += [F.recs[F.t(b)['u']] for b in r.get('bases', ()) if isinstance(b, int) and F.t(b).get('u') in F.recs]
        return out
    def point(self, f, v):
        x = self.V.triples(f, vn.kid(v, '_v')) if isinstance(v, vn.T) else None
        if x is None:
            a, b = self.V.pt(f, v, 'X'), self.V.pt(f, v, 'Y')
            return [(self.norm(f, a[0]), self.norm(f, b[0]))] if a is not None and b is not None and len(a) == len(b) == 1 else None
        try: return [(self.norm(f, t[0] / t[2]), self.norm(f, t[1] / t[2])) for t in x]
        except (ZeroDivisionError, poly.Big): return None
    def dec(self, f, v, t):
        """decoded value of type t: point/line -> list of alternative tuples, number -> list of alternatives, others -> tuple of components"""
        F = self.F; l = letter(F, t)
        if l in ('d', 'i', 'b', 'n'):
            x = self.V.scal(f, v); return None if x is None else [self.norm(f, y) for y in x]
        if l == 'P': return self.point(f, v)
        if l == 'L':
            x = self.V.triples(f, vn.kid(v, '_v')) if isinstance(v, vn.T) else None
            return x if x is None else [tuple(self.norm(f, z) for z in t) for t in x]
        if l in ('S', 'O', 'R'):
            a, b = self.fields(t, 'P')[:2]
            return self.point(f, vn.kid(v, a)), self.point(f, vn.kid(v, b))
        if l == 'C':
            c, r = self.fields(t, 'P')[0], self.fields(t, 'd')[0]
            x = self.V.scal(f, vn.kid(v, r))
            return self.point(f, vn.kid(v, c)), None if x is None else [self.norm(f, y) for y in x]
        if l in ('E', 'H') or 'Matrix' in l:
            out = []
            for i in range(3):
                for j in range(3):
                    x = self.V.scal(f, vn.sub(v, ('_mdata', '[%d]' % i, '[%d]' % j)))
                    out.append(None if x is None else list(x))
            return tuple(out)
        if l[:1] == '(':
            return tuple(self.dec(f, vn.kid(v, k), axis.field_type(F, t, k)) for k in ('first', 'second'))
        if l[:1] == '[':
            e = axis.elem_type(F, t); n = None
            if isinstance(v, vn.T):
                ks = [k for k in v.kids if k[:1] == '[' and k[1:-1].isdigit()]
                n = len(ks)
            return None if not n or e is None else tuple(self.dec(f, vn.kid(v, '[%d]' % k), e) for k in range(n))
        return None

    # ---- symbolic inputs
    def root(self, f, j): return ('this',) if j == 'this' else ('p' if self.F.is_ref(f.params[j]['t']) else 'v', j)
    def inp(self, f, j, *path):
        """decoded input object"""
        p = self.root(f, j) + path
        t = self.V.ptype(f, p)
        return None if t is None else one(self.dec(f, vn.T(None, frozenset([p])), t))

    # ---- evaluation of formulas
    def order(self, f, P):
        """(place of the first point, place of the second, kind of order) when P is an endpoint of a sorted object"""
        if len(P) < (2 if P[0] == 'this' else 3): return None
        t = self.V.ptype(f, P[:-1])
        if t is None: return None
        l = letter(self.F, t)
        if l not in ('R', 'S'): return None
        a, b = self.fields(t, 'P')[:2]
        return (P[:-1] + (a,), P[:-1] + (b,), l) if P[-1] in (a, b) else None
    def is_ell(self, f, p):
        t = self.V.ptype(f, p); return t is not None and letter(self.F, t) == 'E'
    total = False                 # the function has a value for all inputs
    parallel = {}                 # line -> line it is parallel to
    def valuation(self, f, seed, extra=None):
        """valuation of atoms: function atom -> float"""
        R = random.Random(seed); memo = {}; deg = seed >= 1000
        def rnd(key, lo=-6.0, hi=6.0):
            if key not in memo:
                r = random.Random(hash_s('%s/%s' % (seed, key)))
                memo[key] = r.uniform(lo, hi)
                if deg and key[0] != 'W': memo[key] = float(r.choice([0, 0, 1, 1, 2, -1])) if seed % 2 else float(seed // 2 % 3)
            return memo[key]
        def ell(r):
            """center, half axes and angle of the ellipse at place r: major axis >= minor axis, angle in ]-pi/2, pi/2]"""
            if ('ell', r) not in memo:
                g = random.Random(hash_s('%s/ell/%s' % (seed, r)))
                a, b, t = g.uniform(3, 6), g.uniform(.5, 2.9), g.uniform(-1.5, 1.5)
                x0, y0 = g.uniform(-6, 6), g.uniform(-6, 6)
                if deg: t = (0.0, math.pi / 2, math.pi / 4, -math.pi / 4)[seed % 4]; x0, y0 = float(seed // 4 % 3), float(seed // 8 % 3)
                memo['ell', r] = x0, y0, a, b, t
            return memo['ell', r]
        def emat(r, i, j):
            x0, y0, a, b, t = ell(r); c, s = math.cos(t), math.sin(t)
            A = c * c / a / a + s * s / b / b; C = s * s / a / a + c * c / b / b; B = c * s * (1 / a / a - 1 / b / b)
            if deg and abs(math.sin(2 * t)) < 1e-9: B = 0.0
            D = -A * x0 - B * y0; E = -B * x0 - C * y0; G_ = A * x0 * x0 + 2 * B * x0 * y0 + C * y0 * y0 - 1
            k = 1.0 if seed % 3 == 0 else 1.7
            return k * [A, B, D, B, C, E, D, E, G_][3 * i + j]
        def val(at):
            k = at[0]
            if k == 'pi': return math.pi
            if k in ('X', 'Y'):
                o = self.order(f, at[1])
                if o:
                    a, b, l = o
                    xa, xb, ya, yb = (rnd((c, p)) for c in 'XY' for p in (a, b))
                    if l == 'R': xa, xb, ya, yb = min(xa, xb), max(xa, xb), min(ya, yb), max(ya, yb)
                    elif (xb, yb) < (xa, ya): xa, xb, ya, yb = xb, xa, yb, ya
                    return {('X', a): xa, ('X', b): xb, ('Y', a): ya, ('Y', b): yb}[(k, at[1])]
                return rnd((k, at[1]))
            if k == 'W': return 1.0 if seed % 2 else abs(rnd(('W', at[1]))) + .5
            if k == 'in':
                p = at[1]
                if p[-1] == '_radius': return abs(rnd((k, p))) + .1
                if len(p) > 2 and p[-2] == '_v' and p[-1] in ('[0]', '[1]') and self.V.kind(f, p[:-2]) == 'L':
                    a = self.parallel.get(p[:-2], p[:-2])
                    t = rnd(('ang', a), -3.1, 3.1)
                    if deg: t *= math.pi / 2
                    if a != p[:-2] and rnd(('flip', a)) < 0: t += math.pi
                    return math.cos(t) if p[-1] == '[0]' else math.sin(t)
                if len(p) > 3 and p[-3] == '_mdata' and p[-1][1:-1].isdigit() and p[-2][1:-1].isdigit() and self.is_ell(f, p[:-3]):
                    return emat(p[:-3], int(p[-2][1:-1]), int(p[-1][1:-1]))
                if len(p) > 2 and p[-2] == '_par' and self.is_ell(f, p[:-2]):
                    x0, y0, a, b, t = ell(p[:-2])
                    return {'x0': x0, 'y0': y0, 'a': a, 'b': b, 'a2': a * a, 'b2': b * b, 'theta': t, 'sint': math.sin(t), 'cost': math.cos(t)}.get(p[-1], float('nan'))
                if extra is not None:
                    r = extra(p, rnd)
                    if r is not None: return r
                return rnd((k, p))
            if k == 'ell': return ell(at[1])[at[2]]
            if k == 'raw': return rnd((k, at[1]))
            if k == 'thr': return 1e-5
            return float('nan')
        return val
    def returns(self, v):
        """the function under check returns (does not throw) for these inputs, as far as its conditions are known"""
        return not any(evalf(g, v) < .5 for g in self.asm)
    def agree(self, f, alts_, specs, n, extra=None, exact=False, cover=True, loose=False, strict=None):
        """is every alternative (n-tuple of formulas) one of the specified ones?  True / False / None (cannot evaluate) and a reason"""
        if not alts_: return None, ''
        specs = [s if isinstance(s, tuple) else (s,) for s in specs]
        sp = [tuple(q(x) for x in s) for s in specs]
        one_ = len(alts_) == 1 if strict is None else strict; guard = {}
        alts_ = cases(alts_)
        for a in alts_: guard[id(a)] = a.guard
        gated = any(a.guard for a in alts_)
        spg = any(poly.gates(x) for s in sp for x in s)
        left = []; hit = set()
        for a in alts_:
            m = next((k for k, s in enumerate(sp) if all(x == y for x, y in zip(a, s))), None)
            if m is None: left.append(a)
            else: hit.add(m)
        if not left and (len(hit) == len(sp) or not cover): return True, 'nf'
        if not left and exact: return False, 'never %s' % show([s for k, s in enumerate(sp) if k not in hit][0])
        gen = []
        for sd in range(NG * 6):
            if len(gen) >= NG: break
            v = self.valuation(f, sd, extra)
            if not self.returns(v): continue
            ys = [tuple(evalf(x, v) for x in s) for s in sp]
            if all(math.isfinite(y) for s in ys for y in s): gen.append((v, ys))
        if not gen: return None, ''
        deg = []
        if len(alts_) > 1 or spg:
            for sd in range(1000, 1000 + ND):
                v = self.valuation(f, sd, extra)
                if not self.returns(v): continue
                ys = [tuple(evalf(x, v) for x in s) for s in sp]
                deg.append((v, ys))
        xs = {}
        def ev(a, k, v):
            if (id(a), k) not in xs: xs[id(a), k] = tuple(evalf(x, v) for x in a)
            return xs[id(a), k]
        def active(a, k, v):
            """the conditions under which the alternative is taken"""
            if ('g', id(a), k) not in xs:
                r = True
                for i, b in guard[id(a)]:
                    x = evatom(poly._atoms[i], v)
                    r = None if math.isnan(x) else r if (x > .5) == b else False
                    if not r: break
                xs['g', id(a), k] = r
            return xs['g', id(a), k]
        if loose:
            # alternatives of intermediate values that belong together were combined freely: one right combination is required everywhere
            for k, (v, ys) in enumerate(gen + deg):
                X = [x for x in (ev(a, k, v) for a in alts_ if active(a, k, v)) if not any(math.isnan(z) for z in x)]
                for j, y in enumerate(ys):
                    if X and all(math.isfinite(z) for z in y) and not any(close(x, y) for x in X): return False, 'gives %s, never %s, on part of the inputs' % (' or '.join(show(a) for a in alts_[:4]), show(specs[j]))
            return True, 'eval'
        for a in left:
            ok = False; seen = False
            for k, (v, ys) in enumerate(gen + deg):
                g = active(a, k, v)
                if not g: continue
                x = ev(a, k, v)
                if any(math.isnan(y) for y in x):
                    if k < len(gen) and self.total and one_ and not guard[id(a)]: ok = False; seen = True; break
                    continue
                if k < len(gen) or guard[id(a)]: seen = True
                if any(close(x, y) for y in ys): ok = True
                elif k < len(gen) and one_ and guard[id(a)] and all(math.isfinite(y) for y_ in ys for y in y_): ok = False; break
                if ok and not (one_ and (guard[id(a)] or self.total)): break
            if not seen and not ok:
                if guard[id(a)]: continue
                return None, ''
            if not ok: return False, 'gives %s where %s is specified' % (show(a), ' or '.join(show(s) for s in specs))
        if cover:
            for k, (v, ys) in enumerate(gen):
                for j, y in enumerate(ys):
                    X = [ev(a, k, v) for a in alts_ if len(sp) > 1 or active(a, k, v)]
                    if not X or any(any(math.isnan(z) for z in x) for x in X): continue
                    if not any(close(x, y) for x in X): return False, 'gives %s, never %s, on part of the inputs' % (' or '.join(show(a) for a in alts_), show(specs[j]))
        return True, 'eval'

    def mat_agree(self, f, m, spec, extra=None):
        """is the 3x3 matrix m (alternatives per entry) the matrix spec up to a common factor?"""
        if m is None or any(not x for x in m): return None, ''
        spec = [q(x) for x in spec]
        if all(len(x) == 1 for x in m):
            M = [x[0] for x in m]
            try:
                pv = next((k for k in reversed(range(9)) if not spec[k].zero() and not M[k].zero()), None)
                if pv is not None and all(M[k] * spec[pv] == M[pv] * spec[k] for k in range(9)): return True, 'nf'
            except (poly.Big, ZeroDivisionError): pass
        used = [set() for _ in m]; seen = 0; single = all(len(x) == 1 for x in m)
        for sd in list(range(NG * 3)) + ([] if single else list(range(1000, 1000 + ND))):
            v = self.valuation(f, sd, extra); y = [evalf(x, v) for x in spec]
            if not self.returns(v): continue
            if not all(math.isfinite(z) for z in y) or max(map(abs, y)) < 1e-9: continue
            xs = [[evalf(x, v) for x in e] for e in m]
            pv = max(range(9), key=lambda k: abs(y[k])); found = False; nan = False
            for piv in xs[pv]:
                if math.isnan(piv): nan = True; continue
                if abs(piv) < 1e-12: continue
                hit = [[j for j, z in enumerate(e) if not math.isnan(z) and abs(z * y[pv] - piv * w) <= 1e-6 * (abs(z * y[pv]) + abs(piv * w) + 1e-3 * abs(piv * y[pv]))] for e, w in zip(xs, y)]
                nan |= any(math.isnan(z) for e in xs for z in e)
                if all(hit):
                    found = True
                    for k, h in enumerate(hit): used[k].update(h)
            if sd >= 1000: continue
            if not found and not nan: return False, 'is not the specified matrix (up to a factor): %s' % show(tuple(e[0] for e in m))
            seen += found
        if not seen: return None, ''
        for k, e in enumerate(m):
            for j in range(len(e)):
                if j not in used[k] and not any(b in str(e[j]) for b in ('nan',)): return False, 'entry %d,%d gives %s where %s is specified' % (k // 3, k % 3, str(e[j])[:160], str(spec[k])[:160])
        return True, 'eval'

def flat(x):
    out = []
    for y in x: out += flat(y) if isinstance(y, tuple) else [y]
    return out
def like(x, it): return tuple(like(y, it) if isinstance(y, tuple) else next(it) for y in x)
class Alt(tuple):
    """an alternative with the conditions under which it is taken"""
    def __new__(cls, x, g=()):
        a = tuple.__new__(cls, x); a.guard = tuple(g); return a
def cases(alts_, limit=5):
    """the alternatives, with their conditional formulas split into cases"""
    out = []
    for a in alts_:
        if not isinstance(a, tuple): a = (a,)
        st = [Alt([q(x) for x in a], getattr(a, 'guard', ()))]; res = []; over = False
        while st:
            x = st.pop()
            g = set()
            for y in x: g |= poly.gates(y)
            if not g: res.append(x); continue
            if len(x.guard) - len(getattr(a, 'guard', ())) >= limit: over = True; break
            i = min(g, key=lambda i: (len(poly._gates(i)), i))          # innermost first
            try:
                for b in (True, False): st.append(Alt([poly.assume(y, i, int(b)) for y in x], x.guard + ((i, b),)))
            except (poly.Big, ZeroDivisionError): over = True; break
        out += [Alt(a, getattr(a, 'guard', ()))] if over else res
    return out

def one(d):
    """the single alternative of a decoded input"""
    if isinstance(d, list): return d[0] if len(d) == 1 else None
    if isinstance(d, tuple): return tuple(one(x) for x in d)
    return d

import hashlib
def hash_s(s): return int.from_bytes(hashlib.md5(s.encode()).digest()[:8], 'big')
def close(x, y): return all(abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) for a, b in zip(x, y))
def show(a): return '(' + ', '.join(str(x)[:160] for x in a) + ')'
def evalf(x, val):
    x = q(x)
    try:
        n = evp(x.n, val); d = evp(x.d, val) if x.d != poly.ONE else 1.0
        return n / d if abs(d) > 1e-12 else float('nan')
    except (ValueError, OverflowError, ZeroDivisionError): return float('nan')
_memo = {}
def evp(p, val):
    s = 0.0; mm = _memo.setdefault(id(val), (val, {}))[1]
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            y = mm.get(a)
            if y is None: y = mm[a] = evatom(poly._atoms[a], val)
            t *= y ** e
        s += t
    return s
FN = {'id': lambda x: x, '+': lambda x, y: x + y, '*': lambda x, y: x * y, '/': lambda x, y: x / y if abs(y) > 1e-12 else float('nan'), 'sqrt': lambda x: math.sqrt(x) if x > 0 else 0.0 if x > -1e-9 else float('nan'), 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'acos': lambda x: math.acos(max(-1.0, min(1.0, x))) if abs(x) < 1 + 1e-9 else float('nan'),
      'asin': lambda x: math.asin(max(-1.0, min(1.0, x))) if abs(x) < 1 + 1e-9 else float('nan'), 'atan': math.atan, 'atan2': math.atan2, 'min': min, 'max': max, 'trunc': math.trunc, 'pow': math.pow, 'exp': math.exp, 'log': math.log, 'fmod': math.fmod, 'tan': math.tan,
      'floor': math.floor, 'ceil': math.ceil, 'round': round}
def evatom(at, val):
    if at[0] == 'fn':
        g = FN.get(at[1])
        if at[1] == 'lt':
            x = evalf(at[2][0].v, val)
            return float('nan') if not abs(x) > 1e-9 else 1.0 if x < 0 else 0.0
        if at[1] == 'ite':
            x = evalf(at[2][0].v, val)
            return x if math.isnan(x) else evalf(at[2][1 if x > .5 else 2].v, val)
        if g is None: return float('nan')
        xs = [evalf(z.v, val) for z in at[2]]
        if any(math.isnan(x) for x in xs): return float('nan')
        return float(g(*xs))
    return val(at)
