"""Rational functions over interned atoms, with exact rational coefficients: the value-number domain of vn.py.
An atom is a tuple: ('in', place...) an input value, ('fn', name, args...) an uninterpreted function of canonical arguments.
Some atoms carry a reduction of their square: sqrt(q)^2 = q, |q|^2 = q^2, and for the normalised line a^2 = 1 - b^2."""
from fractions import Fraction as Fr
import functools

MAXT = 400
class Big(Exception): pass

_ids = {}; _atoms = []; _sq = []          # square of the atom as a Q, or None
def atom_id(a, sq=None):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_atoms); _atoms.append(a); _sq.append(sq)
    return i

def _mul_mono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))

def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

class Over(Exception): pass
steps = [0, None]
def pmul(p, q):
    steps[0] += len(p) * len(q) + 4
    if steps[1] is not None and steps[0] > steps[1]: raise Over()
    if len(p) * len(q) > MAXT * 40: raise Big()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mul_mono(m1, m2) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > MAXT: raise Big()
    return r

ONE = {(): Fr(1)}

def _reduce(p):
    """rewrite squares of reducible atoms; returns a Q-pair (num, den)"""
    num, den = {}, ONE
    again = False
    for m, c in p.items():
        k = next((j for j, (a, e) in enumerate(m) if e >= 2 and _sq[a] is not None), None)
        if k is None:
            num = padd(num, pmul({m: c}, den) if den != ONE else {m: c})
        else:
            a, e = m[k]; again = True
            rest = tuple(x for j, x in enumerate(m) if j != k)
            if e % 2: rest = _mul_mono(rest, ((a, 1),))
            t = Q({rest: c}, ONE, raw=True)
            for _ in range(e // 2): t = t * _sq[a]
            num = padd(pmul(num, t.d), pmul(t.n, den)); den = pmul(den, t.d)
    return num, den, again

class Q:
    __slots__ = ('n', 'd', '_k')
    def __init__(self, n, d=ONE, raw=False):
        self._k = None
        if not raw:
            for _ in range(20):
                need = any(e >= 2 and _sq[a] is not None for m in n for a, e in m) or any(e >= 2 and _sq[a] is not None for m in d for a, e in m)
                if not need: break
                n1, d1, _a = _reduce(n); n2, d2, _b = _reduce(d)
                n, d = pmul(n1, d2), pmul(n2, d1)
            n, d = _cancel(n, d)
        self.n, self.d = n, d
    def __add__(s, o):
        o = q(o)
        try:
            if s.d == o.d: return Q(padd(s.n, o.n), s.d)
            return Q(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d))
        except Big: return fn('+', *sorted((s, o), key=lambda x: x.key()))
    __radd__ = __add__
    def __neg__(s): return Q({m: -c for m, c in s.n.items()}, s.d, raw=True)
    def __sub__(s, o): return s + (-q(o))
    def __rsub__(s, o): return q(o) + (-s)
    def __mul__(s, o):
        o = q(o)
        try:
            if s.d == o.n and s.d != ONE: return Q(s.n, o.d)
            if o.d == s.n and o.d != ONE: return Q(o.n, s.d)
            return Q(pmul(s.n, o.n), pmul(s.d, o.d))
        except Big: return fn('*', *sorted((s, o), key=lambda x: x.key()))
    __rmul__ = __mul__
    def __truediv__(s, o):
        o = q(o)
        if not o.n: raise ZeroDivisionError()
        try:
            if s.d == o.d: return Q(s.n, o.n)
            if s.n == o.n: return Q(o.d, s.d)
            return Q(pmul(s.n, o.d), pmul(s.d, o.n))
        except Big: return fn('/', s, o)
    def __rtruediv__(s, o): return q(o) / s
    def zero(s): return not s.n
    def __eq__(s, o):
        if s.key() == o.key(): return True
        return not (s - o).n
    def __hash__(s): return 0
    def const(s):
        if s.d == ONE and (not s.n or set(s.n) == {()}): return s.n.get((), Fr(0))
        return None
    def key(s):
        if s._k is None:
            s._k = (tuple(sorted(s.n.items())), tuple(sorted(s.d.items())))
        return s._k
    def atoms(s):
        out = set()
        for p in (s.n, s.d):
            for m in p:
                for a, e in m: out.add(_atoms[a])
        return out
    def allatoms(s):
        """atoms, including the arguments of functions"""
        out = set()
        for p in (s.n, s.d):
            for m in p:
                for i, e in m: out |= _all(i)
        return out
    def __repr__(s): return _ps(s.n) if s.d == ONE else '(%s)/(%s)' % (_ps(s.n), _ps(s.d))

_allm = {}
def _all(i):
    r = _allm.get(i)
    if r is None:
        a = _atoms[i]; r = set()
        if a[0] == 'fn':
            for y in a[2]: r |= y.v.allatoms()
        else: r.add(a)
        _allm[i] = r = frozenset(r)
    return r
def q(x):
    if isinstance(x, Q): return x
    x = Fr(x)
    return Q({(): x} if x else {}, ONE, raw=True)

def _lead(p): return max(p, key=lambda m: (sum(e for _, e in m), m))

def _cancel(n, d):
    if not n: return {}, ONE
    if len(n) > MAXT or len(d) > MAXT: raise Big()
    # common monomial
    if d != ONE:
        com = None
        for p in (n, d):
            for m in p:
                mm = dict(m)
                com = mm if com is None else {k: min(e, mm[k]) for k, e in com.items() if k in mm}
                if not com: break
            if not com: break
        if com:
            inv = tuple((k, -e) for k, e in com.items())
            n = {_mul_mono(m, inv): c for m, c in n.items()}; d = {_mul_mono(m, inv): c for m, c in d.items()}
        c = d[_lead(d)]
        if c != 1:
            n = {m: x / c for m, x in n.items()}; d = {m: x / c for m, x in d.items()}
        if len(d) > 1:
            r = _divexact(n, d)
            if r is not None: return r, ONE
            if len(n) > 1:
                r = _divexact(d, n)
                if r is not None:
                    c = r[_lead(r)]
                    return {(): 1 / c}, {m: x / c for m, x in r.items()}
    return n, d

def _key(m, vs): return tuple(dict(m).get(v, 0) for v in vs)
def _divexact(n, d):
    """exact quotient n/d, or None"""
    vs = sorted({a for p in (n, d) for m in p for a, e in m})
    kd = max(d, key=lambda m: _key(m, vs)); cd = d[kd]
    r = dict(n); out = {}; it = 0
    while r:
        steps[0] += len(r)
        it += 1
        if it > 200: return None
        m = max(r, key=lambda m: _key(m, vs))
        dm = dict(m)
        for a, e in kd:
            if dm.get(a, 0) < e: return None
            dm[a] -= e
        t = tuple(sorted((a, e) for a, e in dm.items() if e)); c = r[m] / cd
        out[t] = c
        r = padd(r, pmul({t: c}, d), -1)
    return out

def _ps(p):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: str(x)):
        s = '*'.join((aname(_atoms[a]) + ('^%d' % e if e != 1 else '')) for a, e in m)
        out.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    return ' + '.join(out)

_sz = {}
def _size(a):
    """size of the written form of a function atom"""
    r = _sz.get(a)
    if r is None: r = _sz[a] = 1 + sum(1 + sum(_size(_atoms[i]) if _atoms[i][0] == 'fn' else 1 for p in (y.v.n, y.v.d) for m in p for i, e in m) for y in a[2])
    return r
def aname(a):
    if a[0] == 'fn' and _size(a) > 400: return '%s(...)' % a[1]
    if a[0] == 'fn': return '%s(%s)' % (a[1], ','.join(repr(x) for x in a[2]))
    if a[0] == 'X': return 'x{%s}' % pname(a[1])
    if a[0] == 'Y': return 'y{%s}' % pname(a[1])
    if a[0] == 'W': return 'w{%s}' % pname(a[1])
    return pname(a[1]) if a[0] in ('in', 'raw') else str(a)
def pname(p): return '.'.join(map(str, p))

class Arg:
    """canonical function arguments, hashable"""
    __slots__ = ('v', 'k', 'h')
    def __init__(s, v): s.v = v; s.k = v.key(); s.h = hash(s.k)
    def __hash__(s): return s.h
    def __eq__(s, o): return s.h == o.h and s.k == o.k
    def __repr__(s): return repr(s.v)

def A(a, sq=None): return Q({((atom_id(a, sq), 1),): Fr(1)}, ONE, raw=True)
def fn(name, *args, sq=None): return A(('fn', name, tuple(Arg(x) for x in args)), sq)

def _signed(x):
    """(sign, canonical representative of {x,-x})"""
    if not x.n: return 1, x
    c = x.n[min(x.n)]
    return (1, x) if c > 0 else (-1, -x)

def _isq(v):
    """v = s*s*r with integer r square-free-ish"""
    n, d = v.numerator, v.denominator
    n = n * d; s = Fr(1, d)
    k = 2
    while k * k <= n and k < 1000:
        while n % (k * k) == 0: n //= k * k; s *= k
        k += 1
    return s, n

def content(p):
    import math
    g = 0; l = 1
    for c in p.values(): g = math.gcd(g, abs(c.numerator)); l = l * c.denominator // math.gcd(l, c.denominator)
    return Fr(g, l)

def Sqrt(x):
    if not x.n: return x
    c = content(x.n)
    s, r = _isq(c)
    y = x * q(1 / c) * q(r)
    if y.const() == 1: return q(s)
    # perfect square of a single term
    if len(y.n) == 1 and len(y.d) == 1:
        (m, k), (m2, k2) = next(iter(y.n.items())), next(iter(y.d.items()))
        if k == 1 and k2 == 1 and all(e % 2 == 0 for _, e in m + m2):
            return q(s) * Abs(Q({tuple((a, e // 2) for a, e in m): Fr(1)}, {tuple((a, e // 2) for a, e in m2): Fr(1)}))
    r2 = _sqroot(y)
    if r2 is not None: return q(s) * Abs(r2)
    return q(s) * fn('sqrt', y, sq=y)

def _sqroot(y):
    """polynomial square root, or None"""
    if y.d != ONE or len(y.n) < 3 or len(y.n) > 30: return None
    vs = sorted({a for m in y.n for a, e in m})
    r = dict(y.n); out = {}; lead = None
    for _ in range(12):
        if not r:
            return Q(out)
        m = max(r, key=lambda m: _key(m, vs)); c = r[m]
        if lead is None:
            if any(e % 2 for _, e in m): return None
            n, d = c.numerator, c.denominator
            if n < 0: return None
            import math
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a != n or b * b != d: return None
            lead = (tuple((k, e // 2) for k, e in m), Fr(a, b))
            t = {lead[0]: lead[1]}
        else:
            dm = dict(m)
            for a, e in lead[0]:
                if dm.get(a, 0) < e: return None
                dm[a] -= e
            t = {tuple(sorted((a, e) for a, e in dm.items() if e)): c / (2 * lead[1])}
        # r = y - (out+t)^2
        out = padd(out, t)
        try: r = padd(y.n, pmul(out, out), -1)
        except Big: return None
    return None

def Abs(x):
    c = x.const()
    if c is not None: return q(abs(c))
    k = content(x.n)
    s, y = _signed(x * q(1 / k))
    a = _single(y)
    if a is not None and a[0] == 'fn' and a[1] in ('abs', 'sqrt'): return q(k) * y
    return q(k) * fn('abs', y, sq=y * y)

def _single(y):
    if y.d == ONE and len(y.n) == 1:
        m, c = next(iter(y.n.items()))
        if c == 1 and len(m) == 1 and m[0][1] == 1: return _atoms[m[0][0]]
    return None

def Sin(x):
    s, y = _signed(x)
    if not y.n: return q(0)
    c = fn('cos', y)
    return q(s) * fn('sin', y, sq=1 - c * c)
def Cos(x):
    s, y = _signed(x); return fn('cos', y) if y.n else q(1)
def Sym(name, *xs):
    """min / max"""
    ks = []
    for x in xs:
        a = _single(x)
        for y in ([z.v for z in a[2]] if a is not None and a[0] == 'fn' and a[1] == name else [x]):
            if y not in ks: ks.append(y)
    if len(ks) == 1: return ks[0]
    r = fn(name, *sorted(ks, key=lambda x: x.key()))
    if len(ks) == 2:
        i = next(iter(next(iter(r.n))))[0]
        if i not in _mmg:
            a, b = (z.v for z in _atoms[i][2])
            try: g = Lt(a - b)
            except Big: g = None
            gs = [j for m in g.n for j, e in m] if g is not None and g.d == ONE else []
            _mmg[i] = (gs[0], g.n.get((), 0) == 0) if len(gs) == 1 else None
    return r
def positive(x):
    """sign of x when every term has it (radii, roots and absolute values are positive), or None"""
    g = 1
    for p in (x.n, x.d):
        h = None
        for m, c in p.items():
            for i, e in m:
                a = _atoms[i]
                if e % 2 and not (a[0] == 'thr' or a[0] == 'in' and a[1][-1] == '_radius' or a[0] == 'fn' and a[1] in ('sqrt', 'abs')): return None
            if h is not None and (c > 0) != h: return None
            h = c > 0
        if h is None: return None
        if not h: g = -g
    return g
def Lt(x):
    """indicator of x < 0 (ties are not modelled)"""
    if not x.n: return q(0)
    g = positive(x)
    if g is not None: return q(1 if g < 0 else 0)
    k = content(x.n)
    s, y = _signed(Q({m: c / k for m, c in x.n.items()}, x.d, raw=True))
    a = ('fn', 'lt', (Arg(y),)); i = atom_id(a); r = Q({((i, 1),): Fr(1)}, ONE, raw=True)
    _sq[i] = r
    return r if s > 0 else 1 - r
_mmg = {}              # min/max of two values -> (indicator, True when it says that the first is the smallest)
_depm = {}; _mmd = {}
def _mms(i):
    """indicators that would decide a minimum or maximum in an atom"""
    r = _mmd.get(i)
    if r is None:
        a = _atoms[i]; r = set()
        if a[0] == 'fn':
            if a[1] in ('min', 'max') and _mmg.get(i): r.add(_mmg[i][0])
            for y in a[2]: r |= mms(y.v)
        _mmd[i] = r = frozenset(r)
    return r
def mms(x):
    out = set()
    for p in (x.n, x.d):
        for m in p:
            for i, e in m: out |= _mms(i)
    return out
def _gates(i):
    """indicators an atom depends on"""
    r = _depm.get(i)
    if r is None:
        a = _atoms[i]; r = set()
        if a[0] == 'fn':
            if a[1] == 'lt': r.add(i)
            for y in a[2]: r |= gates(y.v)
        _depm[i] = r = frozenset(r)
    return r
def gates(x):
    out = set()
    for p in (x.n, x.d):
        for m in p:
            for i, e in m: out |= _gates(i)
    return out
def assume(x, i, b):
    """x when indicator i has value b"""
    if i not in gates(x) and i not in mms(x): return x
    return _rebuild(x, i, q(b), {})
def _rebuild(x, i, b, memo):
    def at(k):
        if k == i: return b
        if i not in _gates(k) and i not in _mms(k): return Q({((k, 1),): Fr(1)}, ONE, raw=True)
        if k not in memo:
            a = _atoms[k]; mg = _mmg.get(k)
            if mg is not None and mg[0] == i: memo[k] = _rebuild(a[2][0 if (bool(b.n) == mg[1]) == (a[1] == 'min') else 1].v, i, b, memo)
            else: memo[k] = Fun(a[1], *[_rebuild(z.v, i, b, memo) for z in a[2]])
        return memo[k]
    def pe(p):
        r = q(0)
        for m, c in p.items():
            t = q(c)
            for a, e in m:
                v = at(a)
                for _ in range(e): t = t * v
            r = r + t
        return r
    n = pe(x.n)
    return n if x.d == ONE else n / pe(x.d)
def Ite(g, a, b):
    """a when the indicator g is 1, b when it is 0"""
    c = g.const()
    if c is not None: return a if c else b
    i = None; ng = False
    if g.d == ONE and len(g.n) == 1:
        (m, c), = g.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][:2] == ('fn', 'lt'): i = m[0][0]
    elif g.d == ONE and len(g.n) == 2 and g.n.get(()) == 1:
        m, c = next((m, c) for m, c in g.n.items() if m)
        if c == -1 and len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][:2] == ('fn', 'lt'): i = m[0][0]; ng = True
    if i is not None:
        if ng: g, a, b = 1 - g, b, a
        a, b = assume(a, i, 1), assume(b, i, 0)
    if a == b: return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return q(cb) + g * q(ca - cb)
    if i is not None:
        d = _atoms[i][2][0].v; e = a - b
        if d.d == e.d == ONE and len(d.n) == len(e.n):
            for sg, nm in ((1, 'min'), (-1, 'max')):
                m0 = next(iter(d.n))
                if m0 in e.n and e.n[m0] / d.n[m0] * sg > 0 and (e - d * q(e.n[m0] / d.n[m0])).zero(): return Abs(a) if (a + b).zero() and nm == 'max' else -Abs(a) if (a + b).zero() else Sym(nm, a, b)
    return fn('ite', g, a, b)
def Fun(name, *xs):
    if name == 'lt': return Lt(xs[0])
    if name == 'ite': return Ite(*xs)
    if name == '+': return xs[0] + xs[1]
    if name == '*': return xs[0] * xs[1]
    if name == '/': return xs[0] / xs[1]
    if name == 'sqrt': return Sqrt(xs[0])
    if name in ('abs', 'fabs', 'fabsl', 'fabsf'): return Abs(xs[0])
    if name == 'hypot': return Sqrt(sum((x * x for x in xs), q(0)))
    if name == 'sin': return Sin(xs[0])
    if name == 'cos': return Cos(xs[0])
    if name == 'tan':
        return Sin(xs[0]) / Cos(xs[0])
    if name in ('min', 'max', 'fmin', 'fmax'): return Sym(name[-3:], *xs)
    if name in ('asin', 'atan') :
        s, y = _signed(xs[0])
        if not y.n: return q(0)
        return q(s) * fn(name, y)
    if name == 'pow' and xs[1].const() is not None:
        e = xs[1].const()
        if e.denominator == 1 and 0 <= e <= 8:
            r = q(1)
            for _ in range(int(e)): r = r * xs[0]
            return r
        if e == Fr(1, 2): return Sqrt(xs[0])
    return fn(name, *xs)

def subst(x, env, memo=None):
    """replace every atom by env(atom) -> Q or None(unknown)"""
    if memo is None: memo = {}
    def val(a):
        i = a
        if i in memo: return memo[i]
        at = _atoms[i]
        if at[0] == 'fn':
            args = [subst(z.v, env, memo) for z in at[2]]
            r = None if any(z is None for z in args) else Fun(at[1], *args)
        else: r = env(at)
        memo[i] = r
        return r
    def pe(p):
        if len(p) > 1:
            mono = {}
            for m in p:                     # atoms replaced by terms: the polynomial is rewritten in one go
                for a, e in m:
                    if a in mono: continue
                    v = val(a)
                    if v is None: return None
                    if v.d == ONE and len(v.n) == 1: mono[a] = next(iter(v.n.items()))
                    else: mono = None; break
                if mono is None: break
            if mono is not None:
                r = {}
                for m, c in p.items():
                    mm = ()
                    for a, e in m:
                        m2, c2 = mono[a]
                        for _ in range(e): mm = _mul_mono(mm, m2) if mm else m2; c = c * c2
                    c = r.get(mm, 0) + c
                    if c: r[mm] = c
                    else: r.pop(mm, None)
                return Q(r, ONE)
        r = q(0)
        for m, c in p.items():
            t = q(c)
            for a, e in m:
                v = val(a)
                if v is None: return None
                for _ in range(e): t = t * v
            r = r + t
        return r
    n = pe(x.n)
    if n is None: return None
    if x.d == ONE: return n
    d = pe(x.d)
    if d is None or d.zero(): return None
    return n / d
