"""Value numbering: forward dataflow over the CFG of every function; the abstract value of a scalar is a small set of alternative
rational functions (poly.Q) of the values the inputs had on entry, or unknown.  Objects are trees of such values; sub-objects still holding
what some input place held on entry are represented by that place.  Function summaries (returned value, written places) are composed over
the call graph bottom-up; alternatives are joined where paths meet, and unknown (None) replaces what is modified in loops."""
import itertools, re, collections
from fractions import Fraction as Fr
import poly, axis, flow
from poly import Q, q
from core import *

MAXALT = 6
BUDGET = 200000                 # polynomial term products per function
TOP = None
PI = poly.A(('pi',))

class T:
    """object value: known components, and the input places it (otherwise) equals"""
    __slots__ = ('kids', 'base')
    def __init__(s, kids=None, base=frozenset()): s.kids = kids or {}; s.base = base
    def __eq__(s, o): return isinstance(o, T) and s.kids == o.kids and s.base == o.base
    def __repr__(s): return 'T(%s%s)' % ('|'.join(poly.pname(b) for b in s.base), ''.join(' %s:%r' % x for x in s.kids.items()))
UNK = T()
class Bot(T):
    """what a null pointer points to: no value at all"""
    __slots__ = ()
    def __eq__(s, o): return isinstance(o, Bot)
    def __repr__(s): return 'BOT'
BOT = Bot()
class V3:
    """alternatives of a homogeneous 3-vector"""
    __slots__ = ('a',)
    def __init__(s, a): s.a = tuple(a)
    def __eq__(s, o): return isinstance(o, V3) and s.a == o.a
    def __repr__(s): return 'V3' + repr(s.a)
IDX = {'[0]': 0, '[1]': 1, '[2]': 2}
def prop(p, r):
    try: return all((p[i] * r[j] - p[j] * r[i]).zero() for i, j in ((0, 1), (0, 2), (1, 2)))
    except poly.Big: return False

def alts(vs):
    out = []
    for v in vs:
        if v is None: return None
        if v not in out: out.append(v)
        if len(out) > MAXALT: return None
    return tuple(out) if out else None

def num(x): return (q(x),)

def lift(fn, *vs):
    if any(v is None or isinstance(v, T) for v in vs): return None
    n = 1
    for v in vs: n *= len(v)
    if n > 24: return None
    try: return alts([fn(*c) for c in itertools.product(*vs)])
    except (ZeroDivisionError, poly.Big): return None

def star(v, k):
    """the value v common to all elements, for element k"""
    if v is None: return None
    if isinstance(v, V3): return v if not any('[*]' in a[1] for t in v.a for q_ in t for a in q_.allatoms() if len(a) > 1 and isinstance(a[1], tuple)) else None
    if isinstance(v, T):
        if any('[*]' in b for b in (v.base)): return None
        return T({x: star(y, k) for x, y in v.kids.items()}, v.base)
    return v if not any('[*]' in a[1] for q_ in v for a in q_.allatoms() if len(a) > 1 and isinstance(a[1], tuple)) else None

def substar(v, k):
    """the value v common to all elements, with the places of the element k instead of those of any element"""
    def ren(p): return tuple(k if x == '[*]' else x for x in p)
    def fa(a): return poly.A((a[0], ren(a[1])) + a[2:]) if len(a) > 1 and isinstance(a[1], tuple) and '[*]' in a[1] else poly.A(a)
    if isinstance(v, T): return v if isinstance(v, Bot) else T({x: substar(y, k) for x, y in v.kids.items()}, frozenset(map(ren, v.base)))
    try:
        if isinstance(v, V3): return V3([tuple(poly.subst(y, fa) for y in t) for t in v.a])
        return None if v is None else alts([poly.subst(y, fa) for y in v])
    except (poly.Big, ZeroDivisionError): return None

def kid(t, k):
    """component k of the object value t (a T without components and with a base is resolved by scal() when it turns out to be a scalar)"""
    if isinstance(t, V3): return alts([x[IDX[k]] for x in t.a]) if k in IDX else None
    if t is None or not isinstance(t, T): return None
    if isinstance(t, Bot): return t
    if k in t.kids: return t.kids[k]
    if k[:1] == '[' and k != '[]' and '[A]' in t.kids:
        if any(x[:1] == '[' and x != '[A]' for x in t.kids): return None
        return t.kids['[A]'] if k == '[*]' else star(t.kids['[A]'], k)
    if any(x[:2] == '++' for x in t.kids) and (k[:1] == '[' or k == '#'): return None
    if k == '[]' or k[:1] == '[' and any(x in ('[]', '[*]') or (k == '[*]' and x[:1] == '[') for x in t.kids): return None
    if not t.base: return None
    return T(None, frozenset(b + (k,) for b in sorted(t.base)))

def kidj(t, k):
    """component k, at a join: an element beyond the known size of a container is no value"""
    if k[:1] == '[' and k[1:-1].isdigit() and isinstance(t, T) and not t.base and k not in t.kids and '#' in t.kids:
        z = t.kids['#']
        if isinstance(z, tuple) and z and all(x.const() is not None and int(k[1:-1]) >= x.const() for x in z): return BOT
    return kid(t, k)
def sub(t, path):
    for k in path:
        t = kid(t, k)
        if t is None: return None
    return t

def put(t, path, v):
    if not path: return v
    if isinstance(t, V3): t = T({k: kid(t, k) for k in IDX})
    t = t if isinstance(t, T) else UNK
    kids = dict(t.kids)
    k = path[0]
    if k == '[]':                           # some element: all become unknown
        return T({x: y for x, y in kids.items() if x[:1] != '['}, frozenset()) if True else None
    kids[k] = put(kid(t, k) if not (k[:1] == '[' and '[]' in kids) else None, path[1:], v)
    return T(kids, t.base)

class Fake:
    """call with given argument values"""
    def __init__(s, f, i, args): s.fn = f; s.node = i; s.kind = 'free'; s.obj = None; s.objarrow = False; s.args = args
def key0(k): return tuple(99 if x is None else x for x in k)

class VN:
    def __init__(self, F, only=None):
        self.F = F; self.ng = False; self.hard = set(); self.sum = {}; self.ty = {}; self.spec = {}; self.depth = 0; self.asm = {}
        E = effects(F); self.E = E
        fl = flow.Flow.__new__(flow.Flow); fl.F = F
        keep = None
        if only is not None:
            st = [f for f in F.fns if only(f)]; keep = {f.id for f in st}
            while st:
                f = st.pop()
                for c in calls(f):
                    for g, _ in callees_of(f, c):
                        if g.id not in keep: keep.add(g.id); st.append(g)
        for fid in fl.bottom_up(E):
            if keep is None or fid in keep: self.sum[fid] = None
        for fid in list(self.sum):
            try: self.sum[fid] = self.analyse(F.byid[fid])
            except (RecursionError, poly.Over): self.sum[fid] = None

    # ---- types
    def ptype(self, f, p):
        """type id of an input place of f"""
        F = self.F
        if p[0] == 'this': t = axis.this_type(F, f.cls or (f.outer.cls if f.outer else None)); n = 1
        elif p[0] in ('p', 'v'): t = F.strip(f.params[p[1]]['t']); n = 2
        elif p[0] in ('g', 'd', 'cap'): t = F.strip(F.decls[p[1]]['t']); n = 2
        else: return None
        for c in p[n:]:
            if t is None: return None
            t = axis.step_type(F, t, c)
        return t
    def kind(self, f, p):
        """'P' point, 'L' line, or None"""
        key = (f.id, p)
        if key not in self.ty:
            t = self.ptype(f, p); r = None
            if t is not None:
                x = self.F.t(self.F.strip(t))
                if x.get('q') == 'h2d::base::LPBase': r = 'P' if 'IsPoint' in x['s'] else 'L'
            self.ty[key] = r
        return self.ty[key]
    def atom(self, f, p):
        if '[]' in p: return None
        if len(p) > 2 and p[-2] == '_v':
            P = p[:-2]; k = self.kind(f, P)
            if k == 'P':
                w = poly.A(('W', P))
                return w if p[-1] == '[2]' else poly.A(('X' if p[-1] == '[0]' else 'Y', P)) * w if p[-1] in ('[0]', '[1]') else None
            if k == 'L' and p[-1] in ('[0]', '[1]', '[2]'):
                if 'ormalize' in f.name: return poly.A(('raw', p))      # the function that establishes a^2 + b^2 = 1
                b = poly.A(('in', p[:-1] + ('[1]',)))
                return poly.A(('in', p), 1 - b * b) if p[-1] == '[0]' else poly.A(('in', p))
        return poly.A(('in', p))

    def scal(self, f, v):
        """scalar alternatives of a value"""
        if v is None: return None
        if isinstance(v, V3): return None
        if isinstance(v, T):
            if isinstance(v, Bot): return ()
            if v.kids or not v.base: return None
            return alts([self.atom(f, p) for p in sorted(v.base)])
        return v

    # ---- joins
    def triples(self, f, v):
        """alternatives of the homogeneous vector v"""
        if isinstance(v, V3): return list(v.a)
        if not isinstance(v, T): return None
        if isinstance(v, Bot): return []
        if v.base and not v.kids:
            out = []
            for b in sorted(v.base):
                c = [self.atom(f, b + (x,)) for x in ('[0]', '[1]', '[2]')]
                if any(x is None for x in c): return None
                out.append(tuple(c))
            return out
        c = [self.scal(f, kid(v, x)) for x in ('[0]', '[1]', '[2]')]
        if any(x is None or len(x) != 1 for x in c): return None
        return [tuple(x[0] for x in c)]
    def join(self, f, a, b, comp=None):
        if a is b or a == b: return a
        if isinstance(a, Bot): return b
        if isinstance(b, Bot): return a
        if a is None or b is None: return None
        if comp == '_v':
            x, y = self.triples(f, a), self.triples(f, b)
            if x is not None and y is not None:
                if 'ormalize' in f.name and len(x) == len(y) == 1 and THIS:      # the orientation of a line has no meaning: keep that of the input
                    raw = self.triples(f, T(None, frozenset([THIS + ('_v',)])))
                    if raw and not prop(x[0], raw[0]) and prop(y[0], raw[0]): x, y, a, b = y, x, b, a
                out = list(x)
                for t in y:
                    if any(prop(t, u) for u in out): continue
                    if 'ormalize' in f.name and any(t[0] == u[0] and (t[1] + u[1]).zero() and (t[2] + u[2]).zero() for u in out): continue
                    out.append(t)
                if len(out) == len(x) : return a
                return V3(out) if len(out) <= MAXALT else None
            return None
        if isinstance(a, V3) or isinstance(b, V3): return None
        if isinstance(a, T) and isinstance(b, T):
            kids = {}
            for k in dict.fromkeys([*a.kids, *b.kids]):
                kids[k] = self.join(f, kidj(a, k), kidj(b, k), k)
            base = a.base | b.base if a.base and b.base and len(a.base | b.base) <= MAXALT else frozenset()
            return T(kids, base)
        x, y = self.scal(f, a), self.scal(f, b)
        return None if x is None or y is None else alts(x + y)

    def gate(self, f, g, a, b, comp=None):
        """a when g, b otherwise"""
        if a is b or a == b: return a
        if isinstance(a, Bot) or isinstance(b, Bot): return self.join(f, a, b, comp)
        if a is None or b is None: return None
        if comp == '_v':
            x, y = self.triples(f, a), self.triples(f, b)
            if x is None or y is None or len(x) != 1 or len(y) != 1: return self.join(f, a, b, comp)
            t, u = x[0], y[0]
            if prop(t, u) or 'ormalize' in f.name: return self.join(f, a, b, comp)
            try:
                if any(z.d == poly.ONE and len(z.n) == 1 and any(poly._atoms[i][0] == 'W' for m in z.n for i, e in m) for z in (t[2], u[2])):
                    t, u = ((z[0] / z[2], z[1] / z[2], q(1)) for z in (t, u))
                return V3([tuple(poly.Ite(g, v, w) for v, w in zip(t, u))])
            except (poly.Big, ZeroDivisionError): return self.join(f, a, b, comp)
        if isinstance(a, V3) or isinstance(b, V3): return None
        if isinstance(a, T) and isinstance(b, T):
            ks = dict.fromkeys([*a.kids, *b.kids]); base = a.base
            if a.base != b.base:
                fs = self.fieldnames(f, a.base) or self.fieldnames(f, b.base)
                if fs is None or any(not z.base and not set(fs) <= set(z.kids) for z in (a, b)): return self.join(f, a, b, comp)
                ks.update(dict.fromkeys(fs)); base = frozenset()
            return T({k: self.gate(f, g, self.vs(f, kidj(a, k)), self.vs(f, kidj(b, k)), k) for k in ks}, base)
        x, y = self.scal(f, a), self.scal(f, b)
        if x is None or y is None: return None
        if len(x) == len(y) == 1:
            try: return (poly.Ite(g, x[0], y[0]),)
            except (poly.Big, ZeroDivisionError): pass
        return alts(x + y)
    def fieldnames(self, f, base):
        """components of the record at these input places"""
        out = None
        for p in base:
            t = self.ptype(f, p)
            if t is None: return None
            x = self.F.t(self.F.strip(t))
            if not (x.get('q') or '').startswith('h2d::'): return None
            r = self.F.recs.get(x.get('u')); st = [r] if r else []; out = []
            while st:
                r = st.pop(0); out += [fd['n'] for fd in r['fields']]
                st += [self.F.recs[self.F.t(b)['u']] for b in r.get('bases', ()) if isinstance(b, int) and self.F.t(b).get('u') in self.F.recs]
        return out
    def boolean(self, f, env, i):
        """0/1-valued formula of a condition, or None"""
        if self.ng: return None
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and ch: return self.boolean(f, env, ch[0])
        if k == 'UnaryOperator' and n['op'] == '!':
            g = self.boolean(f, env, ch[0]); return None if g is None else 1 - g
        try:
            if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
                a, b = (self.boolean(f, env, c) for c in ch)
                return None if a is None or b is None else a * b if n['op'] == '&&' else a + b - a * b
            if k == 'BinaryOperator' and n['op'] in ('<', '<=', '>', '>=', '==', '!='):
                v = self.cond_val(f, env, i)
                if v is not None: return q(1 if v else 0)
                ty = [self.F.t(self.F.strip(f.nodes[self.strip(f, c)]['t'])) for c in ch]
                if n['op'] in ('==', '!='):
                    if not all(t['s'] == 'bool' for t in ty): return None
                    a, b = (self.boolean(f, env, c) for c in ch)
                    if a is None or b is None: return None
                    e = a * b + (1 - a) * (1 - b); return e if n['op'] == '==' else 1 - e
                if not any(t['k'] == 'float' for t in ty): return None
                x, y = (self.scal(f, self.ev(f, env, c)) for c in ch)
                if x is None or y is None or len(x) != 1 or len(y) != 1: return None
                d = x[0] - y[0] if n['op'][0] == '<' else y[0] - x[0]
                return poly.Lt(d)
        except poly.Big: return None
        if self.F.t(self.F.strip(n['t']))['s'] != 'bool': return None
        x = self.scal(f, self.ev(f, env, i))
        if x is None or len(x) != 1: return None
        x = x[0]; c = x.const()
        if c is not None: return x if c in (0, 1) else None
        # a formula over indicators only
        return x if x.d == poly.ONE and all(poly._atoms[a][:2] == ('fn', 'lt') for m in x.n for a, e in m) else None
    # ---- places
    def cidx(self, f, env, i):
        k = const_int(f, i)
        if k is not None: return k
        v = self.scal(f, self.ev(f, env, i))
        if v is None or len(v) != 1: return None
        k = v[0].const()
        return int(k) if k is not None and k.denominator == 1 and k >= 0 else None
    def places(self, f, env, i):
        n = f.nodes[i]; k = n['k']; F = self.F; ch = n.get('c', ())
        if k == 'DeclRefExpr' and 'd' in n:
            rv = self.rangevars(f)
            if n['d'] in rv:
                ps = self.elems(f, env, n['d'])
                if F.is_ref(F.decls[n['d']]['t']): return ps
                return [('d', n['d'])]
            ps = [('v', p[1]) + p[2:] if False else p for p in var_place(f, n['d'])]
            vi, bind = _vi(f)
            if n['d'] not in f.pidx and F.is_ref(F.decls[n['d']]['t']) and len(vi.get(n['d'], ())) == 1 and n['d'] not in bind: return self.places(f, env, vi[n['d']][0])
            return ps
        if k == 'MemberExpr' and 'd' in n and not n.get('ar') and ch and F.decls[n['d']].get('k') == 'field' and not F.is_ref(F.decls[n['d']]['t']):
            return [ext(p, n['m']) for p in self.places(f, env, ch[0])]
        if k == 'CXXOperatorCallExpr' and n.get('op') == '[]' and n.get('mem'):
            c = call_of(f, i)
            if c.head is None or not c.head.get('inhdr'):
                kx = self.cidx(f, env, c.args[0])
                if not F.is_iter(f.nodes[c.obj]['t']): return [ext(p, '[%d]' % kx if kx is not None else '[]') for p in self.places(f, env, c.obj)]
        if k == 'CXXMemberCallExpr' and n.get('lv'):
            c = call_of(f, i)
            if c.head is not None and not c.head.get('inhdr') and c.name in ('front', 'at') and c.obj is not None and not c.objarrow:
                kx = 0 if c.name == 'front' else self.cidx(f, env, c.args[0])
                return [ext(p, '[%d]' % kx if kx is not None else '[]') for p in self.places(f, env, c.obj)]
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') and ch and n.get('lv'):
            return self.places(f, env, ch[0])
        c = call_of(f, i)
        if c is not None and n.get('lv') and c.kind in ('mem', 'op', 'free') and F.byid.get(c.callee) is not None:
            s = self.sum.get(c.callee)
            g = F.byid[c.callee]; out = []
            for p in self.retplaces(f, env, c, g):
                if p[0] == 'this' and c.obj is not None and not c.objarrow: out += [ext(x, *p[1:]) for x in self.places(f, env, c.obj)]
                elif p[0] == 'p' and p[1] < len(c.args) and (len(p) < 3 or p[2] != '*'): out += [ext(x, *p[2:]) for x in self.places(f, env, c.args[p[1]])]
                else: out += list(map_place(f, c, p))
            if out: return out
        return list(lval(f, i))

    def rangevars(self, f):
        """loop variable -> the container expression, for range-based loops; f._memo['rangebegin']: iterator -> (loop variable, loop);
        f._memo['rangeinc']: increment -> iterator"""
        m = f._memo.get('rangevars')
        if m is None:
            m = {}; bg = {}; inc = {}; of = {}
            for n in f.nodes:
                if n['k'] == 'CXXForRangeStmt':
                    v, r, b = n['r'].get('var'), n['r'].get('range'), n['r'].get('begin')
                    dv = f.nodes[v].get('decls', []); dr = f.nodes[r].get('decls', []); db = f.nodes[b].get('decls', []) if b is not None else []
                    if len(dv) == 1 and len(dr) == 1:
                        m[dv[0]['d']] = dr[0]['i']
                        if len(db) == 1: bg[db[0]['d']] = (dv[0]['d'], n['i']); of[dv[0]['d']] = db[0]['d']; inc[n['r'].get('inc')] = db[0]['d']
            f._memo['rangevars'] = m; f._memo['rangebegin'] = bg; f._memo['rangeinc'] = inc; f._memo['rangeof'] = of
        return m
    def elems(self, f, env, d):
        """places of the current element of the range-based loop of variable d"""
        r = self.rangevars(f)[d]; b = f._memo['rangeof'].get(d)
        v = env.get(('d', b)) if b is not None else None
        k = v[0].const() if isinstance(v, tuple) and len(v) == 1 else None
        return [ext(p, '[*]' if k is None else '[%d]' % int(k)) for p in self.places(f, env, r)]
    def extent(self, f, env, i):
        """number of elements of the container expression i, when constant"""
        F = self.F; t = F.strip(f.nodes[i]['t']); x = F.t(t)
        m = re.search(r'std::array<.*, (\d+)(?:UL)?>$', x['s']) or re.search(r'\[(\d+)\]$', x['s'])
        if m and x.get('q') in ('std::array', None): return int(m.group(1))
        ps = self.places(f, env, i)
        if not ps: return None
        v = self.scal(f, kid(self.reads(f, env, ps), '#')) if not self.F.is_iter(f.nodes[i]['t']) else None
        k = v[0].const() if v is not None and len(v) == 1 else None
        return int(k) if k is not None else None

    # ---- reading
    def read(self, f, env, p):
        if p[0] == 'tmp':
            v = env.get(('n', p[1]))
            if v is None and ('n', p[1]) not in env: v = self.ev(f, env, p[1], True)
            return sub(v, p[2:]) if p[2:] else v
        n = 1 if p[0] == 'this' else 2
        r = p[:n]
        if r in env: return sub(env[r], p[n:])
        if p[0] == 'd':
            if p[1] in f.pidx: return T(None, frozenset([('v', f.pidx[p[1]]) + p[2:]]))
            D = self.F.decls[p[1]]
            return None
        if p[0] in ('this', 'p', 'g', 'cap'): return T(None, frozenset([p]))
        return None
    def reads(self, f, env, ps):
        if not ps: return None
        v = self.read(f, env, ps[0])
        for p in ps[1:]: v = self.join(f, v, self.read(f, env, p))
        return v

    def ev(self, f, env, i, fresh=False):
        """value of expression i"""
        if i is None or i < 0: return None
        if not fresh and ('n', i) in env: return env[('n', i)]
        n = f.nodes[i]; k = n['k']; F = self.F; ch = n.get('c', ())
        if k == 'IntegerLiteral': return num(int(n['v']))
        if k == 'FloatingLiteral':
            try: v = float(n['v'])
            except ValueError: return None
            for m in (1, 2, Fr(1, 2)):
                if abs(v - 3.141592653589793 * float(m)) < 1e-12: return (PI * q(Fr(m)),)
            return num(Fr(repr(v))) if v == v and abs(v) != float('inf') else None
        if k == 'CXXBoolLiteralExpr': return num(int(n.get('v') in (True, 1, 'true', '1')))
        if k == 'StringLiteral' and isinstance(n.get('v'), str): return (poly.A(('str', n['v'])),)
        if k in ('StringLiteral', 'CharacterLiteral', 'CXXNullPtrLiteralExpr', 'LambdaExpr'): return None
        if k == 'CXXThisExpr': return self.read(f, env, THIS)
        if k in ('DeclRefExpr', 'MemberExpr'):
            if k == 'DeclRefExpr' and 'd' in n and F.decls[n['d']]['k'] == 'enum':
                v = F.decls[n['d']].get('v'); return None if v is None else num(int(v))
            return self.reads(f, env, self.places(f, env, i))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['op']
            if op == ',': return self.ev(f, env, ch[1])
            if op == '=': return self.ev(f, env, ch[1])
            if op in ('<', '<=', '>', '>=', '==', '!=', '&&', '||'):
                g = self.boolean(f, env, i); return None if g is None else (g,)
            if k == 'CompoundAssignOperator': op = op[:-1]
            if op in '+-*/' and F.t(F.strip(n['t']))['k'] == 'float' or op in ('+', '-', '*'):
                a, b = self.scal(f, self.ev(f, env, ch[0])), self.scal(f, self.ev(f, env, ch[1]))
                return lift({'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[op], a, b)
            return None
        if k == 'UnaryOperator':
            op = n['op']
            if op == '-': return lift(lambda x: -x, self.scal(f, self.ev(f, env, ch[0])))
            if op == '+': return self.ev(f, env, ch[0])
            if op == '!':
                g = self.boolean(f, env, i); return None if g is None else (g,)
            if op == '*':
                a = f.nodes[ch[0]]
                if a['k'] == 'CXXThisExpr': return self.read(f, env, THIS)
                v = self.deref(f, env, ch[0])
                if v is not None: return v
                return self.reads(f, env, list(lval(f, i)))
            return None
        if k == 'ConditionalOperator':
            r = self.cond_val(f, env, ch[0])
            if r is not None: return self.vs(f, self.ev(f, env, ch[1 if r else 2]))
            a, b = self.vs(f, self.ev(f, env, ch[1])), self.vs(f, self.ev(f, env, ch[2])); g = self.boolean(f, env, ch[0])
            return self.join(f, a, b) if g is None else self.gate(f, g, a, b)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'CXXConstCastExpr'):
            if not ch or ch[0] < 0: return None
            if n.get('ck') in ('FloatingToIntegral', 'FloatingToBoolean', 'IntegralToBoolean'):
                return lift(lambda x: x if x.const() is not None and x.const().denominator == 1 else poly.fn('trunc', x), self.scal(f, self.ev(f, env, ch[0])))
            return self.ev(f, env, ch[0])
        if k == 'CXXStdInitializerListExpr':
            v = self.ev(f, env, ch[0]) if ch else None
            if isinstance(v, T) and v.kids and not v.base and all(x[:1] == '[' for x in v.kids): return T(dict(v.kids, **{'#': num(len(v.kids))}))
            return v if isinstance(v, T) else None
        if k == 'InitListExpr':
            x = F.t(F.strip(n['t']))
            vals = [self.ev(f, env, y) for y in ch]
            if x['k'] == 'float' or x['k'] == 'int': return vals[0] if len(vals) == 1 else num(0) if not vals else None
            qn = x.get('q')
            if qn in ('std::array',) or x['k'] == 'arr':
                if len(vals) == 1 and isinstance(vals[0], T) and f.nodes[ch[0]]['k'] == 'InitListExpr' and F.t(F.strip(f.nodes[ch[0]]['t']))['k'] == 'arr': return vals[0]
                return T({'[%d]' % j: v for j, v in enumerate(vals)})
            r = F.recs.get(x.get('u'))
            if r and len(r['fields']) == len(vals): return T({fd['n']: v for fd, v in zip(r['fields'], vals)})
            if len(vals) == 1: return vals[0]
            return None
        c = call_of(f, i)
        if c is not None: return self.call(f, env, i, c)[0]
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr': return num(0)
        return None

    def vs(self, f, v):
        """alternatives of input places are made scalar when they are scalars"""
        if isinstance(v, T) and v.base and not v.kids:
            s = self.scalar_type(f, next(iter(v.base)))
            if s: return self.scal(f, v)
        return v
    def scalar_type(self, f, p):
        t = self.ptype(f, p)
        return t is not None and self.F.t(self.F.strip(t))['k'] in ('float', 'int')

    # ---- calls
    def deref(self, f, env, i):
        """the element an iterator found by an algorithm stands on, or None"""
        i = self.strip(f, i); n = f.nodes[i]
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '->': i = self.strip(f, n['c'][0] if f.nodes[n['c'][0]]['k'] != 'ImplicitCastExpr' or len(n['c']) == 1 else n['c'][-1])
        if f.nodes[i]['k'] not in ('DeclRefExpr', 'MemberExpr') or not self.F.is_iter(f.nodes[i]['t']): return None
        v = self.ev(f, env, i)
        return v.kids['*'] if isinstance(v, T) and set(v.kids) == {'*'} and not v.base else None
    def compare(self, f, env, i, c, a, b):
        """result of the comparator of the algorithm call c on the values a and b"""
        if len(c.args) == 2:
            x, y = self.scal(f, self.vs(f, a)), self.scal(f, self.vs(f, b))
            return poly.Lt(x[0] - y[0]) if x is not None and y is not None and len(x) == len(y) == 1 else None
        ls = [l for l, cc in callees_of(f, c) if isinstance(cc, LamCall)]
        s = self.sum.get(ls[0].id) if len(ls) == 1 else None
        if s is None or s[1] or s[0] is None: return None
        e2 = dict(env); e2[('n', 1 << 40)] = a; e2[('n', (1 << 40) + 1)] = b
        v = self.scal(f, self.mapv(f, e2, Fake(f, i, [1 << 40, (1 << 40) + 1]), s[0]))
        return v[0] if v is not None and len(v) == 1 else None
    def extremes(self, f, env, i, c):
        """(least, greatest) element of the whole container handed to std::min_element, max_element, minmax_element"""
        z = [self.strip(f, a) for a in c.args[:2]]
        cs = [call_of(f, x) for x in z]
        if any(x is None for x in cs) or [x.name.lstrip('c') for x in cs] != ['begin', 'end']: return None
        ob = [x.obj if x.obj is not None else x.args[0] if x.args else None for x in cs]
        if None in ob or any(x.objarrow for x in cs): return None
        ps = [self.places(f, env, x) for x in ob]
        if len(ps[0]) != 1 or ps[0] != ps[1]: return None
        n = self.extent(f, env, ob[0]); t = self.reads(f, env, ps[0])
        if n is not None:
            if not 1 <= n <= 6: return None
            lo = hi = kid(t, '[0]')
            for k in range(1, n):
                e = kid(t, '[%d]' % k)
                if e is None or lo is None or hi is None: return None
                g, h = self.compare(f, env, i, c, e, lo), self.compare(f, env, i, c, e, hi)
                if g is None or h is None: return None
                lo = self.gate(f, g, e, lo); hi = self.gate(f, h, hi, e)
            return lo, hi
        if not isinstance(t, T) or t.kids or len(t.base) != 1: return None
        p = next(iter(t.base))            # elements of an input container
        ea, eb = (T(None, frozenset([p + (x,)])) for x in ('[a]', '[b]'))
        g = self.compare(f, env, i, c, ea, eb)
        if g is None: return None
        w = ('least', 'greatest'); k = repr(g).replace(poly.pname(p), '')
        for ax in 'XY':                  # equal elements: measure zero
            u, v = (poly.A((ax, p + (x,))) for x in ('[a]', '[b]'))
            if g == poly.Lt(u - v): k = ax
            elif g == poly.Lt(v - u): k = ax; w = w[::-1]
        return tuple(T(None, frozenset([p + ('[%s:%s]' % (x, k),)])) for x in w)
    def subx(self, f, t, path):
        """sub(), where an extreme element of a container whose elements are known is computed"""
        for j, k in enumerate(path):
            if k[:7] == '[least:' or k[:10] == '[greatest:':
                ax = k[-2]; n = t.kids.get('#') if isinstance(t, T) else None
                if isinstance(t, T) and (t.kids or len(t.base) > 1):
                    n = n[0].const() if isinstance(n, tuple) and len(n) == 1 else None
                    if n is None or not 1 <= n <= 6 or k[-3] != ':' or ax not in 'XY': return None
                    es = [kid(t, '[%d]' % m) for m in range(int(n))]; b = es[0]
                    try:
                        for e in es[1:]:
                            x, y = self.pt(f, e, ax), self.pt(f, b, ax)
                            if x is None or y is None or len(x) != 1 or len(y) != 1: return None
                            b = self.gate(f, poly.Lt(x[0] - y[0] if k[1] == 'l' else y[0] - x[0]), e, b)
                    except (poly.Big, ZeroDivisionError): return None
                    t = b; continue
            t = kid(t, k)
            if t is None: return None
        return t
    def arg(self, f, env, c, p):
        """value on entry of callee place p, in the caller"""
        if p[0] == 'this':
            if c.kind == 'ctor' or c.obj is None: return None
            v = self.deref(f, env, c.obj) if c.objarrow else None
            if v is not None: return self.subx(f, v, p[1:])
            return self.subx(f, self.ev(f, env, c.obj) if not c.objarrow else self.reads(f, env, list(ptr(f, c.obj))), p[1:])
        if p[0] in ('p', 'v'):
            if p[1] >= len(c.args): return None
            return self.subx(f, self.ev(f, env, c.args[p[1]]), p[2:])
        if p[0] == 'g': return self.read(f, env, p)
        return None
    def pt(self, f, v, ax):
        """alternatives of coordinate ax of a point value"""
        if not isinstance(v, T): return None
        if not v.kids and v.base: return None if any('[]' in b for b in (v.base)) else alts([poly.A((ax, b)) for b in sorted(v.base)])
        e = kid(v, '_v')
        if isinstance(e, T) and not e.kids and e.base: return None if any('[]' in b for b in (e.base)) else alts([poly.A((ax, b[:-1])) for b in sorted(e.base)])
        if isinstance(e, V3):
            try: return alts([x[0 if ax == 'X' else 1] / x[2] for x in e.a])
            except (ZeroDivisionError, poly.Big): return None
        a, w = (self.scal(f, kid(e, x)) for x in ('[0]' if ax == 'X' else '[1]', '[2]'))
        return lift(lambda x, y: x / y, a, w)
    def maptup(self, f, env, c, xs):
        """alternatives in the caller of the tuple of callee values xs"""
        ats = set()
        for x in xs: ats |= x.allatoms()
        opts = []; names = []; pts = {}
        for a in sorted(ats, key=repr):
            if a[0] in ('pi', 'thr'): names.append((a,)); opts.append([(poly.A(a),)]); continue
            if a[0] in ('X', 'Y', 'W'): pts.setdefault(a[1], []).append(a); continue
            if a[0] in ('in', 'raw') and len(a[1]) > 2 and a[1][-2] == '_v': pts.setdefault(a[1][:-2], []).append(a); continue
            v = self.scal(f, self.arg(f, env, c, a[1]))
            if v is None: return None
            names.append((a,)); opts.append([(x,) for x in v])
        for P, as_ in pts.items():
            v = self.arg(f, env, c, P)
            e = kid(v, '_v') if v is not None else None
            tr = self.triples(f, e) if e is not None else None
            names.append(tuple(as_))
            if tr is not None:
                if len(tr) > MAXALT: return None
                o = []
                try:
                    for t in tr: o.append(tuple(t[0] / t[2] if a[0] == 'X' else t[1] / t[2] if a[0] == 'Y' else t[2] if a[0] == 'W' else t[IDX[a[1][-1]]] for a in as_))
                except (ZeroDivisionError, poly.Big): return None
                opts.append(o)
            else:
                vs = []
                for a in as_:
                    y = self.pt(f, v, a[0]) if a[0] in ('X', 'Y') else self.scal(f, sub(v, ('_v', '[2]'))) if a[0] == 'W' else self.scal(f, self.arg(f, env, c, a[1]))
                    if y is None: return None
                    vs.append(y)
                o = list(itertools.islice(itertools.product(*vs), 25))
                opts.append(o)
        n = 1
        for o in opts: n *= len(o)
        if n > 24: return None
        out = []
        for combo in itertools.product(*opts):
            m = {}
            for ns, vs in zip(names, combo): m.update(zip(ns, vs))
            memo = {}
            try: r = tuple(poly.subst(x, m.get, memo) for x in xs)
            except (ZeroDivisionError, poly.Big): return None
            if any(y is None for y in r): return None
            out.append(r)
        return out
    def mapq(self, f, env, c, x):
        r = self.maptup(f, env, c, (x,))
        return None if r is None else alts([y[0] for y in r])
    def mapv(self, f, env, c, v):
        if v is None or isinstance(v, Bot): return v
        if isinstance(v, V3):
            out = []
            for t in v.a:
                r = self.maptup(f, env, c, t)
                if r is None: return None
                for y in r:
                    if not any(prop(y, u) for u in out): out.append(y)
            return V3(out) if len(out) <= MAXALT else None
        if isinstance(v, T):
            tr = None
            if not v.base and set(v.kids) == {'[0]', '[1]', '[2]'} and len([1 for x in v.kids.values() if isinstance(x, tuple) and len(x) == 1]) == 3:
                r = self.maptup(f, env, c, tuple(v.kids[x][0] for x in ('[0]', '[1]', '[2]')))
                if r is not None and len(r) > 1:
                    out = []
                    for y in r:
                        if not any(prop(y, u) for u in out): out.append(y)
                    return V3(out) if len(out) <= MAXALT else None
            b = None; first = True
            for p in sorted(v.base):
                w = self.arg(f, env, c, p)
                b = w if first else self.join(f, b, w); first = False
            if not v.kids: return b
            kids = {k: self.mapv(f, env, c, x) for k, x in v.kids.items()}
            b = b if isinstance(b, T) else UNK
            kk = dict(b.kids); kk.update(kids)
            return T(kk, b.base)
        out = []
        for x in v:
            m = self.mapq(f, env, c, x)
            if m is None: return None
            out += m
        return alts(out)

    def overlay(self, f, env, c, tgt, v):
        """new value of an object of value tgt (caller) after the callee turned it into v"""
        if isinstance(v, T) and v.kids:
            kids = dict(tgt.kids) if isinstance(tgt, T) else {}
            if any(k[:2] == '++' for k in v.kids):
                z = kid(tgt, '#') if isinstance(tgt, T) and '#' in tgt.kids else None
                new = [self.mapv(f, env, c, v.kids[k]) for k in sorted(v.kids)]
                if any(k[:2] != '++' for k in v.kids) or not isinstance(tgt, T) or len(v.base) != 1 or self.arg(f, env, c, next(iter(v.base))) != tgt: return None
                if z is None and (not tgt.base or any(k[:2] != '++' for k in kids)): return None
                for x in new:
                    if z is None: kids['++%d' % len(kids)] = x
                    else:
                        tgt = self.append(f, tgt, x)
                        if tgt is None: return None
                return tgt if z is not None else T(kids, tgt.base)
            base = tgt.base if isinstance(tgt, T) else frozenset()
            for k, x in v.kids.items():
                if k == '[A]' and any(y[:1] == '[' and y != '[A]' for y in kids):      # every element, on known ones
                    n = kids.get('#'); n = n[0].const() if isinstance(n, tuple) and len(n) == 1 else None
                    ks = [y for y in kids if y[:1] == '[']
                    if n is None or n > 12 or not all(y[1:-1].isdigit() for y in ks):
                        kids = {y: z for y, z in kids.items() if y[:1] != '['}; kids['[]'] = None; base = frozenset(); continue
                    new = {}
                    for m in range(int(n)):
                        z = substar(x, '[%d]' % m); old = kid(tgt, '[%d]' % m)
                        new['[%d]' % m] = self.overlay(f, env, c, old, z) if isinstance(z, T) and z.kids and z.base else self.mapv(f, env, c, z)
                    kids.update(new); continue
                if k in ('[]',): kids = {y: z for y, z in kids.items() if y[:1] != '['}; base = frozenset(); continue
                kids[k] = self.overlay(f, env, c, kid(tgt, k), x) if isinstance(x, T) and x.kids and x.base else self.mapv(f, env, c, x)
            if not v.base: base = frozenset()
            return T(kids, base)
        return self.mapv(f, env, c, v)

    def append(self, f, t, v):
        """container value t (of known possible sizes) with the element v appended"""
        z = t.kids.get('#') if isinstance(t, T) else None
        if not isinstance(z, tuple) or not z or any(x.const() is None or x.const() > 12 for x in z): return None
        kids = dict(t.kids)
        for x in z:
            k = '[%d]' % int(x.const())
            kids[k] = v if len(z) == 1 else self.join(f, kidj(t, k), self.vs(f, v))
        kids['#'] = alts([x + 1 for x in z])
        return T(kids, t.base)
    def call(self, f, env, i, c):
        """(value, env after)"""
        F = self.F; n = f.nodes[i]; g = F.byid.get(c.callee); h = c.head; nm = c.name
        if g is not None and not c.args and (g.d.get('q') or '').startswith('h2d::thr::') and n['t'] is not None and F.t(F.strip(n['t']))['k'] == 'float': return (poly.A(('thr', nm)),), env
        if g is not None:
            s = self.summary(f, env, c, g)
            e2 = env
            if s is None:
                for p in self.E.w[g.id]:
                    for x in map_place(f, c, p): e2 = self.store(f, e2, [x], None)
                return None, e2
            ret, out = s
            asm = self.asm.get(g.id, ()) if c.kind != 'ctor' or True else ()
            for z in asm:
                try: m = self.mapq(f, env, c, z)
                except poly.Big: m = None
                if m is not None and len(m) == 1: e2 = self.assume(e2, m[0])
            # values in terms of the entry state, then stores
            new = []
            val = None
            for r, v in out.items():
                if r == THIS and c.kind == 'ctor': val = self.overlay(f, env, c, UNK, v); continue
                if r == THIS:
                    ps = (self.places(f, env, c.obj) if not c.objarrow else list(ptr(f, c.obj))) if c.obj is not None else []
                elif r[0] == 'p': ps = self.places(f, env, c.args[r[1]]) if r[1] < len(c.args) else []
                elif r[0] == 'g': ps = [r]
                else: ps = list(map_place(f, c, r))
                for p in ps: new.append((p, self.overlay(f, env, c, self.read(f, env, p), v), len(ps) == 1))
            if c.kind != 'ctor': val = self.mapv(f, env, c, ret)
            for p, v, strong in new: e2 = self.store(f, e2, [p] if strong else [p, ('x',)], v)
            return val, e2
        a = c.args
        if c.kind == 'ctor':
            if h is not None and h.get('ctor') in ('copy', 'move') and a: return self.ev(f, env, a[0]), env
            rq = F.recq(n['t']) or ''
            if rq in ('std::pair', 'std::tuple') and len(a) == 2: return T({'first': self.ev(f, env, a[0]), 'second': self.ev(f, env, a[1])}), env
            if rq == 'std::unique_ptr':
                m = self.strip(f, a[0]) if len(a) == 1 else None
                if not a or m is not None and f.nodes[m]['k'] == 'CXXNullPtrLiteralExpr': return T({'*': BOT}), env
                return (T({'*': self.ev(f, env, f.nodes[m]['c'][0])}) if m is not None and f.nodes[m]['k'] == 'CXXNewExpr' and f.nodes[m].get('c') else None), env
            if rq == 'std::vector' and not a: return T({'#': num(0)}), env
            if rq == 'std::vector' and len(a) >= 1:
                v = self.ev(f, env, a[0])
                if isinstance(v, T): return v, env
                k = v[0].const() if isinstance(v, tuple) and len(v) == 1 else None
                if k is not None and k.denominator == 1 and F.t(F.strip(f.nodes[a[0]]['t']))['k'] == 'int': return T({'#': num(k)}), env
                return None, env
            if len(a) == 1 and F.recq(f.nodes[a[0]]['t']) == rq: return self.ev(f, env, a[0]), env
            if not a: return self.dflt(n['t']) or UNK, env
            return None, env
        if h is not None and h.get('inhdr'):
            if h.get('assign') and a and c.obj is not None:
                v = self.ev(f, env, a[0])
                return v, self.store(f, env, self.places(f, env, c.obj), v)
            return None, env
        if nm in ('move', 'forward', 'as_const', 'ref', 'cref') and a: return self.ev(f, env, a[0]), env
        if nm == 'make_pair' and len(a) == 2: return T({'first': self.ev(f, env, a[0]), 'second': self.ev(f, env, a[1])}), env
        if nm == 'operator=' and a and c.obj is not None and not F.is_iter(f.nodes[c.obj]['t']):
            v = self.ev(f, env, a[0])
            return v, self.store(f, env, self.places(f, env, c.obj), v)
        if nm == 'swap' and len(a) == 2:
            x, y = self.ev(f, env, a[0]), self.ev(f, env, a[1])
            e2 = self.store(f, env, self.places(f, env, a[0]), y); return None, self.store(f, e2, self.places(f, env, a[1]), x)
        if c.kind == 'free' and n['t'] is not None and F.t(F.strip(n['t']))['k'] in ('float', 'int') and nm in ('sqrt', 'abs', 'fabs', 'hypot', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'min', 'max', 'fmin', 'fmax', 'pow', 'round', 'floor', 'ceil', 'trunc', 'exp', 'log', 'cbrt'):
            vs = [self.scal(f, self.ev(f, env, x)) for x in a]
            return lift(lambda *z: poly.Fun(nm, *z), *vs), env
        if c.obj is not None and not c.objarrow and F.recq(f.nodes[c.obj]['t']) in ('std::vector', 'std::array', 'std::list') and c.kind == 'mem':
            if nm in ('size', 'length'):
                k = self.extent(f, env, c.obj)
                if k is not None: return num(k), env
                return None, env
            if nm in ('clear', 'push_back', 'emplace_back', 'reserve', 'resize'):
                ps = self.places(f, env, c.obj)
                if nm == 'clear': return None, self.store(f, env, ps, T({'#': num(0)}))
                if nm == 'reserve': return None, env
                k = self.extent(f, env, c.obj)
                if k is None and len(ps) == 1 and len(a) == 1 and nm != 'resize':
                    cur = self.reads(f, env, ps)
                    if isinstance(cur, T) and '#' in cur.kids: return None, self.store(f, env, ps, self.append(f, cur, self.ev(f, env, a[0])))
                    if isinstance(cur, T) and (cur.base or cur.kids) and all(x[:2] == '++' for x in cur.kids) and len(cur.kids) < 4:      # appended to whatever is there
                        return None, self.store(f, env, ps, T(dict(cur.kids, **{'++%d' % len(cur.kids): self.ev(f, env, a[0])}), cur.base))
                if k is not None and len(ps) == 1:
                    if nm == 'resize':
                        v = self.scal(f, self.ev(f, env, a[0])); m = v[0].const() if v is not None and len(v) == 1 else None
                        if m is not None: return None, self.store(f, self.store(f, env, [ext(ps[0], '#')], num(m)), [('x',)], None) if m >= k else self.store(f, env, ps, None)
                    elif len(a) == 1 and k < 12:
                        v = self.ev(f, env, a[0])
                        return None, self.store(f, self.store(f, env, [ext(ps[0], '[%d]' % k)], v), [ext(ps[0], '#')], num(k + 1))
        if nm in ('min_element', 'max_element', 'minmax_element') and len(a) in (2, 3):
            try: x = self.extremes(f, env, i, c)
            except (poly.Big, ZeroDivisionError): x = None
            if x is not None:
                x = [T({'*': y}) for y in x]
                return (T({'first': x[0], 'second': x[1]}) if nm[3:6] == 'max' else x[nm[1] == 'a']), env
        if nm in ('operator*', 'operator->') and (c.obj is not None) + len(a) == 1:
            x = self.deref(f, env, c.obj if c.obj is not None else a[0])
            if x is not None: return x, env
        if n.get('lv'):
            ps = [p for p in self.places(f, env, i) if not (p[0] == 'tmp' and p[1] == i)]
            v = self.reads(f, env, ps) if ps else None
        else: v = None
        e2 = env
        for p, _ in node_writes(f, i): e2 = self.store(f, e2, [p], None)
        for l, cc in callees_of(f, c):
            if isinstance(cc, LamCall):
                for p in self.E.w[l.id]:
                    for x in mapc(f, cc, p): e2 = self.store(f, e2, [x], None)
        return v, e2

    def strip(self, f, i):
        while f.nodes[i]['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and f.nodes[i].get('c'): i = f.nodes[i]['c'][0]
        return i
    # ---- stores
    def store(self, f, env, ps, v):
        if not ps: return env
        env = dict(env)
        strong = len(ps) == 1
        for p in ps:
            if p[0] in ('x', 'tmp'):
                if p[0] == 'tmp': 
                    cur = env.get(('n', p[1])); env[('n', p[1])] = put(cur, p[2:], v) if strong else None
                continue
            n = 1 if p[0] == 'this' else 2
            r = p[:n]
            cur = env.get(r)
            if cur is None and r not in env: cur = self.read(f, env, r)
            if '*' in p[n:]: 
                k = p.index('*'); 
            env[r] = put(cur, p[n:], v if strong else self.join(f, self.vs(f, sub(cur, p[n:])), self.vs(f, v)))
        return env

    def transfer(self, f, env, e):
        F = self.F
        if not isinstance(e, int): return env
        n = f.nodes[e]; k = n['k']; ch = n.get('c', ())
        if e in (self.rangevars(f), f._memo['rangeinc'])[1]:
            b = f._memo['rangeinc'][e]; v = env.get(('d', b)); env = dict(env)
            x = v[0].const() if isinstance(v, tuple) and len(v) == 1 else None
            env[('d', b)] = num(x + 1) if x is not None and x < 12 else None
            return env
        if k in CALLK:
            c = call_of(f, e)
            if c is None: return env
            v, env = self.call(f, env, e, c)
            env = dict(env); env[('n', e)] = v
            return env
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            v = self.ev(f, env, e, True)
            return self.store(f, env, self.places(f, env, ch[0]), v)
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            ps = self.places(f, env, ch[0]); v = self.scal(f, self.reads(f, env, ps)) if ps else None
            env = dict(env); d = 1 if n['op'] == '++' else -1
            nv = lift(lambda x: x + d, v)
            env[('n', e)] = v if n.get('post') else nv
            return self.store(f, env, ps, nv)
        if k == 'DeclStmt':
            rv = self.rangevars(f)
            for d in n.get('decls', ()):
                D = F.decls[d['d']]
                if d['d'] in rv:
                    ps = self.places(f, env, rv[d['d']]); es = self.elems(f, env, d['d'])
                    env = dict(env)
                    if F.is_ref(D['t']) and not (es and es[0][-1] == '[*]'): pass
                    elif F.is_ref(D['t']):
                        for p in ps:            # the current element is still what it was on entry, if the container is
                            m = 1 if p[0] == 'this' else 2
                            t = env.get(p[:m])
                            s = sub(t, p[m:]) if t is not None else None
                            if isinstance(s, T) and '[*]' in s.kids:
                                kk = {x: y for x, y in s.kids.items() if x != '[*]'}
                                env[p[:m]] = put(t, p[m:], T(kk, s.base)) if p[m:] else T(kk, s.base)
                    else:
                        v = self.reads(f, env, es) if es else None
                        env[('d', d['d'])] = v
                    continue
                if d['d'] in f._memo['rangebegin']:
                    env = dict(env); nk = self.extent(f, env, rv[f._memo['rangebegin'][d['d']][0]])
                    env[('d', d['d'])] = num(0) if nk is not None and nk <= 9 else None
                    continue
                if F.is_ref(D['t']): continue
                if d.get('i', -1) >= 0: v = self.ev(f, env, d['i'])
                else: v = UNK
                if d.get('bind'): v = self.ev(f, env, d['i']) if d.get('i', -1) >= 0 else None
                env = dict(env); env[('d', d['d'])] = v
            return env
        if k == 'ReturnStmt' and ch and ch[0] >= 0:
            env = dict(env); env[('ret', 0)] = self.vs(f, self.ev(f, env, ch[0]))
            if F.t(f.ret)['k'] == 'ref': env[('rp', 0)] = frozenset(self.places(f, env, ch[0]))
            return env
        return env

    def joinenv(self, f, a, b, g=None):
        J = self.join if g is None else lambda f, x, y: self.gate(f, g, x, y)
        out = {}
        for r in dict.fromkeys([*a, *b]):
            if r[0] == 'as':
                x, y = a.get(r, ()), b.get(r, ())
                out[r] = tuple(z for z in x if z in y)
            elif r[0] == 'if':
                if a.get(r) == b.get(r): out[r] = a[r]
            elif r[0] == 'rp': out[r] = a.get(r, frozenset()) | b.get(r, frozenset())
            elif r in a and r in b: out[r] = a[r] if a[r] is b[r] else J(f, self.vs(f, a[r]), self.vs(f, b[r]))
            elif r[0] == 'd' and r[1] in f.pidx: out[r] = J(f, *(self.vs(f, x[r] if r in x else T(None, frozenset([('v', f.pidx[r[1]])]))) for x in (a, b)))
            elif r[0] in ('n', 'd', 'ret'): out[r] = a[r] if r in a else b[r]
            else: out[r] = J(f, a.get(r) if r in a else T(None, frozenset([r])), b.get(r) if r in b else T(None, frozenset([r])))
        return out

    def final(self, f, ctx=None):
        """environment at the exit of f, or None when it never returns normally; ctx: constant values of parameters"""
        B = f.blocks()
        if not B: return None
        init = {}
        if f.name and f.d.get('ctor') or any(f.inits): init = self.ctor_init(f)
        if ctx:
            init = dict(init)
            for j, v in ctx.items():
                p = f.params[j]
                init[('p', j) if self.F.is_ref(p['t']) else ('d', p['d'])] = v
        cnt = collections.Counter()
        lv = self.counters(f); parts = self.parted(f); self.rangevars(f); rb = list(f._memo['rangebegin'])
        loops = self.loops(f)
        def key(st):
            out = []
            for d in list(lv) + rb:
                v = st.get(('d', d))
                out.append(v[0].const() if isinstance(v, tuple) and len(v) == 1 else None)
            return tuple(out + [st.get(('if', x)) for x in parts])
        ins = {}; order = {b: k for k, b in enumerate(f.rpo())}
        ent = f.cfgd['entry']; ins[(ent, key(init))] = init
        backs = {}; held = {}
        import heapq
        wl = [(key0(key(init)), order[ent], ent, key(init))]; inw = {(ent, key(init))}
        it = 0
        conds = {}; inc = {}
        region = self.regions(f); dead = self.dead(f)
        def flow(s, st2, src, sk=None):
            k2 = (s, key(st2))
            if s in region and sk == k2[1]:
                m = inc.setdefault(k2, {})
                if m is not False:
                    m[src] = st2
                    if len(m) > 1 or k2 not in ins:
                        jj = self.gated(f, region[s], m, conds, sk)
                        if jj is not None:
                            if k2 in ins and same_env(jj, ins[k2]): return
                            cnt[k2] += 1
                            ins[k2] = jj
                            if cnt[k2] > 40: inc[k2] = False
                            if k2 not in inw: heapq.heappush(wl, (key0(k2[1]), order[s], s, k2[1])); inw.add(k2)
                            return
            elif s in region: inc[k2] = False
            if s in loops and src in loops[s] and self.range_of(f, B[s]) is not None:
                old = backs.get(k2); backs[k2] = st2 if old is None else self.joinenv(f, old, st2)
                if k2 not in inw and k2 in ins: heapq.heappush(wl, (key0(k2[1]), order[s], s, k2[1])); inw.add(k2)
            if k2 in ins:
                jj = self.joinenv(f, ins[k2], st2)
                if cnt[k2] > 8: jj = {r: (v if r[0] == 'rp' or v == ins[k2].get(r) else None) for r, v in jj.items()}
                if jj == ins[k2]: return
                ins[k2] = jj
            else: ins[k2] = st2
            if k2 not in inw: heapq.heappush(wl, (key0(k2[1]), order[s], s, k2[1])); inw.add(k2)
        while wl or held:
            if not wl:
                (b, kk), (s, st2) = held.popitem()
                if (b, kk) not in backs: flow(s, st2, b)
                continue
            it += 1
            if it > 4000: return None
            _, _, b, kk = heapq.heappop(wl); inw.discard((b, kk)); cnt[(b, kk)] += 1
            st = ins[(b, kk)]
            if inc.get((b, kk)) and len(inc[(b, kk)]) > 1:
                jj = self.gated(f, region[b], inc[(b, kk)], conds, kk)
                if jj is not None: st = ins[(b, kk)] = jj
            for e in B[b]['e']: st = self.transfer(f, st, e)
            ss = list(B[b]['s']); blk = B[b]; tk = blk.get('tk'); d = None; rg = None
            if len(ss) == 2:
                r = None
                if tk == 'ForStmt' and lv: d, r = self.for_cond(f, blk, st)
                if tk == 'CXXForRangeStmt':
                    rg = self.range_of(f, blk)
                    if rg is not None:
                        x = st.get(('d', f._memo['rangeof'].get(rg))); x = x[0].const() if isinstance(x, tuple) and len(x) == 1 else None
                        if x is not None:
                            nk = self.extent(f, st, self.rangevars(f)[rg])
                            if nk is not None: r = x < nk
                            d = f._memo['rangeof'][rg]; rg = None
                elif r is None and blk.get('cond') is not None and tk in ('IfStmt', 'ConditionalOperator', 'ForStmt', 'WhileStmt', 'DoStmt', 'BinaryOperator') and blk['cond'] >= 0:
                    r = self.cond_val(f, st, self.last_cond(f, blk['cond']))
                if r is not None: ss[1 if r else 0] = -1
                if r is None and tk in ('IfStmt', 'ConditionalOperator', 'BinaryOperator') and blk.get('cond', -1) >= 0: conds[(b, kk)] = self.boolean(f, st, self.last_cond(f, blk['cond']))
                elif r is not None: conds[(b, kk)] = q(1 if r else 0)
            if tk == 'SwitchStmt' and blk.get('cond', -1) >= 0:
                v = self.scal(f, self.ev(f, st, blk['cond'])); c = v[0].const() if v is not None and len(v) == 1 else None
                if c is not None: ss = self.switch(f, B, ss, c)
            for j, s in enumerate(ss):
                if s < 0 or s not in order: continue
                st2 = st
                if len(ss) == 2 and ss[1 - j] in dead and isinstance(conds.get((b, kk)), Q): st2 = self.assume(st, conds[(b, kk)] if j == 0 else 1 - conds[(b, kk)])
                if blk.get('tn') in parts and len(ss) == 2 and conds.get((b, kk)) is None: st2 = dict(st); st2[('if', blk['tn'])] = j
                if d is not None and j == 1: st2 = {x: y for x, y in st2.items() if x != ('d', d)}      # the counter goes out of scope
                if rg is not None and j == 1:            # end of the loop: all the elements went through the body
                    if (b, kk) not in backs:
                        if any(x in loops.get(b, ()) for x in f.preds().get(b, ())): held[(b, kk)] = (s, st2); continue
                    else: held.pop((b, kk), None); st2 = self.exhaust(f, st2, backs[(b, kk)], rg)
                flow(s, st2, b, kk)
        out = None
        for (b, kk), st in ins.items():
            if b == f.cfgd['exit']: out = st if out is None else self.joinenv(f, out, st)
        return out

    def dead(self, f):
        """blocks from which the function does not return"""
        D = f._memo.get('vndead')
        if D is None:
            B = f.blocks(); pr = f.preds(); live = {f.cfgd['exit']}; w = [f.cfgd['exit']]
            while w:
                for p in pr.get(w.pop(), ()):
                    if p not in live and not B[p].get('nr'): live.add(p); w.append(p)
            D = f._memo['vndead'] = set(B) - live
        return D
    def assume(self, env, g):
        """env, when the function returns only if g"""
        cur = env.get(('as', 0), ())
        if g.const() is not None or g in cur or len(cur) > 11: return env
        return dict(env, **{}) | {('as', 0): cur + (g,)}
    def regions(self, f):
        """merge block -> (dominating branch, tree of blocks down to the merge): acyclic regions where the condition under which a value arrives is known.
        tree: ('leaf', source block) | ('if', block, tree, tree) | None (does not reach the merge)"""
        R = f._memo.get('vnregions')
        if R is None:
            R = {}; B = f.blocks(); pr = f.preds(); dom = f.doms(); order = {b: k for k, b in enumerate(f.rpo())}
            for m in order:
                ps = [p for p in pr.get(m, ()) if p in order]
                if len(ps) < 2 or any(order[p] >= order[m] for p in ps): continue
                D = dom[m] - {m}
                d = max(D, key=lambda x: len(dom[x])); cnt = [0]; memo = {}
                def tree(b, src):
                    if b == m: return ('leaf', src)
                    if b not in order or order[b] > order[m] and m != f.cfgd['exit']: return None
                    if order[b] <= order.get(src, -1): raise ValueError
                    cnt[0] += 1
                    if cnt[0] > 60: raise ValueError
                    if B[b].get('tk') in ('SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'CXXTryStmt'): raise ValueError
                    ss = [s for s in B[b]['s'] if s >= 0]
                    if len(ss) == 0: return None
                    if len(B[b]['s']) == 1 or len(ss) == 1 and len(B[b]['s']) != 2: return tree(ss[0], b)
                    if len(B[b]['s']) != 2: raise ValueError
                    x, y = (tree(s, b) if s >= 0 else None for s in B[b]['s'])
                    if x is None: return y
                    if y is None: return x
                    return ('if', b, x, y)
                try: t = tree(d, None)
                except ValueError: continue
                if t and t[0] == 'if': R[m] = t
            f._memo['vnregions'] = R
        return R
    def gated(self, f, tree, m, conds, kk):
        """join of the states m (source block -> state) under the conditions on which they arrive, or None"""
        def go(t):
            if t[0] == 'leaf': return m.get(t[1])
            a, b = go(t[2]), go(t[3])
            if a is None: return b
            if b is None: return a
            g = conds.get((t[1], kk))
            if g is None: return self.joinenv(f, a, b)
            return self.joinenv(f, a, b, g)
        return go(tree)

    def range_of(self, f, blk):
        """loop variable of the range-based loop of which blk is the header"""
        if blk.get('tk') != 'CXXForRangeStmt': return None
        n = f.nodes[blk['tn']]; dv = f.nodes[n['r']['var']].get('decls', [])
        return dv[0]['d'] if len(dv) == 1 and dv[0]['d'] in self.rangevars(f) else None
    def exhaust(self, f, st, back, rg):
        """state at the end of the range-based loop over all the elements"""
        if not self.F.is_ref(self.F.decls[rg]['t']): return st
        ps = self.places(f, st, self.rangevars(f)[rg])
        if len(ps) != 1 or ps[0][0] == 'tmp': return st
        p = ps[0]; m = 1 if p[0] == 'this' else 2
        if p[:m] not in st or '[]' in p: return st
        def at(env): return sub(env[p[:m]], p[m:]) if p[:m] in env else None
        t, b = at(st), at(back)
        if not isinstance(t, T): return st
        kk = {x: y for x, y in t.kids.items() if x not in ('[*]', '[A]')}
        if isinstance(b, T) and '[*]' in b.kids: kk['[A]'] = b.kids['[*]']
        elif isinstance(b, T):
            if '[A]' in t.kids and '[*]' not in t.kids: return st
            if '[*]' in t.kids or '[A]' in t.kids: kk['[A]'] = kid(b, '[*]')
        else: return st
        st = dict(st); nt = T(kk, t.base); st[p[:m]] = put(st[p[:m]], p[m:], nt) if p[m:] else nt
        return st
    def loops(self, f):
        """header -> blocks of its natural loop"""
        L = f._memo.get('vnloops')
        if L is None:
            L = {}; dom = f.doms(); pr = f.preds()
            for b in f.rpo():
                for p in pr.get(b, ()):
                    if p not in dom or b not in dom[p]: continue
                    S = L.setdefault(b, {b}); w = [p]
                    while w:
                        x = w.pop()
                        if x in S: continue
                        S.add(x); w.extend(y for y in pr.get(x, ()) if y in dom)
            f._memo['vnloops'] = L
        return L
    def parted(self, f):
        """conditionals whose outcome is kept apart to the end of the function: they modify several related scalars"""
        m = f._memo.get('parted')
        if m is None:
            m = []
            for n in f.nodes:
                if n['k'] != 'IfStmt' or n.get('cx'): continue
                r = n['r']; w = set()
                inner = set()
                for br in ('then', 'else'):
                    if r.get(br, -1) is None or r.get(br, -1) < 0: continue
                    for x in f.sub(r[br]):
                        y = f.nodes[x]
                        if y['k'] == 'DeclStmt': inner |= {('d', z['d']) for z in y.get('decls', ())}
                        for p, _ in node_writes(f, x):
                            if p[0] == 'd' and len(p) == 2 and self.F.t(self.F.strip(self.F.decls[p[1]]['t']))['k'] == 'float': w.add(p)
                        if y['k'] == 'CXXOperatorCallExpr' and y.get('op') == '=' and ((self.F.recq(y['t']) or '').endswith('Matrix_') or self.F.recq(y['t']) == 'std::unique_ptr'): w |= {('m', x, 0), ('m', x, 1)}
                if len(w - inner) >= 2: m.append(n['i'])
            m = f._memo['parted'] = m[:2]
        return m
    def last_cond(self, f, i):
        while True:
            n = f.nodes[i]
            if n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and n.get('c'): i = n['c'][0]
            elif n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and f.elpos().get(i) is None: i = n['c'][1]
            else: return i
    def cond_val(self, f, env, i):
        """truth of a condition on constants, or None"""
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and ch: return self.cond_val(f, env, ch[0])
        if k == 'CXXBoolLiteralExpr': return bool(n.get('v')) if not isinstance(n.get('v'), str) else n['v'] in ('true', '1')
        if k == 'UnaryOperator' and n['op'] == '!':
            r = self.cond_val(f, env, ch[0]); return None if r is None else not r
        if k == 'BinaryOperator' and n['op'] in ('==', '!=', '<', '<=', '>', '>='):
            if n['op'] in ('==', '!='):          # the object is not also one of the parameters
                z = [f.nodes[self.strip(f, c)] for c in ch]
                for a, b in (z, z[::-1]):
                    if a['k'] == 'CXXThisExpr' and b['k'] == 'UnaryOperator' and b['op'] == '&' and all(p[0] == 'p' for p in lval(f, b['c'][0])): return n['op'] == '!='
            x, y = (self.scal(f, self.ev(f, env, c)) for c in ch)
            if x is None or y is None or len(x) != 1 or len(y) != 1: return None
            d = x[0] - y[0] if n['op'] not in ('==', '!=') else None
            x, y = x[0].const(), y[0].const()
            if x is None or y is None:
                g = self.sign(f, d) if d is not None else None
                return None if g is None else (g < 0) == (n['op'][0] == '<')
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[n['op']]
        if k in ('DeclRefExpr', 'MemberExpr') and self.F.t(self.F.strip(n['t']))['s'] == 'bool':
            x = self.scal(f, self.ev(f, env, i)); x = x[0].const() if x is not None and len(x) == 1 else None
            return None if x is None else x != 0
        c = call_of(f, i)
        if c is not None and c.name == 'signbit' and len(c.args) == 1:
            x = self.scal(f, self.ev(f, env, c.args[0])); x = x[0].const() if x is not None and len(x) == 1 else None
            return None if x is None else x < 0
        t = self.F.t(self.F.strip(n['t']))
        if n.get('ck') != 'FloatingToBoolean' and (t['k'] == 'int' or t['s'] == 'bool') and k not in ('BinaryOperator', 'LambdaExpr'):
            x = self.scal(f, self.ev(f, env, i)); x = x[0].const() if x is not None and len(x) == 1 else None
            return None if x is None else x != 0
        return None
    def sign(self, f, x):
        """sign of a formula under the class invariants (radii and roots are positive, the points of a sorted object are in order), or None"""
        def order(a):
            P = a[1]
            if a[0] not in 'XY' or len(P) < (2 if P[0] == 'this' else 3): return None
            t = self.ptype(f, P[:-1])
            if t is None: return None
            q_ = self.F.recq(t) or ''
            if P[-1] == '[greatest:%s]' % a[0]: return (a[0], P[:-1] + ('[least:%s]' % a[0],))
            if q_ != 'h2d::FRect_': return None
            fs = [fd['n'] for fd in self.F.recs[self.F.t(self.F.strip(t))['u']]['fields'] if self.kind(f, P[:-1] + (fd['n'],)) == 'P'][:2]
            return (a[0], P[:-1] + (fs[0],)) if P[-1] == fs[1] else None
        def one(p):
            if not p: return None
            g = None; r = {}
            for m, c in p.items():              # second point of a rectangle = first point + something positive
                k = next((j for j, (i, e) in enumerate(m) if e == 1 and order(poly._atoms[i])), None)
                ts = [(m, c)]
                if k is not None:
                    a = poly._atoms[m[k][0]]; rest = tuple(z for j, z in enumerate(m) if j != k)
                    ts = [(poly._mul_mono(rest, ((poly.atom_id(b), 1),)), c) for b in (order(a), ('fn', 'abs', ('width', a)))]
                for m2, c2 in ts: r[m2] = r.get(m2, 0) + c2
            for m, c in r.items():
                if not c: continue
                for i, e in m:
                    a = poly._atoms[i]
                    if e % 2 and not (a[0] == 'in' and a[1][-1] == '_radius' or a[0] == 'fn' and a[1] in ('sqrt', 'abs')): return None
                if g is not None and (c > 0) != (g > 0): return None
                g = 1 if c > 0 else -1
            return g
        try: a, b = one(x.n), one(x.d)
        except poly.Big: return None
        return None if a is None or b is None else a * b
    def switch(self, f, B, ss, c):
        """successors of a switch on the constant c"""
        out = []; dflt = []; known = True
        for s in ss:
            if s < 0: continue
            l = B[s].get('label')
            n = f.nodes[l] if l is not None and l >= 0 else None
            vals = []; isd = n is None
            while n is not None and n['k'] in ('CaseStmt', 'DefaultStmt'):
                if n['k'] == 'DefaultStmt': isd = True; break
                v = self.scal(f, self.ev(f, {}, n['r']['val'])); v = v[0].const() if v is not None and len(v) == 1 else None
                if v is None: known = False
                vals.append(v); break
            if isd: dflt.append(s)
            elif c in vals: out.append(s)
        if not known: return ss
        return out or dflt or ss

    def counters(self, f):
        """variables of for loops with constant bounds: {decl: (condition node, operator, bound)}"""
        m = f._memo.get('vncounters')
        if m is None:
            m = {}
            for n in f.nodes:
                if n['k'] != 'ForStmt' or not n.get('r'): continue
                r = n['r']
                i, c, s = r.get('init'), r.get('cond'), r.get('inc')
                if i is None or c is None or s is None or f.nodes[i]['k'] != 'DeclStmt': continue
                ds = f.nodes[i].get('decls', [])
                if len(ds) != 1 or ds[0].get('i', -1) < 0 or const_int(f, ds[0]['i']) is None: continue
                cn = f.nodes[c]
                if cn['k'] != 'BinaryOperator' or cn['op'] not in ('<', '<=', '!='): continue
                lhs = f.nodes[cn['c'][0]]
                while lhs['k'] == 'ImplicitCastExpr': lhs = f.nodes[lhs['c'][0]]
                k = const_int(f, cn['c'][1])
                if k is None:
                    y = cn['c'][1]
                    while f.nodes[y]['k'] == 'ImplicitCastExpr': y = f.nodes[y]['c'][0]
                    cc = call_of(f, y)
                    if cc is not None and cc.name == 'size' and cc.obj is not None: k = self.extent(f, {}, cc.obj) if self.F.recq(f.nodes[cc.obj]['t']) == 'std::array' else None
                if lhs.get('d') != ds[0]['d'] or k is None or k > 9: continue
                wr = [x for x in f.sub(r['body']) if x >= 0 and any(p == ('d', ds[0]['d']) for p, _ in node_writes(f, x))] if r.get('body', -1) >= 0 else []
                if not wr: m[ds[0]['d']] = (c, cn['op'], k)
            f._memo['vncounters'] = m
        return m
    def for_cond(self, f, b, st):
        for d, (c, op, k) in self.counters(f).items():
            if b['e'] and c in b['e'] or b.get('cond') == c:
                v = st.get(('d', d))
                if isinstance(v, tuple) and len(v) == 1 and v[0].const() is not None:
                    x = v[0].const(); return d, {'<': x < k, '<=': x <= k, '!=': x != k}[op]
                return d, None
        return None, None

    def dflt(self, t):
        """value of a default-initialised object of type t, as far as the constructors of its elements set it"""
        F = self.F; t = F.strip(t); m = self.__dict__.setdefault('_dflt', {})
        if t in m: return m[t]
        m[t] = None; x = F.t(t); q = x.get('q') or ''
        if q == 'std::array':
            import re
            z = re.search(r', (\d+)(?:UL)?>$', x['s']); e = axis.elem_type(F, t); v = self.dflt(e) if e is not None and z and int(z.group(1)) <= 16 else None
            if v is not None: m[t] = T({'[%d]' % k: v for k in range(int(z.group(1)))})
        elif q == 'std::pair':
            e = [axis.field_type(F, t, k) for k in ('first', 'second')]
            v = [self.dflt(y) if y is not None else None for y in e]
            if None not in v: m[t] = T(dict(zip(('first', 'second'), v)))
        elif q.startswith('h2d::'):
            d = self.__dict__.get('_dctor')
            if d is None:
                d = self._dctor = {}
                for g in F.fns:
                    if g.d.get('ctor') == 'default' and g.cls and not g.params and g.blocks(): d[F.t(F.strip(axis.this_type(F, g.cls))).get('u')] = g
            g = d.get(x.get('u'))
            if g is not None:
                s = self.sum.get(g.id)
                if s is None: s = self.analyse(g)
                v = s[1].get(THIS) if s else None
                if isinstance(v, T): m[t] = v
        return m[t]
    def ctor_init(self, f):
        env = {}
        isctor = any('f' in x or 'base' in x or x.get('deleg') for x in f.inits) or f.d.get('ctor')
        if not isctor: return env
        t = UNK
        for x in f.inits:
            e = x.get('e', -1)
            if e is None or e < 0: continue
            env2 = {THIS: t}
            for y in reversed(f.sub(e)):
                if f.nodes[y]['k'] in CALLK: env2 = self.transfer(f, env2, y)
            v = self.ev(f, env2, e)
            if 'f' in x: t = put(t, (x['f'],), v)
            elif isinstance(v, T):
                kk = dict(t.kids); kk.update(v.kids); t = T(kk, v.base or t.base)
        return {THIS: t}

    def analyse(self, f, ctx=None):
        """(returned value, {root: value on exit}) of f; ctx: constant values of some parameters"""
        env = self.bounded(f, ctx)
        if env is None: return (None, {})
        self.rp = env.get(('rp', 0))
        if not ctx: self.asm[f.id] = env.get(('as', 0), ())
        else: self.casm = env.get(('as', 0), ())
        out = {}
        for r, v in env.items():
            if r[0] in ('this', 'p', 'g', 'cap'):
                if v == T(None, frozenset([r])) or ctx and r[0] == 'p' and r[1] in ctx and v == ctx[r[1]]: continue
                out[r] = v
        return (env.get(('ret', 0)), out)

    def bounded(self, f, ctx):
        """final() within the step budget; past it, alternatives are joined without their conditions"""
        old = poly.steps[1], self.ng
        if (f.name, f.line) in self.hard and not ctx: raise poly.Over()      # another instance of the template went past it
        for ng, n in ((False, BUDGET), (True, 4 * BUDGET)):
            if self.ng and not ng: continue
            lim = poly.steps[0] + n
            poly.steps[1] = lim if old[0] is None else min(lim, old[0])
            self.ng = ng
            try: return self.final(f, ctx)
            except poly.Over:
                if old[0] is not None and poly.steps[0] > old[0]: raise
            finally: poly.steps[1], self.ng = old
        if not ctx: self.hard.add((f.name, f.line))
        raise poly.Over()

    def consts(self, f, env, c, g):
        """constant arguments of the call c to g"""
        ctx = {}
        for j, a in enumerate(c.args):
            if j >= len(g.params): break
            v = self.ev(f, env, a)
            if isinstance(v, T):
                if v.base or not v.kids or any(x[:1] != '[' and x != '#' for x in v.kids) or not all(isinstance(x, tuple) and len(x) == 1 and x[0].const() is not None for x in v.kids.values()): continue
                ctx[j] = v
            elif isinstance(v, tuple) and len(v) == 1 and v[0].const() is not None: ctx[j] = v
        return ctx
    def retplaces(self, f, env, c, g):
        """places g returns a reference to, for these arguments"""
        base = ret_places(self.F, g)
        if not any('[]' in p for p in base) or self.depth >= 3 or not c.args: return base
        ctx = self.consts(f, env, c, g)
        if not ctx: return base
        k = (g.id, tuple(sorted((j, ckey(v)) for j, v in ctx.items())), 'rp')
        if k not in self.spec:
            if len(self.spec) > 900: return base
            self.spec[k] = base; self.depth += 1
            try:
                self.rp = None; self.analyse(g, ctx)
                if self.rp and all(p[0] in ('this', 'p', 'g') for p in self.rp): self.spec[k] = sorted(self.rp)
            except (RecursionError, poly.Over): pass
            self.depth -= 1
        return self.spec[k]
    def summary(self, f, env, c, g):
        """summary of the call: specialised on constant arguments when the general one loses something"""
        s = self.sum.get(g.id)
        if s is None or self.depth >= 3 or not c.args or complete(s) and single(s): return s
        ctx = self.consts(f, env, c, g)
        if not ctx: return s
        k = (g.id, tuple(sorted((j, ckey(v)) for j, v in ctx.items())))
        if k not in self.spec:
            if len(self.spec) > 600: return s
            self.spec[k] = s; self.depth += 1
            try: self.spec[k] = self.analyse(g, ctx)
            except (RecursionError, poly.Over): pass
            self.depth -= 1
        return self.spec[k]

def same_env(a, b):
    return a.keys() == b.keys() and all(a[r] is b[r] or a[r] == b[r] for r in a)
def ckey(v):
    return tuple(sorted((k, x[0].const()) for k, x in v.kids.items())) if isinstance(v, T) else v[0].const()
def known(v):
    if v is None: return False
    if isinstance(v, T): return bool(v.kids or v.base) and all(known(x) for x in v.kids.values()) and not any('[]' in b for b in (v.base))
    return True
def complete(s): return (s[0] is None or known(s[0])) and all(known(v) for v in s[1].values()) and (s[0] is not None or s[1])

def single(s): return (s[0] is None or single1(s[0])) and all(single1(v) for v in s[1].values())
def single1(v):
    if isinstance(v, T): return len(v.base) < 2 and all(single1(x) for x in v.kids.values())
    return v is not None and len(v.a if isinstance(v, V3) else v) == 1

def _vi(f):
    from core import _vinfo
    return _vinfo(f)

def vn(F):
    if getattr(F, '_vnum', None) is None: F._vnum = VN(F)
    return F._vnum
