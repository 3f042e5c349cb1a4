"""Abstract evaluation of comparison functions over the finite domain of orderings:
operands are only compared, so the result is a function of which key of one operand
is below, equal to or above the same key of the other."""
import itertools
from core import *
from core import _vinfo
import imply, flow

class Undecided(Exception): pass
class Thrown(Exception): pass
CASTS = ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr')

class Cmp:
    """truth table of f(A, B); A and B given by the root places of the two operands"""
    def __init__(self, F, f, A, B):
        self.F = F; self.f = f; self.I = imply.imply(F); self.A = A; self.B = B
        self.keys = []
        self.tab = None
        asg = {}
        # discover keys lazily: evaluate until no new key shows up
        while True:
            n = len(self.keys); self.tab = {}
            for vals in itertools.product((-1, 0, 1), repeat=n):
                self.cur = dict(zip(self.keys, vals))
                self.tab[vals] = self.run(f, self.ident(f))
                if len(self.keys) != n: break
            if len(self.keys) == n: break
            if len(self.keys) > 4: raise Undecided('too many keys')

    def ident(self, f): return lambda s: s

    def key(self, srcs):
        """(side, relative key) of a value computed from srcs"""
        a = {x[len(self.A):] for x in srcs if x[:len(self.A)] == self.A}; b = {x[len(self.B):] for x in srcs if x[:len(self.B)] == self.B}
        if a and not b: return 'A', frozenset(a)
        if b and not a: return 'B', frozenset(b)
        raise Undecided('operand mix')

    def rel(self, k):
        # the common divisor of a point's coordinates is not a key by itself
        k2 = frozenset(x for x in k if not (x and x[-1] == '[2]')) or k
        if k2 not in self.keys: self.keys.append(k2); self.cur[k2] = 0
        return self.cur[k2]

    def sources(self, f, i, mp):
        out = set()
        for x in self.I.rooted(self.I.srcs(f, i)): out |= mp(x)
        return out

    def ev(self, f, i, mp, env):
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
        if k in CASTS and len(ch) == 1: return self.ev(f, ch[0], mp, env)
        if k == 'CXXBoolLiteralExpr': return bool(int(n['v']) if str(n['v']).isdigit() else n['v'] in (True, 'true'))
        if k == 'UnaryOperator' and n['op'] == '!': return not self.ev(f, ch[0], mp, env)
        if k == 'ConditionalOperator': return self.ev(f, ch[1] if self.ev(f, ch[0], mp, env) else ch[2], mp, env)
        if k == 'BinaryOperator':
            if n['op'] == '&&': return self.ev(f, ch[0], mp, env) and self.ev(f, ch[1], mp, env)
            if n['op'] == '||': return self.ev(f, ch[0], mp, env) or self.ev(f, ch[1], mp, env)
            if n['op'] in ('<', '>', '<=', '>=', '==', '!='): return self.comp(f, ch[0], ch[1], n['op'], mp)
        if k == 'DeclRefExpr' and 'd' in n and n['d'] in env: return env[n['d']]
        c = call_of(f, i)
        if c is not None:
            g = self.F.byid.get(c.callee)
            if g is not None and self.F.tname(g.ret) == 'bool':
                return self.run(g, self.mapper(f, c, mp))
            if c.kind == 'op' and c.name in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='):
                a = ([c.obj] if c.obj is not None else []) + list(c.args)
                return self.comp(f, a[0], a[1], c.name[8:], mp)
        raise Undecided('expression ' + k)

    def mapper(self, f, c, mp):
        I = self.I
        def m(x):
            out = set()
            for y in I.mapset(f, c, [x]): out |= mp(y)
            return out
        return m

    def parts(self, f, i, depth=0):
        """components of a pair/tuple built on the spot"""
        n = f.nodes[i]
        if depth > 6: return None
        if n['k'] in CASTS and len(n.get('c', ())) == 1: return self.parts(f, n['c'][0], depth + 1)
        if n['k'] == 'DeclRefExpr' and 'd' in n and n['d'] not in f.pidx:
            es = _vinfo(f)[0].get(n['d'], ())
            return self.parts(f, es[0], depth + 1) if len(es) == 1 else None
        c = call_of(f, i)
        if c is not None and (c.name in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple') or c.kind == 'ctor' and (self.F.recq(n['t']) or '') in ('std::pair', 'std::tuple')):
            if len(c.args) == 1: return self.parts(f, c.args[0], depth + 1)
            return list(c.args)
        return None

    def order_of(self, f, a, b, mp):
        """-1, 0, 1"""
        pa, pb = self.parts(f, a), self.parts(f, b)
        if pa and pb and len(pa) == len(pb):
            for x, y in zip(pa, pb):
                r = self.order_of(f, x, y, mp)
                if r: return r
            return 0
        (sa, ka), (sb, kb) = self.key(self.sources(f, a, mp)), self.key(self.sources(f, b, mp))
        if sa == sb or ka != kb: raise Undecided('different keys compared')
        if any(p and p[-1] == '[0]' for p in ka) and any(p and p[-1] == '[1]' for p in ka): raise Undecided('several coordinates compared at once')
        r = self.rel(ka)
        return -r if sa == 'B' else r

    def comp(self, f, a, b, op, mp):
        r = self.order_of(f, a, b, mp)
        return {'<': r < 0, '>': r > 0, '<=': r <= 0, '>=': r >= 0, '==': r == 0, '!=': r != 0}[op]

    def run(self, f, mp, depth=0):
        if isinstance(mp, type(None)): mp = lambda x: {x}
        B = f.blocks()
        if not B: raise Undecided('no body')
        b = f.cfgd['entry']; env = {}; steps = 0
        while True:
            steps += 1
            if steps > 200: raise Undecided('loop')
            blk = B[b]
            for e in blk['e']:
                if not isinstance(e, int): continue
                n = f.nodes[e]
                if n['k'] == 'ReturnStmt': return self.ev(f, n['c'][0], mp, env)
                if n['k'] == 'CXXThrowExpr': raise Thrown()
                if n['k'] == 'DeclStmt':
                    for d in n.get('decls', ()):
                        if self.F.tname(self.F.decls[d['d']]['t']) in ('bool', 'const bool') and d.get('i', -1) >= 0: env[d['d']] = self.ev(f, d['i'], mp, env)
                if n['k'] == 'BinaryOperator' and n['op'] == '=':
                    l = f.nodes[n['c'][0]]
                    if l['k'] == 'DeclRefExpr' and self.F.tname(l['t']) == 'bool': env[l['d']] = self.ev(f, n['c'][1], mp, env)
            live = [s for s in blk['s'] if s >= 0]
            if len(live) == 1: b = live[0]; continue
            if not live: raise Thrown()
            c = blk.get('cond')
            if c is None or blk.get('tk') in ('SwitchStmt', 'CXXForRangeStmt'): raise Undecided('branch')
            b = blk['s'][0 if self.ev(f, c, mp, env) else 1]
            if b < 0: raise Undecided('dead branch')

    def strict_weak(self):
        """None, or the law that fails"""
        n = len(self.keys)
        pts = list(itertools.product((0, 1, 2), repeat=n))
        sg = lambda a, b: tuple((x > y) - (x < y) for x, y in zip(a, b))
        lt = {(a, b): self.tab[sg(a, b)] for a in pts for b in pts}
        for a in pts:
            if lt[a, a]: return 'an element is below itself (not irreflexive)'
        for a in pts:
            for b in pts:
                if lt[a, b] and lt[b, a]: return 'two elements are each below the other (not asymmetric)'
        eqv = lambda a, b: not lt[a, b] and not lt[b, a]
        for a in pts:
            for b in pts:
                for c in pts:
                    if lt[a, b] and lt[b, c] and not lt[a, c]: return 'not transitive'
                    if eqv(a, b) and eqv(b, c) and not eqv(a, c): return 'equivalence is not transitive'
        return None

    def is_lex(self, order):
        """order: [(predicate on key, +1/-1)]: the table is the lexicographic order of these keys"""
        idx = []
        for pred, sgn in order:
            m = [i for i, k in enumerate(self.keys) if pred(k)]
            if len(m) != 1: return False
            idx.append((m[0], sgn))
        if len(idx) != len(self.keys): return False
        for vals, r in self.tab.items():
            want = False
            for i, s in idx:
                if vals[i] * s < 0: want = True; break
                if vals[i] * s > 0: break
            if r != want: return False
        return True

def compare(F, f, A, B):
    c = Cmp.__new__(Cmp)
    c.ident = lambda f: (lambda x: {x})
    Cmp.__init__(c, F, f, A, B)
    return c
