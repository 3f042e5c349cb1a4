"""Value provenance: which input places (fields of *this, of parameters, globals)
the value of an expression, of a returned object (field by field) or of a written
place is computed from.  Flow-insensitive inside a function, field-sensitive,
interprocedural through summaries computed bottom-up to a fixpoint.

A value V is a dict  path -> frozenset(source places);  path () is the value as a
whole.  Source places have roots ('this',) ('p',i) [through a reference]
('v',i) [a by-value parameter] ('g',decl) ('cap',decl)."""
import collections
from core import *
from core import _vinfo, _declared_in

EMPTY = {}
def vmerge(a, b):
    if not a: return b
    if not b: return a
    out = dict(a)
    for k, s in b.items(): out[k] = out[k] | s if k in out else s
    return out

def vflat(v):
    s = frozenset()
    for x in v.values(): s |= x
    return s

def vsub(v, path):
    """value of the sub-object at path"""
    if not path: return v
    out = {}
    for k, s in v.items():
        if pprefix(path, k): out[k[len(path):]] = out.get(k[len(path):], frozenset()) | s
        elif pprefix(k, path):
            # coarser value: extend the sources by the remaining path when it is a plain object copy
            rest = path[len(k):]
            out[()] = out.get((), frozenset()) | frozenset(extend_src(x, rest) for x in s)
    return out

# A source may end with a tag: '~' combined by some operation, '~+' the result increases with it, '~-' it decreases with it
TAGS = ('~', '~+', '~-')
def tag(x): return x[-1] if x[-1] in TAGS else ''
def src(x): return x[:-1] if x[-1] in TAGS else x

def extend_src(x, rest):
    return x if x[-1] in TAGS else ext(x, *rest)

COMP = {'': {'': '', '~': '~', '~+': '~+', '~-': '~-'}, '~+': {'': '~+', '~': '~', '~+': '~+', '~-': '~-'}, '~-': {'': '~-', '~': '~', '~+': '~-', '~-': '~+'}, '~': {'': '~', '~': '~', '~+': '~', '~-': '~'}}
def retag(s, t):
    """apply an operation of direction t to all sources"""
    if t == '': return s
    out = []
    for x in s:
        k = COMP[t][tag(x)]
        out.append(src(x) + (k,) if k else x)
    return frozenset(out)

def opaque(s):
    """sources combined by an operation: a sub-field of the result is not the sub-field of the source"""
    return retag(s, '~')

def clean(s): return frozenset(src(x) for x in s)

def const_num(f, i):
    """value of a numeric constant expression made of literals, or None"""
    n = f.nodes[i]; ch = n.get('c', ())
    k = n['k']
    if k == 'IntegerLiteral': return float(n['v'])
    if k == 'FloatingLiteral':
        try: return float(n['v'])
        except ValueError: return None
    if k == 'UnaryOperator' and n['op'] in ('-', '+'):
        v = const_num(f, ch[0]); return None if v is None else (-v if n['op'] == '-' else v)
    if k == 'BinaryOperator' and n['op'] in '+-*/':
        a, b = const_num(f, ch[0]), const_num(f, ch[1])
        if a is None or b is None: return None
        try: return {'+': a + b, '-': a - b, '*': a * b}[n['op']] if n['op'] != '/' else a / b
        except ZeroDivisionError: return None
    if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'ParenExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'InitListExpr') and len(ch) == 1: return const_num(f, ch[0])
    return None

MONO = {'sqrt': '~+', 'cbrt': '~+', 'exp': '~+', 'log': '~+', 'asin': '~+', 'atan': '~+', 'acos': '~-', 'floor': '~+', 'ceil': '~+', 'round': '~+', 'trunc': '~+'}

PAIRF = ('first', 'second')

class Flow:
    def __init__(self, F):
        self.F = F
        self.ret = {f.id: EMPTY for f in F.fns}       # returned value
        self.out = {f.id: {} for f in F.fns}          # written place -> V
        self.env = {f.id: {} for f in F.fns}          # local decl -> V
        E = effects(F)
        order = self.bottom_up(E)
        work = collections.deque(order); inq = set(order); n = 0; cnt = collections.Counter()
        while work:
            fid = work.popleft(); inq.discard(fid); n += 1
            cnt[fid] += 1
            if cnt[fid] > 12: continue
            f = F.byid[fid]
            if self.analyse(f):
                for h in E.rcg.get(fid, ()):
                    if h not in inq: work.append(h); inq.add(h)
        self.rounds = n

    def bottom_up(self, E):
        seen = set(); out = []
        for f in self.F.fns:
            if f.id in seen: continue
            st = [(f.id, iter([g.id for g, _ in E.cg[f.id]]))]; seen.add(f.id)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter([g.id for g, _ in E.cg[y]]))); break
                else: out.append(x); st.pop()
        return out

    # ---- reading places
    def read(self, f, p):
        if p[0] == 'd':
            d = p[1]; path = p[2:]
            v = EMPTY
            if d in f.pidx: v = {(): frozenset([('v', f.pidx[d])])}
            v = vmerge(v, self.env[f.id].get(d, EMPTY))
            return vsub(v, path)
        if p[0] == 'tmp':
            if p[1] in self._busy: return EMPTY
            self._busy.add(p[1])
            v = self.val(f, p[1], rv=True)
            self._busy.discard(p[1])
            return vsub(v, p[2:])
        return {(): frozenset([p])}

    def reads(self, f, ps):
        v = EMPTY
        for p in ps: v = vmerge(v, self.read(f, p))
        return v

    def mapsrc(self, f, c, x):
        """source place x of the callee, in terms of the caller"""
        tg = tag(x)
        if tg: x = src(x)
        if x[0] == 'v':
            if isinstance(c, LamCall):
                v = self.reads(f, map_lam(f, c, ('p', x[1])))
                v = vsub(v, x[2:])
            elif x[1] < len(c.args): v = vsub(self.val(f, c.args[x[1]]), x[2:])
            else: v = EMPTY
        elif x[0] == 'g': v = {(): frozenset([x])}
        else: v = self.reads(f, mapc(f, c, x))
        return {(): retag(vflat(v), tg)} if tg else v

    def mapv(self, f, c, V):
        out = EMPTY
        for path, s in V.items():
            for x in s:
                for p2, s2 in self.mapsrc(f, c, x).items():
                    out = vmerge(out, {path + p2: s2})
        return out

    def flat(self, f, i): return {(): opaque(vflat(self.val(f, i)))}

    def arith(self, f, op, a, b):
        va, vb = vflat(self.val(f, a)), vflat(self.val(f, b))
        ta = tb = '~'
        if op == '+': ta = tb = '~+'
        elif op == '-': ta = '~+'; tb = '~-'
        elif op in ('*', '/'):
            ca, cb = const_num(f, a), const_num(f, b)
            if cb is not None and cb != 0: ta = '~+' if cb > 0 else '~-'
            elif ca is not None and ca != 0 and op == '*': tb = '~+' if ca > 0 else '~-'
            elif op == '/' and vb and all(src(x)[-2:] == ('_v', '[2]') for x in vb): ta = '~+'     # common divisor of a finite point: positive
            elif ca is None and cb is None:
                if not va and not vb: pass
        return vmerge({(): retag(va, ta)} if va else EMPTY, {(): retag(vb, tb)} if vb else EMPTY)

    # ---- values
    def val(self, f, i, rv=False):
        if i is None or i < 0: return EMPTY
        key = (i, rv)
        m = self._memo.get(key)
        if m is not None: return m
        self._memo[key] = EMPTY
        v = self._val(f, i, rv)
        self._memo[key] = v
        return v

    def _val(self, f, i, rv):
        F = self.F
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
        if k in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'CXXNullPtrLiteralExpr', 'LambdaExpr', 'UnaryExprOrTypeTraitExpr', 'CXXScalarValueInitExpr', 'ImplicitValueInitExpr'): return EMPTY
        if k in ('DeclRefExpr', 'MemberExpr') and not rv:
            if k == 'DeclRefExpr' and 'd' in n and F.decls[n['d']]['k'] == 'enum': return EMPTY
            if F.is_iter(n['t']) and not F.is_ref(n['t']):
                return vmerge(self.reads(f, lval(f, i)), EMPTY)
            return self.reads(f, lval(f, i))
        if k == 'CXXThisExpr': return {(): frozenset([THIS])}
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['op']
            if op == ',' or op == '=': return self.val(f, ch[1])
            return self.arith(f, op.rstrip('=') if k == 'CompoundAssignOperator' else op, ch[0], ch[1])
        if k == 'UnaryOperator':
            if n['op'] == '*': return self.reads(f, ptr(f, ch[0]))
            if n['op'] == '&': return self.val(f, ch[0])
            if n['op'] == '-': return {(): retag(vflat(self.val(f, ch[0])), '~-')}
            return self.flat(f, ch[0]) if n['op'] in ('!', '~') else self.val(f, ch[0])
        if k == 'ConditionalOperator': return vmerge(self.val(f, ch[1]), self.val(f, ch[2]))
        c = call_of(f, i)
        if c is not None: return self.callval(f, i, c)
        if k == 'InitListExpr':
            rt = F.t(n['t'])
            rec = F.recs.get(rt.get('r')) if rt.get('r') else None
            v = EMPTY
            for x in ch: v = vmerge(v, self.val(f, x))
            return v
        v = EMPTY
        for x in ch:
            if x >= 0: v = vmerge(v, self.val(f, x))
        return v

    def callval(self, f, i, c):
        F = self.F
        n = f.nodes[i]; h = c.head
        g = F.byid.get(c.callee)
        if c.kind == 'ctor':
            if g is not None:
                v = EMPTY
                for p, V in self.out[g.id].items():
                    if p[0] == 'this':
                        for path, s in self.mapv(f, c, V).items(): v = vmerge(v, {p[1:] + path: s})
                return v
            if h is not None and h.get('ctor') in ('copy', 'move') and c.args: return self.val(f, c.args[0])
            rq = F.recq(n['t']) or ''
            if rq == 'std::pair' and len(c.args) == 2:
                v = EMPTY
                for a, nm in zip(c.args, PAIRF):
                    for path, s in self.val(f, a).items(): v = vmerge(v, {(nm,) + path: s})
                return v
            v = EMPTY
            args = list(c.args)
            if rq in ('std::vector', 'std::list', 'std::deque') and args and F.t(F.strip(f.nodes[args[0]]['t']))['k'] == 'int':
                # size (, fill value): the size is not element data
                if len(args) > 1:
                    for path, s in self.val(f, args[1]).items(): v = vmerge(v, {('[]',) + path: s})
                return v
            for a in args:
                if F.is_iter(f.nodes[a]['t']) and not F.is_iter(n['t']):
                    for path, s in self.reads(f, ptr(f, a)).items(): v = vmerge(v, {('[]',) + path: s})
                else: v = vmerge(v, self.val(f, a))
            return v
        if g is not None:
            return self.mapv(f, c, self.ret[g.id])
        if h is not None and h.get('inhdr'):
            # defaulted special members
            v = EMPTY
            for a in c.args: v = vmerge(v, self.val(f, a))
            return v
        # library call
        nm = c.name
        if nm in ('move', 'forward', 'as_const', 'move_if_noexcept', 'ref', 'cref') and c.args: return self.val(f, c.args[0])
        if nm == 'make_pair' and len(c.args) == 2:
            v = EMPTY
            for a, x in zip(c.args, PAIRF):
                for path, s in self.val(f, a).items(): v = vmerge(v, {(x,) + path: s})
            return v
        if nm in ('minmax_element', 'equal_range', 'mismatch') and c.args:
            v = EMPTY
            for path, s in self.reads(f, ptr(f, c.args[0])).items():
                for x in PAIRF: v = vmerge(v, {(x, '*') + path: s})
            return v
        if n.get('lv'):
            ps = lval(f, i)
            ps = [p for p in ps if not (p[0] == 'tmp' and p[1] == i)]
            if ps: return self.reads(f, ps)
        if nm in ('min', 'max', 'get', 'clamp') :
            v = EMPTY
            for a in c.args: v = vmerge(v, self.val(f, a))
            return v
        if F.is_iter(n['t']) and not F.t(n['t'])['k'] == 'ptr':
            return self.reads(f, ptr(f, i))
        if nm in MONO and len(c.args) == 1:
            return {(): retag(vflat(self.val(f, c.args[0])), MONO[nm])}
        v = EMPTY
        if c.obj is not None and c.kind != 'indirect': v = vmerge(v, self.flat(f, c.obj))
        for a in c.args:
            if F.is_iter(f.nodes[a]['t']): v = vmerge(v, {(): opaque(vflat(self.reads(f, ptr(f, a))))})
            else: v = vmerge(v, self.flat(f, a))
        for l in lambda_args(f, c):
            v = vmerge(v, self.mapv(f, LamCall(c), self.ret[l.id]))
        return v

    # ---- stores
    def store(self, f, p, V):
        if not V and p[0] != 'this' and p[0] != 'p': return
        if p[0] == 'd':
            e = self.env[f.id]; d = p[1]
            cur = e.get(d, EMPTY)
            new = vmerge(cur, {p[2:] + path: s for path, s in V.items()})
            if new != cur: e[d] = new; self._ch = True
        elif p[0] in ('this', 'p', 'g', 'cap'):
            o = self.out[f.id]
            cur = o.get(p)
            new = vmerge(cur or {}, V) if cur is not None else dict(V)
            if new != cur: o[p] = new; self._ch = True

    def analyse(self, f):
        F = self.F
        old = (self.ret[f.id], dict(self.out[f.id]))
        live = sorted(live_nodes(f))
        rets = [n['i'] for n in f.nodes if n['k'] == 'ReturnStmt' and n.get('c') and n['c'][0] >= 0]
        for it in range(8):
            self._ch = False; self._memo = {}; self._busy = set()
            for x in f.inits:
                if x.get('e', -1) is None or x.get('e', -1) < 0: continue
                if 'f' in x:
                    self.store(f, ext(THIS, x['f']), self.val(f, x['e']))
                elif 'base' in x or x.get('deleg'):
                    for path, s in self.val(f, x['e']).items():
                        if path: self.store(f, ext(THIS, *path), {(): s})
                        elif vflat({(): s}): self.store(f, THIS, {(): s})
            for i in live:
                n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
                if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    V = self.val(f, ch[1])
                    if n['op'] != '=': V = self.arith(f, n['op'].rstrip('='), ch[0], ch[1])
                    for p in lval(f, ch[0]): self.store(f, p, V)
                elif k == 'DeclStmt':
                    for d in n.get('decls', ()):
                        if d.get('i', -1) >= 0 and not F.is_ref(F.decls[d['d']]['t']):
                            self.store(f, ('d', d['d']), self.val(f, d['i']))
                elif k in CALLK:
                    c = call_of(f, i)
                    if c is None: continue
                    for g, cc in callees_of(f, c):
                        if cc.kind == 'ctor': 
                            items = [(p, V) for p, V in self.out[g.id].items() if p[0] != 'this']
                        else: items = list(self.out[g.id].items())
                        for p, V in items:
                            qs = mapc(f, cc, p)
                            if not qs: continue
                            MV = self.mapv(f, cc, V)
                            for q in qs: self.store(f, q, MV)
                    if F.byid.get(c.callee) is None: self.libstore(f, i, c)
            for r in rets:
                pass
            R = EMPTY
            for r in rets:
                if r in live_nodes(f): R = vmerge(R, self.val(f, f.nodes[r]['c'][0]))
            if R != self.ret[f.id]: self.ret[f.id] = R
            if not self._ch: break
        return (self.ret[f.id], self.out[f.id]) != old

    def libstore(self, f, i, c):
        F = self.F; h = c.head
        if h is None or c.kind == 'ctor': return
        nm = c.name
        if c.obj is not None and c.kind in ('mem', 'op'):
            tgt = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
            if nm == 'operator=' and c.args:
                for p in tgt: self.store(f, p, self.val(f, c.args[0]))
                return
            if F.is_iter(f.nodes[c.obj]['t']): return
            if h.get('inhdr') and not h.get('assign'): return
            if not h.get('const') and nm in STD_CONSTLIKE_MUT:
                V = EMPTY
                for a in c.args:
                    if F.is_iter(f.nodes[a]['t']): V = vmerge(V, self.reads(f, ptr(f, a)))
                    else: V = vmerge(V, self.val(f, a))
                if nm == 'swap' and c.args:
                    V2 = self.reads(f, tgt)
                    for p in tgt: self.store(f, p, self.val(f, c.args[0]))
                    for p in lval(f, c.args[0]): self.store(f, p, V2)
                    return
                if nm in ('resize', 'reserve', 'clear', 'pop_back', 'erase'): return
                for p in tgt: self.store(f, ext(p, '[]'), V)
            return
        if nm == 'swap' and len(c.args) == 2:
            a, b = self.val(f, c.args[0]), self.val(f, c.args[1])
            for p in lval(f, c.args[0]): self.store(f, p, b)
            for p in lval(f, c.args[1]): self.store(f, p, a)
            return
        if nm in STD_ALGO_WRITE:
            V = EMPTY
            for a in c.args:
                if F.is_iter(f.nodes[a]['t']): V = vmerge(V, self.reads(f, ptr(f, a)))
                else: V = vmerge(V, self.val(f, a))
            for l in lambda_args(f, c): V = vmerge(V, self.mapv(f, LamCall(c), self.ret[l.id]))
            for ix in STD_ALGO_WRITE[nm]:
                if ix < len(c.args):
                    a = c.args[ix]
                    ps = ptr(f, a) if (F.is_iter(f.nodes[a]['t']) or 'back_insert' in F.tname(f.nodes[a]['t'])) else lval(f, a)
                    for p in ps: self.store(f, p, V)

def flow(F):
    if getattr(F, '_flow', None) is None: F._flow = Flow(F)
    return F._flow
