"""Implied facts: what a function's boolean result, or the mere fact that it
returns, implies about its inputs.  Forward must-analysis over the CFG,
interprocedural through summaries (greatest fixpoint).

Facts
 ('EQ', srcs, thr)   the inputs `srcs` were compared and found equal (difference below a threshold read from `thr`)
 ('NE', srcs, thr)   ... found different (difference/size above the threshold)
 ('MIN'|'MAX'|'NOT', srcs, k) ('FLT'|'FLE'|'FGT'|'FGE', srcs, c)   bounds on an integer computed from srcs / on the real value srcs itself
 ('LT', l, r) ('LE', l, r)   values computed from l are (strictly) below values computed from r
 ('DONE', srcs)       a loop over (or an algorithm on) the elements of srcs ran to its end
 ('DIFF',)           some comparison told inputs apart
 ('IS', q, srcs, truth)  the predicate q (a header function) on objects `srcs` returned truth
None stands for "all facts" (unreachable)."""
import collections
from core import *
from core import _vinfo
import flow
from flow import clean

def meet(a, b):
    """facts holding in both states; ('IF', d, t, x): x holds if the local boolean d is t ('ALL': d is not t)"""
    if a is None: return b
    if b is None: return a
    fa = [x for x in a if x[0] == 'IF']; fb = [x for x in b if x[0] == 'IF']
    if not fa and not fb: return a & b
    out = set(a & b)
    for A, B, FB in ((a, b, fb), (b, a, fa)):
        alls = [(x[1], x[2]) for x in FB if x[3] == 'ALL']
        for x in A:
            if x[0] == 'IF':
                if ('IF', x[1], x[2], 'ALL') in B or x[3] in B: out.add(x)
            else:
                for d, t in alls: out.add(('IF', d, t, x))
    return frozenset(out)

def drop(st, d):
    return frozenset(x for x in st if x[0] != 'IF' or x[1] != d) if any(x[0] == 'IF' and x[1] == d for x in st) else st

def union(a, b):
    if a is None or b is None: return None
    return a | b

ABSF = {'fabs', 'abs', 'sqrt', 'hypot', 'acos', 'acosl', 'acosf', 'exp', 'size', 'fabsl', 'fabsf'}
E0 = frozenset()

class Imply:
    def __init__(self, F, local=None):
        """local(f, i): extra facts generated by node i"""
        self.F = F; self.fl = flow.flow(F)
        self.T = {f.id: None for f in F.fns}; self.Fa = {f.id: None for f in F.fns}; self.N = {f.id: None for f in F.fns}
        self._nn = {}
        E = effects(F)
        order = self.fl.bottom_up(E)
        self.at = {}
        work = collections.deque(order); inq = set(order); cnt = collections.Counter()
        while work:
            fid = work.popleft(); inq.discard(fid); cnt[fid] += 1
            if cnt[fid] > 10: continue
            if self.analyse(F.byid[fid]):
                for h in E.rcg.get(fid, ()):
                    if h not in inq: work.append(h); inq.add(h)

    # ---- values
    def srcs(self, f, i):
        k = (f.id, i)
        fl = self.fl
        if getattr(fl, '_cur', None) != f.id: fl._cur = f.id; fl._memo = {}; fl._busy = set()
        v = fl.val(f, i)
        out = set()
        for path, s in v.items():
            for x in s: out.add(flow.src(x))
        return frozenset(out)

    def rooted(self, s): return frozenset(x for x in s if x[0] in ('this', 'p', 'v', 'cap'))
    def thrs(self, s): return frozenset(x[1] for x in s if x[0] == 'g')

    def nonneg(self, f, i, depth=0):
        """value of the expression can't be negative, or its sign does not matter"""
        if depth > 12: return False
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ()); F = self.F
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'): return self.nonneg(f, ch[0], depth + 1)
        if k in ('IntegerLiteral', 'FloatingLiteral'): return True
        if F.t(F.strip(n['t']))['s'] in ('unsigned long', 'unsigned int', 'bool', 'unsigned char'): return True
        if k == 'BinaryOperator':
            if n['op'] in ('+', '/', '*') and all(self.nonneg(f, x, depth + 1) for x in ch[:2]): return True
            return False
        if k == 'ConditionalOperator': return all(self.nonneg(f, x, depth + 1) for x in ch[1:3])
        if k == 'DeclRefExpr' and 'd' in n:
            vi, _ = _vinfo(f)
            es = vi.get(n['d'], ())
            return bool(es) and n['d'] not in f.pidx and all(self.nonneg(f, e, depth + 1) for e in es)
        c = call_of(f, i)
        if c is not None:
            if c.name in ABSF and not (c.head or {}).get('inhdr'): return True
            g = F.byid.get(c.callee)
            if g is not None:
                key = g.id
                if key in self._nn: return self._nn[key]
                self._nn[key] = False
                rs = [x['c'][0] for x in g.nodes if x['k'] == 'ReturnStmt' and x.get('c') and x['c'][0] >= 0 and x['i'] in live_nodes(g)]
                self._nn[key] = bool(rs) and all(self.nonneg(g, r, depth + 1) for r in rs)
                return self._nn[key]
            if c.name in ('min', 'max') and c.args and c.kind == 'free':
                r = [self.nonneg(f, a, depth + 1) for a in c.args]
                return all(r) if c.name == 'min' else any(r)
        return False

    # ---- boolean expressions
    def imp(self, f, i, truth, st=None):
        n = f.nodes[i]; k = n['k']; ch = n.get('c', ()); F = self.F
        ty = F.t(F.strip(n['t'])) if n.get('t') is not None else None
        if ty and ty['k'] == 'int' and ty['s'] != 'bool':
            s = self.rooted(self.srcs(f, i))
            uns = 'unsigned' in ty['s']
            if not s: return E0
            return frozenset([('MIN', s, 1) if uns else ('NOT', s, 0), ('NE', s, E0), ('DIFF',)] if truth else [('MAX', s, 0), ('MIN', s, 0), ('EQ', s, E0)])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr') and len(ch) == 1: return self.imp(f, ch[0], truth, st)
        if k == 'CXXBoolLiteralExpr': return E0 if bool(int(n['v']) if str(n['v']).isdigit() else n['v'] in (True, 'true')) == truth else None
        if k == 'UnaryOperator' and n['op'] == '!': return self.imp(f, ch[0], not truth, st)
        if k == 'ConditionalOperator':
            return meet(union(self.imp(f, ch[0], True, st), self.imp(f, ch[1], truth, st)), union(self.imp(f, ch[0], False, st), self.imp(f, ch[2], truth, st)))
        if k == 'BinaryOperator':
            op = n['op']
            if op == '&&' or op == '&': return union(self.imp(f, ch[0], True, st), self.imp(f, ch[1], True, st)) if truth else meet(self.imp(f, ch[0], False, st), self.imp(f, ch[1], False, st))
            if op == '||' or op == '|': return meet(self.imp(f, ch[0], True, st), self.imp(f, ch[1], True, st)) if truth else union(self.imp(f, ch[0], False, st), self.imp(f, ch[1], False, st))
            if op == '^' or op in ('==', '!=') and F.t(F.strip(f.nodes[ch[0]]['t']))['s'] == 'bool':
                for a, b in ((0, 1), (1, 0)):
                    k = flow.const_num(f, ch[b])
                    if op != '^' and k is not None: return self.imp(f, ch[a], truth == ((op == '==') == bool(k)), st)
                return frozenset([('DIFF',)]) | self.cmp(f, ch[0], ch[1], op, truth) if op != '^' else E0
            if op in ('==', '!=', '<', '>', '<=', '>='): return self.cmp(f, ch[0], ch[1], op, truth)
            if op == ',': return self.imp(f, ch[1], truth, st)
            return E0
        if k == 'DeclRefExpr' and 'd' in n:
            vi, _ = _vinfo(f)
            es = vi.get(n['d'], ())
            if st is not None and n['d'] not in f.pidx:
                r = [x[3] for x in st if x[0] == 'IF' and x[1] == n['d'] and x[2] == truth]
                if 'ALL' in r: return None
                if r: return frozenset(r)
                if len(es) > 1: return E0
            if n['d'] not in f.pidx and es:
                out = None
                for e in es: out = meet(out, self.imp(f, e, truth, st))
                return out
            s = self.rooted(self.srcs(f, i))
            return frozenset([('IS', '', s, truth)]) if s else E0
        if k == 'MemberExpr':
            s = self.rooted(self.srcs(f, i))
            return frozenset([('IS', '', s, truth)]) if s else E0
        c = call_of(f, i)
        if c is not None: return self.callimp(f, i, c, truth)
        return E0

    def callimp(self, f, i, c, truth):
        F = self.F
        g = F.byid.get(c.callee)
        if g is not None:
            s = (self.T if truth else self.Fa)[g.id]
            if s is None and F.t(F.strip(g.ret))['s'] != 'bool': s = E0
            if s is not None:
                s = self.mapfacts(f, c, s)
            objs = set()
            if c.obj is not None: objs |= set(self.rooted(self.srcs(f, c.obj)))
            for a in c.args: objs |= set(self.rooted(self.srcs(f, a)))
            ex = frozenset([('IS', g.q, frozenset(objs), truth)])
            if s is None:
                s = self.N[g.id]
                return None
            return s | ex
        h = c.head
        if h is None: return E0
        nm = c.name
        if c.kind == 'op' and nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a = ([c.obj] if c.obj is not None else []) + list(c.args)
            if len(a) == 2: return self.cmp(f, a[0], a[1], nm[8:], truth, lib=True)
        if nm == 'equal' and len(c.args) >= 3:
            s = frozenset()
            for a in c.args:
                if F.is_iter(f.nodes[a]['t']): s |= frozenset(flow.src(x) for x in flow.vflat(self.fl.reads(f, ptr(f, a))))
            return frozenset([('EQ', self.rooted(s), self.thrs(s))]) if truth else frozenset([('NE', self.rooted(s), self.thrs(s)), ('DIFF',)])
        if nm in ('all_of', 'none_of', 'any_of'):
            for l in lambda_args(f, c):
                w = {'all_of': (True, True), 'none_of': (True, False), 'any_of': (False, False)}[nm]
                if truth == w[0]:
                    s = (self.T if w[1] else self.Fa)[l.id]
                    it = set()
                    for a in c.args:
                        if F.is_iter(f.nodes[a]['t']) or F.t(F.strip(f.nodes[a]['t']))['k'] == 'ptr': it |= {flow.src(x) for x in flow.vflat(self.fl.reads(f, ptr(f, a)))}
                    return None if s is None else self.mapfacts(f, LamCall(c), s) | frozenset([('DONE', self.rooted(it))])
                return frozenset([('DIFF',)])
        if nm == 'empty' and c.obj is not None:
            s = self.srcs(f, c.obj)
            return frozenset([('EQ' if truth else 'NE', self.rooted(s), E0), ('MAX', self.rooted(s), 0) if truth else ('MIN', self.rooted(s), 1)])
        if nm in ('isnan', 'isfinite', 'isinf', 'signbit'):
            s = self.rooted(self.srcs(f, c.args[0]))
            return frozenset([('IS', nm, s, truth)])
        return E0

    def cmp(self, f, a, b, op, truth, lib=False):
        if not truth: op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
        if op in ('>', '>='): a, b = b, a; op = {'>': '<', '>=': '<='}[op]
        sa, sb = self.srcs(f, a), self.srcs(f, b)
        ra, rb = self.rooted(sa), self.rooted(sb)
        t = self.thrs(sa | sb)
        both = ra | rb
        if lib:
            F = self.F
            rq = F.recq(f.nodes[a]['t']) or ''
            if rq.startswith('std::') and 'iterator' not in rq: both = both | frozenset(ext(x, '[]') for x in both)
        ka, kb = flow.const_num(f, a), flow.const_num(f, b)
        rng = set(); flt = E0
        if both and (ka is None) != (kb is None) and not t:
            isint = all(self.F.t(self.F.strip(f.nodes[x]['t']))['k'] in ('int', 'bool', 'enum') for x in (a, b))
            k = ka if ka is not None else kb
            if isint:
                uns = 'unsigned' in self.F.tname(self.F.strip(f.nodes[a]['t'])) or 'unsigned' in self.F.tname(self.F.strip(f.nodes[b]['t']))
                if op == '!=' and k == 0 and uns: rng.add(('MIN', both, 1))
                elif op == '!=': rng.add(('NOT', both, int(k)))
                elif op == '==': rng.add(('MIN', both, int(k))); rng.add(('MAX', both, int(k)))
                elif kb is not None: rng.add(('MAX', both, int(k) - 1 if op == '<' else int(k)))
                else: rng.add(('MIN', both, int(k) + 1 if op == '<' else int(k)))
            elif op != '!=':
                d = self.copyof(f, a if kb is not None else b)
                if d is not None:
                    k = float(k)
                    o = {'==': ('FGE', 'FLE')}.get(op) or (('FLT' if op == '<' else 'FLE') if kb is not None else ('FGT' if op == '<' else 'FGE'),)
                    flt = frozenset((x, frozenset([d]), k) for x in o)
        if rng: return frozenset(rng) | frozenset([('EQ' if op == '==' else 'NE', both, t)] if op in ('==', '!=') else []) | (frozenset([('DIFF',)]) if op != '==' else E0)
        if op == '==': return frozenset([('EQ', both, t)]) | flt
        if op == '!=': return frozenset([('NE', both, t), ('DIFF',)])
        # a < b or a <= b
        out = set()
        if ra and rb:
            out.add(('LT' if op == '<' else 'LE', ra, rb))
            if op == '<': out.add(('DIFF',))
        elif ra and not rb:
            if self.nonneg(f, a): out.add(('EQ', ra, t))          # magnitude below a threshold
            else: out.add(('BELOW', ra, t))
        elif rb and not ra:
            out.add(('NE', rb, t)); out.add(('DIFF',))
        return frozenset(out) | flt

    def copyof(self, f, i):
        """the one input place whose value the expression is, unmodified"""
        self.srcs(f, i)
        s = flow.vflat(self.fl.val(f, i))
        if len(s) != 1: return None
        x = next(iter(s))
        return x if flow.tag(x) == '' and x[0] in ('this', 'p', 'v', 'cap') else None

    # ---- mapping facts of a callee
    def mapset(self, f, c, s):
        out = set()
        fl = self.fl
        if getattr(fl, '_cur', None) != f.id: fl._cur = f.id; fl._memo = {}; fl._busy = set()
        for x in s:
            for y in flow.vflat(fl.mapsrc(f, c, x)): out.add(flow.src(y))
        return self.rooted(out)

    def mapfacts(self, f, c, s):
        out = set()
        for x in s:
            if x[0] in ('EQ', 'NE', 'BELOW'): out.add((x[0], self.mapset(f, c, x[1]), x[2]))
            elif x[0] == 'DONE': out.add((x[0], self.mapset(f, c, x[1])))
            elif x[0] in ('LT', 'LE'): out.add((x[0], self.mapset(f, c, x[1]), self.mapset(f, c, x[2])))
            elif x[0] in ('MIN', 'MAX', 'NOT', 'FLT', 'FLE', 'FGT', 'FGE'): out.add((x[0], self.mapset(f, c, x[1]), x[2]))
            elif x[0] == 'IS': out.add((x[0], x[1], self.mapset(f, c, x[2]), x[3]))
            else: out.add(x)
        return frozenset(out)

    # ---- function
    def elemental(self, x):
        return any('[]' in y for s in x[1:] if isinstance(s, frozenset) for y in s if isinstance(y, tuple))

    def transfer(self, f, st, e):
        if not isinstance(e, int) or st is None: return st
        n = f.nodes[e]
        if n['k'] == 'DeclStmt':
            for d in n.get('decls', ()):
                if d.get('i', -1) >= 0 and self.F.tname(self.F.decls[d['d']]['t']) in ('bool', 'const bool'): st = self.setbool(f, st, d['d'], d['i'])
        elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'] in ('=', '&=', '|='):
            l = f.nodes[n['c'][0]]
            if l['k'] == 'DeclRefExpr' and 'd' in l and l['d'] not in f.pidx and self.F.tname(self.F.decls[l['d']]['t']) == 'bool':
                st = self.setbool(f, st, l['d'], n['c'][1], n['op'])
        if n['k'] in CALLK:
            c = call_of(f, e)
            if c is not None:
                for g, cc in callees_of(f, c):
                    if isinstance(cc, LamCall): continue
                    N = self.N[g.id]
                    if N is None: return None if g.cfgd and not self.F.is_ref(g.ret) else st
                    if N: st = st | self.mapfacts(f, cc, N)
        return st

    def setbool(self, f, st, d, e, op='='):
        new = []
        for t in (True, False):
            r = self.imp(f, e, t, st)
            if op != '=':
                old = [x[3] for x in st if x[0] == 'IF' and x[1] == d and x[2] == t]
                o = None if 'ALL' in old else frozenset(old)
                r = union(r, o) if (op == '&=') == t else meet(r, o)
            if r is None: new.append(('IF', d, t, 'ALL'))
            else: new += [('IF', d, t, x) for x in r if x[0] != 'IF']
        return drop(st, d) | frozenset(new)

    def cond(self, f, blk):
        """the condition this block branches on: the last operand of a short-circuit condition"""
        c = blk.get('cond')
        if c is None or c < 0: return c
        i = c
        while True:
            n = f.nodes[i]
            if n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and n.get('c'): i = n['c'][0]
            elif n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and f.elpos().get(i) is None: c = i = n['c'][1]
            else: return c

    def refine(self, f, st, blk, si):
        c = self.cond(f, blk)
        if st is None: return None
        if c is None or c < 0 or len(blk['s']) < 2 or blk.get('tk') == 'SwitchStmt': return st
        d = self.done(f, blk, si)
        if d: st = st | frozenset([('DONE', d)])
        if blk.get('tk') == 'CXXForRangeStmt': return st
        r = union(st, self.imp(f, c, si == 0, st))
        if r is None: return None
        i = c; truth = si == 0
        while True:
            n = f.nodes[i]
            if n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): i = n['c'][0]
            elif n['k'] == 'UnaryOperator' and n['op'] == '!': i = n['c'][0]; truth = not truth
            else: break
        if n['k'] == 'DeclRefExpr' and 'd' in n and n['d'] not in f.pidx and self.F.tname(self.F.decls[n['d']]['t']) == 'bool': r = r | frozenset([('IF', n['d'], not truth, 'ALL')])
        return r

    def loops(self, f):
        """header -> blocks of its natural loop"""
        LL = self.__dict__.setdefault('_loops', {})
        if f.id not in LL:
            LL[f.id] = {}; dom = f.doms(); pr = f.preds()
            for b in f.rpo():
                for p in pr.get(b, ()):
                    if p not in dom or b not in dom[p]: continue
                    L = LL[f.id].setdefault(b, {b}); st = [p]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st.extend(y for y in pr.get(x, ()) if y in dom)
        return LL[f.id]

    def done(self, f, blk, si):
        """this edge leaves a loop because its index/iterator reached the end: what was iterated on"""
        b = blk['id'] if 'id' in blk else next(k for k, v in f.blocks().items() if v is blk)
        k = (f.id, b, si); D = self.__dict__.setdefault('_done', {})
        if k in D: return D[k]
        D[k] = None
        t = blk['s'][si]
        if not any(b in L and t not in L for L in self.loops(f).values()): return None
        i = self.cond(f, blk); F = self.F
        while f.nodes[i]['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): i = f.nodes[i]['c'][0]
        n = f.nodes[i]
        if n['k'] == 'BinaryOperator': op, a = n['op'], n['c'][:2]
        else:
            c = call_of(f, i)
            if c is None or c.kind != 'op': return None
            op = c.name[8:]; a = ([c.obj] if c.obj is not None else []) + list(c.args)
        if op not in (('<', '!=', '>') if si else ('==', '>=', '<=')) or len(a) != 2: return None
        if not all(F.t(F.strip(f.nodes[x]['t']))['k'] in ('int', 'ptr') or F.is_iter(f.nodes[x]['t']) for x in a): return None
        s = set()
        if flow.const_num(f, a[1]) is not None:      # constant bound: whatever is indexed in the loop
            j = a[0]
            while f.nodes[j]['k'] == 'ImplicitCastExpr': j = f.nodes[j]['c'][0]
            d = f.nodes[j].get('d'); L = next(L for L in self.loops(f).values() if b in L and t not in L)
            for x in live_nodes(f):
                y = f.nodes[x]
                if d is None or not (y['k'] == 'ArraySubscriptExpr' or y['k'] == 'CXXOperatorCallExpr' and y.get('op') == '[]' or y['k'] == 'CXXMemberCallExpr' and call_of(f, x) is not None and call_of(f, x).name == 'at'): continue
                if any(bb in L for bb, _ in f.elpos().get(x) or ()) and any(f.nodes[z].get('d') == d for z in f.sub(x)): s |= self.srcs(f, x)
        for x in a:
            if F.t(F.strip(f.nodes[x]['t']))['k'] == 'int': s |= self.srcs(f, x)
            else: s |= {flow.src(y) for y in flow.vflat(self.fl.reads(f, ptr(f, x)))}
        D[k] = self.rooted(s) or None
        return D[k]

    def runs(self, f, blk):
        """the loop is known to have run at least once: it iterates on a fixed-size array, or up to a constant"""
        i = self.cond(f, blk); F = self.F
        while f.nodes[i]['k'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): i = f.nodes[i]['c'][0]
        n = f.nodes[i]
        if n['k'] != 'BinaryOperator': return False
        if blk.get('tk') == 'CXXForRangeStmt': return all(F.t(F.strip(f.nodes[x]['t']))['k'] == 'ptr' for x in n['c'][:2])
        k = flow.const_num(f, n['c'][1])
        return k is not None and k > 0

    def analyse(self, f):
        old = (self.T[f.id], self.Fa[f.id], self.N[f.id])
        B = f.blocks()
        if not B:
            self.T[f.id] = self.Fa[f.id] = self.N[f.id] = E0
            return old != (E0, E0, E0)
        init = E0
        for x in f.inits:
            e = x.get('e', -1)
            if e is not None and e >= 0:
                for y in f.sub(e):
                    init = self.transfer(f, init, y) if f.nodes[y]['k'] in CALLK else init
                    if init is None: init = E0
        rpo = f.rpo(); idx = {b: k for k, b in enumerate(rpo)}; dom = f.doms(); pr = f.preds()
        ins = {b: None for b in rpo}; outs = {b: None for b in rpo}
        ent = f.cfgd['entry']
        keeps = {}
        for rnd in range(4):
            prev = keeps; keeps = {}
            ins = {b: None for b in rpo}; outs = {b: None for b in rpo}
            for it in range(30):
                ch = False
                for b in rpo:
                    if b == ent: st = init
                    else:
                        ed = []
                        for p in pr.get(b, ()):
                            if p not in idx: continue
                            for k, s in enumerate(B[p]['s']):
                                if s == b:
                                    o = self.refine(f, outs[p], B[p], k)
                                    if o is not None and prev and self.done(f, B[p], k):
                                        # every iteration ran: what each one established holds for all the elements
                                        for h in prev:
                                            L = self.loops(f)[h]
                                            if p in L and b not in L:
                                                if self.runs(f, B[p]): o = o | prev[h]
                                                else: o = o | frozenset(x for x in prev[h] if self.elemental(x) or x[0] == 'IF' and x[3] != 'ALL' and self.elemental(x[3]))
                                    if o is not None: ed.append((b in dom[p], o))
                        st = None
                        back = [o for bk, o in ed if bk]
                        for bk, o in ed: st = o if st is None else meet(st, o)
                        if back and st is not None:
                            keep = None
                            for o in back: keep = o if keep is None else meet(keep, o)
                            keeps[b] = keep
                    o = st
                    for e in B[b]['e']: o = self.transfer(f, o, e)
                    if st != ins[b] or o != outs[b]: ins[b] = st; outs[b] = o; ch = True
                if not ch: break
            if keeps == prev or not keeps: break
        self.at[f.id] = (ins, outs)
        T = Fa = N = None
        isbool = self.F.t(self.F.strip(f.ret))['s'] == 'bool'
        for b in pr.get(f.cfgd['exit'], ()):
            if b not in idx or f.is_throw_block(B[b]) or B[b].get('nr'): continue
            o = outs[b]
            if o is None: continue
            k = B[b]['s'].index(f.cfgd['exit'])
            o = self.refine(f, o, B[b], k)
            if o is None: continue
            N = o if N is None else meet(N, o)
            if isbool:
                for e in B[b]['e']:
                    if isinstance(e, int) and f.nodes[e]['k'] == 'ReturnStmt' and f.nodes[e].get('c'):
                        r = f.nodes[e]['c'][0]
                        T = meet(T, union(o, self.imp(f, r, True, o))); Fa = meet(Fa, union(o, self.imp(f, r, False, o)))
        noif = lambda s: s if s is None else frozenset(x for x in s if x[0] != 'IF')
        T, Fa, N = noif(T), noif(Fa), noif(N)
        self.T[f.id], self.Fa[f.id], self.N[f.id] = T, Fa, N
        return old != (T, Fa, N)

    def state_before(self, f, i):
        """facts holding just before node i is evaluated (None: unreachable)"""
        ins, outs = self.at.get(f.id, ({}, {}))
        pos = f.elpos().get(i)
        if not pos: return E0
        res = None
        for b, k in pos:
            st = ins.get(b)
            for e in f.blocks()[b]['e'][:k]: st = self.transfer(f, st, e)
            res = meet(res, st) if st is not None else res
        return res

def imply(F):
    if getattr(F, '_imply', None) is None: F._imply = Imply(F)
    return F._imply
