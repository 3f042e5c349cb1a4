"""definite initialisation"""
import collections, re
import axis
from core import *
from util import *
RULE = ('Definite assignment: over the CFG of every function, the set of scalar leaves (members, array entries, locals) that are certainly assigned is propagated (intersection at joins; loops over a constant '
        'range that covers an array count as assigning all of it), with interprocedural summaries (what a function certainly assigns, what it reads before assigning). A constructor must leave every member '
        'assigned on every path that returns; no local variable, and no member during construction, is read, copied or returned before it is assigned.')
ASSUMPTIONS = ['members of a lazily computed attribute (a value and its "valid" flag, the stored ellipse parameters and transposed inverse) may stay unset while the flag says so: that they are not read then is property P01, P02, P03',
               'external functions that take a non-const reference or an output iterator assign what they are given']
# class -> members that hold a value only while a flag of the object says so
LAZY = {'h2d::priv::ValueFlag': {'_value'}, 'h2d::Ellipse_': {'_par'}, 'h2d::Hmatrix_': {'_hmt'}}
FULL = '*all'

def extent(F, t):
    x = F.t(F.strip(t))
    m = re.search(r', (\d+)(?:UL)?>$', x['s']) if x.get('q') == 'std::array' else re.search(r'\[(\d+)\]$', x['s']) if x['k'] == 'arr' else None
    return int(m.group(1)) if m else None
class Init:
    def __init__(self, F):
        self.F = F; self.lv = {}; self.must = {}; self.exp = {}; self.msg = {}
        fl = effects(F)
        import flow
        w = flow.Flow.__new__(flow.Flow); w.F = F
        self.order = list(w.bottom_up(fl))
        for fid in self.order: self.must[fid] = None; self.exp[fid] = frozenset()
        for rnd in range(3):
            ch = False
            for fid in self.order:
                r = self.run(F.byid[fid])
                if r != (self.must[fid], self.exp[fid]): ch = True; self.must[fid], self.exp[fid] = r
            if not ch: break

    # ---- types
    def leaves(self, t):
        """scalar leaves of an object of type t"""
        F = self.F; t = F.strip(t); r = self.lv.get(t)
        if r is not None: return r
        self.lv[t] = ()
        x = F.t(t); out = []
        if x['k'] in ('int', 'float', 'enum', 'bool') or x['k'] == 'ptr': out = [()]
        else:
            n = extent(F, t)
            if n is not None:
                if n <= 16:
                    e = axis.elem_type(F, t)
                    if e is not None: out = [('[%d]' % k,) + l for k in range(n) for l in self.leaves(e)]
            elif (x.get('q') or '').startswith('h2d::') and x.get('u') in F.recs:
                R = F.recs[x['u']]; lz = LAZY.get(strip_targs(R['q']), ())
                for fd in R['fields']:
                    if fd['n'] in lz or F.is_ref(fd['t']): continue
                    out += [(fd['n'],) + l for l in self.leaves(fd['t'])]
                for b in R.get('bases', ()):
                    if isinstance(b, int): out += self.leaves(b)
        r = self.lv[t] = tuple(out)
        return r
    def type_of(self, f, p):
        F = self.F
        if p[0] == 'this': t = axis.this_type(F, f.cls); n = 1
        elif p[0] == 'p': t = F.strip(f.params[p[1]]['t']); n = 2
        elif p[0] == 'd': t = F.strip(F.decls[p[1]]['t']); n = 2
        else: return None
        for c in p[n:]:
            if t is None: return None
            t = axis.step_type(F, t, c)
        return t
    def at(self, f, p):
        """leaves of the place p ('[]' stands for every element); None: not a tracked place"""
        if p[0] not in ('this', 'p', 'd'): return None
        if '*' in p: return None
        ps = [p[:2] if p[0] != 'this' else p[:1]]
        for c in p[len(ps[0]):]:
            if c[:1] == '~': continue
            if c == '[]':
                t = self.type_of(f, ps[0]); n = extent(self.F, t) if t is not None else None
                if n is None or n > 16: return None
                ps = [q + ('[%d]' % k,) for q in ps for k in range(n)]
            else: ps = [q + (c,) for q in ps]
        t = self.type_of(f, ps[0])
        if t is None: return None
        return [q + l for q in ps for l in self.leaves(t)]

    # ---- loops
    def counted(self, f):
        """loop over a constant range: loop statement -> (variable, first, last); range-based loops over fixed arrays: -> True"""
        m = f._memo.get('p12loops')
        if m is not None: return m
        m = {}; F = self.F
        for n in f.nodes:
            if n['k'] == 'ForStmt':
                r = n['r']; i0, c0, s0 = r.get('init', -1), r.get('cond', -1), r.get('inc', -1)
                if None in (i0, c0, s0) or min(i0, c0, s0) < 0: continue
                dv = f.nodes[i0].get('decls', []) if f.nodes[i0]['k'] == 'DeclStmt' else []
                if len(dv) != 1 or dv[0].get('i', -1) < 0: continue
                d = dv[0]['d']; a = const_int(f, dv[0]['i'])
                c = f.nodes[c0]
                if a is None or c['k'] != 'BinaryOperator' or c['op'] not in ('<', '<=', '!='): continue
                v = self.var(f, c['c'][0]); b = const_int(f, c['c'][1])
                if v != d: continue
                if b is None:
                    cc = call_of(f, self.bare(f, c['c'][1]))
                    if cc is not None and cc.name == 'size' and cc.obj is not None and not cc.args: b = extent(F, f.nodes[cc.obj]['t'])
                if b is None: continue
                s = f.nodes[s0]
                if s['k'] != 'UnaryOperator' or s['op'] != '++' or self.var(f, s['c'][0]) != d: continue
                if any(x['i'] != s0 and ('d', d) in {p for p, _ in node_writes(f, x['i'])} for x in f.nodes if x['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator')): continue
                last = b if c['op'] == '<=' else b - 1
                if last >= a: m[n['i']] = (d, a, last)
            elif n['k'] == 'CXXForRangeStmt':
                dr = f.nodes[n['r'].get('range', -1)].get('decls', []) if n['r'].get('range', -1) >= 0 else []
                if len(dr) == 1 and dr[0].get('i', -1) >= 0:
                    e = extent(F, f.nodes[dr[0]['i']]['t'])
                    if e: m[n['i']] = True
        f._memo['p12loops'] = m
        return m
    def bare(self, f, i):
        while f.nodes[i]['k'] in ('ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and f.nodes[i].get('c'): i = f.nodes[i]['c'][0]
        return i
    def var(self, f, i):
        n = f.nodes[self.bare(f, i)]
        return n.get('d') if n['k'] == 'DeclRefExpr' else None
    def has_exit(self, f, loop):
        """the loop can be left other than at its end"""
        b = f.nodes[loop]['r'].get('body', -1)
        return b is None or b < 0 or any(f.nodes[x]['k'] in ('BreakStmt', 'GotoStmt') for x in f.sub(b))
    def wplaces(self, f, i, ps):
        """places certainly written by an assignment to the lvalue i of possible places ps: a variable index that runs over the whole array stands for all the elements"""
        ps = {p for p in ps if p[0] != 'tmp'} if f.nodes[self.bare(f, i)]['k'] == 'DeclRefExpr' else ps
        if len(ps) != 1: return []
        p = next(iter(ps))
        if '[]' not in p: return [p]
        idx = []; F = self.F; j = i
        while True:
            j = self.bare(f, j); n = f.nodes[j]; ch = n.get('c', ())
            if n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '[]' and len(ch) == 2:
                if not any(x[:1] == '[' and x != '[]' for x in [elem(f, call_of(f, j))]): idx.append((ch[1], extent(F, f.nodes[ch[0]]['t'])))
                j = ch[0]
            elif n['k'] == 'ArraySubscriptExpr': idx.append((ch[1], extent(F, f.nodes[ch[0]]['t']))); j = ch[0]
            elif n['k'] == 'MemberExpr' and ch: j = ch[0]
            else: break
        lp = self.counted(f)
        if not idx and f.nodes[j]['k'] == 'DeclRefExpr':           # element of a range-based loop
            for l, v in lp.items():
                if v is True and f.nodes[f.nodes[l]['r']['var']].get('decls', [{}])[0].get('d') == f.nodes[j].get('d'): return [p]
            return []
        if len(idx) != p.count('[]'): return []
        used = set()
        for e, n in idx:
            d = self.var(f, e)
            r = next((v for v in lp.values() if v is not True and v[0] == d), None)
            if r is None or d in used or n is None or r[1] > 0 or r[2] < n - 1: return []
            used.add(d)
        return [p]

    # ---- transfer
    def add(self, f, st, ps):
        for p in ps:
            l = self.at(f, p)
            if l: st = st | frozenset(l)
        return st
    def need(self, f, st, ps, i, what='read'):
        """leaves of ps (possible places of one access) that may be unset"""
        for p in ps:
            if p[0] == 'tmp': continue
            l = self.at(f, p)
            if l is None: continue
            for q in l:
                if q in st: continue
                r = q[:2] if q[0] != 'this' else q[:1]
                if q not in self.all(f, r): continue
                if r in self.own: self.bad.setdefault((i, r), (q, what))
                elif q[0] in ('this', 'p'): self.ex.add(q)
    def all(self, f, r):
        m = f._memo.setdefault('p12all', {})
        if r not in m: m[r] = frozenset(r + l for l in self.leaves(t)) if (t := self.type_of(f, r)) is not None else frozenset()
        return m[r]
    def default(self, f, st, p, i):
        """st after the default-initialisation of the object p by the construct expression i"""
        n = f.nodes[i]; c = call_of(f, i); t = self.type_of(f, p); g = self.F.byid.get(c.callee)
        return self.ctor(f, st, p, c, g)
    def ctor(self, f, st, p, c, g):
        """st after construction of the object p by the call c"""
        F = self.F; n = f.nodes[c.node]
        if g is not None:
            m = self.must.get(g.id)
            if m is None: return self.add(f, st, [p])
            return st | frozenset(p + q[1:] for q in m if q[0] == 'this')
        h = c.head
        if not c.args and (h is None or h.get('dflt') or h.get('ctor') == 'default'):
            if n.get('zero') or n['k'] == 'CXXTemporaryObjectExpr': return self.add(f, st, [p])
            t = self.type_of(f, p)
            return self.dflt(f, st, p, t)
        return self.add(f, st, [p])
    def dflt(self, f, st, p, t):
        """implicit default construction of an object of type t at p"""
        F = self.F; x = F.t(F.strip(t))
        n = extent(F, t)
        if n is not None:
            e = axis.elem_type(F, t)
            for k in range(min(n, 16)): st = self.dflt(f, st, p + ('[%d]' % k,), e)
            return st
        R = F.recs.get(x.get('u'))
        if R is None or not (x.get('q') or '').startswith('h2d::'): return st
        g = next((F.byid[m] for m in R.get('methods', ()) if isinstance(m, str) and m in F.byid and F.byid[m].d.get('ctor') == 'default'), None)
        if g is None: g = self.dctor(F, x.get('u'))
        if g is not None and self.must.get(g.id) is not None: return st | frozenset(p + q[1:] for q in self.must[g.id] if q[0] == 'this')
        for fd in R['fields']:
            if fd.get('ini'): st = self.add(f, st, [p + (fd['n'],)])
            else: st = self.dflt(f, st, p + (fd['n'],), fd['t'])
        return st
    def dctor(self, F, u):
        m = getattr(self, '_dc', None)
        if m is None:
            m = self._dc = {}
            for g in F.fns:
                if g.d.get('ctor') == 'default' and g.cls: m[F.t(F.strip(axis.this_type(F, g.cls))).get('u')] = g
        return m.get(u)
    def run(self, f):
        """(leaves certainly assigned on return, leaves read before they are assigned), rooted at this and the parameters"""
        F = self.F; B = f.blocks()
        if not B: return None, frozenset()
        self.own = set(); self.bad = {}; self.ex = set(); st0 = frozenset()
        isctor = bool(f.d.get('ctor'))
        if isctor and f.d['ctor'] != 'x': self.own.add(('this',))
        for n in f.nodes:
            if n['k'] == 'DeclStmt':
                for d in n.get('decls', ()):
                    if not d.get('static') and not F.is_ref(F.decls[d['d']]['t']) and F.decls[d['d']]['k'] == 'local': self.own.add(('d', d['d']))
        for j, p in enumerate(f.params):
            if not F.is_ref(p['t']): st0 = self.add(f, st0, [('d', p['d'])])
        live = live_nodes(f); lp = self.counted(f)
        headers = {}
        for b in B.values():
            if b.get('tk') in ('ForStmt', 'CXXForRangeStmt') and b.get('tn') in lp and not self.has_exit(f, b['tn']): headers[b['id'] if 'id' in b else None] = b['tn']
        def tr(st, i):
            if not isinstance(i, int):
                if 'dtor' in i or i.get('e') is None: return st
                e = i['e']
                if 'init' in i: return self.initialise(f, st, ('this', i['init']), e)
                if 'base' in i: return self.initialise(f, st, ('this',), e, base=True)
                c = call_of(f, self.bare2(f, e)); m = self.must.get(c.callee) if c is not None else None
                return st | frozenset(q for q in m if q[0] == 'this') if m is not None else self.add(f, st, [('this',)])
            n = f.nodes[i]; k = n['k']; ch = n.get('c', ())
            if k == 'DeclStmt':
                for d in n.get('decls', ()):
                    p = ('d', d['d'])
                    if p not in self.own: continue
                    e = d.get('i', -1)
                    l = set(self.at(f, p) or ())
                    st = st - l
                    if e is not None and e >= 0:
                        y = f.nodes[self.bare2(f, e)]
                        c = call_of(f, y['i'])
                        if c is not None and c.kind == 'ctor': st = self.ctor(f, st, p, c, F.byid.get(c.callee))
                        else: st = st | l
                return st
            if k in ('ImplicitCastExpr',) and n.get('ck') == 'LValueToRValue' and ch:
                self.need(f, st, lval(f, ch[0]), i)
            elif k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n['op'] in ('++', '--'):
                self.need(f, st, lval(f, ch[0]), i)
            elif k == 'BinaryOperator' and n['op'] == '=':
                st = self.add(f, st, self.wplaces(f, ch[0], lval(f, ch[0])))
            c = call_of(f, i)
            if c is not None: st = self.call(f, st, i, c)
            if k == 'ReturnStmt' and ch and ch[0] >= 0:
                y = self.bare(f, ch[0])
                if f.nodes[y].get('lv') and F.t(f.ret)['k'] not in ('ref', 'rref', 'ptr'): self.need(f, st, lval(f, y), i, 'returned')
            return st
        # forward must analysis
        order = {b: k for k, b in enumerate(f.rpo())}
        ent = f.cfgd['entry']; ins = {ent: {None: st0}}; TOPS = None
        def join(d):
            r = None
            for s in d.values(): r = s if r is None else r & s
            return r
        import heapq
        wl = [(order[ent], ent)]; inw = {ent}; it = 0; outs = {}
        while wl:
            it += 1
            if it > 20000: return None, frozenset()
            _, b = heapq.heappop(wl); inw.discard(b)
            st = join(ins[b]); blk = B[b]
            for e in blk['e']: st = tr(st, e)
            ss = blk['s']
            for j, s in enumerate(ss):
                if s < 0 or s not in order: continue
                ns = st
                if b in self.hdr(f, B, lp, order) and j == 1:
                    back = [v for q, v in ins[b].items() if q is not None and order.get(q, -1) >= order[b]]
                    if not back: continue
                    ns = back[0]
                    for v in back[1:]: ns = ns & v
                    for e in blk['e']: ns = tr(ns, e)
                old = ins.setdefault(s, {}).get(b)
                if old is not None and old == ns: continue
                ins[s][b] = ns
                if s not in inw: heapq.heappush(wl, (order[s], s)); inw.add(s)
        # second pass with the fixpoint: only now are the reads final
        self.bad = {}; self.ex = set()
        for b in order:
            if b not in ins: continue
            st = join(ins[b])
            for e in B[b]['e']: st = tr(st, e)
        ex = f.cfgd['exit']; out = None
        if ex in ins:
            P = {q: s for q, s in ins[ex].items() if q is None or not f.is_throw_block(B[q])}
            out = join(P) if P else None
        if out is None: r = None
        else:
            r = frozenset(q for q in out if q[0] in ('this', 'p'))
        self.msg[f.id] = (dict(self.bad), out, ('this',) in self.own)
        return r, frozenset(self.ex)
    def hdr(self, f, B, lp, order):
        m = f._memo.get('p12hdr')
        if m is None:
            m = {b for b, x in B.items() if x.get('tk') in ('ForStmt', 'CXXForRangeStmt') and x.get('tn') in lp and not self.has_exit(f, x['tn']) and len(x['s']) == 2}
            f._memo['p12hdr'] = m
        return m
    def bare2(self, f, i):
        while f.nodes[i]['k'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr') or f.nodes[i]['k'] == 'ImplicitCastExpr' and f.nodes[i].get('ck') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'): i = f.nodes[i]['c'][0]
        return i
    def initialise(self, f, st, p, i, base=False):
        F = self.F; y = f.nodes[self.bare2(f, i)]; c = call_of(f, y['i'])
        if c is not None and c.kind == 'ctor':
            if base:
                g = F.byid.get(c.callee)
                if g is not None:
                    m = self.must.get(g.id)
                    return st | frozenset(q for q in (m or ()) if q[0] == 'this')
                t = F.strip(y['t'])
                return self.dflt(f, st, p, t) if not c.args else st | frozenset(p + l for l in self.leaves(t))
            return self.ctor(f, st, p, c, F.byid.get(c.callee))
        return self.add(f, st, [p])
    def call(self, f, st, i, c):
        F = self.F; g = F.byid.get(c.callee); h = c.head
        n = f.nodes[i]
        if g is not None:
            ctor = c.kind == 'ctor'
            for q in self.exp.get(g.id, ()):
                if q[0] == 'this' and ctor: continue
                self.need(f, st, map_place(f, c, q), i, 'passed to ' + g.name)
            m = self.must.get(g.id)
            if m:
                for q in m:
                    if q[0] == 'this' and ctor: continue
                    r = map_place(f, c, q)
                    if len(r) == 1: st = self.add(f, st, [next(iter(r))])
            return st
        if c.kind == 'ctor':
            if len(c.args) == 1 and h is not None and h.get('ctor') in ('copy', 'move'):
                t = F.strip(n['t'])
                if self.leaves(t): self.need(f, st, lval(f, c.args[0]), i, 'copied')
            return st
        if c.kind in ('mem', 'op') and c.obj is not None and c.name == 'operator=' and c.args:
            if self.leaves(F.strip(f.nodes[c.obj]['t'])): self.need(f, st, [p for p in lval(f, c.args[0]) if p[0] != 'tmp'], i, 'copied')
            b = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
            return self.add(f, st, self.wplaces(f, c.obj, b))
        if c.kind in ('mem', 'op') and c.obj is not None and c.name in ('fill', 'swap'):
            st = self.add(f, st, list(lval(f, c.obj)) if len(lval(f, c.obj)) == 1 else [])
        # external function: it may assign what it gets by non-const reference or pointer
        if h is not None and not h.get('inhdr') or h is None:
            ps = h.get('params') if h else None
            for j, a in enumerate(c.args):
                y = f.nodes[a]
                if y.get('lv') and not F.t(y['t'])['s'].startswith('const '): 
                    b = lval(f, a)
                    if len(b) == 1: st = self.add(f, st, list(b))
                elif F.is_iter(y['t']) or F.t(F.strip(y['t']))['k'] == 'ptr':
                    b = {p[:-1] if p and p[-1] == '[]' else p for p in ptr(f, a)}
                    if len(b) == 1: st = self.add(f, st, list(b))
        return st

def run(cx):
    for F in cx.extract(*(['base', 'speed'] if cx.tier == 'quick' else ['base', 'plain', 'speed', 'float', 'ldld', 'nocheck', 'svg', 'opencv', 'eigen', 'thr'])): check(cx, F)
def pname(f, q):
    r = 'this' if q[0] == 'this' else f.params[q[1]]['n'] if q[0] == 'p' and 'n' in f.params[q[1]] else f.facts.decls[q[1]]['n'] if q[0] == 'd' else str(q[1])
    return '.'.join([r] + list(q[1 if q[0] == 'this' else 2:])).replace('.[', '[')
def check(cx, F):
    I = Init(F); nc = nl = nr = 0
    for fid in I.order:
        f = F.byid[fid]
        if fid not in I.msg: continue
        bad, out, isct = I.msg[fid]
        for (i, r), (q, what) in bad.items():
            ln = f.nodes[i].get('l', f.line)
            cx.bad('%s:%s' % (f.q, pname(f, q)), '%s (homog2d.hpp:%s, config %s): %s may be %s before it has a value' % (f.sig(), ln, F.config, pname(f, q), what if what != 'read' else 'read'))
        if isct and f.d.get('ctor') not in ('copy', 'move') and out is not None and not (internal_q(f.q) and not f.params and len(f.nodes[f.d['body']].get('c', ())) == 0):    # an implementation struct without a constructor of its own: its users are checked
            t = axis.this_type(F, f.cls); want = [('this',) + l for l in I.leaves(t)]
            miss = [q for q in want if q not in out]
            nc += 1; nl += len(want)
            cx.check(not miss, '%s:%d-args:%s' % (f.q, len(f.params), pname(f, miss[0]) if miss else ''), lambda: '%s (homog2d.hpp:%d, config %s): the constructor can return without a value for %s' % (f.sig(), f.line, F.config, ', '.join(pname(f, q) for q in miss[:6])), f.sig())
        nr += 1
        if not bad: cx.good('%s (%d)' % (f.sig(), f.line))
    cx.cov['configurations'].setdefault(F.config, {}).update(functions=nr, constructors=nc, members=nl)
    cx.need(nc, 20, 'constructors (%s)' % F.config)
