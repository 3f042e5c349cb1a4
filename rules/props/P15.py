"""type queries and dispatch"""
import collections, re
import axis, geo, vn
from core import *
from util import *
RULE = ('Forwarding: the value returned by a free function is traced back (through copies, conversions, locals assigned once, helper functions, visitors applied to a variant, each instantiation of the visitor) to the call that makes it: it must be the member '
        'function of the same name, applied to the same argument, with the other arguments in their order. Value numbering gives the constant returned by type(), dtype(), dsize() and the literal returned by getString() for each enumerator.')
ASSUMPTIONS = ['std::visit calls the visitor with the object held by the variant']
CAST = ('ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr')
TYPES = {'C': 'Circle', 'R': 'FRect', 'E': 'Ellipse'}
DT = {'float': 'Float', 'double': 'Double', 'long double': 'LongDouble'}
DS = {'float': (24, 7), 'double': (53, 10)}

class Fwd:
    def __init__(self, F):
        self.F = F; self.memo = {}; self.cap = {}
        self.ops = collections.defaultdict(list); self.meth = collections.defaultdict(list)
        for g in F.fns:
            if g.name == 'operator()' and g.blocks(): self.ops[self.cu(g)].append(g)
            elif g.cls and not g.d.get('ctor') and g.blocks(): self.meth[self.cu(g), g.name].append(g)
    def cu(self, g): 
        t = axis.this_type(self.F, g.cls) if g.cls else None
        return None if t is None else self.F.t(self.F.strip(t)).get('u')
    def src(self, f, i, d=0):
        """expression a value comes from"""
        while d < 40:
            d += 1; n = f.nodes[i]; ch = n.get('c', ())
            if n['k'] in CAST and ch: i = ch[0]; continue
            if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len([x for x in ch if f.nodes[x]['k'] != 'CXXDefaultArgExpr']) == 1: i = ch[0]; continue
            if n['k'] == 'InitListExpr' and len(ch) == 1: i = ch[0]; continue
            if n['k'] == 'CallExpr':
                c = call_of(f, i)
                if c is not None and c.name in ('move', 'forward', 'as_const') and len(c.args) == 1: i = c.args[0]; continue
            if n['k'] == 'DeclRefExpr' and n.get('d') is not None and n['d'] not in f.pidx:
                e = self.single(f, n['d'])
                if e is not None: i = e; continue
            return i
        return i
    def captured(self, f, i):
        """field of the visitor -> parameter of f it holds"""
        F = self.F; n = f.nodes[i]; out = {}
        while n['k'] in CAST and n.get('c'): n = f.nodes[n['c'][0]]
        if n['k'] == 'DeclRefExpr' and n.get('d') is not None:
            e = self.single(f, n['d'])
            if e is not None: return self.captured(f, e)
        g = F.byid.get(n.get('fn'))
        if g is None: return out
        for x in g.d.get('inits') or ():
            k = self.par(g, x['e']) if x.get('e') is not None and x['e'] >= 0 else None
            if isinstance(k, int) and k < len(n['c']) and x.get('d') is not None:
                p = self.par(f, n['c'][k])
                if p is not None: out[x['d']] = p
        return out
    def single(self, f, d):
        m = f._memo.get('p15def')
        if m is None:
            m = collections.defaultdict(list); live = live_nodes(f)
            for n in f.nodes:
                if n['k'] == 'DeclStmt':
                    for x in n.get('decls', ()): m[x['d']].append(x.get('i', -1))
                elif n['i'] in live:
                    c = call_of(f, n['i'])
                    if c is not None and c.kind in ('mem', 'op') and c.obj is not None and c.callee in self.F.byid and not self.F.byid[c.callee].d.get('const'):
                        o = f.nodes[c.obj]
                        if o['k'] == 'DeclRefExpr': m[o['d']].append(None)
                    for p, _ in node_writes(f, n['i']):
                        if p[0] == 'd': m[p[1]].append(None if n['k'] != 'BinaryOperator' or len(p) > 2 else n['c'][1])
            f._memo['p15def'] = m
        r = [x for x in m.get(d, ()) if x != -1]
        return r[0] if len(r) == 1 and r[0] is not None else None
    def par(self, f, i):
        """index of the parameter (or 'this') that expression i denotes"""
        i = self.src(f, i); n = f.nodes[i]
        if n['k'] == 'DeclRefExpr': return f.pidx.get(n.get('d'))
        if n['k'] == 'MemberExpr':
            if n.get('d') in self.cap and f.nodes[self.src(f, n['c'][0])]['k'] == 'CXXThisExpr': return ('o', self.cap[n['d']])
            if n.get('m') in ('first', 'second'):
                p = self.par(f, n['c'][0])
                if p is not None: return (p, n['m'])
        if n['k'] == 'UnaryOperator' and n.get('op') == '*' and f.nodes[self.src(f, n['c'][0])]['k'] == 'CXXThisExpr': return 'this'
        return None
    def results(self, f):
        """nodes that make the value of f; for a void function, its calls"""
        live = live_nodes(f)
        if self.F.t(f.ret)['k'] == 'void':
            return [c.node for c in calls(f) if c.node in live and c.kind != 'ctor' and (c.callee in self.F.byid or c.name == 'visit')]
        out = []
        for n in f.nodes:
            if n['k'] == 'ReturnStmt' and n['i'] in live and n.get('c') and n['c'][0] >= 0:
                st = [n['c'][0]]
                while st:
                    e = self.src(f, st.pop())
                    if f.nodes[e]['k'] == 'ConditionalOperator': st += f.nodes[e]['c'][1:3]
                    else: out.append(e)
        return out
    def is_(self, f, obj, name, args, depth=0):
        """f returns obj.name(args): True, False (and why), None if not decided"""
        k = (f.id, obj, name, tuple(args), frozenset(self.cap.items()))
        if k in self.memo: return self.memo[k]
        self.memo[k] = (None, '')
        if depth > 6: return None, ''
        rs = self.results(f)
        r = [self.node(f, i, obj, name, args, depth) for i in rs]
        out = (None, '')
        bad = [x for x in r if x[0] is False]
        if bad: out = bad[0]
        elif r and all(x[0] for x in r) and (len(r) == 1 or self.F.t(f.ret)['k'] != 'void'): out = (True, '')
        self.memo[k] = out
        return out
    def node(self, f, i, obj, name, args, depth):
        F = self.F; n = f.nodes[i]; c = call_of(f, i)
        if c is None:
            if n['k'] in ('UnaryOperator', 'BinaryOperator') and (n['op'] in '+-*/' or n['op'] == '!'):
                sub = [self.node(f, self.src(f, x), obj, name, args, depth + 1)[0] for x in n['c']]
                if True in sub and not (n['op'] in '+*' and len(sub) == 2 and None in sub and self.neutral(f, n, sub)): return False, 'alters the result of %s()' % name
            return None, ''
        a = [self.par(f, x) for x in c.args if f.nodes[x]['k'] != 'CXXDefaultArgExpr']
        if c.name == 'visit' and len(c.args) == 2 and c.callee not in F.byid:
            if a[1] != obj: return None, ''
            v = self.src(f, c.args[0]); u = F.t(F.strip(f.nodes[c.args[0]]['t'])).get('u')
            ops = self.ops.get(u, [])
            if f.nodes[v]['k'] == 'LambdaExpr':
                s = [F.byid[x] for x in [f.nodes[v].get('fn')] + list(f.nodes[v].get('sps', ())) if x in F.byid]
                ops = [g for g in s if g.blocks()] or ops
            if not ops: return None, ''
            save = self.cap; self.cap = self.captured(f, c.args[0])
            if name != 'draw' and any(x not in self.cap.values() for x in args): self.cap = save; return None, ''
            r = [(g, self.is_(g, 0, name, [('o', x) for x in args], depth + 1)) for g in ops]; self.cap = save
            for g, x in r:
                if x[0] is False: return False, 'the visitor %s %s' % (g.sig(), x[1])
            return (True if all(x[0] for _, x in r) else None), ''
        g = F.byid.get(c.callee)
        if name == 'operator*' and c.name == name:
            a = [self.par(f, x) for x in ([c.obj] if c.obj is not None else []) + list(c.args)]
            if a == list(args) + [obj]: return True, ''
            if len(a) == 2 and a[1] == obj and a[0] is None and call_of(f, self.src(f, c.args[0])) is not None: return False, 'applies a matrix computed from its argument'
            if len(a) == 2 and a[1] == obj and a[0] is None:
                d = f.nodes[self.src(f, c.args[0])].get('d')
                for x in calls(f):
                    if d is not None and x.obj is not None and f.nodes[x.obj].get('d') == d and x.name in ('inverse', 'transpose'): return False, 'applies a modified copy of the matrix'
            return None, ''
        if c.kind in ('mem', 'op') and c.obj is not None:
            o = self.par(f, c.obj) if not c.objarrow else ('this' if f.nodes[self.src(f, c.obj)]['k'] == 'CXXThisExpr' else None)
            if o != obj: 
                return None, ''
            if c.name == name:
                if a == list(args): return True, ''
                if a and len(args) == 1 and all(isinstance(x, tuple) and x[0] == args[0] for x in a):
                    return (True, '') if [x[1] for x in a] == ['first', 'second'] else (False, 'calls %s() with its arguments in another order' % name)
                if None not in a and a != list(args) and all(x in args for x in a):
                    miss = [x for x in args if x not in a and isinstance(x, int)]
                    if miss and not any(y['k'] == 'DeclRefExpr' and y.get('d') in [f.params[x]['d'] for x in miss] for y in f.nodes): return False, 'calls %s() without taking its own argument into account' % name
                if None in a or sorted(map(str, a)) != sorted(map(str, args)): return None, ''
                return False, 'calls %s() with its arguments in another order' % name
            if g is None: return None, ''
            r = self.is_(g, 'this', name, list(range(len(g.params))), depth + 1)
            if r[0]: return r
            for m in self.meth.get((self.cu(g), name), ()):
                if self.is_(m, 'this', c.name, list(range(len(m.params))), depth + 1)[0]: return True, ''
            if public(g) and self.meth.get((self.cu(g), name)) and a == list(args): return False, 'calls %s() instead of %s()' % (c.name, name)
            return None, ''
        if g is not None and c.kind == 'free' and obj in a:
            j = a.index(obj); rest = a[:j] + a[j + 1:]
            if rest != list(args): return None, ''
            if g.name == name and j == 0: return (True, '') if g.id != f.id else (None, '')
            return self.is_(g, j, name, [k for k in range(len(g.params)) if k != j][:len(rest)], depth + 1)
        return None, ''
    def neutral(self, f, n, sub):
        v = const_int(f, n['c'][sub.index(None)]); return v == {'+': 0, '*': 1}.get(n['op'])

def const(v): return v[0].const() if isinstance(v, tuple) and len(v) == 1 else None
def text(v):
    if not isinstance(v, tuple) or len(v) != 1: return None
    s = [a[1] for a in v[0].allatoms() if a[0] == 'str']
    return s[0] if len(s) == 1 and v[0] == vn.poly.A(('str', s[0])) else None
def fpt(F, t):
    """numeric type of a class"""
    m = re.findall(r'\b(long double|double|float)\b', F.t(F.strip(t))['s']); return m[-1] if m else None

def run(cx):
    for F in cx.extract(*(['base', 'prtp'] if cx.tier == 'quick' else ['base', 'float', 'ldld', 'nocheck', 'speed', 'plain', 'prtp', 'svg'])): check(cx, F)
def check(cx, F):
    G = geo.Geo(F, lambda f: f.name in ('type', 'dtype', 'dsize', 'getString'))
    V = G.V; W = Fwd(F); nt = ns = nf = 0; und = set()
    en = {k: {v: n for n, v in e.items()} for k, e in G.en.items()}
    for f in F.fns:
        if not public(f) or not f.blocks(): continue
        t = axis.this_type(F, f.cls) if f.cls else None
        loc = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), f.line, F.config)
        if t is not None and f.name in ('type', 'dtype') and not f.params:
            v = V.sum.get(f.id); x = const(v[0]) if v else None
            if x is None: und.add('%s (%s)' % (f.q, F.config)); continue
            got = en['Type' if f.name == 'type' else 'Dtype'].get(int(x))
            s = F.t(F.strip(t))['s']; l = geo.letter(F, t)
            if f.name == 'type': want = {'P': 'Point2d', 'L': 'Line2d', 'S': 'Segment', 'O': 'OSegment'}.get(l) or TYPES.get(l) or (('CPolyline' if 'IsClosed' in s else 'OPolyline') if l == 'Y' else None)
            else: want = DT.get(fpt(F, t))
            if want is None: continue
            nt += 1
            cx.check(got == want, '%s:%s' % (f.q, want), lambda: '%s: %s() of %s answers %s' % (loc, f.name, s, got), f.sig())
        elif t is not None and f.name == 'dsize' and not f.params and fpt(F, t) in DS:
            v = V.sum.get(f.id); x = [const(vn.sub(v[0], (k,))) for k in ('first', 'second')] if v and isinstance(v[0], vn.T) else None
            if not x or None in x: und.add('%s (%s)' % (f.q, F.config)); continue
            nt += 1
            cx.check(tuple(map(int, x)) == DS[fpt(F, t)], '%s:%s' % (f.q, fpt(F, t)), lambda: '%s: dsize() of %s answers %s' % (loc, F.t(F.strip(t))['s'], x), f.sig())
        elif t is None and f.name == 'getString' and len(f.params) == 1:
            et = F.t(F.strip(f.params[0]['t']))
            e = en.get(et['s'].split('::')[-1]) if et['k'] == 'enum' else None
            if not e: continue
            seen = {}
            for val, nm in e.items():
                try: r = V.analyse(f, {0: vn.num(val)})[0]
                except Exception: r = None
                s = text(r)
                if s is None: und.add('getString(%s) (%s)' % (nm, F.config)); continue
                ns += 1
                cx.check(s.startswith(nm) and s not in seen, 'getString:%s' % nm, lambda: '%s: the name given to %s is "%s"' % (loc, nm, s), 'getString(%s)' % nm)
                seen[s] = nm
        elif t is None:
            if f.name == 'transform' and len(f.params) == 2 and geo.letter(F, f.params[0]['t']) == 'H':
                r, why = W.is_(f, 1, 'operator*', [0])
                if r is None: und.add('transform(%s) (%s)' % (F.t(F.strip(f.params[1]['t']))['s'][:40], F.config)); continue
                nf += 1; cx.check(r, 'transform:%s' % geo.letter(F, f.params[1]['t']), lambda: '%s: %s, where it stands for H * x' % (loc, why), f.sig())
                continue
            # free function of a class that has a public member of the same name
            for j, p in enumerate(f.params):
                pt = F.t(F.strip(p['t'])); u = pt.get('u'); rest = [k for k in range(len(f.params)) if k != j]
                if (pt.get('q') or '') == 'std::variant': ms = True
                elif (pt.get('q') or '').startswith('h2d::'): ms = [m for m in member(F, W, u, f.name) if public(m) and len(m.params) >= len(rest) >= len(m.params) - 1]
                else: continue
                if not ms: continue
                r, why = W.is_(f, j, f.name, rest if ms is not True or f.name != 'draw' else rest)
                if r is None:
                    if j == 0: und.add('%s(%s) (%s)' % (f.q, geo.letter(F, p['t']), F.config))
                    continue
                nf += 1
                cx.check(r, '%s:%d' % (f.q, j), lambda: '%s: %s, where it stands for the member function %s()' % (loc, why, f.name), f.sig())
                break
    # downcasts of a run-time polymorphic object follow its type
    nd = nc = 0
    for f in F.fns:
        if not f.blocks(): continue
        par = f.parents()
        for n in f.nodes:
            if n['k'] not in ('CXXStaticCastExpr', 'CStyleCastExpr') or not n.get('c'): continue
            a, b = F.t(n['t']), F.t(f.nodes[n['c'][0]]['t'])
            if a['k'] != 'ptr' or not re.search(r'\brtp::Root\b', b['s']): continue
            x = n['i']; lab = None
            while x is not None and x >= 0:
                m = f.nodes[x]
                if m['k'] == 'CaseStmt': lab = label(F, f, m); break
                x = par[x]
            want = kind_of(G, F, n['t']); nc += 1
            labs = [lab] if lab is not None else labels(F, f, n['i'], {})
            if want is None or not labs or None in labs: und.add('cast in %s (%s)' % (f.q, F.config)); continue
            nd += 1; lab = next((x for x in labs if en['Type'].get(x) != want), labs[0])
            got = en['Type'].get(lab)
            cx.check(got == want, '%s:%s' % (f.q, got), lambda: '%s (homog2d.hpp:%d, config %s): an object whose type is %s is taken for a %s' % (f.sig(), n.get('l', f.line), F.config, got, want), '%s: cast to %s' % (f.sig(), want))
    if F.config == 'prtp': cx.need(nd + nc, 1, 'downcasts (%s)' % F.config)
    cx.cov['configurations'].setdefault(F.config, {}).update(type_queries=nt, names=ns, downcasts=nd, forwarding_functions=nf)
    cx.cov['not_decided'] = sorted(set(cx.cov.get('not_decided', [])) | und)
    cx.need(nt, 6, 'type queries (%s)' % F.config); cx.need(ns, 8, 'enumerator names (%s)' % F.config); cx.need(nf, 40, 'forwarding functions (%s)' % F.config)
def kind_of(G, F, t):
    s = F.t(F.strip(t))['s']; l = geo.letter(F, F.strip(t))
    if l not in 'PLSOCRYE' or not l:
        m = re.search(r'h2d::(Circle_|FRect_|Ellipse_)<', s)
        if m: return m.group(1)[:-1]
        for a, b in (('IsPoint', 'Point2d'), ('IsLine', 'Line2d'), ('IsSegment', 'Segment'), ('IsOSeg', 'OSegment'), ('IsClosed', 'CPolyline'), ('IsOpen', 'OPolyline')):
            if a in s: return b
        return None
    return {'P': 'Point2d', 'L': 'Line2d', 'S': 'Segment', 'O': 'OSegment'}.get(l) or TYPES.get(l) or ('CPolyline' if 'IsClosed' in s else 'OPolyline')
def labels(F, f, i, seen):
    """case labels under which node i of f runs (those of the callers if f has none)"""
    x = case_of(F, f, i)
    if x is not None: return [x]
    if f.id in seen: return []
    seen[f.id] = 1; out = []
    for g in F.fns:
        for c in calls(g):
            if c.callee == f.id and g.id != f.id: out += labels(F, g, c.node, dict(seen)) or [None]
    return out
def label(F, f, m):
    i = m['c'][0]
    while f.nodes[i]['k'] in CAST + ('ConstantExpr',): i = f.nodes[i]['c'][0]
    d = F.decls[f.nodes[i]['d']] if f.nodes[i]['k'] == 'DeclRefExpr' else None
    v = d.get('v') if d else const_int(f, i)
    return None if v is None else int(v)
def case_of(F, f, i):
    """value of the nearest case label before node i in its switch"""
    par = f.parents(); x = i
    while True:
        p = par[x]
        if p is None or p < 0: return None
        m = f.nodes[p]; q = par[p]
        if m['k'] == 'CompoundStmt' and q is not None and q >= 0 and f.nodes[q]['k'] == 'SwitchStmt':
            lab = None
            for c in m['c']:
                if f.nodes[c]['k'] == 'CaseStmt': lab = f.nodes[c]
                if c == x: return None if lab is None else label(F, f, lab)
        x = p
def member(F, W, u, name):
    """methods of that name of the class u and its bases"""
    st = [u]; out = []; seen = set()
    while st:
        x = st.pop()
        if x in seen or x is None: continue
        seen.add(x); out += W.meth.get((x, name), ())
        R = F.recs.get(x)
        if R: st += [F.t(F.strip(b)).get('u') for b in R.get('bases', ()) if isinstance(b, int)]
    return out
