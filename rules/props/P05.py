"""thresholds and global settings"""
import imply
from core import *
from util import *
from props.P25 import names, roots, thresholds
RULE = ('(1) Implied-facts dataflow: a true (false) result of each threshold-based predicate must imply that its two operands were found within (beyond) the documented threshold, read through its accessor at that moment. '
        '(2) Effects: no function of the library may write a threshold or setting, except a guard object that saves the value it changes and restores it in its destructor. '
        '(3) Storage: one static non-const variable per accessor, none initialised from a setting or shared; no static or namespace-scope variable keeps a value computed from a setting. '
        '(4) Build-time symbols: in a configuration giving each HOMOG2D_THR_* symbol a marker value, each marker appears exactly once in the program: as initial value of the variable of the matching accessor. '
        '(5) printThresholds() prints each label with the accessor of that name.')
ASSUMPTIONS = ['thresholds are changed by the user through the references returned by the thr:: functions']
PRED = {  # predicate: (operands, threshold)
 'LPBase::isInf<P>()': ('this', 'nullDenom'), 'LPBase::operator==<P>(P)': ('0 this', 'nullDistance'), 'LPBase::isParallelTo<L>(L)': ('0 this', 'nullAngleValue'), 'LPBase::isParallelTo<L>(S)': ('0 this', 'nullAngleValue'),
 'areParallel(L L)': ('0 1', 'nullAngleValue'), 'areParallel(L S)': ('0 1', 'nullAngleValue'), 'areParallel(S L)': ('0 1', 'nullAngleValue'), 'areParallel(S S)': ('0 1', 'nullAngleValue'),
 'Circle_::operator==(C)': ('0 this', 'nullDistance', 'T'), 'FRect_::operator==(R)': ('0 this', 'nullDistance', 'T'), 'Hmatrix_::operator==(H)': ('0 this', 'nullDeter', 'T'), 'Ellipse_::operator==(E)': ('0 this', 'nullDeter', 'T'),
 'LPBase::operator==<L>(L)': ('0 this', 'nullAngleValue', 'T'),
}
for k in 'OS':
    for a in 'LS': PRED['SegVec::isParallelTo<%s>(%s)' % (k, a)] = ('0 this', 'nullAngleValue')
    PRED['SegVec::operator==<%s>(S)' % k] = ('0 this', 'nullDistance', 'T')
MARK = {1.0625e-9: 'nullDistance', 1.1875e-9: 'nullOrthogDistance', 0.00131640625: 'nullAngleValue', 1.4375e-9: 'nullDenom', 1.5625e-9: 'nullDeter'}
DEFAULTS = set(MARK.values())

def settings(F):
    """static variable -> the accessor returning a reference to it"""
    m = {}
    for f in F.fns:
        if f.q.startswith(('h2d::thr::', 'h2d::err::')) and len(f.params) == 0 and F.t(f.ret)['k'] == 'ref':
            for p in ret_places(F, f):
                if p[0] == 'g': m.setdefault(p[1], set()).add(f.q)
    return m

def run(cx):
    cfgs = ('base', 'thr') if cx.tier == 'quick' else ('base', 'thr', 'speed', 'ldld', 'float', 'opencv')
    for F in cx.extract(*cfgs):
        st = settings(F); thr = thresholds(F)
        acc = {n: [d for d, s in st.items() if 'h2d::thr::' + n in s] for n in DEFAULTS}
        for n in sorted(DEFAULTS):
            ok = len(acc[n]) == 1 and len(st[acc[n][0]]) == 1
            cx.check(ok, 'storage|' + n, 'thr::%s() does not return a variable of its own (config %s)' % (n, F.config), 'thr::%s() has its own variable' % n)
        # (3)
        for s in F.statics:
            if s['d'] in st: continue
            fn = F.byid.get(s['fn']) if s.get('fn') else None
            dep = set()
            if fn is not None:
                for x in fn.nodes:
                    if x['k'] != 'DeclStmt': continue
                    for d in x.get('decls', ()):
                        if d['d'] == s['d'] and d.get('i', -1) >= 0:
                            dep = {F.head(c.callee)['q'] for i in fn.sub(d['i']) for c in [call_of(fn, i)] if c is not None and F.head(c.callee)} & {a for v in st.values() for a in v}
            cx.check(not dep, 'cached|' + s['q'], 'homog2d.hpp:%d: static variable %s keeps a value computed from %s' % (s['line'], s['q'], ', '.join(sorted(dep))), 'static %s does not depend on a setting' % s['q'])
        # (2)
        E = effects(F); n = 0
        for f in F.fns:
            if f.q.startswith(('h2d::thr::', 'h2d::err::')): continue
            for i in live_nodes(f):
                for p, what in node_writes(f, i):
                    if p[0] != 'g' or p[1] not in st: continue
                    an = sorted(st[p[1]])[0]
                    if an in ('h2d::err::errorCount', 'h2d::err::warningCount'): continue
                    ok = guard_class(F, f, p[1])
                    cx.check(ok, '%s|writes %s' % (f.q, an), '%s (homog2d.hpp:%d, config %s): changes the global setting %s() and nothing restores it whatever happens' % (f.sig(), f.nodes[i]['l'], F.config, an), 'guard object restores ' + an)
            n += 1
        cx.good('%d functions: no write to a threshold or setting outside a restoring guard' % n)
        # (4)
        if F.config == 'thr':
            seen = {v: [] for v in MARK}
            for f in F.fns:
                for x in f.nodes:
                    if x['k'] == 'FloatingLiteral':
                        for v in MARK:
                            if abs(float(x['v']) - v) < 1e-6 * v: seen[v].append((f, x))
            for v, n in MARK.items():
                bad = [(f, x) for f, x in seen[v] if not f.q == 'h2d::thr::' + n]
                cx.check(not bad and len(seen[v]) == 1, 'symbol|' + n, 'the build-time default of thr::%s() is %s' % (n, 'used in ' + ', '.join('%s (homog2d.hpp:%d)' % (f.q, x['l']) for f, x in bad) if bad else 'not its initial value'),
                         'build-time symbol only initialises thr::%s()' % n)
            continue
        # (5)
        for f in F.fns:
            if f.q == 'h2d::thr::printThresholds':
                lab = {}; last = None; order = []
                pr = f.parents()
                for x in sorted((x for x in f.nodes if x['k'] == 'StringLiteral' or x['k'] in CALLK), key=lambda x: x['i']): order.append(x)
                seq = stream_order(f)
                for kind, v in seq:
                    if kind == 's': last = v
                    elif last is not None:
                        for n in DEFAULTS:
                            if n in last: lab[n] = v
                for n in sorted(DEFAULTS):
                    cx.check(lab.get(n) == 'h2d::thr::' + n, 'print|' + n, 'printThresholds() prints %s for %s' % (lab.get(n), n), 'printThresholds(): label and value of %s match' % n)
        # (1)
        I = imply.imply(F); hit = set()
        for f in F.fns:
            if not public(f): continue
            for k in names(F, f) & PRED.keys():
                hit.add(k); req = PRED[k]; r = tuple(req[0].split())
                def has(S, kind): return S is not None and any(x[0] == kind and roots(x[1]) == r and any(thr.get(d) == req[1] for d in x[2]) for x in S)
                if f.name == 'operator==' and I.T[f.id] is None: continue      # different kinds: never equal
                cx.check(has(I.T[f.id], 'EQ'), k + '|T', '%s (homog2d.hpp:%d, config %s): true result does not imply that the operands are within thr::%s()' % (f.sig(), f.line, F.config, req[1]), '%s true => within thr::%s()' % (k, req[1]))
                if len(req) == 2:
                    cx.check(has(I.Fa[f.id], 'NE'), k + '|F', '%s (homog2d.hpp:%d, config %s): false result does not imply that the operands differ by more than thr::%s()' % (f.sig(), f.line, F.config, req[1]), '%s false => beyond thr::%s()' % (k, req[1]))
        if F.config == 'base': cx.need(len(hit), 18, 'threshold predicates')

def stream_order(f):
    """('s', literal) / ('c', callee) operands of the << chains, in output order"""
    out = []
    def rec(i):
        n = f.nodes[i]
        if n['k'] == 'StringLiteral': out.append(('s', n.get('v', ''))); return
        c = call_of(f, i)
        if c is not None and c.name == 'operator<<':
            a = ([c.obj] if c.obj is not None else []) + list(c.args)
            for x in a: rec(x)
            return
        if c is not None:
            h = f.facts.head(c.callee)
            if h: out.append(('c', h['q']))
            return
        for x in n.get('c', ()):
            if x >= 0: rec(x)
    rec(f.d['body'])
    return out

def guard_class(F, f, decl):
    """the write happens in the constructor of a class whose destructor writes the setting back from its own field, or in that destructor"""
    if f.cls is None: return False
    for g in F.fns:
        if g.cls == f.cls and g.name.startswith('~'):
            for i in live_nodes(g):
                for p, what in node_writes(g, i):
                    if p == ('g', decl):
                        import flow
                        fl = flow.flow(F); n = g.nodes[i]
                        rhs = n['c'][1] if n['k'] == 'BinaryOperator' and len(n.get('c', ())) > 1 else None
                        if rhs is None: return False
                        fl._cur = g.id; fl._memo = {}; fl._busy = set()
                        s = flow.vflat(fl.val(g, rhs))
                        return bool(s) and all(flow.src(x)[0] == 'this' and flow.tag(x) == '' for x in s)
    return False
