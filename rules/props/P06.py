"""queries: no visible side effect, deterministic, silent"""
import re
from core import *
from util import *
RULE = ('(1) Effects: for every public function and every object it may only read (const this, const reference parameters), the set of written places, through the call graph, must be inside the frozen list of caches (validity flags, cached values, normalized form); '
        'the points of a polyline may change order only inside the functions documented to normalize it, and only by std::reverse/std::rotate; matrix entries only by normalization. '
        '(2) No public function reaches a source of non-determinism (random numbers, time, environment, hash/address order), except genRandomColors. '
        '(3) Writes to std::cout/cerr (or C stdio) are reachable from a public function only on paths that end in an exception or abort, under a branch that tests err::printWarnings(), or from functions whose purpose is printing; '
        'no such write at all outside failing paths with HOMOG2D_NOWARNINGS; files are opened only by the functions documented to do so. (4) No mutable static or global besides the settings and the counters, and no constant local static whose initializer reads an argument, the object, a variable or (through the call graph) a setting: it would keep the value of the first call.')
ASSUMPTIONS = ['callbacks and streams passed by the user are the user\'s responsibility', 'third-party back-ends (OpenCV, Eigen, tinyxml2, Boost) called by name are trusted not to print or use randomness']
NONDET = re.compile(r'^(std::)?(rand|srand|rand_r|random|drand48|time|clock|gettimeofday|clock_gettime|getenv|secure_getenv|getpid|tmpnam|localtime|gmtime|hash)$|^std::(random_device|chrono::.*::now|this_thread::.*|hash|unordered_\w+|random_shuffle)(::|$)|^cv::(theRNG|RNG|randu|randn)')
STDIO = re.compile(r'^(std::)?(printf|puts|putchar|fprintf|fputs|fputc|perror|vprintf|fwrite|write|system|popen|remove|rename|unlink)$')
FILES = re.compile(r'^std::(basic_)?(o|i)?fstream(::|$)|^(std::)?(fopen|freopen|tmpfile)$|^cv::im(write|read|show)$|LoadFile$|^std::filesystem::')
STREAM = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr'}
# caches: field chains (last named fields) that may change in an object that is only read
CACHE = [('_attribs',), ('_isNormalized',), ('_hasChanged',), ('_hmt',), ('_plIsNormalized',), ('_epHasChanged',), ('_par',), ('_mdata',), ('_plinevec',)]
NORMALIZING_POLY = {'operator==', 'operator!=', 'getOffsetPoly', 'normalize', 'p_normalizePoly'}
NORMALIZING_MAT = {'operator==', 'operator!=', 'normalize', 'p_normalizeMat', 'isCircle', 'buildFrom4Points'}
PRINTERS = re.compile(r'(^|::)(print|dump|Print|Dump)\w*$')

def exempt_blocks(F, f):
    """(blocks from which normal return is impossible, blocks entered only when printWarnings() is true)"""
    m = f._memo.get('p06')
    if m is not None: return m
    B = f.blocks(); rp = set(f.rpo()); exit_ = f.cfgd['exit'] if f.cfgd else None
    can = set(); st = [exit_]; P = f.preds()
    while st:
        b = st.pop()
        if b in can: continue
        can.add(b)
        for p in P.get(b, ()):
            if p in B and not B[p].get('nr') and not f.is_throw_block(B[p]): st.append(p)
    doomed = {b for b in B if b not in can}
    guarded = set(); D = f.doms()
    for b in B.values():
        if b.get('tk') not in ('IfStmt', 'ConditionalOperator', 'BinaryOperator', 'WhileStmt') or len(b['s']) != 2: continue
        c = b.get('cond', -1)
        if c is None or c < 0: continue
        pol = polarity(F, f, c)
        if pol is None: continue
        s = b['s'][0 if pol else 1]
        if s >= 0 and len([p for p in P.get(s, ())]) == 1:
            guarded |= {x for x in D if s in D[x]}
    f._memo['p06'] = (doomed, guarded)
    return doomed, guarded

def polarity(F, f, i, depth=0):
    """True/False: truth of the condition implies printWarnings() is true / its falsity does; None: unrelated"""
    n = f.nodes[i]; ch = [x for x in n.get('c', ()) if x >= 0]
    c = call_of(f, i)
    if c is not None:
        h = F.head(c.callee)
        return True if h and h['q'] == 'h2d::err::printWarnings' else None
    if n['k'] == 'DeclRefExpr' and depth < 4:
        for x in f.nodes:
            if x['k'] == 'DeclStmt':
                for d in x.get('decls', ()):
                    if d['d'] == n.get('d') and d.get('i', -1) >= 0: return polarity(F, f, d['i'], depth + 1)
        return None
    if n['k'] == 'UnaryOperator' and n.get('op') == '!':
        p = polarity(F, f, ch[0], depth); return None if p is None else not p
    if n['k'] == 'BinaryOperator' and n.get('op') in ('==', '!=') and len(ch) == 2:
        for a, b in ((0, 1), (1, 0)):
            p = polarity(F, f, ch[a], depth); lit = f.nodes[ch[b]]
            while lit['k'] not in ('CXXBoolLiteralExpr', 'IntegerLiteral') and lit.get('c'): lit = f.nodes[lit['c'][0]]
            if p is not None and lit['k'] in ('CXXBoolLiteralExpr', 'IntegerLiteral'):
                v = lit.get('v') in (True, 1, '1', 'true')
                return p if v == (n['op'] == '==') else not p
        return None
    if n['k'] == 'BinaryOperator' and n.get('op') == '&&':
        for x in ch:
            if polarity(F, f, x, depth) is True: return True
        return None
    if len(ch) == 1: return polarity(F, f, ch[0], depth)
    return None

def stream_nodes(F, f):
    for i in live_nodes(f):
        n = f.nodes[i]
        if n['k'] == 'DeclRefExpr' and n.get('d') is not None:
            d = F.decls[n['d']]
            if d.get('q') in STREAM: yield i, d['q']
        c = call_of(f, i)
        if c is not None:
            h = F.head(c.callee)
            if h and STDIO.match(h['q']): yield i, h['q']

def block_of(f, i):
    """CFG blocks evaluating node i (or its nearest enclosing evaluated node)"""
    pos = f.elpos(); P = f.parents(); j = i
    while j is not None and j >= 0:
        if j in pos: return [b for b, _ in pos[j]]
        j = P.get(j) if isinstance(P, dict) else P[j]
    return []

def loud(f, i, F, exempt_guard=True):
    bs = block_of(f, i)
    if not bs: return bool(f.blocks()) is False
    doomed, guarded = exempt_blocks(F, f); rp = set(f.rpo())
    return any(b in rp and b not in doomed and not (exempt_guard and b in guarded) for b in bs)

def reach(F, direct, exempt_guard=None):
    """id -> chain (list of function names) to a direct source; call sites filtered when exempt_guard is not None"""
    E = effects(F); chain = {k: [v] for k, v in direct.items()}
    work = list(direct)
    while work:
        g = work.pop()
        for c in E.rcg.get(g, ()):
            if c in chain: continue
            f = F.byid[c]
            ok = exempt_guard is None
            if not ok:
                for k in calls(f):
                    if any(x is not None and x.id == g for x in callees_ids(f, k)) and loud(f, k.node, F, exempt_guard): ok = True
                if f.nodes and any(n['k'] == 'LambdaExpr' and g in (n.get('fns') or [n.get('fn')]) for n in f.nodes): ok = True
            if ok: chain[c] = [f.q] + chain[g]; work.append(c)
    return chain

def callees_ids(f, k):
    for x in callees_of(f, k):
        yield x if not isinstance(x, tuple) else x[0]

def permutes(F, f, i, h):
    """the write only moves existing points around: permuting algorithm, or assignment of values taken from the points themselves"""
    if h is not None and h['q'].split('::')[-1] in ('reverse', 'rotate', 'swap', 'iter_swap', 'swap_ranges'): return True
    import flow
    n = f.nodes[i]; c = call_of(f, i)
    rhs = (c.args[0] if c.obj is not None and c.args else None) if c is not None else (n['c'][1] if n['k'] == 'BinaryOperator' else None)
    if rhs is None: return False
    fl = flow.flow(F); fl._cur = f.id; fl._memo = {}; fl._busy = set()
    v = flow.vflat(fl.val(f, rhs))
    return bool(v) and all(flow.src(x)[:2] == ('this', '_plinevec') and flow.tag(x) == '' for x in v)

def run(cx):
    cfgs = ('svg', 'nowarn') if cx.tier == 'quick' else ('base', 'nowarn', 'svg', 'speed', 'nocheck', 'opencv', 'eigen', 'boost', 'float', 'ldld', 'prtp')
    for F in cx.extract(*cfgs):
        E = effects(F)
        # (2) + files
        for name, rx, allowed in (('non-determinism', NONDET, {'h2d::img::genRandomColors'}), ('file access', FILES, {'h2d::img::Image::write', 'h2d::img::Image::Image', 'h2d::img::Image::show'})):
            direct = {}
            for f in F.fns:
                for k in calls(f):
                    h = F.head(k.callee)
                    if h and (rx.search(h['q']) or (h.get('clsq') and rx.search(h['clsq']))): direct[f.id] = h['q'] + ' at homog2d.hpp:%d' % f.nodes[k.node]['l']
            ch = reach(F, {k: v for k, v in direct.items() if F.byid[k].q not in allowed})
            for f in F.fns:
                if not public(f): continue
                cx.check(f.id not in ch or f.q in allowed, '%s|%s' % (f.q, name), '%s (homog2d.hpp:%d, config %s): %s: %s' % (f.sig(), f.line, F.config, name, ' -> '.join(ch.get(f.id, []))), None)
        # (3)
        direct = {}
        for f in F.fns:
            for i, s in stream_nodes(F, f):
                if loud(f, i, F, F.config != 'nowarn'): direct[f.id] = '%s at homog2d.hpp:%d' % (s, f.nodes[i]['l']); break
        ch = reach(F, direct, F.config != 'nowarn')
        n = 0
        for f in F.fns:
            if not public(f): continue
            n += 1
            cx.check(f.id not in ch or PRINTERS.search(f.q), '%s|output' % f.q, '%s (homog2d.hpp:%d, config %s) prints although no exception follows%s: %s' % (f.sig(), f.line, F.config, '' if F.config == 'nowarn' else ' and without testing err::printWarnings()', ' -> '.join(ch.get(f.id, []))),
                     '%s: silent' % f.q)
        cx.need(n, 250, 'public functions (%s)' % F.config)
        # (1)
        for f in F.fns:
            if not public(f): continue
            for p in E.w[f.id]:
                if p[0] == 'this':
                    if not f.d.get('const'): continue
                    t = None
                elif p[0] == 'p':
                    if not F.pointee_const(f.params[p[1]]['t']) or F.t(f.params[p[1]]['t'])['k'] not in ('ref', 'ptr'): continue
                else: continue
                flds = [x for x in p[1:] if isinstance(x, str) and x not in ('[]', '*')]
                ok = any(c[0] in flds for c in CACHE)
                if '_plinevec' in flds: ok = f.name in NORMALIZING_POLY
                if '_mdata' in flds and '_hmt' not in flds: ok = f.name in NORMALIZING_MAT
                cx.check(ok, '%s|writes %s' % (f.q, '.'.join(map(str, p))), '%s (homog2d.hpp:%d, config %s): is not supposed to change %s, but may write %s' % (f.sig(), f.line, F.config, 'its object' if p[0] == 'this' else "its argument '%s'" % f.params[p[1]]['n'], '.'.join(flds) or 'it'),
                         '%s const writes only %s' % (f.q, '.'.join(flds)))
        # direct writers of the normalized form, inside const functions
        for f in F.fns:
            if not f.d.get('const') or f.cls is None: continue
            for i in live_nodes(f):
                for p, what in node_writes(f, i):
                    if p[0] == 'this' and len(p) > 1 and p[1] == '_plinevec':
                        c = call_of(f, i); h = F.head(c.callee) if c is not None else None
                        cx.check(permutes(F, f, i, h), '%s|permutes' % f.q, '%s (homog2d.hpp:%d, config %s): a const function changes the points other than by reversing or rotating their order' % (f.sig(), f.nodes[i]['l'], F.config), 'normalization only permutes points')
        # (4)
        settings = {p[1] for f in F.fns if f.q.startswith(('h2d::thr::', 'h2d::err::')) or f.name == 'p_getDefault' for p in ret_places(F, f) if p[0] == 'g'}
        cx.need(frozen(cx, F), 8, 'initializers of local statics (%s)' % F.config)
        for s in F.statics:
            cx.check(s['const'] or s['d'] in settings, 'static|' + s['q'], 'homog2d.hpp:%d (config %s): mutable static variable %s: results depend on the history of calls' % (s['line'], F.config, s['q']), 'static %s is a documented setting or counter' % s['q'])

def frozen(cx, F):
    """a constant local static is initialized by the first call only: its initializer may not depend on anything that varies"""
    mut = {s['d'] for s in F.statics if not s['const']}
    E = effects(F)
    dep = {f.id for f in F.fns if any(f.nodes[i]['k'] == 'DeclRefExpr' and f.nodes[i].get('d') in mut for i in live_nodes(f))}
    todo = list(dep)
    while todo:
        for c in E.rcg.get(todo.pop(), ()):
            if c not in dep: dep.add(c); todo.append(c)
    n = 0
    for f in F.fns:
        for i in live_nodes(f):
            x = f.nodes[i]
            if x['k'] != 'DeclStmt': continue
            for v in x.get('decls', ()):
                if not v.get('static'): continue
                n += 1; why = None; todo = [v['i']] if v.get('i', -1) >= 0 else []
                while todo and why is None:
                    k = todo.pop(); y = f.nodes[k]
                    todo += [c for c in y.get('c', ()) if c >= 0]
                    if y['k'] == 'CXXThisExpr': why = 'the object'
                    elif y['k'] == 'DeclRefExpr' and y.get('d') is not None:
                        d = F.decls[y['d']]
                        if d['k'] in ('param', 'local') or y['d'] in mut: why = 'the variable `%s`' % d.get('n')
                    c = call_of(f, k)
                    if c is not None and c.callee in dep: why = 'a setting (through %s)' % F.byid[c.callee].q
                cx.check(why is None, 'static|%s|%s' % (f.q, F.decls[v['d']].get('n')), '%s (homog2d.hpp:%d, config %s): the static constant keeps the value %s had at the first call' % (f.sig(), x['l'], F.config, why), 'static constants do not depend on the first call')
    return n
