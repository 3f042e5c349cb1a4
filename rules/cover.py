"""which elements of a container a loop, or a call of an algorithm, leaves out"""
import re
from core import *
CAST = ('CXXConstCastExpr', 'ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr')
ALGO = ('equal', 'all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'find', 'mismatch', 'for_each', 'accumulate', 'min_element', 'max_element', 'minmax_element', 'count_if', 'sort', 'stable_sort', 'transform', 'copy', 'fill', 'iota', 'is_sorted', 'lexicographical_compare')
FIRST = ('begin', 'cbegin'); LAST = ('end', 'cend')

def bare(f, i):
    while True:
        n = f.nodes[i]; ch = n.get('c', ())
        if n['k'] in CAST and ch: i = ch[0]; continue
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(ch) == 1: i = ch[0]; continue
        return i
def var(f, i):
    n = f.nodes[bare(f, i)]; return n.get('d') if n['k'] == 'DeclRefExpr' else None
def inits(f):
    """local variable -> its initialiser; variables assigned elsewhere (other than ++) are left out of the second map"""
    m = f._memo.get('cover')
    if m is None:
        m = ({}, {}); w = {}
        for n in f.nodes:
            if n['k'] == 'DeclStmt':
                for x in n.get('decls', ()):
                    if x.get('i', -1) is not None and x.get('i', -1) >= 0: m[0][x['d']] = x['i']
            elif n['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXOperatorCallExpr'):
                op = n.get('op') or ''
                if op in ('=', '+=', '-=', '++', '--', '*=', '/='):
                    a = n['c'][0] if n['k'] != 'CXXOperatorCallExpr' else (call_of(f, n['i']).obj if call_of(f, n['i']) is not None and call_of(f, n['i']).obj is not None else n['c'][0])
                    d = var(f, a)
                    if d is not None: w.setdefault(d, []).append((op, n['i']))
        m[1].update(w); f._memo['cover'] = m
    return m
def lin(F, f, i, depth=0):
    """(base, constant): base None for a constant, ('v', decl), ('size',)"""
    i = bare(f, i); n = f.nodes[i]
    k = const_int(f, i)
    if k is not None: return None, k
    if depth > 5: return ('?',), 0
    if n['k'] == 'DeclRefExpr' and n.get('d') is not None:
        I, W = inits(f)
        if n['d'] in I and n['d'] not in W:
            r = lin(F, f, I[n['d']], depth + 1)
            if r[0] is None or r[0][0] != '?': return r
        return ('v', n['d']), 0
    if n['k'] == 'BinaryOperator' and n['op'] in '+-':
        a, b = lin(F, f, n['c'][0], depth + 1), lin(F, f, n['c'][1], depth + 1)
        if b[0] is None: return a[0], a[1] + (b[1] if n['op'] == '+' else -b[1])
        if a[0] is None and n['op'] == '+': return b[0], a[1] + b[1]
        return ('?',), 0
    c = call_of(f, i)
    if c is not None and c.name == 'nbSegs' and c.obj is not None:
        r = root(f, c.obj); return (('size', r + ('getSegs',)), 0) if r else (('?',), 0)
    if c is not None and c.name in ('max', 'min') and len(c.args) == 2:
        r = [x for x in (lin(F, f, y, depth + 1) for y in c.args) if x[0] is not None]
        return r[0] if len(r) == 1 and r[0][0][0] == 'size' else (('?',), 0)
    if c is not None and c.name == 'size' and len(c.args) == (0 if c.obj is not None else 1):
        e = extent(F, f, c.obj if c.obj is not None else c.args[0])
        return (None, e) if e else (('size', root(f, c.obj if c.obj is not None else c.args[0])), 0)
    return ('?',), 0
def extent(F, f, i):
    if isinstance(i, tuple): return 3 if i[0] in ('row', 'col') else None
    s = F.t(F.strip(f.nodes[i]['t']))['s']
    m = re.search(r'std::array<.*, (\d+)(?:UL|ul)?>$', s) or re.search(r'\[(\d+)\]$', s)
    return int(m.group(1)) if m else None
DROP = ('_plinevec', 'getPts', 'begin', 'end', 'cbegin', 'cend', 'get', 'data', 'operator->', 'operator*', 'move', 'forward', 'as_const')
def root(f, i):
    """access path of the container whose elements are accessed: (this | parameter | local variable, names...)"""
    names = []
    for _ in range(20):
        i = bare(f, i); n = f.nodes[i]
        if n['k'] == 'CXXThisExpr': return (('this',),) + tuple(reversed(names))
        if n['k'] == 'DeclRefExpr':
            d = n.get('d'); I, W = inits(f)
            if d in f.pidx: return (('p', f.pidx[d]),) + tuple(reversed(names))
            if d in I and d not in W and f.facts.t(f.facts.decls[d]['t'])['k'] in ('lref', 'ref', 'rref'):
                r = root(f, I[d])
                if r is not None: return r + tuple(reversed(names))
            return (('v', d),) + tuple(reversed(names))
        c = call_of(f, i)
        if c is not None:
            if c.name not in DROP: names.append(c.name if not c.args or c.obj is None else c.name + '#%d' % i)
            if c.obj is not None: i = c.obj; continue
            if len(c.args) == 1: i = c.args[0]; continue
            return None
        if n['k'] == 'MemberExpr' and n.get('c'):
            if n.get('m') not in DROP: names.append(n.get('m'))
            i = n['c'][0]; continue
        if n['k'] == 'UnaryOperator' and n['op'] in '*&' and n.get('c'): i = n['c'][0]; continue
        if n['k'] == 'ArraySubscriptExpr': names.append('[%d]' % i); i = n['c'][0]; continue
        return None
    return None
def itpos(F, f, i, depth=0):
    """position of an iterator expression: ('b'|'e', root, offset)"""
    i = bare(f, i); n = f.nodes[i]; c = call_of(f, i)
    if depth > 5: return None
    if n['k'] == 'DeclRefExpr':
        I, W = inits(f)
        return itpos(F, f, I[n['d']], depth + 1) if n.get('d') in I and n['d'] not in W else None
    if c is None: return None
    if c.name in FIRST + LAST:
        o = c.obj if c.obj is not None else c.args[0] if len(c.args) == 1 else None
        r = root(f, o) if o is not None else None
        return ('b' if c.name in FIRST else 'e', r, 0) if r is not None else None
    a = ([c.obj] if c.obj is not None and c.kind == 'op' else []) + [x for x in c.args if f.nodes[x]['k'] != 'CXXDefaultArgExpr']
    if c.name in ('next', 'prev', 'operator+', 'operator-') and 1 <= len(a) <= 2:
        p = itpos(F, f, a[0], depth + 1); k = 1 if len(a) == 1 else const_int(f, bare(f, a[1]))
        if p is None or k is None: return None
        return p[0], p[1], p[2] + (k if c.name in ('next', 'operator+') else -k)
    return None
def index_access(F, f, x):
    """(object, index expression) of an element access"""
    n = f.nodes[x]
    if n['k'] == 'ArraySubscriptExpr': return n['c'][0], n['c'][1]
    c = call_of(f, x)
    if c is not None and c.obj is not None and len(c.args) == 1 and c.name in ('operator[]', 'at', 'getPoint', 'get', 'value') and F.t(F.strip(f.nodes[c.args[0]]['t']))['k'] == 'int': return c.obj, c.args[0]
    if c is not None and c.obj is not None and len(c.args) == 1 and c.name == 'getSegment': return ('getSegs', c.obj), c.args[0]
    return None
def accesses(F, f, x):
    a = index_access(F, f, x)
    if a is not None: return [a]
    c = call_of(f, x)
    if c is not None and c.obj is not None and len(c.args) == 2 and c.name in ('value', 'get', 'set') and re.search(r'detail::Matrix_|Hmatrix_', F.t(F.strip(f.nodes[c.obj]['t']))['s']) and all(F.t(F.strip(f.nodes[y]['t']))['k'] == 'int' for y in c.args):
        return [(('row', c.obj), c.args[0]), (('col', c.obj), c.args[1])]
    return []
def aroot(f, o):
    if isinstance(o, tuple):
        r = root(f, o[1]); return r + (o[0],) if r else None
    return root(f, o)
def writes(f, x):
    """the element accessed at node x is modified"""
    par = f.parents()
    while True:
        p = par[x]
        if p is None or p < 0: return False
        n = f.nodes[p]; c = call_of(f, p)
        if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): return n['c'][0] == x
        if n['k'] == 'UnaryOperator': return n['op'] in ('++', '--')
        if c is not None:
            g = f.facts.byid.get(c.callee)
            if c.obj is not None and (c.obj == x or n['c'][0] == x): 
                if g is not None: return not g.d.get('const') and not g.d.get('mstatic')
                if c.name not in ('operator[]', 'at', 'front', 'back', 'operator*', 'operator->'): return c.name.endswith('=') and c.name[8:] not in ('==', '!=', '<=', '>=') or c.name in ('push_back', 'set', 'swap')
            else: return False
        elif n['k'] not in CAST + ('MemberExpr', 'ArraySubscriptExpr'): return False
        x = p
def explicit(F, f, wr):
    """((container, k): k-th elements accessed (wr: modified) on its own, ... counted from the last one)"""
    fi, la = set(), set(); I, W = inits(f)
    for x in live_nodes(f):
        if wr and not writes(f, x): continue
        c = call_of(f, x)
        if c is not None and c.name in ('rbegin', 'crbegin') and c.obj is not None: la.add((root(f, c.obj), 0))
        if c is not None and c.name in ('front', 'back') and c.obj is not None: (fi if c.name == 'front' else la).add((root(f, c.obj), 0))
        n = f.nodes[x]
        if n['k'] == 'UnaryOperator' and n['op'] == '*' or c is not None and c.name in ('operator*', 'operator->') and c.kind == 'op' and not [y for y in c.args if y != c.obj]:
            y = n['c'][0] if n['k'] == 'UnaryOperator' else c.obj if c.obj is not None else n['c'][-1]; d = var(f, y)
            p = itpos(F, f, I[d] if d in I else y)
            if p and p[0] == 'b' and p[2] >= 0: fi.add((p[1], p[2]))
            if p and p[0] == 'e' and p[2] < 0: la.add((p[1], -1 - p[2]))
        for a in accesses(F, f, x):
            d = var(f, a[1]); b, k = lin(F, f, I[d] if d in I else a[1])
            if b is None and k >= 0: fi.add((aroot(f, a[0]), k))
            if b is not None and b[0] == 'size' and k < 0: la.add((aroot(f, a[0]), -1 - k))
            e = extent(F, f, a[0])
            if b is None and e: la.add((aroot(f, a[0]), e - 1 - k))
    return fi, la
def walks(F, f):
    """[(node, path, end, verdict)]: for each loop and algorithm call that walks a container, whether its first and last elements are visited ('ok'), left out ('skip'), exceeded ('out') or not decided ('?')"""
    m = f._memo.get('coverw')
    if m is not None: return m
    out = []; live = live_nodes(f); I, W = inits(f); ex = {}
    def add(node, r, end, off, wr=False, pair=False):
        """off: position of the first (last) element visited, relative to the first (last) one of the container; positive: inside. pair: consecutive elements are processed together"""
        if off is None: return out.append((node, r, end, '?'))
        if off > 0:
            if wr not in ex: ex[wr] = explicit(F, f, wr)
            return out.append((node, r, end, 'ok' if all((r, k) in ex[wr][0 if end == 'first' else 1] for k in range(off + (1 if pair else 0))) else 'skip'))
        out.append((node, r, end, 'ok' if off == 0 else 'out'))
    for n in f.nodes:
        if n['k'] == 'CXXForRangeStmt' and n.get('r') and n['r'].get('range', -1) >= 0:
            dr = f.nodes[n['r']['range']].get('decls', [])
            if len(dr) == 1 and dr[0].get('i', -1) >= 0:
                r = root(f, dr[0]['i']); out += [(n['i'], r, 'first', 'ok'), (n['i'], r, 'last', 'ok')]
            continue
        if n['k'] not in ('ForStmt', 'WhileStmt') or not n.get('r'): continue
        r = n['r']; body = r.get('body', -1); cond = r.get('cond', -1)
        if body is None or cond is None or body < 0 or cond < 0 or body not in live and cond not in live: continue
        sub = set(f.sub(n['i'])); inner = set(f.sub(body))
        decl_in = {x['d'] for y in inner if f.nodes[y]['k'] == 'DeclStmt' for x in f.nodes[y].get('decls', ())}
        nested = [set(f.sub(x)) for x in inner if f.nodes[x]['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')]
        # walkers: variables incremented in the loop and nowhere else
        for d, ws in W.items():
            if d not in I or len(ws) != 1 or ws[0][1] not in sub or d in decl_in or any(ws[0][1] in x for x in nested): continue
            step = 1 if ws[0][0] == '++' else const_int(f, bare(f, f.nodes[ws[0][1]]['c'][-1])) if ws[0][0] == '+=' else None
            if step is None or step < 1 or guarded(f, ws[0][1], n['i'], None): continue
            t = F.decls[d].get('t')
            if t is not None and F.is_iter(t):
                p = itpos(F, f, I[d]); offs = {0}
                for x in sub:
                    c = call_of(f, x)
                    if c is None or c.name not in ('next', 'prev', 'operator+', 'operator-'): continue
                    a = ([c.obj] if c.obj is not None and c.kind == 'op' else []) + [y for y in c.args if f.nodes[y]['k'] != 'CXXDefaultArgExpr']
                    if a and var(f, a[0]) == d:
                        k = 1 if len(a) == 1 else const_int(f, bare(f, a[1]))
                        if k is not None: offs.add(k if c.name in ('next', 'operator+') else -k)
                if p and p[0] == 'b' and step == 1: add(n['i'], p[1], 'first', max(p[2] + min(offs), min(p[2], 0)), False, len(offs) > 1)
                q = comparison(F, f, cond, d)
                if q is not None and step == 1:
                    p = itpos(F, f, q[1])
                    if p and p[0] == 'e' and q[0] in ('!=', '<'): add(n['i'], p[1], 'last', max(-p[2] - max(offs), min(-p[2], 0)), False, len(offs) > 1)
                continue
            b0, c0 = lin(F, f, I[d])
            if b0 is not None: continue
            q = comparison(F, f, cond, d); acc = {}; wrs = set()
            for x in sub:
              for a in accesses(F, f, x) if x in live else ():
                b, k = lin(F, f, a[1]); R = aroot(f, a[0])
                if R is None: continue
                if writes(f, x): wrs.add(R)
                if b == ('v', d): acc.setdefault(R, []).append((k, extent(F, f, a[0]), guarded(f, x, n['i'], d)))
                elif d in {f.nodes[z].get('d') for z in f.sub(a[1])} or any(f.nodes[z].get('d') in decl_in for z in f.sub(a[1])): acc.setdefault(R, []).append((None, wraps(f, a[1], I, decl_in), True))
            for R, ks in acc.items():
                unk = [k for k in ks if k[0] is None]; ks = [k for k in ks if k[0] is not None]
                if not ks: add(n['i'], R, 'first', None); continue
                if all(k[1] for k in unk): unk = []      # consecutive pairs, wrapped around: the plain index has to go through all of them
                lo, hi = min(k for k, _, _ in ks), max(k for k, _, _ in ks); low = lo
                if step > 1 and not unk and {k for k, _, _ in ks} < set(range(lo, lo + step)): out.append((n['i'], R, 'step', 'skip')); continue
                if c0 + lo > 0: add(n['i'], R, 'first', None if unk else c0 + lo, R in wrs, hi > lo)
                else:
                    lo = [k for k, _, g in ks if not g]
                    if lo: add(n['i'], R, 'first', min(0, c0 + min(lo)))
                if q is None or step > 1 or q[0] not in ('<', '!=', '<='): add(n['i'], R, 'last', None); continue
                bb, kb = lin(F, f, q[1]); last = kb - q[2] + (-1 if q[0] in ('<', '!=') else 0)
                es = {e for _, e, _ in ks}; top = [k for k, _, g in ks if not g]
                if bb == ('size', R): end = -1
                elif bb is None and len(es) == 1 and None not in es: end = min(es) - 1
                else: add(n['i'], R, 'last', None); continue
                if last + hi < end: add(n['i'], R, 'last', None if unk else end - last - hi, R in wrs, hi > low)
                elif top: add(n['i'], R, 'last', min(0, end - last - max(top)))
    for x in live:
        c = call_of(f, x)
        if c is None or c.kind != 'free' or c.name not in ALGO or c.callee in F.byid: continue
        ps = [p for p in (itpos(F, f, a) for a in c.args) if p]
        for r in {p[1] for p in ps}:
            bs = [p[2] for p in ps if p[1] == r and p[0] == 'b']; es = [p[2] for p in ps if p[1] == r and p[0] == 'e']
            if bs: add(x, r, 'first', max(min(bs), 0))
            if es: add(x, r, 'last', max(-max(es) - (max(bs) - min(bs) if bs else 0), 0))
    f._memo['coverw'] = out
    return out
def guarded(f, x, loop, d):
    """node x, in the loop, is evaluated under a condition (d given: one that may restrict variable d)"""
    par = f.parents()
    def mentions(c): return d is None or c is not None and c >= 0 and any(f.nodes[z]['k'] == 'DeclRefExpr' and f.nodes[z].get('d') is not None for z in f.sub(c))
    y = x
    while y != loop:
        p = par[y]
        if p is None or p < 0: return True
        n = f.nodes[p]
        if n['k'] in ('IfStmt', 'SwitchStmt', 'ConditionalOperator') and n['c'][0] != y and mentions(n['c'][0]): return True
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and n['c'][1] == y and mentions(n['c'][0]): return True
        if p != loop and n['k'] in ('ForStmt', 'WhileStmt') and d is None: return True
        if n['k'] == 'CXXCatchStmt' or n['k'] == 'LambdaExpr': return True
        y = p
    # a jump before it
    r = f.nodes[loop]['r'].get('body', -1)
    if r is not None and r >= 0:
        for z in f.sub(r):
            if f.nodes[z]['k'] in ('ContinueStmt',) or d is not None and f.nodes[z]['k'] in ('BreakStmt', 'ReturnStmt', 'CXXThrowExpr') and z < x: return True
    return False
def wraps(f, i, I, loc):
    """the index expression i goes back to the other end"""
    st = [i]; seen = set()
    while st:
        for z in f.sub(st.pop()):
            n = f.nodes[z]
            if n['k'] == 'ConditionalOperator' or n['k'] == 'BinaryOperator' and n['op'] == '%': return True
            d = n.get('d') if n['k'] == 'DeclRefExpr' else None
            if d in loc and d in I and d not in seen: seen.add(d); st.append(I[d])
    return False
def skipped(F, f): return [(n, r, e) for n, r, e, v in walks(F, f) if v == 'skip']
def comparison(F, f, i, d):
    """the conjunct (operator, bound, offset) of condition i that bounds variable d from above; None if there is none or several"""
    i = bare(f, i); n = f.nodes[i]
    if n['k'] == 'BinaryOperator' and n['op'] == '&&':
        r = [y for y in (comparison(F, f, x, d) for x in n['c']) if y]; return r[0] if len(r) == 1 else None
    if n['k'] == 'BinaryOperator': op, a = n['op'], n['c'][:2]
    else:
        c = call_of(f, i)
        if c is None or c.kind != 'op': return None
        op = c.name[8:]; a = ([c.obj] if c.obj is not None else []) + list(c.args)
    if op not in ('<', '<=', '!=', '>', '>=') or len(a) != 2: return None
    l, r = lin(F, f, a[0]), lin(F, f, a[1])
    if l[0] == ('v', d): return (op, a[1], l[1]) if op in ('<', '<=', '!=') else None
    if r[0] == ('v', d): return ({'>': '<', '>=': '<=', '!=': '!='}[op], a[0], r[1]) if op in ('>', '>=', '!=') else None
    return None
def closure(F, f, ok):
    """f and the functions it executes, through calls to functions accepted by ok"""
    out = [f]; seen = {f.id}
    for g in out:
        for c in calls(g):
            for h, _ in callees_of(g, c):
                if h.id not in seen and h.blocks() and (h.lambda_ or ok(h)): seen.add(h.id); out.append(h)
    return out
def report(cx, F, f, what, ok=None, seen=None):
    """the loops of f (and of the functions with a boolean result it executes) visit every element"""
    n = 0
    for g in closure(F, f, ok or (lambda h: F.t(h.ret)['s'] == 'bool')):
        if seen is not None:
            if g.id in seen: continue
            seen.add(g.id)
        for node, r, end, v in walks(F, g):
            if v == '?': continue
            n += 1; l = g.nodes[node].get('l', g.line)
            cx.check(v == 'ok', '%s:%s:%s' % (g.q, end, v), lambda: '%s (homog2d.hpp:%d, config %s): the loop at line %d %s' % (g.sig(), g.line, F.config, l, text(v, end, what)), '%s: loop at line %d, %s element' % (g.sig(), l, end))
    return n
def text(v, end, what):
    if v == 'out': return 'goes %s element of the container' % ('before the first' if end == 'first' else 'beyond the last')
    if end == 'step': return 'steps over elements, %s' % what
    return 'leaves the %s element out, %s' % (end, what)
