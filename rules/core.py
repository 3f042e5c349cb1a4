"""Resolved-program model on top of the h2dfacts JSON: functions, typed syntax
trees, control-flow graphs, places (access paths), call resolution, effect
summaries and a small dataflow engine.  Everything here looks only at the
type-checked program; nothing matches source text."""
import json, collections, re

READ_CASTS = {'LValueToRValue'}

def strip_targs(q):
    """qualified name without template arguments"""
    m = re.search(r'operator\s*[<>=!+\-*/|&^%()\[\]]+.*$', q)
    tail = ''
    if m: q, tail = q[:m.start()], m.group(0)
    if m and tail.startswith('operator<') and tail not in ('operator<', 'operator<<', 'operator<=', 'operator<<='):
        mm = re.match(r'operator<<?=?', tail); tail = mm.group(0)
    out = []; d = 0
    for ch in q:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out) + tail

class Fn:
    __slots__ = ('d', 'id', 'name', 'q', 'pl', 'line', 'cls', 'clsq', 'nodes', 'parent', 'pidx', 'params', 'body',
                 'cfgd', 'facts', '_blocks', '_order', '_vt', '_memo', 'inits', 'ret', 'const', 'lambda_', '_elpos', '_dom', '_pdom', 'static_', 'outer')

    def __init__(self, d, facts):
        self.d = d
        self.facts = facts
        self.id = d['id']; self.name = d['name']; self.q = strip_targs(d['q']); self.pl = d['pl']; self.line = d['line']
        self.cls = d.get('cls'); self.clsq = strip_targs(d['clsq']) if d.get('clsq') else None
        self.nodes = d['nodes']
        self.params = d['params']
        self.pidx = {p['d']: i for i, p in enumerate(self.params)}
        self.body = d['body']
        self.inits = d.get('inits', [])
        self.ret = d['ret']
        self.const = d.get('const', False)
        self.static_ = d.get('mstatic', False)
        self.lambda_ = d.get('lambda', 0)
        self.cfgd = d.get('cfg')
        self.parent = None
        self._blocks = None; self._vt = None; self._memo = {}; self._elpos = None; self._dom = None; self._pdom = None
        self.outer = None

    def n(self, i):
        return self.nodes[i]

    def kids(self, i):
        return self.nodes[i].get('c', ())

    def parents(self):
        if self.parent is None:
            p = [-1] * len(self.nodes)
            for x in self.nodes:
                for c in x.get('c', ()):
                    if c >= 0:
                        p[c] = x['i']
            self.parent = p
        return self.parent

    def sub(self, i):
        """all node ids in the subtree of i (pre-order)"""
        out = []; st = [i]; seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen: continue
            seen.add(x); out.append(x)
            st.extend(reversed(self.nodes[x].get('c', ())))
        return out

    def all_roots(self):
        r = [self.body]
        r += [i['e'] for i in self.inits if i.get('e', -1) is not None and i.get('e', -1) >= 0]
        return r

    def loc(self, i):
        return "homog2d.hpp:%d" % self.nodes[i]['l']

    def sig(self):
        T = self.facts.tname
        return "%s(%s)%s" % (self.q, ", ".join(T(p['t']) for p in self.params), " const" if self.const else "")

    # ---- CFG
    def blocks(self):
        if self._blocks is None:
            self._blocks = {b['b']: b for b in (self.cfgd or {}).get('blocks', [])}
            for b in self._blocks.values():
                b['eh'] = []
                tk = b.get('tk')
                if tk == 'CXXTryStmt': b['eh'] = [x for x in b['s'] if x >= 0]; b['s'] = []
                elif tk is None and len(b['s']) > 1: b['eh'] = [x for x in b['s'][1:] if x >= 0]; b['s'] = b['s'][:1]
                if tk is None and self.is_throw_block(b): b['eh'] = b['eh'] + [x for x in b['s'] if x >= 0]; b['s'] = []
                if 'cv' in b and tk in ('IfStmt', 'ConditionalOperator', 'BinaryOperator', 'WhileStmt', 'ForStmt', 'DoStmt') and len(b['s']) == 2:
                    # branch decided at compile time (if constexpr, constant condition)
                    dead = 1 if b['cv'] else 0
                    b['s'] = [(-1 if k == dead else x) for k, x in enumerate(b['s'])]
        return self._blocks


    def rpo(self):
        m = self._memo.get('rpo')
        if m is None:
            B = self.blocks(); seen = set(); out = []
            if B:
                st = [(self.cfgd['entry'], iter([s for s in B[self.cfgd['entry']]['s'] if s >= 0]))]
                seen.add(self.cfgd['entry'])
                while st:
                    b, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s); st.append((s, iter([x for x in B[s]['s'] if x >= 0])))
                            break
                    else:
                        out.append(b); st.pop()
            m = out[::-1]
            self._memo['rpo'] = m
        return m

    def preds(self):
        m = self._memo.get('preds')
        if m is None:
            m = collections.defaultdict(list)
            for b in self.blocks().values():
                for s in b['s']:
                    if s >= 0: m[s].append(b['b'])
            self._memo['preds'] = m
        return m

    def is_throw_block(self, b):
        for e in reversed(b['e']):
            if isinstance(e, int):
                return self.nodes[e]['k'] == 'CXXThrowExpr'
        return False

    def doms(self):
        """block -> set of dominating blocks"""
        if self._dom is None:
            self._dom = _dominators(self.rpo(), self.cfgd['entry'], self.preds())
        return self._dom

    def elpos(self):
        """node id -> list of (block, index) where it is evaluated"""
        if self._elpos is None:
            m = {}
            for b in self.blocks().values():
                for k, e in enumerate(b['e']):
                    if isinstance(e, int): m.setdefault(e, []).append((b['b'], k))
                    elif 'e' in e and e['e'] is not None and e['e'] >= 0: m.setdefault(e['e'], []).append((b['b'], k))
            self._elpos = m
        return self._elpos


def _dominators(rpo, entry, preds):
    allb = set(rpo)
    dom = {b: set(allb) for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry: continue
            ps = [dom[p] for p in preds.get(b, ()) if p in dom]
            nd = set.intersection(*ps) if ps else set()
            nd = nd | {b}
            if nd != dom[b]:
                dom[b] = nd; ch = True
    return dom


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.errors = d['errors']
        self.types = d['types']; self.decls = d['decls']; self.records = d['records']; self.statics = d['statics']
        self.enums = d['enums']; self.patterns = d['patterns']
        self.heads = {c['id']: c for c in d['callees']}
        for c in self.heads.values():
            c['q'] = strip_targs(c['q'])
            if c.get('clsq'): c['clsq'] = strip_targs(c['clsq'])
        for f in d['functions']: f['fullq'] = f['q']; f['q'] = strip_targs(f['q'])
        self.fns = []
        self.byid = {}
        for f in d['functions']:
            if f['q'].startswith('drv::') : continue
            fn = Fn(f, self)
            self.fns.append(fn); self.byid[fn.id] = fn
        self.driver = [Fn(f, self) for f in d['functions'] if f['q'].startswith('drv::')]
        self.recs = {r['name']: r for r in self.records}
        for r in self.records: r['fullq'] = r['q']; r['q'] = strip_targs(r['q'])
        for t in self.types:
            if t.get('q'): t['q'] = strip_targs(t['q'])
        self.byq = collections.defaultdict(list)
        for f in self.fns: self.byq[f.q].append(f)
        # lambda -> enclosing function
        for f in self.fns:
            for n in f.nodes:
                if n['k'] == 'LambdaExpr':
                    for h in n.get('fns') or [n.get('fn')]:
                        g = self.byid.get(h)
                        if g is not None: g.outer = f
        self._eff = None
        self._ret = None

    # ---- types
    def t(self, i): return self.types[i] if i is not None and i >= 0 else {'s': '?', 'k': '?'}
    def tname(self, i): return self.t(i)['s']
    def strip(self, i):
        """type id without reference"""
        t = self.t(i)
        return t['p'] if t['k'] in ('ref', 'rref') else i
    def recq(self, i):
        """qualified record name of type (through ref/const), or None"""
        t = self.t(self.strip(i))
        return t.get('q') if t['k'] == 'rec' else None
    def is_ref(self, i): return self.t(i)['k'] in ('ref', 'rref')
    def is_ptr(self, i): return self.t(i)['k'] == 'ptr'
    def pointee_const(self, i):
        t = self.t(i)
        return bool(t.get('pc')) if t['k'] in ('ref', 'rref', 'ptr') else True
    def is_std(self, q): return q is not None and (q.startswith('std::') or q.startswith('__gnu') or q.startswith('boost::') or q.startswith('cv::') or q.startswith('Eigen::') or q.startswith('tinyxml2::'))
    def is_iter(self, i):
        t = self.t(self.strip(i)); q = t.get('q', '') or ''
        return t['k'] == 'ptr' or 'iterator' in q
    def is_smart(self, i):
        q = self.t(self.strip(i)).get('q', '') or ''
        return q in ('std::unique_ptr', 'std::shared_ptr')
    def bases(self, tid):
        t = self.t(self.strip(tid))
        return t.get('b', [])

    def head(self, fid):
        f = self.byid.get(fid)
        return f.d if f else self.heads.get(fid)


# --------------------------------------------------------------------------
# calls

class Call:
    __slots__ = ('fn', 'node', 'callee', 'head', 'obj', 'objarrow', 'args', 'name', 'kind')

CALLK = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'UserDefinedLiteral')

def call_of(f, i):
    """Call descriptor for node i, or None"""
    n = f.nodes[i]; k = n['k']
    if k not in CALLK: return None
    memo = f._memo.setdefault('calls', {})
    if i in memo: return memo[i]
    F = f.facts
    c = Call(); c.fn = f; c.node = i; c.callee = n.get('fn'); c.head = F.head(c.callee) if c.callee else None
    c.obj = None; c.objarrow = False; c.args = []
    ch = n.get('c', ())
    if k == 'CXXOperatorCallExpr':
        if n.get('mem'):
            c.obj = ch[0]; c.args = list(ch[1:])
        else:
            c.args = list(ch)
        c.kind = 'op'
    elif k == 'CXXMemberCallExpr':
        me = f.nodes[ch[0]]
        while me['k'] not in ('MemberExpr',) and me.get('c'): me = f.nodes[me['c'][0]]
        if me['k'] == 'MemberExpr' and me.get('c'):
            c.obj = me['c'][0]; c.objarrow = bool(me.get('ar'))
        c.args = list(ch[1:]); c.kind = 'mem'
        if c.callee is None and me.get('fn'): c.callee = me['fn']; c.head = F.head(c.callee)
    elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        c.args = list(ch); c.kind = 'ctor'
    else:
        c.args = list(ch[1:]); c.kind = 'free'
        if c.callee is None and ch:
            x = f.nodes[ch[0]]
            c.obj = ch[0]; c.kind = 'indirect'
    c.name = c.head['name'] if c.head else '?'
    memo[i] = c
    return c

def calls(f):
    m = f._memo.get('allcalls')
    if m is None:
        m = []
        live = live_nodes(f)
        for n in f.nodes:
            if n['i'] in live:
                c = call_of(f, n['i'])
                if c: m.append(c)
        f._memo['allcalls'] = m
    return m

def live_nodes(f):
    """nodes reachable from body/inits (excludes unevaluated/dead wrappers)"""
    m = f._memo.get('live')
    if m is None:
        m = set()
        for r in f.all_roots():
            if r is not None and r >= 0: m.update(f.sub(r))
        f._memo['live'] = m
    return m

# --------------------------------------------------------------------------
# places

MAXP = 7
THIS = ('this',)

def ext(p, *fs):
    q = p + fs
    return q if len(q) <= MAXP + 2 else q[:MAXP + 2]

STD_ELEM = {'at', 'front', 'back', 'operator[]', 'top', 'value', 'operator*', 'operator->', 'data', 'c_str'}
STD_ITER = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'find', 'lower_bound', 'upper_bound', 'insert', 'erase', 'emplace'}
STD_CONSTLIKE_MUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'resize', 'reserve', 'insert', 'erase', 'emplace', 'assign', 'swap', 'fill', 'push', 'pop', 'reset', 'push_front', 'pop_front', 'emplace_front', 'sort', 'reverse', 'unique', 'remove', 'splice', 'merge', 'shrink_to_fit', 'operator=', 'operator+=', 'append', 'release'}
# algorithms that write through an argument: name -> indices of arguments written (None: all iterator args)
STD_ALGO_WRITE = {'sort': (0, 1), 'stable_sort': (0, 1), 'reverse': (0, 1), 'rotate': (0, 1, 2), 'fill': (0, 1), 'fill_n': (0,), 'iota': (0, 1), 'swap': (0, 1),
                  'iter_swap': (0, 1), 'copy': (2,), 'copy_n': (2,), 'copy_if': (2,), 'copy_backward': (2,), 'move_backward': (2,), 'transform': (2, 3), 'generate': (0, 1), 'unique': (0, 1),
                  'remove': (0, 1), 'remove_if': (0, 1), 'replace': (0, 1), 'replace_if': (0, 1), 'nth_element': (0, 1, 2), 'partial_sort': (0, 1, 2), 'shuffle': (0, 1),
                  'random_shuffle': (0, 1), 'partition': (0, 1), 'swap_ranges': (0, 1, 2), 'merge': (4,), 'exchange': (0,), 'for_each': (0, 1), 'set_union': (4,), 'reverse_copy': (2,), 'rotate_copy': (3,), 'getline': (0, 1), 'make_heap': (0, 1), 'sort_heap': (0, 1), 'pop_heap': (0, 1), 'push_heap': (0, 1), 'stable_partition': (0, 1), 'adjacent_difference': (2,), 'partial_sum': (2,)}
STD_RETARG = {'move', 'forward', 'as_const', 'addressof', 'next', 'prev', 'min', 'max', 'find', 'find_if', 'min_element', 'max_element', 'lower_bound', 'upper_bound', 'unique', 'remove_if', 'ref', 'cref', 'adjacent_find', '__addressof', 'move_if_noexcept', 'find_if_not', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'back_inserter', 'make_move_iterator', 'partition', 'nth_element'}

def _vinfo(f):
    """decl id -> list of init/assigned expression nodes (flow-insensitive), and decomposition info"""
    if f._vt is None:
        vi = collections.defaultdict(list); bind = {}; rng = {}
        for n in f.nodes:
            if n['k'] == 'DeclStmt':
                for d in n.get('decls', ()):
                    if d.get('i', -1) >= 0: vi[d['d']].append(d['i'])
                    for k, b in enumerate(d.get('bind', ())):
                        bind[b['d']] = (d['d'], k, b.get('e', -1))
            elif n['k'] == 'BinaryOperator' and n.get('op') == '=':
                l = f.nodes[n['c'][0]]
                if l['k'] == 'DeclRefExpr' and 'd' in l: vi[l['d']].append(n['c'][1])
            elif n['k'] == 'CXXOperatorCallExpr' and n.get('op') in ('=',):
                l = f.nodes[n['c'][0]]
                if l['k'] == 'DeclRefExpr' and 'd' in l: vi[l['d']].append(n['c'][1])
            elif n['k'] == 'CallExpr' and len(n.get('c', ())) == 3:
                a, b = f.nodes[n['c'][1]], f.nodes[n['c'][2]]
                if a['k'] == b['k'] == 'DeclRefExpr' and 'd' in a and 'd' in b and f.facts.is_iter(a['t']) and (f.facts.head(n.get('fn')) or {}).get('name') == 'swap':
                    vi[a['d']].append(b['i']); vi[b['d']].append(a['i'])
        f._vt = (vi, bind)
    return f._vt

def const_int(f, i):
    n = f.nodes[i]
    while n['k'] in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'ConstantExpr') and n.get('c'): n = f.nodes[n['c'][0]]
    if n['k'] == 'IntegerLiteral': return int(n['v'])
    return None

def elem(f, c):
    """path component of an element access: constant indices of fixed-size arrays are kept apart"""
    if c.args and 'std::array' in (f.facts.recq(f.nodes[c.obj]['t']) or ''):
        k = const_int(f, c.args[0])
        if k is not None: return '[%d]' % k
    return '[]'

def pcompat(a, b):
    return a == b or (a == '[]' and b[:1] == '[') or (b == '[]' and a[:1] == '[')

def pprefix(a, b):
    """path a may be a prefix of path b"""
    return len(a) <= len(b) and all(x == y or pcompat(x, y) for x, y in zip(a, b))

def _declof(F, d): return F.decls[d]

def lval(f, i, _depth=0):
    """set of places the (g)lvalue expression may denote"""
    memo = f._memo.setdefault('lval', {})
    r = memo.get(i)
    if r is not None: return r
    memo[i] = frozenset()          # recursion guard
    r = frozenset(_lval(f, i))
    memo[i] = r
    return r

def ptr(f, i):
    """places a pointer/iterator valued expression may point to"""
    memo = f._memo.setdefault('ptr', {})
    r = memo.get(i)
    if r is not None: return r
    memo[i] = frozenset()
    r = frozenset(_ptr(f, i))
    memo[i] = r
    return r

def var_place(f, d):
    """places denoted by the variable declared as d, in function f"""
    F = f.facts
    D = F.decls[d]
    if d in f.pidx:
        i = f.pidx[d]
        if F.is_ref(f.params[i]['t']): return frozenset([('p', i)])
        return frozenset([('d', d)])
    if D['k'] in ('global', 'slocal'): return frozenset([('g', d)])
    if D['k'] == 'enum': return frozenset()
    vi, bind = _vinfo(f)
    if d in bind:
        base, k, e = bind[d]
        out = set()
        nm = ('first', 'second')[k] if k < 2 else 'b%d' % k
        for p in var_place(f, base): out.add(ext(p, nm))
        return frozenset(out)
    if F.is_ref(D['t']):
        out = set()
        if d in vi:
            for e in vi[d]: out |= lval(f, e)
        elif f.outer is not None:        # captured
            return frozenset([('cap', d)])
        return frozenset(out) if out else frozenset([('d', d)])
    if f.lambda_ and f.outer is not None and not _declared_in(f, d):
        return frozenset([('cap', d)])
    return frozenset([('d', d)])

def _declared_in(f, d):
    m = f._memo.get('declared')
    if m is None:
        m = set(f.pidx)
        for n in f.nodes:
            if n['k'] == 'DeclStmt':
                for x in n.get('decls', ()):
                    m.add(x['d'])
                    for b in x.get('bind', ()): m.add(b['d'])
            elif n['k'] == 'CXXCatchStmt' and 'd' in n: m.add(n['d'])
        f._memo['declared'] = m
    return d in m

def var_ptr(f, d):
    """places the pointer/iterator variable d may point to (flow-insensitive)"""
    F = f.facts
    memo = f._memo.setdefault('vptr', {})
    if d in memo: return memo[d]
    memo[d] = frozenset()
    out = set()
    vi, bind = _vinfo(f)
    if d in f.pidx:
        i = f.pidx[d]
        out.add(('p', i, '*') if not F.is_ref(f.params[i]['t']) or True else ('p', i))
    elif f.lambda_ and not _declared_in(f, d):
        out.add(('cap', d, '*'))
    for e in vi.get(d, ()):
        out |= ptr(f, e)
    memo[d] = frozenset(out)
    return memo[d]

def _lval(f, i):
    n = f.nodes[i]; k = n['k']; F = f.facts; ch = n.get('c', ())
    if k == 'DeclRefExpr':
        if 'd' in n: return var_place(f, n['d'])
        return ()
    if k == 'MemberExpr':
        if 'd' not in n: return lval(f, ch[0]) if ch else ()
        b = ptr(f, ch[0]) if n.get('ar') else lval(f, ch[0])
        out = [ext(p, n['m']) for p in b]
        fd = F.decls[n['d']]
        if fd.get('k') == 'field' and F.is_ref(fd['t']): out = [ext(p, n['m'], '*') for p in b]
        return out
    if k == 'ArraySubscriptExpr':
        a = f.nodes[ch[0]]
        if a['k'] == 'ImplicitCastExpr' and a.get('ck') == 'ArrayToPointerDecay':
            return [ext(p, '[]') for p in lval(f, a['c'][0])]
        return [ext(p, '[]') for p in ptr(f, ch[0])]
    if k == 'UnaryOperator':
        op = n['op']
        if op == '*': return ptr(f, ch[0])
        if op in ('++', '--'): return lval(f, ch[0])
        return [('tmp', i)]
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        if n['op'] == ',': return lval(f, ch[1])
        if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): return lval(f, ch[0])
        return [('tmp', i)]
    if k == 'ConditionalOperator':
        return set(lval(f, ch[1])) | set(lval(f, ch[2]))
    if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'CXXDynamicCastExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'CXXStdInitializerListExpr'):
        ck = n.get('ck')
        if ck in ('UserDefinedConversion', 'ConstructorConversion') : return lval(f, ch[0]) if n.get('lv') else [('tmp', i)]
        if ch and ch[0] >= 0: return lval(f, ch[0])
        return [('tmp', i)]
    if k == 'CXXThisExpr': return [THIS]
    if k == 'LambdaExpr': return [('tmp', i)]
    c = call_of(f, i)
    if c is not None:
        if c.kind == 'ctor':
            # move/copy elision of a reference-like: a fresh object
            return [('tmp', i)]
        if not n.get('lv') : return [('tmp', i)]
        h = c.head
        if c.kind == 'op':
            op = n.get('op')
            if op in ('=', '+=', '-=', '*=', '/=', '<<', '>>', '++', '--') and (h is None or not h.get('inhdr') or h['id'] not in F.byid):
                x = c.obj if c.obj is not None else c.args[0]
                return lval(f, x)
            if op == '[]' and c.obj is not None and (h is None or not h.get('inhdr')):
                return [ext(p, elem(f, c)) for p in (lval(f, c.obj) if not F.is_iter(f.nodes[c.obj]['t']) else ptr(f, c.obj))]
            if op == '*' and c.obj is not None and len(c.args) == 0 and (h is None or not h.get('inhdr')):
                return ptr(f, c.obj)
        g = F.byid.get(c.callee)
        if g is not None:
            out = set()
            for p in ret_places(F, g): out |= map_place(f, c, p)
            return out or [('tmp', i)]
        if h is not None and not h.get('inhdr'):
            if c.kind in ('mem', 'op') and c.obj is not None:
                b = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
                if c.name == 'at': return [ext(p, elem(f, c)) for p in b]
                if c.name in STD_ELEM or c.name in STD_ITER: return [ext(p, '[]') for p in b]
                return set(b)
            if c.name == 'get' and c.args:
                ta = (h.get('targs') or '').split(';')[0]
                nm = {'0': 'first', '1': 'second'}.get(ta, 'get')
                return [ext(p, nm) for p in lval(f, c.args[0])]
            out = set()
            for a in c.args: out |= lval(f, a)
            return out
        if h is not None and h.get('inhdr'):
            # declared in the header but no body seen (defaulted): assignment operators return *this
            if c.obj is not None: return ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
        return [('tmp', i)]
    return [('tmp', i)]

def _ptr(f, i):
    n = f.nodes[i]; k = n['k']; F = f.facts; ch = n.get('c', ())
    if k == 'CXXThisExpr': return [THIS]
    if k == 'DeclRefExpr':
        if 'd' in n:
            D = F.decls[n['d']]
            if D['k'] in ('global', 'slocal'): return [('g', n['d'], '*')]
            if n['d'] not in f.pidx and F.is_smart(D['t']): return [('d', n['d'], '*')]
            if F.t(D['t'])['k'] == 'arr': return [ext(p, '[]') for p in var_place(f, n['d'])]
            vi, bind = _vinfo(f)
            if n['d'] in bind: return [ext(p, '*') for p in var_place(f, n['d'])]
            return var_ptr(f, n['d'])
        return ()
    if k == 'MemberExpr': return [ext(p, '*') for p in lval(f, i)]
    if k == 'UnaryOperator':
        if n['op'] == '&': return lval(f, ch[0])
        if n['op'] in ('++', '--'): return ptr(f, ch[0])
        if n['op'] == '*': return [ext(p, '*') for p in ptr(f, ch[0])]
        return ()
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        if n['op'] in ('+', '-', '+=', '-='): return set(ptr(f, ch[0])) | (set(ptr(f, ch[1])) if F.is_ptr(f.nodes[ch[1]]['t']) else set())
        if n['op'] in ('=', ','): return ptr(f, ch[1])
        return ()
    if k == 'ConditionalOperator': return set(ptr(f, ch[1])) | set(ptr(f, ch[2]))
    if k == 'ImplicitCastExpr' and n.get('ck') == 'ArrayToPointerDecay': return [ext(p, '[]') for p in lval(f, ch[0])]
    if k in ('CXXNewExpr',): return [('tmp', i)]
    c = call_of(f, i)
    if c is not None:
        h = c.head
        g = F.byid.get(c.callee)
        if c.kind == 'ctor':
            out = set()
            for a in c.args:
                if F.is_iter(f.nodes[a]['t']) or F.is_smart(f.nodes[a]['t']): out |= ptr(f, a)
            return out
        if g is not None:
            out = set()
            for p in ret_places(F, g): out |= map_place(f, c, p)
            return out
        if h is not None and not h.get('inhdr'):
            if c.kind in ('mem', 'op') and c.obj is not None:
                ot = f.nodes[c.obj]['t']
                if F.is_smart(ot):
                    return [ext(p, '*') for p in lval(f, c.obj)]
                if F.is_iter(ot) and not c.objarrow:
                    return ptr(f, c.obj)
                b = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
                return [ext(p, '[]') for p in b]
            out = set()
            for a in c.args:
                at = f.nodes[a]['t']
                if F.is_iter(at): out |= ptr(f, a)
                elif c.name in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'addressof', '__addressof', 'back_inserter'):
                    out |= {ext(p, '[]') for p in lval(f, a)} if c.name not in ('addressof', '__addressof') else lval(f, a)
            return out
        return ()
    if ch:
        out = set()
        for x in ch:
            if x >= 0: out |= ptr(f, x)
        return out
    return ()

def map_place(f, c, p):
    """map a callee place onto caller places at call c"""
    if p[0] == 'this':
        if c.kind == 'ctor': return {('tmp', c.node) + p[1:]}
        if c.obj is None: return set()
        b = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
        return {ext(q, *p[1:]) for q in b}
    if p[0] == 'p':
        i = p[1]
        if i >= len(c.args): return set()
        a = c.args[i]; rest = p[2:]
        if rest and rest[0] == '*':
            return {ext(q, *rest[1:]) for q in ptr(f, a)}
        return {ext(q, *rest) for q in lval(f, a)}
    if p[0] == 'cap':
        out = set()
        rest = p[2:]
        if f.lambda_ and not _declared_in(f, p[1]): return {p}
        if rest and rest[0] == '*':
            return {ext(q, *rest[1:]) for q in var_ptr(f, p[1])}
        for q in var_place(f, p[1]): out.add(ext(q, *rest))
        return out
    if p[0] == 'g': return {p}
    return set()

_RET = {}
def ret_places(F, g):
    """places (rooted at this/param/global) that g may return a reference/pointer/iterator to"""
    key = (id(F), g.id)
    r = _RET.get(key)
    if r is not None: return r
    _RET[key] = frozenset()
    out = set()
    t = F.t(g.ret)
    if t['k'] in ('ref', 'rref', 'ptr') or F.is_iter(g.ret):
        for n in g.nodes:
            if n['k'] == 'ReturnStmt' and n.get('c') and n['c'][0] >= 0 and n['i'] in live_nodes(g):
                e = n['c'][0]
                ps = lval(g, e) if t['k'] in ('ref', 'rref') else ptr(g, e)
                for p in ps:
                    if p[0] in ('this', 'p', 'g', 'cap'): out.add(p)
    r = frozenset(out)
    _RET[key] = r
    return r

# --------------------------------------------------------------------------
# effects

def is_fresh(p): return p[0] in ('tmp', 'd')

def lambda_args(f, c):
    """lambda functions passed as argument (directly or through a local variable)"""
    F = f.facts; out = []
    vi, _ = _vinfo(f)
    for a in c.args:
        for x in f.sub(a):
            n = f.nodes[x]
            if n['k'] == 'LambdaExpr':
                out += [F.byid[h] for h in n.get('fns') or [n.get('fn')] if h in F.byid]
            elif n['k'] == 'DeclRefExpr' and 'd' in n:
                for e in vi.get(n['d'], ()):
                    for y in f.sub(e):
                        if f.nodes[y]['k'] == 'LambdaExpr':
                            out += [F.byid[h] for h in f.nodes[y].get('fns') or [f.nodes[y].get('fn')] if h in F.byid]
    return out

def node_writes(f, i):
    """direct writes performed by node i itself (callee header functions excluded): list of (place, what)"""
    n = f.nodes[i]; k = n['k']; F = f.facts; ch = n.get('c', ())
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        op = n['op']
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return [(p, 'assignment') for p in lval(f, ch[0])]
        return ()
    if k == 'UnaryOperator' and n['op'] in ('++', '--'):
        return [(p, 'increment') for p in lval(f, ch[0])]
    c = call_of(f, i)
    if c is None: return ()
    h = c.head
    if h is None: return ()
    if F.byid.get(c.callee) is not None: return ()
    out = []
    if c.kind == 'ctor': return ()
    if c.kind in ('mem', 'op') and c.obj is not None:
        if h.get('inhdr'):
            if h.get('assign') or h.get('dflt') and h.get('oper') == '=':
                return [(p, 'assignment') for p in (ptr(f, c.obj) if c.objarrow else lval(f, c.obj))]
            return ()
        ot = f.nodes[c.obj]['t']
        if not h.get('const') and not h.get('mstatic'):
            nm = c.name
            if F.is_iter(ot) and nm.startswith('operator'):
                if nm in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    return [(p, 'iterator ' + nm) for p in lval(f, c.obj)]
                return ()
            if nm in STD_ELEM or nm in STD_ITER - {'insert', 'erase', 'emplace'} or nm in ('get',) : pass
            else:
                b = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
                out += [(p, nm) for p in b]
        if c.name == 'swap' and c.args:
            out += [(p, 'swap') for p in lval(f, c.args[0])]
        return out
    # free std function
    nm = c.name
    if nm in STD_ALGO_WRITE:
        for ix in STD_ALGO_WRITE[nm]:
            if ix < len(c.args):
                a = c.args[ix]
                if nm in ('swap', 'exchange', 'getline'): out += [(p, 'std::' + nm) for p in lval(f, a)]
                elif F.is_iter(f.nodes[a]['t']): out += [(p, 'std::' + nm) for p in ptr(f, a)]
                elif 'back_insert' in F.tname(f.nodes[a]['t']): out += [(p, 'std::' + nm) for p in ptr(f, a)]
        return out
    if nm in STD_RETARG or nm in ('operator<<', 'operator>>', 'get', 'make_pair', 'visit', 'holds_alternative', 'get_if', 'distance'): 
        if nm == 'operator>>' and len(c.args) > 1: return [(p, 'operator>>') for p in lval(f, c.args[1])]
        if nm == 'operator<<' and c.args: return [(p, 'operator<<') for p in lval(f, c.args[0])]
        return ()
    # unknown external function: anything passed by non-const reference or pointer to non-const
    for ix, p in enumerate(h.get('params', ())):
        if ix >= len(c.args): break
        t = F.t(p['t'])
        if t['k'] == 'ref' and not t.get('pc'):
            out += [(q, nm) for q in lval(f, c.args[ix])]
        elif t['k'] == 'ptr' and not t.get('pc'):
            out += [(q, nm) for q in ptr(f, c.args[ix])]
    return out

def callees_of(f, c):
    """header functions executed by the call: callee plus lambdas handed to std algorithms plus visitors"""
    F = f.facts; out = []
    g = F.byid.get(c.callee)
    if g is not None: out.append((g, c))
    elif c.head is not None and not c.head.get('inhdr'):
        for l in lambda_args(f, c): out.append((l, LamCall(c)))
    return out

class LamCall:
    """pseudo call: a lambda invoked by a std algorithm; elements come from the iterator arguments"""
    def __init__(self, c): self.c = c; self.fn = c.fn; self.node = c.node; self.kind = 'lam'; self.obj = None; self.objarrow = False; self.args = []

def map_lam(f, lc, p):
    F = f.facts; c = lc.c
    if p[0] == 'this': return {p}          # captured this == enclosing this
    if p[0] == 'g': return {p}
    if p[0] == 'cap':
        return map_place(f, c, p)
    if p[0] == 'p':
        out = set()
        for a in c.args:
            if F.is_iter(f.nodes[a]['t']): out |= {ext(q, *p[2:]) for q in ptr(f, a)}
        return out
    return set()

def mapc(f, c, p):
    return map_lam(f, c, p) if isinstance(c, LamCall) else map_place(f, c, p)

class Effects:
    """transitive may-write summaries: fid -> {place: (fid,node) witness}"""
    def __init__(self, F):
        self.F = F
        self.w = {f.id: {} for f in F.fns}
        self.cg = {}; self.rcg = collections.defaultdict(set)
        for f in F.fns:
            cs = []
            for c in calls(f):
                for g, cc in callees_of(f, c):
                    cs.append((g, cc)); self.rcg[g.id].add(f.id)
            self.cg[f.id] = cs
            w = self.w[f.id]
            for i in live_nodes(f):
                for p, what in node_writes(f, i):
                    if p[0] in ('this', 'p', 'g', 'cap') : w.setdefault(p, (i, what))
        work = collections.deque(f.id for f in F.fns); inq = set(work)
        while work:
            fid = work.popleft(); inq.discard(fid)
            f = F.byid[fid]; w = self.w[fid]; ch = False
            for g, cc in self.cg[fid]:
                for p, wit in list(self.w[g.id].items()):
                    for q in mapc(f, cc, p):
                        if q[0] in ('this', 'p', 'g', 'cap') and q not in w:
                            w[q] = (cc.node, 'call of ' + g.q); ch = True
            if ch:
                for h in self.rcg[fid]:
                    if h not in inq: work.append(h); inq.add(h)

def effects(F):
    if F._eff is None: F._eff = Effects(F)
    return F._eff

def call_writes(f, i):
    """all places written by node i, including through header callees: [(place, what)]"""
    out = list(node_writes(f, i))
    c = call_of(f, i)
    if c is not None:
        E = effects(f.facts)
        for g, cc in callees_of(f, c):
            for p in E.w[g.id]:
                for q in mapc(f, cc, p): out.append((q, g.q))
    return out

# --------------------------------------------------------------------------
# dataflow

def forward(f, init, transfer, refine=None, join=None, max_iter=200000):
    """generic forward dataflow; states are dicts/frozensets joined with join(a,b).
    transfer(state, elem) -> state. refine(state, block, succ_index) -> state or None (infeasible).
    Returns (in_states, out_states)."""
    B = f.blocks()
    if not B: return {}, {}
    ins = {f.cfgd['entry']: init}; outs = {}
    order = {b: k for k, b in enumerate(f.rpo())}
    import heapq
    wl = [(order[f.cfgd['entry']], f.cfgd['entry'])]; inw = {f.cfgd['entry']}
    it = 0
    while wl:
        it += 1
        if it > max_iter: raise RuntimeError("dataflow does not converge in " + f.q)
        _, b = heapq.heappop(wl); inw.discard(b)
        st = ins[b]
        for e in B[b]['e']:
            st = transfer(st, e)
        outs[b] = st
        for k, s in enumerate(B[b]['s']):
            if s < 0: continue
            ns = st
            if refine is not None:
                ns = refine(st, B[b], k)
                if ns is None: continue
            if s in ins:
                j = join(ins[s], ns)
                if j == ins[s]: continue
                ins[s] = j
            else: ins[s] = ns
            if s not in inw and s in order:
                heapq.heappush(wl, (order[s], s)); inw.add(s)
    return ins, outs
