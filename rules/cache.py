"""Typestate analysis of cached values ("flag + value derived from data").

Per (object, flag) the abstract state is one of
  B  the flag says "not valid"                      (nothing will be read)
  V  flag "not valid", value just recomputed from the current data
  F  flag may say "valid" and the value corresponds to the data
  S  STALE: flag may say "valid" but the data was modified since
Transfer functions of every function are computed as entry-state -> set of exit
states (for the object `this` and every parameter / captured variable), composed
bottom-up over the call graph until a fixpoint; branches on the flag refine the
state.  A stale object must never leave a public function, and a cached value
must never be read while its flag may be "not valid"."""
import collections
import exc
from core import *
from core import _vinfo, _declared_in

ENT = ('B', 'F', 'S', 'V')

class Proto:
    def __init__(self, name, cls, data, flag, good, value, perm=None, part=False):
        self.part = part     # value is a field of a record that is also written as a whole
        self.perm = perm     # perm(f, node): this write of the data leaves the value unchanged
        self.name = name; self.cls = cls; self.data = tuple(data); self.flag = tuple(flag); self.good = good; self.value = tuple(value) if value else None

def ident():
    return {e: frozenset([e]) for e in ENT}

def const(s):
    return {e: frozenset([s]) for e in ENT}

def joinv(a, b):
    return {e: a[e] | b[e] for e in ENT}

def compose(cur, tr):
    """cur: ENT->set ; tr: ENT->set   => ENT->set"""
    out = {}
    for e in ENT:
        s = set()
        for x in cur[e]: s |= tr[x]
        out[e] = frozenset(s)
    return out

def step(cur, fn):
    return {e: frozenset(fn(x) for x in cur[e]) for e in ENT}

class Cache:
    def __init__(self, F, protos):
        self.F = F; self.protos = protos
        self.sum = {}        # fid -> {(place,proto_idx,offset): (transfer, badread frozenset of entries)}
        self.viol = []       # (rule, f, node, text)
        self.stat = collections.Counter()
        self._flagfn = {}
        self.relevant = None
        self.run()

    # ---- raw place -> list of (proto index, objplace, offset, kind, exact)
    def classify(self, p):
        out = []
        root_len = 1 if p[0] == 'this' else 2
        root, path = p[:root_len], p[root_len:]
        for pi, P in enumerate(self.protos):
            hit = False
            for k in range(len(path) + 1):
                rest = path[k:]
                if P.flag[:len(rest)] == rest and rest and k <= len(path):
                    # write of the flag itself or of a struct that contains it
                    kind = 'flag' if rest == P.flag else 'flagpart'
                    out.append((pi, root + path[:k], 0, kind)); hit = True
                if P.data and rest[:len(P.data)] == P.data:
                    out.append((pi, root + path[:k], 0, 'data')); hit = True
                if P.value and (rest[:len(P.value)] == P.value or P.part and rest and P.value[:len(rest)] == rest):
                    out.append((pi, root + path[:k], 0, 'value')); hit = True
            if not hit:
                for off in range(1, len(P.flag)):
                    if path and path == P.flag[off:]: out.append((pi, root, off, 'flag'))
                    elif path and P.flag[off:][:len(path)] == path: out.append((pi, root, off, 'flagpart'))
                    if P.value and P.value[:off] == P.flag[:off] and len(P.value) > off and path[:len(P.value) - off] == P.value[off:]:
                        out.append((pi, root, off, 'value'))
        return out

    def flagcond(self, f, i, depth=0):
        """(place, polarity): the boolean expression equals the value of place (or its negation)"""
        if depth > 6: return None
        n = f.nodes[i]; k = n['k']
        if k == 'UnaryOperator' and n['op'] == '!':
            r = self.flagcond(f, n['c'][0], depth + 1)
            return (r[0], not r[1]) if r else None
        if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and n.get('c'):
            return self.flagcond(f, n['c'][0], depth + 1)
        if k == 'BinaryOperator' and n['op'] in ('==', '!='):
            for a, b in ((0, 1), (1, 0)):
                y = f.nodes[n['c'][b]]
                while y['k'] == 'ImplicitCastExpr' and y.get('c'): y = f.nodes[y['c'][0]]
                if y['k'] == 'CXXBoolLiteralExpr':
                    r = self.flagcond(f, n['c'][a], depth + 1)
                    if r: return (r[0], r[1] == (bool(y['v']) == (n['op'] == '==')))
            return None
        if k in ('MemberExpr', 'DeclRefExpr') and self.F.t(n['t'])['k'] == 'bool':
            ps = lval(f, i)
            if k == 'DeclRefExpr' and 'd' in n:
                vi, _ = _vinfo(f)
                if len(vi.get(n['d'], ())) == 1 and n['d'] not in f.pidx:
                    r = self.flagcond(f, vi[n['d']][0], depth + 1)
                    if r: return r
            if len(ps) == 1: return (next(iter(ps)), True)
            return None
        c = call_of(f, i)
        if c is not None:
            g = self.F.byid.get(c.callee)
            if g is not None and self.F.t(g.ret)['k'] == 'bool':
                if g.id not in self._flagfn:
                    self._flagfn[g.id] = None
                    rets = [x for x in g.nodes if x['k'] == 'ReturnStmt' and x['i'] in live_nodes(g) and x.get('c')]
                    if len(rets) == 1: self._flagfn[g.id] = self.flagcond(g, rets[0]['c'][0], depth + 1)
                r = self._flagfn[g.id]
                if r:
                    qs = map_place(f, c, r[0])
                    if len(qs) == 1: return (next(iter(qs)), r[1])
        return None

    # ---- per function events
    def bool_value(self, f, i):
        n = f.nodes[i]
        while n['k'] in ('ImplicitCastExpr', 'CXXDefaultInitExpr', 'InitListExpr') and n.get('c'): n = f.nodes[n['c'][0]]
        if n['k'] == 'CXXBoolLiteralExpr': return bool(n['v'])
        return None

    def upd(self, st, key, fn, weak=False):
        cur = st.get(key, self._ID)
        new = step(cur, fn)
        if weak: new = joinv(cur, new)
        st = dict(st); st[key] = new
        return st

    _ID = ident()

    def flag_event(self, f, st, ps, val, src, node):
        """flag written: val True/False/None(unknown); src: places the value was copied from"""
        for p in ps:
            for pi, obj, off, kind in self.classify(p):
                P = self.protos[pi]
                if kind not in ('flag', 'flagpart'): continue
                if val is not None and kind == 'flag':
                    good = (val == P.good)
                    if not good: fn = lambda s: 'B'
                    elif P.value: fn = lambda s: {'B': 'S', 'V': 'F', 'F': 'F', 'S': 'S'}[s]
                    else: fn = lambda s: 'F'
                else:
                    fn = lambda s: 'F'
                    self.copies.append((f, node, pi, obj, src))
                st = self.upd(st, (obj, pi, off), fn, len(ps) > 1)
        return st

    def data_event(self, f, st, p, weak, node):
        for pi, obj, off, kind in self.classify(p):
            st = self.apply(f, st, pi, obj, off, kind, weak, node)
        return st

    def apply(self, f, st, pi, obj, off, kind, weak, node):
        if kind == 'data':
            P = self.protos[pi]
            if P.perm and node is not None and node >= 0 and P.perm(f, node):
                self.stat['neutral writes'] += 1
                return st
            st = self.upd(st, (obj, pi, off), lambda s: {'B': 'B', 'V': 'B', 'F': 'S', 'S': 'S'}[s], weak)
            self.data_sites.add((f.pl, f.nodes[node]['l'] if node is not None and node >= 0 else f.line, pi))
        elif kind == 'value':
            st = self.upd(st, (obj, pi, off), lambda s: {'B': 'V', 'V': 'V', 'F': 'F', 'S': 'F'}[s], weak)
        return st

    def obj_write(self, f, st, p, src, node, weak):
        """whole object (or a container of it) overwritten at place p: known keys below p take the state of the source"""
        st2 = dict(st)
        for key in list(st):
            obj, pi, off = key
            if len(obj) >= len(p) and obj[:len(p)] == p:
                new = const('F')
                if src:
                    vs = []
                    for q in src:
                        k2 = (q + obj[len(p):], pi, off)
                        if k2 in st: vs.append(st[k2])
                    if vs:
                        new = vs[0]
                        for v in vs[1:]: new = joinv(new, v)
                st2[key] = joinv(st[key], new) if weak else new
        # objects never seen so far
        t = p
        if src:
            for q in src:
                for key in list(st):
                    if key[0][:len(q)] == q:
                        k2 = (p + key[0][len(q):], key[1], key[2])
                        if k2 not in st2: st2[k2] = st[key]
        for pi, P in enumerate(self.protos):
            k = (p, pi, 0)
            if k not in st2: st2[k] = const('F')
        return st2

    def is_proto_type(self, tid):
        """indices of protos whose class is the record type tid or a base of it"""
        F = self.F
        t = F.strip(tid); seen = set(); st = [t]; out = set()
        while st:
            x = st.pop()
            if x in seen or x is None or x < 0: continue
            seen.add(x)
            q = F.t(x).get('q')
            for pi, P in enumerate(self.protos):
                if q == P.cls: out.add(pi)
            st.extend(F.t(x).get('b', []))
        return out

    def analyse(self, f, report=False):
        F = self.F
        B = f.blocks()
        if not B: return {}, {}
        isctor = bool(f.d.get('ctor'))
        init = {}
        if isctor:
            for pi, P in enumerate(self.protos):
                for off in range(0, len(P.flag)):
                    init[(THIS, pi, off)] = const('B')
        badreads = {}
        reported = []
        exs = {}      # states with which an exception may leave

        def read_check(st, p, node, via=None):
            for pi, obj, off, kind in self.classify(p):
                P = self.protos[pi]
                if kind != 'value' or not P.value: continue
                if (off or f.d.get('dflt')) and (f.d.get('ctor') in ('copy', 'move') or f.d.get('assign') or f.name == 'operator='): continue   # copies value and flag together
                v = st.get((obj, pi, off), self._ID)
                bad = {e for e in ENT if e != 'S' and (v[e] & {'B', 'S'})}
                if bad:
                    badreads.setdefault((obj, pi, off), {}).setdefault(frozenset(bad), node)

        def transfer(st, e):
            if isinstance(e, dict):
                if 'init' in e and e.get('e', -1) is not None and e.get('e', -1) >= 0:
                    p = ext(THIS, e['init'])
                    node = e['e']
                    cl = self.classify(p)
                    if any(k in ('flag', 'flagpart') for _, _, _, k in cl):
                        b = self.bool_value(f, node)
                        n = f.nodes[node]
                        src = set()
                        dflt = n['k'] == 'CXXConstructExpr' and not n.get('c')
                        if n['k'] == 'CXXConstructExpr' and n.get('c'): src = lval(f, n['c'][0])
                        elif n['k'] == 'ImplicitCastExpr': src = lval(f, n['c'][0])
                        if not dflt: st = self.flag_event(f, st, [p], b, src, node)
                    n = f.nodes[node]
                    if not (n['k'] == 'CXXConstructExpr' and not n.get('c')):
                        st = self.data_event(f, st, p, False, node)
                elif 'base' in e and e.get('e', -1) >= 0:
                    st = self.do_call(f, st, e['e'], badreads, base=True)
                return st
            n = f.nodes[e]; k = n['k']
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                ps = lval(f, n['c'][0])
                rhs = n['c'][1]
                isflag = any(kk in ('flag', 'flagpart') for p in ps for _, _, _, kk in self.classify(p))
                if isflag:
                    b = self.bool_value(f, rhs) if n['op'] == '=' else None
                    x = rhs
                    while f.nodes[x]['k'] == 'ImplicitCastExpr' and f.nodes[x].get('c'): x = f.nodes[x]['c'][0]
                    st = self.flag_event(f, st, ps, b, lval(f, x), e)
                for p in ps: st = self.data_event(f, st, p, len(ps) > 1, e)
                return st
            if k == 'UnaryOperator' and n['op'] in ('++', '--'):
                for p in lval(f, n['c'][0]): st = self.data_event(f, st, p, False, e)
                return st
            if k == 'MemberExpr' and 'd' in n:
                up = e; par = f.parents()[e]
                while par >= 0 and f.nodes[par]['k'] == 'MemberExpr' and 'd' in f.nodes[par]: up = par; par = f.parents()[par]
                tgt = up != e          # the whole path is judged at its last member
                if par >= 0:
                    pn = f.nodes[par]
                    if pn['k'] in ('BinaryOperator', 'CompoundAssignOperator') and pn['op'] == '=' and pn['c'][0] == up: tgt = True
                    if pn['k'] == 'CXXOperatorCallExpr' and pn.get('op') == '=' and pn['c'][0] == up: tgt = True
                    if pn['k'] == 'CXXOperatorCallExpr' and pn.get('op') in ('*', '->') : # *h._hmt : handled at the operator
                        tgt = True
                    if pn['k'] == 'CXXOperatorCallExpr' and pn.get('op') in ('==', '!='): tgt = True
                    if pn['k'] == 'MemberExpr' and 'fn' in pn: tgt = True    # object of a member call
                if not tgt:
                    for p in lval(f, e): read_check(st, p, e)
                return st
            if k == 'CXXThrowExpr' and f.id in self.exc.may[f.id] and not exc.in_try(f, e):
                self.leave(f, st, exs, e)
                return st
            if k in CALLK:
                if self.may_throw(f, e): self.leave_call(f, st, exs, e)
                return self.do_call(f, st, e, badreads)
            if k == 'DeclStmt':
                for d in n.get('decls', ()):
                    if d.get('i', -1) >= 0 and not F.is_ref(F.decls[d['d']]['t']):
                        pis = self.is_proto_type(F.decls[d['d']]['t'])
                        if not pis: continue
                        x = d['i']; src = None
                        y = f.nodes[x]
                        while y['k'] in ('ImplicitCastExpr', 'CXXFunctionalCastExpr') and y.get('c'):
                            x = y['c'][0]; y = f.nodes[x]
                        place = ('d', d['d'])
                        st = dict(st)
                        if y['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                            tmp = ('tmp', x)
                            for key in list(st):
                                if key[0][:2] == tmp: st[(place + key[0][2:], key[1], key[2])] = st[key]
                            g = F.byid.get(y.get('fn'))
                            h = F.head(y.get('fn'))
                            if g is None and h and h.get('ctor') in ('copy', 'move') and y.get('c'):
                                for q in lval(f, y['c'][0]):
                                    for pi in pis:
                                        st[(place, pi, 0)] = st.get((q, pi, 0), self._ID if q[0] not in ('tmp', 'd') else const('F'))
                        else:
                            for pi in pis:
                                for off in range(1): st[(place, pi, off)] = const('F')
                return st
            if k == 'ReturnStmt' and n.get('c') and n['c'][0] >= 0:
                x = n['c'][0]
                while f.nodes[x]['k'] in ('CXXConstructExpr', 'ImplicitCastExpr') and f.nodes[x].get('c'): x = f.nodes[x]['c'][0]
                for p in lval(f, x):
                    if p[0] == 'd':
                        for pi in self.is_proto_type(f.nodes[x]['t']):
                            v = st.get((p, pi, 0))
                            if v and any('S' in v[en] for en in ('B', 'F')):
                                reported.append(('stale-return', e, pi, p))
                # reference to data handed out: flag must be off now
                if F.t(f.ret)['k'] == 'ref' and not F.t(f.ret).get('pc'):
                    for p in lval(f, n['c'][0]):
                        if p[0] in ('this', 'p'):
                            for pi, obj, off, kind in self.classify(p):
                                if kind == 'data' and off == 0:
                                    v = st.get((obj, pi, off), self._ID)
                                    if any(v[en] & {'F', 'S'} for en in ('B', 'F')):
                                        reported.append(('escape', e, pi, obj))
                return st
            return st

        def refine(st, blk, si):
            c = blk.get('cond')
            if c is None or c < 0 or len([s for s in blk['s'] if s >= 0]) < 2 or blk.get('tk') in ('SwitchStmt', 'CXXForRangeStmt'): return st
            r = self.flagcond(f, c)
            if not r: return st
            place, pol = r
            truth = (si == 0) == pol         # value of the flag place on this edge
            for pi, obj, off, kind in self.classify(place):
                if kind != 'flag': continue
                P = self.protos[pi]
                good = truth == P.good
                cur = st.get((obj, pi, off), self._ID)
                if good: new = {e: frozenset(x for x in cur[e] if x in ('F', 'S')) for e in ENT}
                else: new = {e: frozenset('B' if x in ('F', 'S') else x for x in cur[e]) for e in ENT}
                st = dict(st); st[(obj, pi, off)] = new
            return st

        def join(a, b):
            if a == b: return a
            out = {}
            for k in set(a) | set(b):
                if k[0][0] in ('d', 'tmp') and (k not in a or k not in b):
                    out[k] = a.get(k) or b.get(k); continue
                out[k] = joinv(a.get(k, self._ID), b.get(k, self._ID))
            return out

        ins, outs = forward(f, init, transfer, refine, join)
        ex = None
        for b in f.preds().get(f.cfgd['exit'], ()):
            if b in outs and not f.is_throw_block(B[b]) and not B[b].get('nr'):
                st = outs[b]
                st = refine(st, B[b], B[b]['s'].index(f.cfgd['exit'])) or st
                ex = st if ex is None else join(ex, st)
        res = {}
        allk = set(ex or {}) | set(badreads)
        for k in allk:
            if k[0][0] in ('d', 'tmp'): continue
            tr = (ex or {}).get(k, {e: frozenset() for e in ENT}) if ex is None or k in ex else self._ID
            br = frozenset(x for s in badreads.get(k, {}) for x in s)
            res[k] = (tr, br)
        self.esum[f.id] = {k: v for k, v in exs.items() if k[0][0] not in ('d', 'tmp')}
        if report:
            self.report(f, res, badreads, reported)
        return res, self.esum[f.id]

    def may_throw(self, f, e):
        if not hasattr(self, '_mt'): self._mt = {}
        k = (f.id, e)
        if k not in self._mt:
            c = call_of(f, e)
            self._mt[k] = c is not None and not f.d.get('noex') and any(self.exc.may.get(g.id) for g, _ in callees_of(f, c)) and not exc.in_try(f, e) and self.exc.reach(f, e)
        return self._mt[k]

    def leave(self, f, st, exs, node):
        for k, v in st.items():
            if k[0][0] in ('d', 'tmp'): continue
            if k in exs:
                j = joinv(exs[k][0], v)
                if j != exs[k][0]: exs[k] = (j, node if any('S' in v[e] and 'S' not in exs[k][0][e] for e in ('B', 'F')) else exs[k][1])
            else: exs[k] = (v, node)

    def leave_call(self, f, st, exs, node):
        """exceptional exits of the callee(s): its own exceptional effect on top of the current state"""
        st2 = dict(st)
        for g, cc in callees_of(f, call_of(f, node)):
            if not self.exc.may.get(g.id): continue
            for (obj, pi, off), (tr, _) in self.esum.get(g.id, {}).items():
                if off or g.d.get('ctor') and obj[0] == 'this' and not self.is_deleg(f, node): continue
                for q in mapc(f, cc, obj):
                    key = (q, pi, off)
                    st2[key] = compose(st.get(key, self._ID), tr)
        self.leave(f, st2, exs, node)

    def do_call(self, f, st, i, badreads, base=False):
        F = self.F
        c = call_of(f, i)
        if c is None: return st
        h = c.head
        cs = callees_of(f, c)
        n = f.nodes[i]
        if not cs:
            # defaulted copy/move/assignment of tracked objects, std calls
            if h is not None and h.get('inhdr') and (h.get('assign') or h.get('oper') == '=') and c.obj is not None:
                dst = ptr(f, c.obj) if c.objarrow else lval(f, c.obj)
                src = lval(f, c.args[0]) if c.args else ()
                for p in dst: st = self.write_any(f, st, p, src, i, len(dst) > 1)
                return st
            if c.kind == 'ctor':
                if h is not None and h.get('ctor') in ('copy', 'move') and c.args:
                    pis = self.is_proto_type(n['t'])
                    if pis:
                        src = lval(f, c.args[0]); st = dict(st)
                        dst = THIS if base else ('tmp', i)
                        for pi in pis:
                            v = None
                            for q in src:
                                w = st.get((q, pi, 0), self._ID if q[0] not in ('tmp', 'd') else const('F'))
                                v = w if v is None else joinv(v, w)
                            if v is None: v = const('F')
                            if base: v = const('F')
                            st[(dst, pi, 0)] = v
                elif h is not None and h.get('ctor') == 'default' and not base:
                    st = dict(st)
                    for pi in self.is_proto_type(n['t']): st[(('tmp', i), pi, 0)] = const('B')
                return st
            if c.name == 'swap':
                objs = []
                if c.kind == 'free' and len(c.args) == 2: objs = [lval(f, c.args[0]), lval(f, c.args[1])]
                elif c.obj is not None and len(c.args) == 1: objs = [lval(f, c.obj), lval(f, c.args[0])]
                if objs:
                    st0 = st
                    for a, b in ((0, 1), (1, 0)):
                        for p in objs[a]: 
                            t = self.write_any(f, dict(st0), p, objs[b], i, False)
                            st = dict(st)
                            for k in t:
                                if t[k] != st0.get(k): st[k] = t[k]
                    return st
            for p, what in node_writes(f, i):
                st = self.write_any(f, st, p, None, i, False)
            return st
        E = effects(F)
        for g, cc in cs:
            if cc.kind != 'ctor':
                for p in E.w[g.id]:
                    own = {k for _, _, _, k in self.classify(p)}       # handled by the summary of g
                    for q in mapc(f, cc, p):
                        for pi, obj, off, kind in self.classify(q):
                            if kind in ('data', 'value') and kind not in own: st = self.apply(f, st, pi, obj, off, kind, kind == 'data', i)
            sm = self.sum.get(g.id)
            if not sm: continue
            for (obj, pi, off), (tr, br) in sm.items():
                P = self.protos[pi]
                if base and obj == THIS: qs = {THIS}
                elif cc.kind == 'ctor' and obj[0] == 'this' and self.is_deleg(f, i): qs = {THIS + obj[1:]}
                else: qs = mapc(f, cc, obj)
                for q in qs:
                    o2, off2 = q, off
                    if off:
                        pre = P.flag[:off]
                        m = None
                        for L in range(off, 0, -1):
                            rl = 1 if q[0] == 'this' else 2
                            if len(q) - rl >= L and q[-L:] == P.flag[off - L:off]:
                                m = L; break
                        if m is None:
                            if len(q) == (1 if q[0] == 'this' else 2): o2, off2 = q, off
                            else: continue
                        else: o2, off2 = q[:-m], off - m
                    key = (o2, pi, off2)
                    cur = st.get(key, self._ID)
                    if cc.kind == 'ctor' and obj == THIS and not base and q[0] == 'tmp': cur = const('B')
                    if br:
                        bad = frozenset(e for e in ENT if e != 'S' and (cur[e] & br))
                        if bad: badreads.setdefault(key, {}).setdefault(bad, i)
                    new = compose(cur, tr)
                    if len(qs) > 1: new = joinv(cur, new)
                    st = dict(st); st[key] = new
        return st

    def is_deleg(self, f, i):
        return any(x.get('deleg') and x.get('e') == i for x in f.inits)

    def write_any(self, f, st, p, src, node, weak):
        cl = self.classify(p)
        if any(k in ('flag', 'flagpart') for _, _, _, k in cl):
            st = self.flag_event(f, st, [p], None, src or (), node)
        st2 = self.data_event(f, st, p, weak, node)
        hit = any(k in ('data', 'value', 'flag', 'flagpart') for _, _, _, k in cl)
        if not hit: st2 = self.obj_write(f, st2, p, src, node, weak)
        return st2

    def root_type(self, f, p):
        if p[0] == 'this' and len(p) == 1: return f.cls and next((r['t'] for r in [self.F.recs.get(f.cls)] if r), None)
        if p[0] == 'p' and len(p) == 2: return f.params[p[1]]['t']
        return None

    def report(self, f, res, badreads, reported):
        pub = f.d.get('acc') == 0 if f.cls is not None else not f.q.startswith(('h2d::detail::', 'h2d::priv::'))
        for kind, node, pi, p in reported:
            P = self.protos[pi]
            if kind == 'stale-return':
                self.viol.append(('stale', f, node, P, 'returns a local object whose %s is stale (data modified while the flag may still say "valid")' % P.name))
            elif pub and kind == 'escape':
                t = self.root_type(f, p)
                if t is not None and pi in self.is_proto_type(t):
                    self.viol.append(('escape', f, node, P, 'hands out a non-const reference to the data while %s is still flagged valid' % P.name))
        for (obj, pi, off), (tr, br) in res.items():
            P = self.protos[pi]
            t = self.root_type(f, obj)
            if off or t is None or pi not in self.is_proto_type(t): continue
            self.stat['objects'] += 1
            isctor = bool(f.d.get('ctor')) and obj == THIS
            # entry states possible for a caller: B (or F, unless constructing)
            if pub:
                if any('S' in tr[e] for e in (('B',) if isctor else ('B', 'F'))):
                    self.viol.append(('stale', f, f.body, P, 'leaves %s stale: %s is modified and the flag is not reset on every path' % (P.name, '.'.join(P.data))))
                x = self.esum[f.id].get((obj, pi, off))
                if x is not None and not isctor and any('S' in x[0][e] for e in ('B', 'F')):
                    self.viol.append(('stale-throw', f, x[1], P, 'an exception may leave here with %s stale: %s was modified, or the flag set, before' % (P.name, '.'.join(P.data))))
                if br & {'B', 'F'}:
                    node = next(iter(badreads.get((obj, pi, off), {}).values()), f.body)
                    self.viol.append(('unguarded-read', f, node, P, 'reads %s although its flag may say "not valid" (%s)' % ('.'.join(P.value), P.name)))

    def run(self):
        F = self.F
        self.copies = []; self.data_sites = set(); self.esum = {}; self.exc = exc.Exc(F)
        # only functions whose effects touch a tracked field, and (transitively) their callers matter
        fields = set()
        for P in self.protos: fields |= set(P.data) | set(P.flag) | set(P.value or ())
        fields -= {'*', '[]'}
        eff = effects(F)
        rel = set()
        for f in F.fns:
            if any(n['k'] == 'MemberExpr' and n.get('m') in fields for n in f.nodes) or any(i.get('f') in fields for i in f.inits): rel.add(f.id)
        work = list(rel)
        while work:
            x = work.pop()
            for y in eff.rcg.get(x, ()):
                if y not in rel: rel.add(y); work.append(y)
        self.relevant = rel
        q = collections.deque(sorted(rel)); inq = set(q); it = 0
        cnt = collections.Counter(); prev = {}
        while q:
            it += 1
            fid = q.popleft(); inq.discard(fid)
            f = F.byid[fid]
            cnt[fid] += 1
            if cnt[fid] > 30: raise RuntimeError('cache summaries do not converge: ' + f.q)
            r = self.analyse(f)
            r2 = (r[0], {k: v[0] for k, v in r[1].items()})
            if r2 != prev.get(fid):
                prev[fid] = r2; self.sum[fid] = r[0]
                for y in eff.rcg.get(fid, ()):
                    if y in rel and y not in inq: q.append(y); inq.add(y)
        self.copies = []
        for fid in sorted(rel): self.analyse(F.byid[fid], report=True)
        self.stat['functions'] = len(rel)
        # a flag copied from another object: the data must be copied from it as well
        for f, node, pi, obj, src in self.copies:
            P = self.protos[pi]
            roots = set()
            for s in src:
                for pj, o2, off, kind in self.classify(s):
                    if kind == 'flag': roots.add(o2)
            if not roots: continue
            if f.clsq != P.cls and any(off for pj, _, off, k in self.classify(next(iter(src))) if pj == pi): continue   # copy of the flag wrapper itself
            ok = False; vok = P.value is None
            for i in live_nodes(f):
                n = f.nodes[i]
                if n['k'] in CALLK or n['k'] == 'MemberExpr' and 'd' in n:
                    for p in lval(f, i):
                        for pj, o2, off, kind in self.classify(p):
                            if kind == 'data' and o2 in roots: ok = True
                            if kind == 'value' and o2 in roots and pj == pi: vok = True
            self.stat['flagcopies'] += 1
            if f.d.get('dflt'): ok = vok = True       # memberwise copy
            # base-class construction from the same object also copies the data
            for x in f.inits:
                if 'base' in x and x.get('w'): ok = True
            if f.clsq != P.cls and not any(k == 'flag' and not off for pj, _, off, k in self.classify(next(iter(src)))): vok = True
            if ok and not vok:
                self.viol.append(('flagcopy', f, node, P, 'copies the flag of %s from another object without copying the cached value' % P.name))
            if not ok:
                self.viol.append(('flagcopy', f, node, P, 'copies the flag of %s from another object without copying its data' % P.name))
