"""Argument aliasing: a reference argument read after the object it may belong to was partly rewritten."""
import collections
from core import *
from axis import this_type, step_type, root_type

def node_reads(f, i):
    """places read by node i itself (callees of the header excluded)"""
    n = f.nodes[i]; k = n['k']; F = f.facts; ch = n.get('c', ())
    if k == 'ImplicitCastExpr' and n.get('ck') == 'LValueToRValue':
        return lval(f, ch[0])
    if k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and n['op'] in ('++', '--')): return lval(f, ch[0])
    c = call_of(f, i)
    if c is None: return ()
    h = c.head
    if F.byid.get(c.callee) is not None: return ()
    out = set()
    if h is None: return ()
    nm = c.name
    if c.obj is not None and c.kind in ('mem', 'op'):
        if not (nm in STD_ITER or nm in STD_ELEM or nm == 'operator=' or nm == 'get'):
            out |= set(ptr(f, c.obj) if c.objarrow else lval(f, c.obj))
    if nm in ('move', 'forward', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'addressof', 'get', 'ref', 'cref', 'as_const', 'next', 'prev', 'size'): return out
    for a in c.args:
        t = f.nodes[a]['t']
        if F.is_iter(t): out |= set(ptr(f, a))
        elif f.nodes[a].get('lv'): out |= set(lval(f, a))
    return out

class Reads:
    """transitive may-read summaries: fid -> set of places rooted at this/p/cap"""
    def __init__(self, F):
        E = effects(F); self.F = F
        self.r = {f.id: set() for f in F.fns}
        for f in F.fns:
            for i in live_nodes(f):
                for p in node_reads(f, i):
                    if p[0] in ('this', 'p', 'cap'): self.r[f.id].add(p)
        work = collections.deque(f.id for f in F.fns); inq = set(work)
        while work:
            fid = work.popleft(); inq.discard(fid); f = F.byid[fid]; n0 = len(self.r[fid])
            for g, c in E.cg[fid]:
                for p in list(self.r[g.id]):
                    for q in mapc(f, c, p):
                        if q[0] in ('this', 'p', 'cap'): self.r[fid].add(q)
            if len(self.r[fid]) != n0:
                for h in E.rcg[fid]:
                    if h not in inq: work.append(h); inq.add(h)

def reads(F):
    if getattr(F, '_reads', None) is None: F._reads = Reads(F)
    return F._reads

def tkey(F, t):
    x = F.t(F.strip(t))
    return x.get('u') or x['s'].replace('const ', '')

def places_of_type(F, t, want, depth=5):
    """paths inside an object of type t where an object of type key `want` lives"""
    out = []
    def rec(t, path, d, seen):
        if t is None or t < 0: return
        k = tkey(F, t)
        if k == want: out.append(path)
        if d == 0: return
        x = F.t(F.strip(t))
        r = F.recs.get(x.get('u'))
        from axis import elem_type
        if r and not F.is_std(x.get('q')):
            for fd in r['fields']: rec(fd['t'], path + (fd['n'],), d - 1, seen)
            for b in x.get('b', []):
                if tkey(F, b) == want: out.append(path)
                y = F.t(F.strip(b)); rb = F.recs.get(y.get('u'))
                if rb:
                    for fd in rb['fields']: rec(fd['t'], path + (fd['n'],), d - 1, seen)
        else:
            e = elem_type(F, t)
            if e is not None: rec(e, path + ('[]',), d - 1, seen)
    rec(F.strip(t) if t is not None else t, (), depth, set())
    return out

class Alias:
    """hazards[f]: {(written place, read place): (write node, read node)}"""
    def __init__(self, F, skip=lambda p: False):
        self.F = F; self.skip = skip
        self.R = reads(F); self.E = effects(F)
        self.haz = {f.id: {} for f in F.fns}
        self._al = {}; self.definite = []; self._defseen = set()
        # sub-objects reachable from outside by reference, pointer or iterator
        self.exposed = collections.defaultdict(set)
        for f in F.fns:
            if f.cls and f.d.get('acc') == 0 and not f.lambda_:
                for p in ret_places(F, f):
                    if p[0] == 'this' and len(p) > 1: self.exposed[f.cls].add(p[1:])
        for r in F.records:
            for fd in r['fields']:
                if fd.get('acc') == 0: self.exposed[r['name']].add((fd['n'],))
        work = collections.deque(f.id for f in F.fns if any(F.is_ref(p['t']) for p in f.params) or f.lambda_)
        inq = set(work); self.analysed = len(work)
        ok = set(work)
        while work:
            fid = work.popleft(); inq.discard(fid)
            if self.analyse(F.byid[fid]):
                for h in self.E.rcg[fid]:
                    if h in ok and h not in inq: work.append(h); inq.add(h)

    def root_tid(self, f, p):
        if p[0] == 'this':
            return this_type(self.F, f.cls or (f.outer.cls if f.outer else None))
        return root_type(f, p)

    def reachable(self, t, path):
        """a reference to the sub-object `path` of an object of type t can be obtained from outside"""
        F = self.F
        if not path: return True
        st = [F.strip(t)]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            y = F.t(x)
            if F.is_std(y.get('q')) or y['k'] != 'rec':
                return self.reachable(step_type(F, x, path[0]), path[1:])
            for e in self.exposed.get(y.get('u'), ()):
                if e == path[:len(e)] or pprefix(e, path[:len(e)]): 
                    if len(e) >= len(path): return True
                    t2 = x
                    for c in e: t2 = step_type(F, t2, c) if t2 is not None else None
                    if t2 is not None and self.reachable(t2, path[len(e):]): return True
            st.extend(y.get('b', []))
        return False

    def may_overlap(self, f, w, r):
        """could the memory read at r (a reference parameter) be the memory written at w (this or another reference parameter)?"""
        F = self.F
        if r[0] != 'p': return False
        if w[0] == 'p' and w[1] == r[1]: return False
        if self.skip(w) or self.skip(r): return False
        if r[1] >= len(f.params) or not F.is_ref(f.params[r[1]]['t']): return False
        if F.t(f.params[r[1]]['t'])['k'] == 'rref': return False
        key = (f.id, w[0], w[1] if w[0] == 'p' else 0, r[1])
        al = self._al.get(key)
        if al is None:
            wt = self.root_tid(f, w); rt = F.strip(f.params[r[1]]['t'])
            al = []
            if wt is not None:
                # parameter is (part of) the written object
                for path in places_of_type(F, wt, tkey(F, rt)):
                    if not path or self.reachable(wt, path): al.append((path, ()))
                # the written object is part of the parameter
                for path in places_of_type(F, rt, tkey(F, wt)):
                    if path and self.reachable(rt, path): al.append(((), path))
            self._al[key] = al
        n = 1 if w[0] == 'this' else 2
        wp = w[n:]; rp = r[2:]
        for a, b in al:
            # memory of parameter+rp  ==  object + a + rp   (b == ()),  or object+wp == parameter + b + wp
            x = a + rp if b == () else rp
            y = wp if b == () else b + wp
            if pprefix(x, y) or pprefix(y, x): return True
        return False

    def analyse(self, f):
        F = self.F; H = self.haz[f.id]; n0 = len(H)
        cs = collections.defaultdict(list)
        for g, c in self.E.cg[f.id]: cs[c.node].append((g, c))
        def transfer(st, e):
            if not isinstance(e, int): return st
            # reads
            if st:
                rs = [(p, e) for p in node_reads(f, e)]
                for g, c in cs.get(e, ()):
                    for p in self.R.r[g.id]: rs += [(q, e) for q in mapc(f, c, p)]
                for r, _ in rs:
                    if r[0] != 'p': continue
                    for w, wn in st:
                        if (w, r) not in H and self.may_overlap(f, w, r): H[(w, r)] = (wn, e)
            for g, c in cs.get(e, ()):
                for (w, r) in list(self.haz[g.id]):
                    for w2 in mapc(f, c, w):
                        for r2 in mapc(f, c, r):
                            if w2[0] == r2[0] and w2[0] in ('d', 'this', 'p') and w2[:2] == r2[:2] and (pprefix(w2, r2) or pprefix(r2, w2)) and not self.skip(w2):
                                if (f.id, e) not in self._defseen: self._defseen.add((f.id, e)); self.definite.append((f, e, w2, r2, g))
                            if w2[0] not in ('this', 'p'): continue
                            if r2[0] == 'p' and (w2, r2) not in H and self.may_overlap(f, w2, r2): H[(w2, r2)] = (e, e)
            c0 = call_of(f, e)
            if c0 is not None and c0.head is not None and c0.head.get('const') and F.byid.get(c0.callee): return st
            new = None
            for p, w in call_writes(f, e):
                if p[0] == 'this' and f.d.get('ctor'): continue
                if p[0] in ('this', 'p') and not self.skip(p):
                    if new is None: new = dict(st)
                    new.setdefault(p, e)
            return frozenset(new.items()) if new is not None else st
        def join(a, b):
            if a == b: return a
            d = dict(b); d.update(dict(a)); return frozenset(d.items())
        forward(f, frozenset(), transfer, None, join)
        return len(H) != n0
