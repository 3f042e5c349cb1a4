"""Exception effects: which functions may throw a library error, and what they may have modified when they do."""
import collections
from core import *

def in_try(f, i):
    """node i lies in the protected part of a try statement of f (with at least one handler)"""
    par = f.parents(); x = i
    while x >= 0:
        p = par[x]
        if p >= 0 and f.nodes[p]['k'] == 'CXXTryStmt' and f.nodes[p]['c'][0] == x: return True
        x = p
    return False

class Exc:
    """may[f]: {origin: node}  origins = functions holding a throw that may escape from f;
    dirty[f]: {(place, origin): (node, write node)} logically modified when that exception leaves f.
    skip(origin fn) leaves out throws; ignore(f, place) leaves out places."""
    def __init__(self, F, ignore=lambda f, p: False, skip=lambda g: False):
        self.F = F; self.ignore = ignore
        self.E = effects(F)
        self.may = {f.id: {} for f in F.fns}; self.dirty = {f.id: {} for f in F.fns}
        work = collections.deque()
        for f in F.fns:
            if skip(f): continue
            for i in live_nodes(f):
                if f.nodes[i]['k'] == 'CXXThrowExpr' and not in_try(f, i) and self.reach(f, i): self.may[f.id][f.id] = i; work.append(f.id); break
        while work:
            gid = work.popleft()
            for hid in self.E.rcg[gid]:
                f = F.byid[hid]
                if f.d.get('noex'): continue
                ch = False
                for g, c in self.E.cg[hid]:
                    if g.id != gid or in_try(f, c.node) or not self.reach(f, c.node): continue
                    for o in self.may[gid]:
                        if o not in self.may[hid]: self.may[hid][o] = c.node; ch = True
                if ch: work.append(hid)
        work = collections.deque(x for x in self.may if self.may[x]); inq = set(work)
        while work:
            fid = work.popleft(); inq.discard(fid)
            if self.analyse(F.byid[fid]):
                for h in self.E.rcg[fid]:
                    if self.may[h] and h not in inq: work.append(h); inq.add(h)

    def reach(self, f, i):
        if not f.blocks(): return True
        pos = f.elpos().get(i)
        if pos is None: return True
        rp = set(f.rpo())
        return any(b in rp for b, _ in pos)

    def analyse(self, f):
        F = self.F
        D = self.dirty[f.id]; n0 = len(D)
        cs = collections.defaultdict(list)
        for g, c in self.E.cg[f.id]: cs[c.node].append((g, c))
        def keep(p): return p[0] in ('this', 'p', 'cap') and not self.ignore(f, p)
        def throw(e, origins, st):
            for p, w in st:
                for o in origins: D.setdefault((p, o), (e, w))
        def transfer(st, e):
            if not isinstance(e, int): return st
            n = f.nodes[e]
            if n['k'] == 'CXXThrowExpr':
                if f.id in self.may[f.id] and not in_try(f, e): throw(e, [f.id], st)
                return st
            new = None
            for g, c in cs.get(e, ()):
                if self.may[g.id] and not in_try(f, e):
                    throw(e, self.may[g.id], st)
                    for (p, o) in list(self.dirty[g.id]):
                        for q in mapc(f, c, p):
                            if keep(q): D.setdefault((q, o), (e, e))
            c0 = call_of(f, e)
            if c0 is not None and c0.head is not None and c0.head.get('const') and F.byid.get(c0.callee): return st
            for p, w in call_writes(f, e):
                if keep(p):
                    if new is None: new = dict(st)
                    new.setdefault(p, e)
            return frozenset(new.items()) if new is not None else st
        def join(a, b):
            if a == b: return a
            d = dict(b); d.update(dict(a))
            return frozenset(d.items())
        forward(f, frozenset(), transfer, None, join)
        return len(D) != n0
