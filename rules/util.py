"""shared helpers of the rules"""
import collections
from core import *

def public(f):
    """part of the public interface: public member, or free function outside the implementation namespaces"""
    if f.lambda_: return False
    if f.d.get('acc') is not None: return f.d['acc'] == 0 and not internal_q(f.q)
    return not internal_q(f.q)

def internal_q(q): return q.startswith('h2d::detail::') or q.startswith('h2d::priv::') or '::priv::' in q or '::sub::' in q or q.startswith('h2d::base::detail')

def closure_callers(F, fns):
    """fns plus every function whose callers all belong to the set (helpers extracted from them)"""
    E = effects(F); s = {f.id for f in fns}
    ch = True
    while ch:
        ch = False
        for f in F.fns:
            if f.id in s: continue
            cs = E.rcg.get(f.id)
            if cs and all(c in s for c in cs): s.add(f.id); ch = True
    return s

def live_in_cfg(f, i):
    if not f.blocks(): return True
    pos = f.elpos().get(i)
    if pos is None: return True
    rp = set(f.rpo())
    return any(b in rp for b, _ in pos)

def const_objs(f): return f.const
