"""a rejected modification leaves its object unchanged"""
import exc
from core import *
from util import *
RULE = ('Exception-effect dataflow: for every public non-const member function and every public free function taking a non-const reference, no path reaches an escaping throw '
        '(its own or one of a callee, interprocedurally) after the geometry held by the object or argument may have been written. Writes and throws are resolved through the call graph, '
        'references, iterators and lambdas; computed-value caches, status flags and the drawing buffer are not geometry. One obligation per (function instantiation, throwing origin).')
ASSUMPTIONS = ['std::bad_alloc and other exceptions of the standard library are not considered',
               'the point normalization guard cannot fire with the third coordinate just set to 1',
               'FRect_::rotate() by multiples of 90 degrees of a valid rectangle gives a valid rectangle', 'a regular polygon just built has points of index 0 and 1']
FLAGS = {'_hasChanged', '_isNormalized', '_plIsNormalized', '_valIsCorrect', '_value', '_svgString', '_hmt', '_attribs', '_realImg'}
EXEMPT = {('h2d::base::PolylineBase::set', 'getPoint'), ('h2d::FRect_::rotate', 'getBB'), ('h2d::FRect_::rotate', 'getBB_Points'), ('h2d::FRect_::rotate', 'getCorrectPoints'),
          ('h2d::rotate', 'getBB'), ('h2d::rotate', 'getBB_Points'), ('h2d::rotate', 'getCorrectPoints')}

def run(cx):
    cfgs = ('base', 'eigen') if cx.tier == 'quick' else ('base', 'eigen', 'svg', 'speed', 'boost', 'ldld', 'float')
    for F in cx.extract(*cfgs):
        norm = closure_callers(F, [f for f in F.fns if f.q == 'h2d::base::LPBase::impl_normalize'])
        cx.need(norm, 1, 'point normalization')
        X = exc.Exc(F, ignore=lambda f, p: any(isinstance(x, str) and x in FLAGS for x in p) or (p[0] == 'p' and F.recq(f.params[p[1]]['t']) == 'h2d::img::Image'), skip=lambda g: g.id in norm)
        ex = {n: closure_callers(F, [f for f in F.fns if f.name == n]) for n in {b for a, b in EXEMPT}}
        nf = 0
        for f in F.fns:
            if not public(f) or f.const or f.static_: continue
            if f.d.get('ctor'): roots = {'p'}
            else: roots = {'this', 'p'}
            if f.cls is None and not any(F.is_ref(p['t']) and not F.pointee_const(p['t']) for p in f.params): continue
            if not X.may[f.id]: continue
            nf += 1
            for o in X.may[f.id]:
                bad = [(p, w) for (p, oo), w in X.dirty[f.id].items() if oo == o and p[0] in roots]
                if bad and any(o in ex[n] for q, n in EXEMPT if q == f.q): bad = []
                g = F.byid[o]
                if bad:
                    p, (e, w) = bad[0]
                    cx.bad('%s>%s' % (f.q, g.q), '%s (%s, config %s): the exception raised in %s (line %d) can leave after %s was modified (write at %s, throw at %s)' % (f.sig(), 'homog2d.hpp:%d' % f.line, F.config, g.q, f.nodes[e]['l'], '.'.join(map(str, p)), f.loc(w), f.loc(e)))
                else: cx.good('%s: exception of %s leaves it unchanged' % (f.sig(), g.q))
        cx.need(nf, 60, 'modifying functions that may throw (%s)' % F.config)
