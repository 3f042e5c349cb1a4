"""arguments may be parts of the modified object"""
import alias
from core import *
from util import *
RULE = ('Alias dataflow: in every function, once (part of) an object may have been written, no reference parameter that can denote that same memory may be read any more. '
        'A parameter can denote part of the object when the types agree and the class lets a reference to that part out (or the parameter is the whole object). Read and write sets are '
        'interprocedural summaries over access paths; constructed objects cannot alias. Calls of internal helpers with the same object bound to a written and a later-read parameter are reported too. One obligation per (public function instantiation, reference parameter).')
ASSUMPTIONS = ['assigning a point set to itself element by element (PolylineBase::set of its own points) changes nothing']
FLAGS = {'_hasChanged', '_isNormalized', '_plIsNormalized', '_valIsCorrect', '_value', '_svgString', '_hmt', '_attribs', '_realImg'}
SELFCOPY = {'h2d::base::PolylineBase::set'}

def run(cx):
    cfgs = ('base', 'eigen') if cx.tier == 'quick' else ('base', 'eigen', 'svg', 'speed', 'boost', 'ldld', 'float')
    for F in cx.extract(*cfgs):
        A = alias.Alias(F, skip=lambda p: any(isinstance(x, str) and x in FLAGS for x in p))
        cx.need(A.exposed, 5, 'classes handing out references')
        nf = 0
        for f in F.fns:
            if not public(f): continue
            refs = [i for i, p in enumerate(f.params) if F.is_ref(p['t'])]
            if not refs: continue
            nf += 1
            H = {}
            for (w, r), at in A.haz[f.id].items():
                if f.d.get('ctor') and w[0] == 'this': continue
                if f.q in SELFCOPY and w[:2] == ('this', '_plinevec') and '[]' in r: continue
                H.setdefault(r[1], (w, r, at))
            for i in refs:
                if i in H:
                    w, r, (a, b) = H[i]
                    cx.bad('%s#%d' % (f.q, i), '%s (homog2d.hpp:%d, config %s): parameter %d may be part of the modified object, and is read at %s after %s was written at %s' % (f.sig(), f.line, F.config, i, f.loc(b), '.'.join(map(str, w)), f.loc(a)))
                else: cx.good('%s: parameter %d not read after an overlapping write' % (f.sig(), i))
        for f, e, w, r, g in A.definite:
            cx.bad('%s>%s' % (f.q, g.q), '%s: %s passes the same object to %s for writing and for reading afterwards' % (f.loc(e), f.sig(), g.q))
        cx.need(nf, 150, 'public functions with reference parameters (%s)' % F.config)
