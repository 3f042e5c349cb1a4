"""equality compares all the data, inequality is its negation"""
import cover, imply
from core import *
from util import *
RULE = ('Implied-facts dataflow (forward must-analysis over the CFG with interprocedural summaries of boolean results): for each operator== of the geometric types, a true result implies that every defining field of one object was compared '
        'with the same field of the other and found equal or within the threshold, and a false result that some comparison told them apart; for operator!=, a false result implies the former and a true one the latter. '
        'One obligation per (operator instantiation, field) and per result. The loops (counters, iterators, range-based, algorithms) of the operators and of the boolean functions they execute start at the first element of both containers, end at the last one and step over none.')
ASSUMPTIONS = ['comparisons inside a loop hold for all elements when every iteration performs them']
A = ('_v',)
FIELDS = {'h2d::Circle_': [('_center',), ('_radius',)], 'h2d::FRect_': [('_ptR1',), ('_ptR2',)], 'h2d::base::SegVec': [('_ptS1',), ('_ptS2',)],
          'h2d::base::PolylineBase': [('_plinevec', '[]'), ('_plinevec',)], 'h2d::Hmatrix_': [('_mdata', '[]', '[]')], 'h2d::Ellipse_': [('_mdata', '[]', '[]')],
          'h2d::base::LPBase': [('_v', '[0]'), ('_v', '[1]'), ('_v', '[2]')]}

def covered(facts, fld):
    """fld of *this compared with the same field of the argument"""
    for x in facts:
        if x[0] != 'EQ': continue
        a = {y[1:] for y in x[1] if y[0] == 'this'}; b = {y[2:] for y in x[1] if y[0] in ('p', 'v') and y[1] == 0}
        if a != b: continue
        if fld == ('_plinevec',):
            if ('_plinevec',) in a: return True
        elif any(pprefix(fld, y) for y in a): return True
    return False

def mismatched(facts):
    out = []
    for x in facts:
        if x[0] != 'EQ': continue
        a = {y[1:] for y in x[1] if y[0] == 'this'}; b = {y[2:] for y in x[1] if y[0] in ('p', 'v') and y[1] == 0}
        if a and b and a != b: out.append((a, b))
    return out

def run(cx):
    cfgs = ('base', 'speed') if cx.tier == 'quick' else ('base', 'speed', 'float', 'ldld', 'nocheck', 'boost', 'opencv')
    for F in cx.extract(*cfgs):
        I = imply.imply(F); seen = set(); n = 0; walked = set(); nl = 0
        for f in F.fns:
            if f.name not in ('operator==', 'operator!=') or f.clsq not in FIELDS or len(f.params) != 1: continue
            T, Fa = I.T[f.id], I.Fa[f.id]
            eq, ne = (T, Fa) if f.name == 'operator==' else (Fa, T)
            where = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), f.line, F.config)
            if F.recq(f.params[0]['t']) != f.clsq: continue
            nl += cover.report(cx, F, f, 'which is never compared', None, walked)
            if eq is None:
                # never equal: only allowed between different types (open / closed polyline)
                same = F.t(F.strip(f.params[0]['t'])).get('u') == f.cls
                cx.check(not same, f.q + '|never', '%s never tells two objects of the same kind equal' % where, '%s: constant result between open and closed polylines' % f.sig())
                continue
            n += 1; seen.add((f.clsq, f.name))
            for fld in FIELDS[f.clsq]:
                cx.check(covered(eq, fld), '%s|%s' % (f.q, '.'.join(fld)), '%s: the two objects can be told equal without field %s having been compared equal with its counterpart' % (where, '.'.join(fld)), '%s: equal only if %s agree' % (f.sig(), '.'.join(fld)))
            mm = mismatched(eq)
            cx.check(not mm, f.q + '|pair', '%s: different fields are compared with each other: %s' % (where, mm[:1]))
            cx.check(ne is not None and ('DIFF',) in ne, f.q + '|diff', '%s: the two objects can be told different although no comparison told them apart' % where, '%s: different only after a failed comparison' % f.sig())
        cx.need(n, 20, 'comparison operators (%s)' % F.config)
        cx.need(seen, 13, 'kinds of comparison operators (%s)' % F.config)
