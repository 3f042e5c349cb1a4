"""sort orders"""
import cover, order, flow
from core import *
from util import *
RULE = ('Abstract evaluation of comparison functions over the finite domain of orderings (each pair of compared keys is below/equal/above): every operator< of the library types and every comparator passed to a sorting or min/max algorithm '
        'must be a strict weak order (checked on the complete table), the order of points is x first then y, and the comparators selecting the top-, bottom-, left- and right-most points are the documented ones; '
        'the functions returning these points select the first element of that order, among all of them (the algorithm or loop goes from the first to the last one). One obligation per comparison function instantiation. Comparators that compute with the values before comparing are listed as not decided.')
ASSUMPTIONS = ['coordinates are not NaN', 'a comparison function only compares the same quantity of its two operands']
X = lambda k: any(p and p[-1] == '[0]' for p in k)
Y = lambda k: any(p and p[-1] == '[1]' for p in k)
LEX = [(X, 1), (Y, 1)]
EXTREME = {'getLmPoint': [(X, 1), (Y, 1)], 'getRmPoint': [(X, -1), (Y, 1)], 'getTmPoint': [(Y, -1), (X, 1)], 'getBmPoint': [(Y, 1), (X, 1)]}
MINMAX = {'min_element': 1, 'max_element': -1}
ALGO = {'sort', 'stable_sort', 'min_element', 'max_element', 'minmax_element', 'nth_element', 'partial_sort', 'lower_bound', 'upper_bound', 'equal_range', 'min', 'max', 'make_heap', 'is_sorted', 'unique', 'binary_search', 'merge'}

def extreme_algos(F, f, E, depth=0, seen=None):
    """selection algorithm calls reached from f: (function, Call, lambdas)"""
    if seen is None: seen = set()
    if f.id in seen or depth > 4: return []
    seen.add(f.id); out = []
    for c in calls(f):
        if F.byid.get(c.callee) is None and c.name in MINMAX: out.append((f, c, lambda_args(f, c)))
        g = F.byid.get(c.callee)
        if g is not None and not g.q.startswith('h2d::base::LPBase') : out += extreme_algos(F, g, E, depth + 1, seen)
    return out

def run(cx):
    cfgs = ('base',) if cx.tier == 'quick' else ('base', 'svg', 'speed', 'float', 'ldld')
    und = set()
    for F in cx.extract(*cfgs):
        E = effects(F); walked = set(); n = 0; npt = 0; tabs = {}
        comps = {}
        for f in F.fns:
            if f.name == 'operator<' and len(f.params) + (0 if f.cls is None or f.d.get('acc') is None else 0) >= 1 and not f.lambda_:
                if f.clsq and len(f.params) == 1: comps[f.id] = (f, ('this',), ('p', 0), 'operator<')
                elif len(f.params) == 2: comps[f.id] = (f, ('p', 0), ('p', 1), 'operator<')
            for c in calls(f):
                if c.head is not None and not c.head.get('inhdr') and c.name in ALGO:
                    for l in lambda_args(f, c):
                        if len(l.params) == 2 and F.tname(l.ret) == 'bool':
                            r = [('p', k) if F.is_ref(l.params[k]['t']) else ('v', k) for k in (0, 1)]
                            comps[l.id] = (l, r[0], r[1], 'comparator given to std::%s in %s' % (c.name, f.q))
        for f, A, B, what in comps.values():
            where = '%s (homog2d.hpp:%d, config %s)' % (f.sig() if not f.lambda_ else what, f.line, F.config)
            key = (f.q if not f.lambda_ else 'lambda@' + (f.outer.q if f.outer else ''))
            try: t = order.compare(F, f, A, B)
            except (order.Undecided, order.Thrown, KeyError, IndexError) as e:
                und.add('%s: %s' % (where, e)); continue
            tabs[f.id] = t; n += 1
            law = t.strict_weak()
            cx.check(law is None, key + '|swo', '%s: not a strict weak order: %s' % (where, law), '%s is a strict weak order (table of %d orderings)' % (f.sig() if not f.lambda_ else what, len(t.tab)))
            if f.q == 'h2d::base::LPBase::operator<':
                npt += 1
                cx.check(t.is_lex(LEX), key + '|lex', '%s: points are not ordered by x then y' % where, 'order of points: x then y')
        for f in F.fns:
            if f.name in EXTREME and public(f):
                npt += cover.report(cx, F, f, 'whether or not it is the extreme one', lambda h: h.d.get('acc') != 0, walked)
                for g, c, ls in extreme_algos(F, f, E):
                    where = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), g.nodes[c.node]['l'], F.config)
                    if not ls: und.add(where + ': no comparator'); continue
                    t = tabs.get(ls[0].id)
                    if t is None: und.add(where); continue
                    want = EXTREME[f.name]
                    # either the first element of the order, or the last one of the reversed order
                    ok = t.is_lex(want) if c.name == 'min_element' else t.is_lex([(p, -s) for p, s in want])
                    cx.check(ok, f.q + '|extreme', '%s does not select the point documented by its name' % where, '%s selects by %s' % (f.sig(), c.name)); npt += 1
        cx.need(n, 8, 'comparison functions decided (%s)' % F.config); cx.need(npt, 5, 'point orders (%s)' % F.config)
    cx.cov['not_decided'] = sorted(und)[:40]
