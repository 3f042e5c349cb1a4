"""computations are carried out in the internal numeric type"""
import re
from core import *
from util import *
RULE = ('Type-flow over the instantiated program, drawing code excluded. (1) float objects, double internal type: no arithmetic operator or math function is evaluated in float (in-place scaling of a stored value excepted); a value of higher precision is only narrowed to be '
        'stored into a field or element of an object, never into a local scalar, a scalar result or a scalar argument of a function that goes on computing. (2) long double objects and internal type: no expression, object or math function of a lower '
        'precision occurs, and every non-dyadic constant used in a computation has long double precision. (3) mixed types: same as (1) for the lower type of each pair.')
ASSUMPTIONS = ['SVG text, drawing and printing are outside (pixels, decimal output)']
RANK = {'float': 1, 'double': 2, 'long double': 3}
DRAW = re.compile(r'draw|img::|svg::|Arrow|operator<<|[pP]rint|SvgImage|getCvPt|getString|impl_draw')
ARITH = {'+', '-', '*', '/', '+=', '-=', '*=', '/='}

def ty(F, i):
    t = F.t(F.strip(i))
    return t['s'].replace('const ', '').strip() if t['k'] == 'float' else None

def low(s, lim):
    s = s.replace('long double', 'LD')
    return ('float' in re.findall(r'\w+', s)) or (lim > 2 and 'double' in re.findall(r'\w+', s))

def drawing(F):
    """drawing functions, and the helpers only they use"""
    return closure_set(F, {f.id for f in F.fns if DRAW.search(f.q)})

def closure_set(F, s):
    E = effects(F); ch = True
    while ch:
        ch = False
        for f in F.fns:
            if f.id in s: continue
            cs = E.rcg.get(f.id)
            if f.outer is not None and f.outer.id in s: s.add(f.id); ch = True; continue
            if cs and not public(f) and all(c in s for c in cs): s.add(f.id); ch = True
    return s

def stored(F, f, i):
    """the (narrowed) value of node i only ends in a field/element of an object, a constructor argument or initializer"""
    P = f.parents(); n0 = i
    while True:
        p = P.get(i) if isinstance(P, dict) else P[i]
        if p is None or p < 0: return 'init' if any(i == x.get('e') for x in f.d.get('inits', ())) or f.d.get('inits') else 'init'
        n = f.nodes[p]; k = n['k']
        if 'Cast' in k or k in ('ParenExpr', 'InitListExpr', 'ConditionalOperator', 'CXXDefaultArgExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'):
            if 'Cast' in k and RANK.get(ty(F, n['t']), 0) > RANK.get(ty(F, f.nodes[i]['t']), 9): return 'widened again'
            i = p; continue
        if k == 'BinaryOperator' and n['op'] == '=' and n['c'][1] == i:
            l = f.nodes[n['c'][0]]
            if l['k'] == 'DeclRefExpr':
                d = F.decls[l['d']]
                return None if not F.is_ref(d['t']) else 'place'
            return 'place'
        if k == 'CompoundAssignOperator':
            return 'place' if f.nodes[n['c'][0]]['k'] != 'DeclRefExpr' else None
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): return 'object'
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            c = call_of(f, p); h = F.head(c.callee) if c is not None else None
            g = F.byid.get(c.callee) if c is not None else None
            if h is None: return None
            if k == 'CXXOperatorCallExpr' and h.get('name') == 'operator=' : return 'place'
            nm = h['q'].split('::')[-1]
            if nm in ('push_back', 'emplace_back', 'make_pair', 'pair', 'fill', 'set'): return 'object'
            return None
        return None

def run(cx):
    quick = [('float', 2), ('ldld', 3), ('base', 2)]
    plan = quick if cx.tier == 'quick' else quick + [('ld', 3), ('speed', 2), ('eigen', 2), ('boost', 2)]
    for (cfg, lim), F in zip(plan, cx.extract(*[c for c, _ in plan])):
        dr = drawing(F); n = 0
        inum = {'float': 'double', 'ldld': 'long double', 'base': 'double', 'ld': 'long double', 'speed': 'double', 'eigen': 'double', 'boost': 'double'}[cfg]
        for f in F.fns:
            if f.id in dr: continue
            n += 1; sig = f.q
            for i in live_nodes(f):
                x = f.nodes[i]; k = x['k']
                if x.get('t') is None: continue
                t = ty(F, x['t'])
                loc = '%s (homog2d.hpp:%d, config %s)' % (f.sig(), x['l'], F.config)
                # (1) arithmetic below the internal type
                if k in ('BinaryOperator', 'CompoundAssignOperator') and x.get('op') in ARITH and t is not None and RANK.get(t, 9) < RANK[inum]:
                    ops = [ty(F, f.nodes[c]['t']) for c in x['c']]
                    inplace = k == 'CompoundAssignOperator' and x['op'] in ('*=', '/=') and f.nodes[x['c'][0]]['k'] != 'DeclRefExpr' or k == 'CompoundAssignOperator' and is_elem(f, x['c'][0]) and x['op'] in ('*=', '/=')
                    comp = F.t(x['ct'])['s'] if x.get('ct') is not None else None
                    lit = all(lit_only(f, c) for c in x['c'])
                    wide = any(RANK.get(o, 0) >= RANK[inum] for o in ops)
                    cx.check(inplace or lit or x['op'] in ('*', '/') and pow2(F, f, x) or (k == 'CompoundAssignOperator' and wide), '%s|computes in %s' % (sig, t), '%s: arithmetic in %s instead of the internal type %s' % (loc, t, inum), None)
                c = call_of(f, i)
                if c is not None and c.head and t is not None and RANK.get(t, 9) < RANK[inum] and mathf(c.head['q']):
                    if any(RANK.get(ty(F, f.nodes[a]['t']), 0) for a in c.args):
                        nm = c.head['q'].split('::')[-1]
                        cx.check(nm in ('abs', 'fabs', 'max', 'min', 'isnan', 'isfinite', 'isinf', 'signbit', 'swap') and same_arg(F, f, c, t), '%s|%s in %s' % (sig, nm, t), '%s: %s() evaluated in %s instead of the internal type %s' % (loc, nm, t, inum), None)
                if k == 'CompoundAssignOperator' and x.get('op') in ARITH and t is not None and not is_elem(f, x['c'][0]):
                    w = ty(F, f.nodes[x['c'][1]]['t'])      # the computation is done in the larger type, then brought back
                    if RANK.get(t, 9) < RANK.get(w, 0):
                        cx.check(lit_only(f, x['c'][1]), '%s|accumulates in %s' % (sig, t), '%s: a computation done in %s is accumulated in a variable of type %s' % (loc, w, t), None)
                # narrowing
                # narrowing
                if x.get('ck') and len(x.get('c', ())) == 1 and t is not None:
                    a = ty(F, f.nodes[x['c'][0]]['t'])
                    if a is not None and RANK.get(t, 9) < RANK.get(a, 0) and not lit_only(f, x['c'][0]):
                        s = stored(F, f, i)
                        cx.check(s is not None and s != 'widened again', '%s|narrows to %s' % (sig, t), '%s: a %s value is narrowed to %s, and the result is not just stored into an object' % (loc, a, t), 'narrowing only when storing into an object')
                # (2)
                if cfg == 'ldld':
                    q = F.t(F.strip(x['t']))
                    if q['k'] == 'rec' and 'h2d::' in q['s'] and not f_low(f):
                        cx.check(not low(q['s'], 3), '%s|%s' % (sig, short(q['s'])), '%s: object of type %s in a long double computation' % (loc, q['s'][:80]), None)
                    if t is not None and k == 'DeclRefExpr' and RANK.get(t, 9) < 3 and not f_low(f):
                        cx.bad('%s|variable of type %s' % (sig, t), '%s: variable of type %s in a long double computation' % (loc, t))
                    if k == 'FloatingLiteral' and RANK.get(t, 9) < 3 and not f.q.startswith('h2d::thr::'):
                        v = float(x['v'])
                        cx.check(v == round(v * 1024) / 1024 or small_tol(v), '%s|constant %s' % (sig, x['v']), '%s: constant %s only has the precision of a %s' % (loc, x['v'], t), None)
        cx.need(n, 400, 'functions outside drawing (%s)' % cfg)
        cx.good('%s: %d functions' % (cfg, n))

def pow2(F, f, x):
    """scaling by a literal power of two: exact"""
    for c in x['c'][x['op'] == '/':]:
        if not lit_only(f, c): continue
        n = f.nodes[c]
        while n.get('c'): n = f.nodes[n['c'][0]]
        try: v = abs(float(n['v']))
        except (KeyError, ValueError): continue
        if v in (2, 4, 8, .5, .25): return True
    return False

def f_low(f):
    return low(f.d['fullq'], 3) or low(f.d.get('targs') or '', 3) or (f.outer is not None and f_low(f.outer))

def short(s): return re.sub(r'h2d::|base::|typ::', '', s)[:60]
def small_tol(v): return 0 < abs(v) < 1e-2      # tolerance, not a factor
def is_elem(f, i):
    n = f.nodes[i]
    if n['k'] != 'DeclRefExpr': return True
    return f.facts.is_ref(f.facts.decls[n['d']]['t'])
def lit_only(f, i):
    n = f.nodes[i]
    if n['k'] in ('FloatingLiteral', 'IntegerLiteral'): return True
    ch = [c for c in n.get('c', ()) if c >= 0]
    return bool(ch) and n['k'] in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and all(lit_only(f, c) for c in ch)
def mathf(q): return re.match(r'^(std::|::)?(sqrt|hypot|sin|cos|tan|asin|acos|atan|atan2|pow|exp|log|fabs|abs|fmod|remainder|cbrt|floor|ceil|round|fma|max|min|copysign)(f|l)?$', q) is not None
def same_arg(F, f, c, t): return all((ty(F, f.nodes[a]['t']) in (t, None)) for a in c.args)
