"""Axis classification of places: which coordinate (X or Y) of a point a value comes from."""
from core import *
import flow

def field_type(F, tid, name):
    """type id of member `name` of record type tid (bases included)"""
    st = [F.strip(tid)]; seen = set()
    while st:
        x = st.pop()
        if x is None or x < 0 or x in seen: continue
        seen.add(x)
        t = F.t(x)
        r = F.recs.get(t.get('u'))
        if r:
            for fd in r['fields']:
                if fd['n'] == name: return fd['t']
        if t.get('q') in ('std::pair',) and name in ('first', 'second') and len(t.get('a', ())) == 2:
            return t['a'][0 if name == 'first' else 1]
        st.extend(t.get('b', []))
    return None

ELEM = {'std::vector', 'std::list', 'std::array', 'std::set', 'std::deque', 'std::stack', 'std::initializer_list', 'std::optional', 'std::unique_ptr', 'std::shared_ptr'}
def elem_type(F, tid):
    t = F.t(F.strip(tid))
    if t['k'] in ('ptr', 'arr'): return t['p']
    q = t.get('q')
    if q in ELEM and t.get('a') and not isinstance(t['a'][0], str): return t['a'][0]
    for b in t.get('b', []):
        r = elem_type(F, b)
        if r is not None: return r
    return None

def root_type(f, p):
    F = f.facts
    if p[0] == 'this':
        c = f.cls
        if c is None and f.outer is not None: c = f.outer.cls
        for i, t in enumerate(F.types):
            if t.get('u') == c: return i
        return None
    if p[0] in ('p', 'v'): return F.strip(f.params[p[1]]['t'])
    if p[0] in ('d', 'g', 'cap'): return F.strip(F.decls[p[1]]['t'])
    if p[0] == 'tmp': return F.strip(f.nodes[p[1]]['t'])
    return None

_TT = {}
def this_type(F, cls):
    m = _TT.setdefault(id(F), {})
    if not m:
        for i, t in enumerate(F.types):
            if t.get('u') and t['k'] == 'rec': m.setdefault(t['u'], i)
    return m.get(cls)

def step_type(F, t, comp):
    if comp == '*' or comp[:1] == '[': return elem_type(F, t)
    if comp[:1] == '~': return t
    return field_type(F, t, comp)

def is_point(F, t):
    x = F.t(F.strip(t))
    return x.get('q') == 'h2d::base::LPBase' and 'IsPoint' in x['s'].split('<', 1)[1].split(',')[0]

def axis_from(F, t, path):
    """axis of the component at `path` of an object of type t:
    'X' 'Y' coordinates, 'W' the common divisor, 'P' a whole point, 'S' something without point inside, '?'"""
    for k, c in enumerate(path):
        if c[:1] == '~': continue
        if t is None: return '?'
        if is_point(F, t):
            ft = field_type(F, t, c)
            if ft is None: return '?'
            rest = [x for x in path[k + 1:] if x[:1] != '~']
            if not rest: return 'P'
            return {'[0]': 'X', '[1]': 'Y', '[2]': 'W'}.get(rest[0], 'P')
        if c in ('x0', 'y0') and 'EllParams' in F.t(F.strip(t))['s']: return 'X' if c == 'x0' else 'Y'
        t = step_type(F, t, c)
    if t is None: return '?'
    if is_point(F, t): return 'P'
    x = F.t(F.strip(t))
    if x['k'] in ('float', 'int', 'bool', 'enum'): return 'S'
    return 'O'

def axis(f, p):
    F = f.facts
    n = 1 if p[0] == 'this' else 2
    t = this_type(F, f.cls or (f.outer.cls if f.outer else None)) if p[0] == 'this' else root_type(f, p)
    return axis_from(F, t, p[n:])
