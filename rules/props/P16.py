"""every element is visited, none beyond"""
import collections
import cover
from core import *
from util import *
RULE = ('Every loop and algorithm call that walks a container (counter, iterator, range) is reduced to the interval of elements it visits, as linear offsets from both ends of that very container (access path from this, a parameter or a local variable): it must begin at the first '
        'element (or that element is handled on its own), end at the last one, step over none, and never leave the container, unless the access is made under a condition. A container may be walked partially in a loop that walks another one completely (consecutive pairs, angles).')
ASSUMPTIONS = ['size(), begin() and end() of the standard containers', 'accesses made under a condition on the index are left to that condition']
def run(cx):
    for F in cx.extract(*(['base'] if cx.tier == 'quick' else ['base', 'plain', 'speed', 'float', 'ldld', 'nocheck', 'prtp', 'svg', 'opencv', 'boost'])): check(cx, F)
def check(cx, F):
    n = und = nl = 0
    for f in F.fns:
        if not f.blocks(): continue
        L = collections.defaultdict(list)
        for node, r, end, v in cover.walks(F, f): L[node].append((r, end, v))
        for node, ws in L.items():
            nl += 1; l = f.nodes[node].get('l', f.line)
            full = {r for r, e, v in ws if v == 'ok' and e == 'first'} & {r for r, e, v in ws if v in ('ok', '?') and e == 'last'}
            for r, end, v in ws:
                if v == '?': und += 1; continue
                if v == 'skip' and full - {r} : und += 1; continue
                n += 1
                cx.check(v == 'ok', '%s:%s:%s' % (f.q, end, v), lambda: '%s (homog2d.hpp:%d, config %s): the loop at line %d %s' % (f.sig(), f.line, F.config, l, cover.text(v, end, 'though every element counts')), '%s: loop at line %d, %s element' % (f.sig(), l, end))
    cx.cov['configurations'].setdefault(F.config, {}).update(loops=nl, ends_decided=n, ends_not_decided=und)
    cx.need(n, 150, 'loop ends (%s)' % F.config)
