"""Homography caches: inverse-transposed matrix and normalisation flag follow the matrix."""
import cache
from core import *
from props.P01 import check
RULE = ('Typestate dataflow over the control-flow graph of every function that (transitively) touches the 3x3 values of an Hmatrix_, its cached inverse-transposed matrix, '
        'its "has changed" flag or its "is normalized" flag, composed over the call graph: after any write to the matrix values every flag must say "recompute" before a public '
        'function returns, on every path; the cached matrix is read only where the flag is known valid or it was just recomputed; a flag is copied only together with the matrix; '
        'non-const references to elements leave only with the flags reset. One obligation per (function instantiation, object, cache).')
ASSUMPTIONS = ['a non-const element reference handed out by the base-class accessor is not kept across a later query',
               'the recomputation stores the right matrix (inverse, transposed); not decided here']

def same(f, a, b):
    """structurally identical expressions"""
    while f.nodes[a]['k'] == 'ImplicitCastExpr' and f.nodes[a].get('c'): a = f.nodes[a]['c'][0]
    while f.nodes[b]['k'] == 'ImplicitCastExpr' and f.nodes[b].get('c'): b = f.nodes[b]['c'][0]
    x, y = f.nodes[a], f.nodes[b]
    if x['k'] != y['k'] or any(x.get(k) != y.get(k) for k in ('d', 'm', 'op', 'v', 'fn')): return False
    c, d = x.get('c', ()), y.get('c', ())
    return len(c) == len(d) and all(same(f, p, q) for p, q in zip(c, d))

def scaled(f, i):
    """multiplication or division of an element by a factor, or a sign change: the matrix stays projectively the same"""
    n = f.nodes[i]; ch = n.get('c', ())
    if n['k'] == 'CompoundAssignOperator': return n['op'] in ('/=', '*=')
    if n['k'] == 'BinaryOperator' and n['op'] == '=':
        x = ch[1]
        while f.nodes[x]['k'] in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and f.nodes[x].get('c'): x = f.nodes[x]['c'][0]
        y = f.nodes[x]
        if y['k'] == 'UnaryOperator' and y['op'] == '-': return same(f, ch[0], y['c'][0])
        if y['k'] == 'BinaryOperator' and y['op'] == '/': return same(f, ch[0], y['c'][0])
        if y['k'] == 'BinaryOperator' and y['op'] == '*': return same(f, ch[0], y['c'][0]) or same(f, ch[0], y['c'][1])
    return False

def protos(F):
    return [cache.Proto('the cached inverse-transposed matrix', 'h2d::Hmatrix_', ('_mdata',), ('_hasChanged',), False, ('_hmt', '*'), scaled),
            cache.Proto('the "is normalized" flag', 'h2d::detail::Matrix_', ('_mdata',), ('_isNormalized',), True, None)]

def run(cx):
    cfgs = ('base', 'eigen') if cx.tier == 'quick' else ('base', 'eigen', 'opencv', 'ld', 'float', 'nocheck', 'speed', 'plain')
    for F in cx.extract(*cfgs):
        check(cx, F, protos(F), 30, 'homography')
