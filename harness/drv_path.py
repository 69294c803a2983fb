'''Driver: MicroXPath evaluations'''
import math
from .real import attempt, codes, uncodes
from .trees import dump, order
from .drv_select import build
from . import xprender

from amara3.uxml import tree
from amara3.uxml.uxpath import context, parse, qquery


def kinds():
    '''Types of root & attribute nodes'''
    try:
        from amara3.uxml.uxpath.xast import root_node, attribute_node
        return root_node, attribute_node
    except ImportError:
        e = tree.parse('<a b=""></a>')
        return type(next(e.xml_xpath('(/)'))), type(next(e.xml_xpath('//@b')))


ROOT, ATTRIBUTE = kinds()


def rootof(nd): return ROOT.get(nd) if hasattr(ROOT, 'get') else next(parse('(/)').compute(context(nd, force_root=False)))


# functions of the library under other names
OWN = 'own-'
BUILTINS = dict(context(None).functions)
# or in the place of each other
SWAPPED = {xprender.SWAP.get(n, n): f for n, f in BUILTINS.items()}


def Item(k, i=0, t=(), v=()): return {'k': k, 'i': i, 't': list(t), 'v': list(v)}


def topof(nd):
    while nd.xml_parent is not None: nd = nd.xml_parent
    return nd


def item(x, ids, root):
    '''A result, as an item of UXPath'''
    if isinstance(x, ROOT): return Item('R') if x.xml_children[0] is root else Item('?', 1)
    if isinstance(x, ATTRIBUTE):
        p = x.xml_parent
        return Item('A', ids.get(id(p), 0), codes(x.xml_name), codes(x.xml_value))
    if isinstance(x, tree.node): return Item('N', ids[id(x)]) if id(x) in ids else Item('?', 2)
    if isinstance(x, bool): return Item('B', int(x))
    if isinstance(x, (int, float)):
        if math.isnan(x): return Item('F', 0, [1])
        if math.isinf(x): return Item('F', 0, [2 if x > 0 else 3])
        n = round(x * 1000)
        return Item('F', n) if abs(n - x * 1000) < 1e-6 and abs(n) < 2 ** 31 else Item('?', 3)
    if isinstance(x, str): return Item('S', 0, codes(x))
    return Item('?', 4, codes(repr(type(x))))


def value(x, nodes):
    '''The opposite: for a variable'''
    k = x['k']
    if k == 'N': return nodes[x['i'] - 1]
    if k == 'S': return uncodes(x['t'])
    if k == 'B': return bool(x['i'])
    if k == 'R': return rootof(nodes[0])
    if k == 'A': return next(r for r in parse('@*').compute(context(nodes[x['i'] - 1], force_root=False)) if codes(r.xml_name) == x['t'])
    if x['t']: return [math.nan, math.inf, -math.inf][x['t'][0] - 1]
    return x['i'] // 1000 if x['i'] % 1000 == 0 else x['i'] / 1000


def start(ev, nodes, text, vars):
    '''Begin an evaluation: an iterator of results, and the top of the tree they come from, if not the present one'''
    ep, i = ev['ep'], ev['i']
    nd = nodes[i - 1] if i else None
    how = ev.get('how', 'text')
    expr = text if how == 'text' else parse(text)
    own = ev.get('own')
    if own:
        funcs = {OWN + n: f for n, f in BUILTINS.items()}
        if own == 'more': funcs.update(BUILTINS)
        if own == 'swap': funcs = SWAPPED
        if ep == 'xml_xpath': return nd.xml_xpath(expr, vars=vars, funcs=funcs)
        if ep == 'qquery': return qquery(nd, expr, vars=vars, funcs=funcs)
        if isinstance(expr, str): expr = parse(expr)
        if ep == 'attr': nd = value({'k': 'A', 'i': i, 't': ev['at'], 'v': []}, nodes)
        ctx = context(nd, variables=vars, functions=funcs) if ep == 'forced' else context(nd, variables=vars, functions=funcs, force_root=False)
        return expr(ctx) if how == 'called' and hasattr(expr, '__call__') else expr.compute(ctx)
    if ep == 'xml_xpath': return nd.xml_xpath(expr, vars) if vars else nd.xml_xpath(expr)
    if ep == 'qquery': return qquery(nd, expr, vars=vars) if vars else qquery(nd, expr)
    if ep in ('string', 'bytes'):
        doc = nodes[0].xml_encode()
        return qquery(doc if ep == 'string' else doc.encode('utf-8'), expr, vars)
    if isinstance(expr, str): expr = parse(expr)
    if ep == 'attr': nd = value({'k': 'A', 'i': i, 't': ev['at'], 'v': []}, nodes)
    ctx = context(nd, variables=vars) if ep == 'forced' else context(nd, variables=vars, force_root=False)
    return expr(ctx) if how == 'called' and hasattr(expr, '__call__') else expr.compute(ctx)


def run(case):
    root = build(case['src'])
    nodes = order(root)
    ids = {id(nd): i + 1 for i, nd in enumerate(nodes)}
    h = dump(root, False)
    vs = case.get('vs', [])
    vars = {uncodes(n): value(v, nodes) for n, v in vs}
    evs = []
    for ev in case['evs']:
        ev = dict(ev)
        try: text = xprender.render(ev['e'], ev.get('style', 0), xprender.SWAP if ev.get('own') == 'swap' else OWN if ev.get('own') else '')
        except xprender.CantSay: continue

        def go():
            got, map_ids, top = [], ids, root
            for x in start(ev, nodes, text, vars):
                if ev['ep'] in ('string', 'bytes') and isinstance(x, tree.node):
                    t = topof(x.xml_children[0] if isinstance(x, ROOT) else x)
                    if t is not top:
                        top = t
                        map_ids = {id(nd): i + 1 for i, nd in enumerate(order(t))}
                got.append(item(x, map_ids, top))
                if len(got) > 20000: return 'hang', []
            return 'ok', got
        out, r = attempt(go, seconds=15.0)
        if out == 'ok': out, got = r
        else: got = []
        evs.append({'ep': ev['ep'], 'i': ev['i'], 'at': ev.get('at', []), 'e': ev['e'], 'out': out, 'got': got, 'text': text})
    return {'h': h, 'vs': vs, 'evs': evs, 'after': dump(root, False)}
