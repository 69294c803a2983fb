'''Driver: texts of MicroXPath expressions'''
from .real import attempt, uncodes
from .trees import dump, order
from .drv_select import build
from .drv_path import item, start, value

from amara3.uxml.uxpath import parse


def run(case):
    root = build(case['src'])
    nodes = order(root)
    ids = {id(nd): i + 1 for i, nd in enumerate(nodes)}
    h = dump(root, False)
    vars = {uncodes(n): value(v, nodes) for n, v in case['vs']}
    xs = []
    for x in case['xs']:
        text = uncodes(x)
        p, expr = attempt(lambda: parse(text))
        evs = []
        for ev in case['starts']:
            def go():
                got = []
                for r in start(ev, nodes, text, vars):
                    got.append(item(r, ids, root))
                    if len(got) > 20000: return 'hang', []
                return 'ok', got
            out, r = attempt(go)
            if out == 'ok': out, got = r
            else: got = []
            evs.append({'ep': ev['ep'], 'i': ev['i'], 'at': ev.get('at', []), 'out': out, 'got': got})
        if p != 'ok' and any(e['out'] == 'ok' for e in evs): p = 'ok'     # what one way in rejects, all should
        elif p == 'ok' and expr is None: p = 'err'
        xs.append({'x': x, 'p': p, 'evs': evs, 'text': text})
    return {'h': h, 'vs': case['vs'], 'xs': xs, 'after': dump(root, False)}
