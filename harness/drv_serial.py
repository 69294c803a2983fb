'''Driver: parsed MicroXPath expressions as texts again'''
from .real import attempt, codes, uncodes
from .trees import order
from .drv_select import build
from .drv_path import value

from amara3.uxml.uxpath import context, parse
from amara3.uxml.uxpath.xast import serialize


def run(case):
    nodes = order(build(case['src']))
    vars = {uncodes(n): value(v, nodes) for n, v in case['vs']}
    xs = []
    for x in case['xs']:
        text = uncodes(x)
        p, expr = attempt(lambda: parse(text))
        ser = []
        if p == 'ok' and expr is None: p = 'err'
        if p == 'ok':
            def write():
                out, y = attempt(lambda: serialize(expr))
                ser.append({'out': out, 'y': codes(y) if out == 'ok' else [], 'text': y if out == 'ok' else repr(y)})
            write()
            for m in case['at']:
                def go():
                    for k, _ in enumerate(expr.compute(context(nodes[m - 1], variables=vars))):
                        if k > 200: break
                attempt(go)
            write()
        xs.append({'x': x, 'p': p, 's': ser, 'text': text})
    return {'xs': xs}
