'''Driver: MicroXML parser, through all its entry points'''
from .real import attempt, codes, uncodes, guard, Hang

from amara3.uxml import parser as P, tree, treeiter


def canon(ev):
    try:
        if ev[0] == P.event.start_element and len(ev) == 4:
            return {'k': 'S', 'n': codes(ev[1]), 'a': [[codes(k), codes(v)] for k, v in ev[2].items()], 's': [codes(x) for x in ev[3]]}
        if ev[0] == P.event.characters and len(ev) == 2:
            return {'k': 'T', 't': codes(ev[1])}
        if ev[0] == P.event.end_element and len(ev) == 3:
            return {'k': 'E', 'n': codes(ev[1]), 's': [codes(x) for x in ev[2]]}
    except Exception:
        pass
    return {'k': 'X', 't': [ord(c) for c in repr(ev)[:100]]}


def handler(acc):
    while True:
        ev = yield
        acc.append(canon(ev))   # as it is when delivered


def feed(frags, last_done):
    '''Incremental parse. last_done: the last fragment says it is the last, otherwise an extra empty one does'''
    acc = []
    cuts, counts = [], []
    h = handler(acc)
    total = 0
    out = 'ok'
    try:
        with guard():
            p = P.parser(h)
            for i, frag in enumerate(frags):
                p.send((frag, last_done and i == len(frags) - 1))
                total += len(frag)
                cuts.append(total)
                counts.append(len(acc))
            if not last_done:
                p.send(('', True))
            p.close()
            h.close()
    except Hang:
        out = 'hang'
    except Exception:
        out = 'err'
    return {'cuts': cuts, 'counts': counts, 'out': out, 'evs': acc}


def split(x, cuts):
    pos = [0] + list(cuts) + [len(x)]
    return [x[a:b] for a, b in zip(pos, pos[1:])]


def sink():
    while True:
        yield


def run(case):
    x = uncodes(case['x'])
    runs = [feed([x], False)]
    for cuts, last_done in case['cuts']:
        if cuts == 'chars':
            frags = list(x)
        elif cuts == 'empties':
            frags = [''] + [f for c in x for f in (c, '')]
        else:
            frags = split(x, cuts)
        runs.append(feed(frags, last_done))
        frags2 = frags
    ends = []
    if case.get('ends', True):
        out, evs = attempt(lambda: [canon(e) for e in P.parse(x)])
        ends.append({'ep': 'parse', 'out': out, 'evs': evs or [], 'full': out == 'ok', 'frag': True})
        if case['cuts']:
            out, evs = attempt(lambda: [canon(e) for e in P.parsefrags(iter(frags2))])
            ends.append({'ep': 'parsefrags', 'out': out, 'evs': evs or [], 'full': out == 'ok', 'frag': True})
        out, _ = attempt(tree.parse, x)
        ends.append({'ep': 'tree.parse', 'out': out, 'evs': [], 'full': False, 'frag': True})
        out, _ = attempt(lambda: treeiter.sender(('a', 'b'), sink()).parse(x))
        ends.append({'ep': 'treeiter.sender.parse', 'out': out, 'evs': [], 'full': False, 'frag': True})
    return {'x': case['x'], 'runs': runs, 'ends': ends}
