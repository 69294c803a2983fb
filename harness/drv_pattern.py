'''Driver: pattern-driven parses from MicroXML and XML'''
from .real import Pieces, attempt, codes, uncodes
from .trees import dump

from amara3.uxml import tree, treeiter, xmliter, xml, html5, html5iter


def step(s, mod=tree, *first):
    '''A step may also be given with functions in it, as f has it'''
    f = s.get('f', 0)
    if s['k'] == 'deep': return '**'
    if s['k'] == 'any': return '*' if not f else (mod.elem_test(*first),) if f == 1 else ('no-such-name', mod.elem_test(*first))
    n = [uncodes(x) for x in s['n']]
    if f: return tuple(mod.name_test(*first, x) if f == 1 or k % 2 else x for k, x in enumerate(n))
    return n[0] if len(n) == 1 else tuple(n)


def pattern(p): return tuple(step(s) for s in p)


def disturb(e):
    '''What a sink might do to a subtree it got'''
    e.xml_attributes['zzz'] = 'q'
    for k in list(e.xml_attributes):
        if k != 'zzz': e.xml_attributes[k] = 'changed'
    e.xml_name = 'changed'
    for c in list(e.xml_children):
        if isinstance(c, tree.element): disturb(c)
    e.xml_children.clear()
    e.xml_append('changed')


def sink(log, n, mode):
    while True:
        e = yield
        log.append([n, e, dump(e), mode])
        if mode == 'disturb': disturb(e)
        elif mode == 'adopt': ADOPTED.setdefault(n, tree.element('adopted')).xml_append(e)
        elif mode == 'detach':
            for c in list(e.xml_children): e.xml_remove(c)


ADOPTED = {}        # sink -> tree it puts together from what it gets


def later(n, e, mode, log):
    if mode not in ('keep', 'adopt'): return []
    d = dump(e)
    if mode == 'adopt':
        mine = [x for m, x, _, _ in log if m == n]
        ok = e.xml_parent is ADOPTED[n] and len(mine) == len(ADOPTED[n].xml_children) and all(a is b for a, b in zip(mine, ADOPTED[n].xml_children))
        d[0]['p'] = 0 if ok else -9
    return d


class EventSink:
    '''Not a coroutine, but will do as a sink'''
    def __init__(self, log, n, mode): self.s = sink(log, n, mode); next(self.s)

    def send(self, e): self.s.send(e)


def events(e, above):
    'What the tree of an HTML document amounts to'
    out = [{'k': 'S', 'n': codes(e.xml_name), 'a': [[codes(k), codes(v)] for k, v in e.xml_attributes.items()], 's': above}]
    for c in e.xml_children:
        if isinstance(c, tree.element): out += events(c, above + [codes(e.xml_name)])
        elif not isinstance(c, html5.comment): out.append({'k': 'T', 't': codes(c)})
    return out + [{'k': 'E', 'n': codes(e.xml_name), 's': above}]


def run(case):
    x = uncodes(case['x'])
    pats = [pattern(p) for p in case['pats']]
    log = []
    ADOPTED.clear()
    kind = case['kind']
    modes = case.get('modes') or ['keep'] * len(pats)
    sinks = [sink(log, i + 1, m) for i, m in enumerate(modes)]
    kw = {}
    if case.get('primed'):
        for s in sinks: next(s)
        kw['prime_sinks'] = False
    if len(pats) == 1 and isinstance(pats[0][0], str) and case.get('single'):
        args = (pats[0], sinks[0])
    elif case.get('single'):
        args = (pats, tuple(sinks))
    else:
        args = (pats, sinks)
    cuts, counts = [], []

    def go():
        if kind in ('ux', 'html') and case.get('before'):
            # other documents first, which might be rejected
            ts = (treeiter if kind == 'ux' else html5iter).sender(*args, **kw)
            for y in case['before']: attempt(ts.parse, uncodes(y))
            log.clear()
            ADOPTED.clear()
            ts.parse(x)
        elif kind == 'ux':
            treeiter.sender(*args, **kw).parse(x)
        elif kind == 'xml':
            pos = [0] + case['cuts'] + [len(x)]
            ts = xmliter.sender(*args, **kw) if not case.get('ns') else xmliter.sender(*args, callbacks=xml.ns_expat_callbacks, **kw)
            for a, b in zip(pos, pos[1:]):
                ts.parse(x[a:b])
                if case['prompt']:
                    cuts.append(b)
                    counts.append(len(log))
        elif kind == 'html':
            html5iter.sender(*args, **kw).parse(x)
        elif kind == 'file':
            xmliter.sender(*args, **kw).parse_file(Pieces(x.encode('utf-8')))
    if kind == 'html':
        o, evs = attempt(lambda: events(html5.parse(x), []))
        if o != 'ok': return {'skip': True}
    else: evs = []
    out, _ = attempt(go)
    return {'evs': evs, 'x': case['x'], 'kind': kind, 'pats': case['pats'], 'out': out, 'cuts': cuts, 'counts': counts,
            'log': [{'s': n, 'now': now, 'later': later(n, e, m, log), 'kept': m in ('keep', 'adopt')} for n, e, now, m in log]}
