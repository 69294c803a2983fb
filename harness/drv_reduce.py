'''Driver: XML documents through all entry points'''
from .real import Pieces, attempt, codes, uncodes
from .trees import dump
from .drv_parser import canon
from .drv_pattern import pattern

from amara3.uxml import xml, xmliter, tree


def handler(acc):
    while True:
        ev = yield
        acc.append((canon(ev), ev))


def sink(acc):
    while True:
        e = yield
        acc.append(e)


def run(case):
    builders = {}
    res, keep = [], []
    for d in case:
        x = d['x']          # the text itself
        data = x.encode('utf-8') if d['bytes'] else x
        r = {'items': d['items'], 'ep': d['ep'], 'evs': [], 'now': [], 'end': [], 'pat': d['pat'], 'log': []}
        root = None
        if d['ep'] == 'tb':
            b = builders.setdefault(d['b'], xml.treebuilder())
            r['out'], root = attempt(b.parse, data)
            if r['out'] == 'ok':
                if root is None: r['out'] = 'none'
                else: r['now'] = dump(root)
        elif d['ep'] == 'ev':
            acc = []
            r['out'], _ = attempt(xml.parse, data, handler(acc))
            # Events don't change once they have been sent
            now, later = [a for a, _ in acc], [canon(ev) for _, ev in acc]
            r['evs'] = now if now == later else later
        else:
            acc = []

            def go():
                kw = {'callbacks': xml.ns_expat_callbacks} if d['ns'] else {}
                ts = xmliter.sender([pattern(d['pat'])], [sink(acc)], **kw)
                if d['ep'] == 'file':
                    ts.parse_file(Pieces(x.encode('utf-8')))
                else:
                    pos = [0] + [c * len(data) // 1000 for c in d['cuts']] + [len(data)]
                    for a, b in zip(pos, pos[1:]): ts.parse(data[a:b])
            r['out'], _ = attempt(go)
            r['log'] = [dump(e) for e in acc]
        res.append(r)
        keep.append(root)
    for r, root in zip(res, keep):
        if root is not None: r['end'] = dump(root)
    return res
