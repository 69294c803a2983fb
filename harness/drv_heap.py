'''Driver: histories of tree mutations, and of nodes being let go of'''
import gc, weakref
from .real import attempt, codes, uncodes

from amara3 import uxml
from amara3.uxml import tree, treeutil, xml, treeiter, xmliter, html5, html5iter


def sink(acc):
    while True:
        e = yield
        acc.append(e)
        del e


def source(x, via):
    'A tree for a document which means the same to all parsers'
    if via == 'tree': return tree.parse(x)
    if via == 'uxml': return uxml.parse(x)
    if via == 'hs':
        acc = []
        html5iter.sender(('html',), sink(acc)).parse(x)
        return acc.pop()
    if via == 'builder': return tree.treebuilder().parse(x)
    if via == 'xml': return xml.treebuilder().parse(x)
    if via == 'html': return html5.parse(x)
    acc = []
    name = x[1:].split('>')[0].split(' ')[0]
    # the tree is the whole document, or part of one
    if via in ('ts', 'tsub'): s = treeiter.sender(('w', name) if via == 'tsub' else (name,), sink(acc))
    else: s = xmliter.sender(('w', name) if via == 'xsub' else (name,), sink(acc))
    s.parse('<w>y' + x + '<v></v></w>' if via in ('tsub', 'xsub') else x)
    return acc.pop()


def use(nd, ids):
    'What can be done with a node'
    out = {'enc': [], 'desc': [], 'anc': []}
    if isinstance(nd, tree.element):
        out['enc'] = codes(nd.xml_encode())
        out['desc'] = [ids.get(id(d), -1) for d in treeutil.descendants(nd)]
        out['anc'] = [ids.get(id(a), -1) for a in nd.xml_xpath('ancestor::*')]
    return out


class Forest:
    used = None

    def __init__(self, life):
        self.life = life
        self.refs = []      # weak references to all nodes ever made, by number
        self.held = {}      # number -> node

    def get(self, i):
        return self.refs[i - 1]()

    def add(self, nd, hold=True):
        self.refs.append(weakref.ref(nd))
        if hold: self.held[len(self.refs)] = nd

    def add_tree(self, nd, first=True):
        self.add(nd, not self.life or first)
        for c in nd.xml_children:
            self.add_tree(c, False)

    def op(self, op):
        o = op['o']
        if o == 'new':
            self.add(tree.element(uncodes(op['n']), {uncodes(k): uncodes(v) for k, v in op['a']} if op['a'] else None))
        elif o == 'parse':
            self.add_tree(source(uncodes(op.get('src', op['x'])), op.get('via', 'tree')))
        elif o in ('app', 'ins', 'rem'):
            p, c = self.get(op['p']), self.get(op['c'])
            if o == 'app': p.xml_append(c)
            elif o == 'ins': p.xml_insert(c, op['i'])
            else: p.xml_remove(c)
        elif o in ('apps', 'inss'):
            p = self.get(op['p'])
            before = set(map(id, p.xml_children))
            keep = list(p.xml_children)
            if o == 'apps': p.xml_append(uncodes(op['t']))
            else: p.xml_insert(uncodes(op['t']), op['i'])
            new = [c for c in p.xml_children if id(c) not in before]
            del keep
            for c in new: self.add(c, not self.life)
        elif o == 'seta': self.get(op['c']).xml_attributes[uncodes(op['n'])] = uncodes(op['t'])
        elif o == 'dela': self.get(op['c']).xml_attributes.pop(uncodes(op['n']), None)
        elif o == 'use':
            self.used = use(self.get(op['c']), {id(r()): i + 1 for i, r in enumerate(self.refs) if r() is not None})
        elif o == 'drop':
            del self.held[op['c']]
        elif o == 'hold':
            self.held[op['c']] = self.get(op['c'])

    def dump(self):
        gc.collect(*([] if self.life else [0]))
        alive = [r() for r in self.refs]
        ids = {id(nd): i + 1 for i, nd in enumerate(alive) if nd is not None}
        out = []
        for nd in alive:
            if nd is None:
                out.append({'al': False})
                continue
            par = nd.xml_parent
            if isinstance(nd, tree.element):
                r = {'k': 'E', 'n': codes(nd.xml_name), 'a': [[codes(k), codes(v)] for k, v in nd.xml_attributes.items()], 't': [],
                     'c': [ids.get(id(c), -1) for c in nd.xml_children]}
            else:
                r = {'k': 'T', 'n': [], 'a': [], 't': codes(nd), 'c': [-2 for c in nd.xml_children]}
            r.update(al=True, p=0 if par is None else ids.get(id(par), -1), v=codes(nd.xml_value))
            out.append(r)
        return out


def run(case):
    f = Forest(case['life'])
    obs = []
    if case['life']: gc.freeze()     # what there was before does not matter
    for op in case['ops']:
        f.used = None
        out, _ = attempt(f.op, op)
        obs.append({'out': out, 'nodes': f.dump(), 'use': [f.used] if f.used else []})
        if out == 'hang' : break
    return {'ops': case['ops'][:len(obs)], 'life': case['life'], 'obs': obs}
