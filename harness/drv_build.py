'''Driver: trees built from a succession of MicroXML documents'''
from .real import attempt, uncodes
from .trees import dump

import amara3.uxml
from amara3.uxml import tree


def run(case):
    builders = {}
    trees, out = [], []
    for step in case:
        x, b, ep = uncodes(step['x']), step['b'], step['ep']
        if ep == 'treebuilder':
            if b not in builders: builders[b] = tree.treebuilder()
            f = builders[b].parse
        elif ep == 'tree.parse': f = tree.parse
        elif ep == 'uxml.parse': f = amara3.uxml.parse
        else: f = lambda x: tree.treebuilder().parse(x)
        o, root = attempt(f, x)
        r = {'x': step['x'], 'ep': ep, 'out': o, 'now': [], 'end': []}
        if o == 'ok':
            if root is None: r['out'] = 'none'
            else: r['now'] = dump(root)
        out.append(r)
        trees.append(root)
    for r, root in zip(out, trees):
        if root is not None: r['end'] = dump(root)
    return out
