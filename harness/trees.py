'''Recording real trees, in the shape of spec/UXTree.tla'''
from .real import codes

from amara3.uxml import tree


def order(root, limit=20000):
    '''Nodes of a tree in document order by way of children'''
    out = []

    def rec(nd, depth):
        out.append(nd)
        if len(out) > limit or depth > 900: raise RuntimeError('unending tree')
        for c in nd.xml_children: rec(c, depth + 1)
    rec(root, 0)
    return out


def value(nd):
    '''Its value, however it is asked for'''
    v = codes(nd.xml_value)
    strval = getattr(tree, 'strval', None)
    w = codes(strval(nd)) if strval else v
    return v if v == w else v + [-1] + w


def dump(root, values=True):
    nodes = order(root)
    ids = {}
    for i, nd in enumerate(nodes): ids.setdefault(id(nd), i + 1)
    out = []
    pos = [0]

    def rec(nd):
        i = pos[0]
        pos[0] += 1
        par = nd.xml_parent
        r = {'p': 0 if par is None else ids.get(id(par), -1), 'c': []}
        if isinstance(nd, tree.element):
            r.update(k='E', n=codes(nd.xml_name), a=[[codes(k), codes(v)] for k, v in nd.xml_attributes.items()], t=[])
        elif isinstance(nd, tree.text):
            r.update(k='T', n=[], a=[], t=codes(nd))
        else:
            r.update(k='X', n=[], a=[], t=codes(repr(type(nd))))
        if values: r['v'] = value(nd)
        out.append(r)
        kids = list(nd.xml_children)
        for c in kids:
            # a node met a second time has the number of the first
            r['c'].append(pos[0] + 1 if ids[id(c)] == pos[0] + 1 else -ids[id(c)])
            rec(c)
    rec(root)
    return out
