'''Driver: HTML parsing.

What the HTML algorithm does to the document is recorded by a tree builder of
this module's own, which shares no code with the one under test.
'''
import io
from .real import attempt, codes, uncodes
from .trees import order

import html5lib
from html5lib.treebuilders.base import TreeBuilder, Node
from amara3.uxml import html5, tree

XHTML = 'http://www.w3.org/1999/xhtml'


# ---------------------------------------------------------------- recording
class Log:
    def __init__(self): self.ops, self.count = [], 1

    def node(self, **op):
        self.ops.append(op)
        self.count += 1
        return self.count

    def op(self, **op): self.ops.append(op)


def attr(k, v):
    if isinstance(k, tuple): return {'pre': codes(k[0] or ''), 'loc': codes(k[1]), 'v': codes(v)}
    return {'pre': [], 'loc': codes(k), 'v': codes(v)}


class Attributes(dict):
    'Attributes of a recorded element'
    def __init__(self, owner, *args):
        dict.__init__(self, *args)
        self.owner = owner

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.owner.log.op(o='put', e=self.owner.id, a=attr(k, v))


class RNode(Node):
    def __init__(self, log, name, namespace=None):
        self.log, self.name, self.namespace = log, name, namespace
        self.parent, self.kids, self._flags = None, [], []
        self._attrs = Attributes(self)

    @property
    def nameTuple(self): return (self.namespace or XHTML, self.name)

    @property
    def attributes(self): return self._attrs

    @attributes.setter
    def attributes(self, attrs):
        if attrs:
            dict.update(self._attrs, attrs)
            self.log.op(o='attrs', e=self.id, a=[attr(k, v) for k, v in attrs.items()])

    @property
    def childNodes(self): return [k for k in self.kids if isinstance(k, RNode)]

    def appendChild(self, node):
        if node.parent is not None: node.parent.removeChild(node)
        node.parent = self
        self.kids.append(node)
        self.log.op(o='app', p=self.id, c=node.id)

    def insertText(self, data, insertBefore=None):
        if insertBefore is not None:
            self.log.node(o='txb', p=self.id, t=codes(data), r=insertBefore.id)
            self.kids.insert(self.at(insertBefore), data)
        else:
            self.log.node(o='txt', p=self.id, t=codes(data))
            self.kids.append(data)

    def at(self, node): return next(i for i, k in enumerate(self.kids) if k is node)

    def insertBefore(self, node, refNode):
        self.kids.insert(self.at(refNode), node)
        node.parent = self
        self.log.op(o='bef', p=self.id, c=node.id, r=refNode.id)

    def removeChild(self, node):
        del self.kids[self.at(node)]
        node.parent = None
        self.log.op(o='rem', p=self.id, c=node.id)

    def reparentChildren(self, newParent):
        for k in self.kids:
            if isinstance(k, RNode): k.parent = newParent
        newParent.kids += self.kids
        self.kids = []
        self.log.op(o='rep', p=self.id, q=newParent.id)

    def cloneNode(self):
        c = RNode(self.log, self.name, self.namespace)
        c.id = self.log.node(o='clone', e=self.id)
        dict.update(c._attrs, self._attrs)
        return c

    def hasContent(self): return bool(self.kids)


class Recorder(TreeBuilder):
    def documentClass(self):
        self.log = Log()
        d = RNode(self.log, None)
        d.id = 1
        return d

    def elementClass(self, name, namespace=None):
        e = RNode(self.log, name, namespace)
        e.id = self.log.node(o='elem', n=codes(name or ''), ns=codes(namespace or ''))
        return e

    def commentClass(self, data):
        e = RNode(self.log, None)
        e.id = self.log.node(o='comm', t=codes(data))
        return e

    def doctypeClass(self, name, publicId, systemId):
        e = RNode(self.log, None)
        e.id = self.log.node(o='doct', n=codes(name or ''))
        return e


def record(source):
    box = []

    def make(namespaceHTMLElements):
        box.append(Recorder(True))
        return box[-1]
    p = html5lib.HTMLParser(tree=make)
    p.parse(source)
    return box[-1].log.ops


# ------------------------------------------------------------------ real code
def show(nd, ids):
    # a comment which was never put anywhere has no parent to ask for
    par = nd.xml_parent if not isinstance(nd, html5.comment) or hasattr(nd, '_xml_parent') else None
    r = {'p': 0 if par is None else ids.get(id(par), -1), 'v': codes(nd.xml_value)}
    if isinstance(nd, tree.element):
        r.update(k='E', n=codes(nd.xml_name), a=[[codes(k), codes(v)] for k, v in nd.xml_attributes.items()], t=[],
                 c=[ids.get(id(c), -1) for c in nd.xml_children])
    else:
        r.update(k='T', n=[], a=[], t=codes(nd.xml_value), c=[-1 for c in nd.xml_children])
    return r


def dump(root):
    nodes = order(root)
    ids = {}
    for i, nd in enumerate(nodes): ids.setdefault(id(nd), i + 1)
    out = [show(nd, ids) for nd in nodes]
    pos = {i + 1: nd for i, nd in enumerate(nodes)}
    for i, r in enumerate(out):
        if ids[id(pos[i + 1])] != i + 1: r['p'] = -1      # a node met twice
    return out


def source(cs, form):
    s = uncodes(cs)
    if form == 'bytes': return s.encode('utf-8')
    if form == 'bom': return b'\xef\xbb\xbf' + s.encode('utf-8')
    if form == 'file': return io.StringIO(s)
    if form == 'bfile': return io.BytesIO(s.encode('utf-8'))
    return s


def parse_run(cs, how):
    way, form = how.split('-')[:2]
    keep = None

    def go():
        src = source(cs, form)
        if way == 'top': return html5.parse(src)
        if way == 'ns': return html5.parse(src, use_xhtml_ns=True)
        if way == 'lax': return html5.parse_lax_xml(src)
        return html5.markup_fragment(src)
    out, top = attempt(go, seconds=10)
    r = {'how': how, 'way': 'top' if way == 'ns' else way, 'out': out, 'h': [], 'x': [], 'xout': 'none'}
    if out != 'ok': return r
    if not isinstance(top, tree.node):
        r['out'] = 'err'
        return r
    o2, h = attempt(dump, top)
    if o2 != 'ok':
        r['out'] = 'dump-' + o2
        return r
    r['h'] = h
    if isinstance(top, tree.element):
        r['xout'], x = attempt(top.xml_encode)
        r['x'] = codes(x) if r['xout'] == 'ok' else []
    return r


def steps(case):
    tb = html5.treebuilder()
    nodes = [tb.document]
    obs = []

    def known(): return {id(n): i + 1 for i, n in enumerate(nodes)}

    def attrs(a): return {(uncodes(x['pre']), uncodes(x['loc']), 'urn:x') if x['pre'] else uncodes(x['loc']): uncodes(x['v']) for x in a}

    def do(op):
        o = op['o']
        g = lambda k: nodes[op[k] - 1]
        if o == 'elem': nodes.append(tb.elementClass(uncodes(op['n']), XHTML))
        elif o == 'comm': nodes.append(tb.commentClass(uncodes(op['t'])))
        elif o == 'clone': nodes.append(g('e').cloneNode())
        elif o == 'attrs': g('e').attributes = attrs(op['a'])
        elif o == 'put': g('e').attributes[uncodes(op['a']['loc'])] = uncodes(op['a']['v'])
        elif o == 'app':
            g('p').appendChild(g('c'))
            if isinstance(g('c'), html5.comment) and op['p'] > 1 and g('p').xml_children:
                last = g('p').xml_children[-1]
                if not isinstance(last, tree.element): nodes[op['c'] - 1] = last
        elif o == 'bef': g('p').insertBefore(g('c'), g('r'))
        elif o in ('txt', 'txb'):
            before = known()
            if o == 'txt': g('p').insertText(uncodes(op['t']))
            else: g('p').insertText(uncodes(op['t']), g('r'))
            nodes.extend([c for c in g('p').xml_children if id(c) not in before])
        elif o == 'rem': g('p').removeChild(g('c'))
        elif o == 'rep':
            old, n = list(g('p').xml_children), len(g('q').xml_children)
            g('p').reparentChildren(g('q'))
            # what is text has no identity
            for a, b in zip(old, g('q').xml_children[n:]):
                if not isinstance(a, tree.element) and not isinstance(b, tree.element):
                    nodes[[id(x) for x in nodes].index(id(a))] = b

    for op in case['ops']:
        out, _ = attempt(do, op)
        ids = known()
        seen = [{'k': 'D'}]
        for n in nodes[1:]:
            r = show(n, ids)
            if r['k'] == 'E': r['full'] = [[120] if n.nameTuple[0] == XHTML else [], codes(n.nameTuple[1])]
            seen.append(r)
        obs.append({'out': out, 'nodes': seen})
        if out == 'hang': break
    return {'steps': True, 'ops': case['ops'][:len(obs)], 'obs': obs}


def run(case):
    if 'ops' in case: return steps(case)
    try: ops = record(source(case['x'], case['form']))
    except Exception: return {'steps': False, 'lib': False, 'ops': [], 'runs': []}
    return {'steps': False, 'lib': True, 'ops': ops, 'runs': [parse_run(case['x'], w + '-' + case['form']) for w in case['ways']]}
