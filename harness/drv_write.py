'''Driver: encoding of trees, and writers'''
import io
from .real import attempt, codes, uncodes
from .trees import dump, order
from . import drv_heap

from amara3.uxml import html5, tree, xml, writer


def attrs(a): return {uncodes(k): uncodes(v) for k, v in a}


def make(src):
    '''A tree, in one of several ways'''
    k, x = src
    if k == 'ux': return tree.parse(uncodes(x))
    if k == 'html': return html5.parse(uncodes(x))
    if k == 'xml': return xml.treebuilder().parse(uncodes(x))
    if k == 'ops':
        f = drv_heap.Forest(False)
        for op in x:
            try: f.op(op)
            except ValueError: pass
        make.keep = f
        # the largest tree of the forest
        roots = [nd for nd in f.held.values() if isinstance(nd, tree.element) and nd.xml_parent is None]
        return max(roots, key=lambda r: len(order(r)))
    if k == 'calls':
        # a tree which would be written by the calls, put together by hand
        top = cur = None
        stack = []
        for c in x:
            if c['c'] in 'SM':
                e = tree.element(uncodes(c['n']), attrs(c['a']))
                if stack: stack[-1].xml_append(e)
                else: top = e
                if c['c'] == 'S': stack.append(e)
            elif c['c'] == 'T': stack[-1].xml_append(uncodes(c['t']))
            else: stack.pop()
        return top


def reread(x):
    out = []
    o, t = attempt(tree.parse, x)
    out.append({'how': 'ux', 'out': o if t is not None else 'none', 'h': dump(t, False) if t is not None else []})
    o, t = attempt(xml.treebuilder().parse, x)
    out.append({'how': 'xml', 'out': o if t is not None else 'none', 'h': dump(t, False) if t is not None else []})
    return out


def run05(case):
    root = make(case['src'])
    nodes = order(root)
    els = [i for i, nd in enumerate(nodes) if isinstance(nd, tree.element)]
    i = els[case['pick'] % len(els)]
    h = dump(root, False)
    outs, re = [], []
    nd = nodes[i]
    def add(how, pad, f):
        o, x = attempt(f)
        outs.append({'how': how, 'out': o, 'pad': pad, 'x': codes(x) if o == 'ok' else []})
        return o, x
    o, x = add('encode', False, nd.xml_encode)
    def wr():
        fp = io.StringIO()
        nd.xml_write(fp)
        return fp.getvalue()
    add('write', False, wr)
    if case.get('indent'): add('encode with indent', True, lambda: nd.xml_encode(uncodes(case['indent'])))
    if case.get('indent') and case.get('depth'): add('encode at a depth', True, lambda: nd.xml_encode(indent=uncodes(case['indent']), depth=case['depth']))
    add('encode again', False, nd.xml_encode)
    if o == 'ok' and isinstance(x, str): re = reread(x)
    return {'h': h, 'after': dump(root, False), 'i': i + 1, 'outs': outs, 're': re}


def handler(cfg, other):
    '''A write handler which does all the writing, to another file, and has its own idea of names'''
    em = {uncodes(k): uncodes(v) for k, v in cfg['em']}
    am = {uncodes(k): uncodes(v) for k, v in cfg['am']}

    class Handler(writer.raw):
        def __init__(self, fp): writer.raw.__init__(self, other)

        def write(self, ctx, text):
            prefix = em.get(text) if ctx == writer.context.element_name else am.get(text) if ctx == writer.context.attribute_name else None
            if prefix: other.write(prefix + ':')
            writer.raw.write(self, ctx, text)
    return Handler


def run06(case):
    cfg = case['cfg']
    fp, other = io.StringIO(), io.StringIO()
    h = []
    def go():
        if cfg['kind'] == 'ns':
            pre = {uncodes(k): uncodes(v) for k, v in cfg['ns']}
            mapping = {uncodes(k): ('urn:x', uncodes(v)) for k, v in cfg['em']}
            mapping.update({'@' + uncodes(k): ('urn:x', uncodes(v)) for k, v in cfg['am']})
            w = writer.namespacer(fp, prefixes=pre, mapping=mapping)
        elif cfg['kind'] == 'wh':
            w = writer.raw(fp, whandler=handler(cfg, other))
        elif cfg['pad']:
            w = writer.raw(fp, indent=uncodes(cfg['indent']), depth=cfg.get('depth', 0))
        else:
            w = writer.raw(fp)
        if case['calls']:
            for c in case['calls']:
                n, a = uncodes(c['n']), attrs(c['a'])
                if c['c'] == 'T': w.text(uncodes(c['t']))
                elif c['c'] == 'E': w.end_element(n)
                elif c['c'] == 'M': w.start_element(n, attribs=a, empty=True)
                elif not a and case.get('bare'): w.start_element(n)
                else: w.start_element(n, attribs=a)
        else:
            writer.write(root, w)
        return fp.getvalue() if cfg['kind'] != 'wh' else fp.getvalue() + other.getvalue()
    root = None
    if not case['calls']:
        root = make(case['src'])
        h = dump(root, False)
    o, x = attempt(go)
    re = []
    if o == 'ok' and not (cfg['em'] or cfg['am'] or cfg['ns']) and not cfg['pad']:
        re = reread(x)
        if '/>' in x: re = re[1:]       # MicroXML as this library reads it has none of these
    return {'calls': case['calls'], 'h': h, 'cfg': {k: cfg[k] for k in ('ns', 'em', 'am', 'pad')}, 'out': o, 'x': codes(x) if o == 'ok' else [], 're': re}


def run(case):
    return run05(case) if case['p'] == 'P05' else run06(case)
