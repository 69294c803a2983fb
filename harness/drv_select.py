'''Driver: selection utilities, and pretty printing'''
import itertools, re
from .real import attempt, codes, uncodes
from .trees import dump, order
from .drv_pattern import step as pstep
from .drv_write import make

from amara3.uxml import tree, treeutil


def by_hand(h):
    '''A tree from nodes as in UXTree. Texts are never merged'''
    nodes = []
    for nd in h:
        if nd['k'] == 'E':
            e = tree.element(uncodes(nd['n']), {uncodes(k): uncodes(v) for k, v in nd['a']})
            if nd['p']: nodes[nd['p'] - 1].xml_append(e)
            nodes.append(e)
        else:
            p = nodes[nd['p'] - 1]
            p.xml_append(uncodes(nd['t']))
            nodes.append(p.xml_children[-1])
    return nodes[0]


def build(src):
    return by_hand(src[1]) if src[0] == 'h' else make(src)


def regex(items):
    s = ''
    for it in items:
        if not it['cs']: s += r'\Z'
        else:
            cs = ''.join(map(chr, it['cs']))
            s += '[' + re.escape(cs) + ']' + {(0, True): '*', (1, True): '+', (1, False): ''}.get((it['lo'], it['many'])) if it['lo'] < 2 else '[' + re.escape(cs) + ']{%d%s}' % (it['lo'], ',' if it['many'] else '')
    return re.compile(s)


def step(src, op):
    o = op['o']
    if o == 'desc': return treeutil.descendants(src)
    if o == 'foll': return treeutil.following_siblings(src)
    if o == 'pat': return treeutil.select_pattern(src, tuple(pstep(s, treeutil, True) for s in op['pat']))
    if o == 'elems': return treeutil.select_elements(src)
    n, t = uncodes(op['n']), uncodes(op['t'])
    if o == 'name': return treeutil.select_name(src, n)
    if o == 're': return treeutil.select_name_pattern(src, regex(op['re']))
    if o == 'value': return treeutil.select_value(src, t)
    if o == 'attr': return treeutil.select_attribute(src, n)
    if o == 'attrv': return treeutil.select_attribute(src, n, t)


def run_select(case):
    root = build(case['src'])
    nodes = order(root)
    ids = {id(nd): i + 1 for i, nd in enumerate(nodes)}
    h = dump(root, False)
    sels = []
    pending = []
    for s in case['sels']:
        ops = s['ops']
        if s['el']:
            i = s['el'] % len(nodes)
            if nodes[i].xml_parent is None and ops[0]['o'] == 'foll': continue
            if isinstance(nodes[i], tree.text) and ops[0]['o'] != 'foll': continue
            source, src = nodes[i], {'el': i + 1, 'seq': []}
        else:
            idx = [k % len(nodes) for k in s['seq']]
            seq = [nodes[k] for k in idx]
            source = {'list': seq, 'tuple': tuple(seq), 'iter': iter(seq), 'gen': (x for x in seq), 'chain': itertools.chain(seq[:1], seq[1:])}[s['as']]
            src = {'el': 0, 'seq': [k + 1 for k in idx]}

        def go(cur=source):
            for op in ops: cur = step(cur, op)
            return cur
        r = {'src': src, 'ops': ops, 'got': []}
        sels.append(r)
        if s['lazy']:
            # several selections in progress at the same time
            out, it = attempt(go)
            r['out'] = out
            if out == 'ok': pending.append((r, iter(it)))
        else:
            r['out'], got = attempt(lambda: list(go()))
            if r['out'] == 'ok': r['got'] = [ids.get(id(x), 0) for x in got]
    while pending:
        for r, it in list(pending):
            out, x = attempt(next, it, None)
            if out != 'ok': r['out'] = out
            if out != 'ok' or x is None: pending.remove((r, it))
            else: r['got'].append(ids.get(id(x), 0))
            if len(r['got']) > 5000: r['out'] = 'hang'; pending.remove((r, it))
    return {'h': h, 'sel': sels, 'after': dump(root, False)}


def run_pretty(case):
    root = build(case['src'])
    nodes = order(root)
    ids = {id(nd): i + 1 for i, nd in enumerate(nodes)}
    els = [i for i, nd in enumerate(nodes) if isinstance(nd, tree.element)]
    steps = []
    for st in case['steps']:
        nodes = order(root)     # kept, so that no identity is used again
        ids = {id(nd): i + 1 for i, nd in enumerate(nodes)}
        els = [i for i, nd in enumerate(nodes) if isinstance(nd, tree.element)]
        i = els[st['pick'] % len(els)]
        h = dump(root)
        ind = uncodes(st['indent'])
        how = st['how']
        if how == 'default': f = lambda: treeutil.make_pretty(nodes[i])
        elif how == 'kw': f = lambda: treeutil.make_pretty(nodes[i], depth=st['depth'], indent=ind)
        else: f = lambda: treeutil.make_pretty(nodes[i], st['depth'], ind)
        out, ret = attempt(f)
        after = order(root)
        g = dump(root)
        for nd, r in zip(after, g): r['id'] = ids.get(id(nd), 0)
        steps.append({'h': h, 'i': i + 1, 'depth': 0 if how == 'default' else st['depth'], 'indent': codes('  ') if how == 'default' else st['indent'],
                      'out': out, 'ret': ret is nodes[i], 'g': g})
    return {'steps': steps}


def run(case):
    return run_pretty(case) if case['what'] == 'pretty' else run_select(case)
