'''P10: selection utilities; P11: pretty printing'''
from .. import gen
from .pattern import rpat
from . import mutate

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxNodes = %d
  MaxDepth = %d
  MaxPat = %d
INVARIANT InvOrder
INVARIANT InvWalk
INVARIANT InvDesc
INVARIANT InvSeq
INVARIANT InvFoll
CHECK_DEADLOCK FALSE
'''


def cps(s): return [ord(c) for c in s]


def Op(o, **kw):
    d = {'o': o, 'n': [], 't': [], 're': [], 'pat': []}
    d.update(kw)
    return d


def rre(rng, names):
    items = []
    base = rng.choice(names)
    for c in base[:rng.randint(0, len(base))]:
        cs = {c}
        if rng.random() < .4: cs.add(rng.choice('abx.-é'))
        lo = rng.choice([0, 1, 1, 1, 2])
        items.append({'cs': sorted(map(ord, cs)), 'lo': lo, 'many': lo == 0 or rng.random() < .3})
    if rng.random() < .5: items.append({'cs': [], 'lo': 0, 'many': False})
    return items


def rop(rng, names, first):
    k = rng.choice(['desc', 'foll', 'pat', 'pat', 'pat'] if first and rng.random() < .5 else ['elems', 'name', 're', 'value', 'attr', 'attrv'])
    if k == 'name': return Op(k, n=cps(rng.choice(names)))
    if k == 're': return Op(k, re=rre(rng, names))
    if k == 'value': return Op(k, t=cps(rng.choice(['', 'x', '1', '1', 'xx', '1x', ' ', 'hello world', 'X', ' x', 'x '])))
    if k == 'attr': return Op(k, n=cps(rng.choice(ANAMES + [names[0]])))
    if k == 'attrv': return Op(k, n=cps(rng.choice(ANAMES + [names[0]])), t=cps(rng.choice(AVALUES)))
    if k == 'pat': return Op(k, pat=rpat(rng, names, 4))
    return Op(k)


# names which are part of one another
ANAMES = ['i', 'j', 'ij', 'id']
AVALUES = ['1', '1', '1', '2', '', '', '1 2', ' 1', '12', 'x', 'X']


def deep(rng, names, most):
    '''A tree which is deep and slim, as nodes'''
    h, p = [], 0
    for d in range(rng.randint(6, most)):
        h.append({'k': 'E', 'n': cps(rng.choice(names)), 'a': [], 't': [], 'p': p, 'c': []})
        p = len(h)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            if rng.random() < .3: h.append({'k': 'T', 'n': [], 'a': [], 't': cps(rng.choice(['x', ' ', ''])), 'p': p, 'c': []})
            else: h.append({'k': 'E', 'n': cps(rng.choice(names)), 'a': [], 't': [], 'p': p, 'c': []})
    return h


def rtree(rng, names, depth, fan):
    '''A small dense tree, as nodes'''
    h = []

    def el(p, d):
        a = [[cps(n), cps(rng.choice(AVALUES))] for n in rng.sample(ANAMES + ([names[0]] if names[0] not in ANAMES else []), rng.choice([0, 0, 1, 2]))]
        h.append({'k': 'E', 'n': cps(rng.choice(names)), 'a': a, 't': [], 'p': p, 'c': []})
        me = len(h)
        for _ in range(rng.randint(0, fan)):
            if rng.random() < .4 or d == 0:
                h.append({'k': 'T', 'n': [], 'a': [], 't': cps(rng.choice(['x', '1', ' ', '', 'x', 'X', ' x'])), 'p': me, 'c': []})
            else: el(me, d - 1)
    el(0, depth)
    return h


def run(ctx):
    rng = ctx.rng
    if ctx.prop == 'P11': return run_pretty(ctx)
    b = ctx.pick((4, 3, 3), (5, 4, 3))
    scs = ctx.scenarios('MCSelect', MC % b, heap='6g')
    ctx.bounds['specification'] = 'all trees of up to %d nodes, depth %d, with all utilities from every node, patterns of up to %d steps' % b
    total = len(scs)
    # one tree, many selections: group by tree
    by = {}
    for s in scs: by.setdefault(str(s['h']), []).append(s)
    keys = sorted(by)
    want = ctx.pick(1500, 8000)
    if len(keys) > want: keys = rng.sample(keys, want)
    cases = []
    for key in keys:
        h = by[key][0]['h']
        sels = []
        for s in by[key]:
            for i in range(len(h)):
                if rng.random() < .6: sels.append({'el': i + len(h), 'ops': [s['op']], 'lazy': rng.random() < .2})
        if len(sels) > 60: sels = rng.sample(sels, 60)
        cases.append({'what': 'select', 'src': ['h', h], 'sels': sels})
    ctx.bounds['scenarios'] = f'{len(keys)} of {len(by)} trees with up to 60 selections each, of {total} (tree, utility) pairs'
    ctx.check('drv_select', 'TrSelect', cases, 'trees and utilities of the specification')
    cases = []
    for _ in range(ctx.pick(700, 8000)):
        names = rng.choice([['a', 'b'], ['a', 'b', 'c'], ['a', 'ab', 'abb', 'b.c'], ['é', 'a', 'aé'], ['a', 'A', 'b'], ['a', 'b', 'c', 'd', 'e', 'f']])
        k = rng.random()
        if k < .6: src = ['h', rtree(rng, names, rng.randint(1, 5), rng.choice([2, 3, 3, 5])) if k < .5 else deep(rng, names, 20)]
        elif k < .8: src = ['ux', cps(gen.doc(rng, depth=rng.randint(1, 4), fan=3, names=names))]
        elif k < .9: src = ['xml', cps(gen.doc(rng, depth=rng.randint(1, 4), fan=3, names=names, xmlsafe=True).strip())]
        else: src = ['ops', [{'o': 'new', 'n': cps('a'), 'a': []}] + mutate.random_history(rng, 25)]
        if k >= .9:
            # node numbers in the history are one on
            def shift(op):
                op = dict(op)
                for f in ('p', 'c'):
                    if f in op: op[f] += 1
                return op
            src = ['ops', src[1][:1] + [shift(o) for o in src[1][1:]]]
        if src[0] == 'h' and len(src[1]) > 150: continue
        if src[0] in ('ux', 'xml') and len(src[1]) > 2000: continue
        sels = []
        for _ in range(rng.randint(3, 25)):
            lazy = rng.random() < .3
            if rng.random() < .75:
                ops = [rop(rng, names, True)]
                while rng.random() < .3: ops.append(rop(rng, names, False))
                sels.append({'el': rng.randint(1, 1000) if rng.random() < .7 else 5040 * 12252240, 'ops': ops, 'lazy': lazy})
            else:
                ops = [rop(rng, names, False)]
                while rng.random() < .3: ops.append(rop(rng, names, False))
                sels.append({'el': 0, 'seq': [rng.randint(0, 500) for _ in range(rng.choice([rng.randint(0, 8), rng.randint(0, 60)]))], 'as': rng.choice(['list', 'tuple', 'iter', 'gen', 'chain']), 'ops': ops, 'lazy': lazy})
        cases.append({'what': 'select', 'src': src, 'sels': sels})
    ctx.check('drv_select', 'TrSelect', cases, 'random trees and selections')
    cases = []
    for k in range(ctx.pick(14, 120)):
        names = rng.choice([['a', 'b'], ['a', 'b', 'c'], ['a', 'ab', 'abb', 'b.c']])
        h = gen.bigtree(rng, names, ctx.pick(700, 1500), kind=['wide', 'deep', 'attrs', 'bush', 'wide', 'long', 'wide'][k % 7])
        src = rng.choice([['h', h], ['h', h], ['ux', cps(gen.tomx(h))]])
        sels = []
        for j in range(rng.randint(5, 8)):
            # from the top, where the much is, or from the far end
            lazy = rng.random() < .3
            ops = [rop(rng, names, j % 3 < 2)]
            while rng.random() < .4: ops.append(rop(rng, names, False))
            if j == 0: ops = [Op('desc')] + ops[:1] if ops[0]['o'] not in ('desc', 'foll', 'pat') else [Op('desc')]
            # Starting from many elements is enough with utilities which are cheap to judge
            if j % 3 < 2: sels.append({'el': rng.choice([5040 * 12252240, 5040 * 12252240, 1, 2, rng.randint(1, 1000)]), 'ops': ops, 'lazy': lazy})
            else: sels.append({'el': 0, 'seq': [rng.randint(0, 5000) for _ in range(rng.choice([130, 300, 1100]))], 'as': rng.choice(['list', 'tuple', 'iter', 'gen', 'chain']), 'ops': ops, 'lazy': lazy})
        # where most of it is
        m = max(range(len(h)), key=lambda i: len(h[i]['c']))
        for ops in [[Op('elems')], [rop(rng, names, False)], [rop(rng, names, True)], [Op('elems'), rop(rng, names, False)]]: sels.append({'el': m + len(h), 'ops': ops, 'lazy': rng.random() < .3})
        cases.append({'what': 'select', 'src': src, 'sels': sels})
    ctx.check('drv_select', 'TrSelect', cases, 'large trees', stack='256m', heap='6g')


MCP = '''SPECIFICATION Spec
CONSTANTS
  MaxNodes = %d
  MaxDepth = %d
INVARIANT InvPretty
INVARIANT InvAgain
INVARIANT InvValue
CHECK_DEADLOCK FALSE
'''


def run_pretty(ctx):
    rng = ctx.rng
    b = ctx.pick((5, 4), (6, 4))
    scs = ctx.scenarios('MCPretty', MCP % b, heap='6g')
    ctx.bounds['specification'] = 'all trees of up to %d nodes, depth %d, with blank and other text, pretty printed from every element' % b
    total = len(scs)
    want = ctx.pick(1500, 15000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total} trees'

    def step():
        return {'pick': rng.choice([0, 0, 1, 2, 3, 17]), 'indent': cps(rng.choice(['  ', '  ', ' ', '', '\t', '    '])), 'depth': rng.choice([0, 0, 0, 1, 2, 5]),
                'how': rng.choice(['default', 'default', 'kw', 'pos', 'pos'])}
    cases = [{'what': 'pretty', 'src': ['h', s['h']], 'steps': [step() for _ in range(rng.choice([1, 1, 2]))]} for s in scs]
    ctx.check('drv_select', 'TrPretty', cases, 'trees of the specification')
    cases = []
    for _ in range(ctx.pick(700, 8000)):
        names = ['a', 'b', 'c']
        k = rng.random()
        if k < .5:
            h = rtree(rng, names, rng.randint(1, 5), rng.choice([2, 3, 3, 5])) if k < .4 else deep(rng, names, 20)
            for nd in h:
                if nd['k'] == 'T' and rng.random() < .5: nd['t'] = cps(rng.choice(['', ' ', '\n   ', 'word', ' x ', '\t', 'two\nlines', '\xa0', ' \u2003 ', '\x85\n', '\u3000']))
            # texts right after one another
            if rng.random() < .4:
                p = rng.choice([1, 1, len(h)])
                if h[p - 1]['k'] == 'E':
                    for _ in range(rng.randint(2, 6)): h.append({'k': 'T', 'n': [], 'a': [], 't': cps(rng.choice(['', ' ', '\n   ', 'word', 'x', 'y '])), 'p': p, 'c': []})
            src = ['h', h]
        elif k < .75: src = ['ux', cps(gen.doc(rng, depth=rng.randint(1, 5), fan=3, names=names))]
        else: src = ['xml', cps(gen.doc(rng, depth=rng.randint(1, 5), fan=3, names=names, xmlsafe=True).strip())]
        if src[0] == 'h' and len(src[1]) > 120: continue
        if src[0] != 'h' and len(src[1]) > 1500: continue
        cases.append({'what': 'pretty', 'src': src, 'steps': [step() for _ in range(rng.choice([1, 1, 2, 3]))]})
    ctx.check('drv_select', 'TrPretty', cases, 'random trees')
    cases = []
    for k in range(ctx.pick(18, 150)):
        h = gen.bigtree(rng, ['a', 'b', 'c'], ctx.pick(500, 1200), kind=['wide', 'deep', 'long', 'bush', 'long', 'long'][k % 6])
        cases.append({'what': 'pretty', 'src': rng.choice([['h', h], ['ux', cps(gen.tomx(h))]]), 'steps': [step() for _ in range(rng.choice([1, 1, 2]))]})
    ctx.check('drv_select', 'TrPretty', cases, 'large trees', stack='256m', heap='6g')
