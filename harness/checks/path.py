'''P12: paths of MicroXPath; P13: predicates, comparisons, logic; P14: functions'''
from .. import gen
from .select import rtree, deep, ANAMES

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxNodes = %d
  MaxDepth = %d
  Wide = %s
INVARIANT InvPartition
INVARIANT InvInverse
INVARIANT InvOrder
INVARIANT InvAlt
INVARIANT InvAbs
INVARIANT InvUnion
CHECK_DEADLOCK FALSE
'''

MCV = '''SPECIFICATION Spec
CONSTANTS
  Wide = %s
''' + '\n'.join('INVARIANT Inv' + i for i in 'Flip One Any None Logic Not Strings Concat Substring Read Pred Seq Each OneItem'.split()) + '\nCHECK_DEADLOCK FALSE\n'


def cps(s): return [ord(c) for c in s]


def Item(k, i=0, t=(), v=()): return {'k': k, 'i': i, 't': list(t), 'v': list(v)}


def X(o, **kw):
    d = {'o': o, 'ax': '', 'nt': '', 'f': '', 't': [], 'v': Item('!'), 'a': []}
    d.update(kw)
    return d


AXES = ['self', 'child', 'attribute', 'parent', 'ancestor', 'ancestor-or-self', 'descendant', 'descendant-or-self',
        'following', 'preceding', 'following-sibling', 'preceding-sibling']
OPS = ['=', '!=', '<', '>', '<=', '>=']
WORDS = ['', '1', '1', '2', 'x', '1.5', '-1', ' 2 ', 'x1', 'ab', 'abab', '10', '.5', '1.', 'true', 'NaN', '1e1', '+1', 'a"b', "a'b", 'é\U0001f600', '0', '-0', '0.25', ' ', '1_0', '\u0661', '\xa01', 'Infinity', '0x1', '- 1', '\n', '\t\n']


class Exprs:
    def __init__(self, rng, names, atts, vs):
        self.rng, self.names, self.atts, self.vs = rng, names, atts, vs

    def pick(self, **weights):
        k = list(weights)
        return self.rng.choices(k, [weights[x] for x in k])[0]

    # nodes
    def step(self):
        rng = self.rng
        k = rng.random()
        if k < .06: return X('self')
        if k < .14: return X('par')
        ax = rng.choice(['child', 'child', 'child', 'attribute'] + AXES)
        if ax == 'attribute': return X('step', ax=ax, nt='any') if rng.random() < .4 else X('step', ax=ax, nt='name', t=cps(rng.choice(self.atts)))
        nt = rng.choice(['name', 'name', 'any', 'text', 'node'])
        return X('step', ax=ax, nt=nt, t=cps(rng.choice(self.names)) if nt == 'name' else [])

    def rlp(self, n=None):
        rng = self.rng
        n = n or rng.choice([1, 1, 2, 2, 3])
        e = self.step()
        for _ in range(n - 1): e = X(rng.choice(['path', 'path', 'dpath']), a=[e, self.step()])
        return e

    def nodes(self, d):
        k = self.pick(rlp=5, abs=2, absd=2, root=.3, **({'union': 1.5, 'pred': 2, 'path': 1.5, 'var': .7, 'each': .4, 'seq': .7} if d > 0 else {}))
        rng = self.rng
        if k == 'rlp': return self.rlp()
        if k == 'abs': return X('abs', a=[self.rlp()])
        if k == 'absd': return X('absd', a=[self.rlp(rng.choice([1, 1, 2]))])
        if k == 'root': return X('root')
        if k == 'union': return X('union', a=[self.nodes(d - 1), self.nodes(d - 1)])
        if k == 'pred': return X('pred', a=[self.nodes(d - 1)] + [self.pred(d - 1) for _ in range(rng.choice([1, 1, 2, 3]))])
        if k == 'path': return X(rng.choice(['path', 'path', 'dpath']), a=[self.nodes(d - 1), self.rlp(rng.choice([1, 1, 2]))])
        if k == 'var':
            v = [n for n, x in self.vs if x['k'] in 'NRA']
            return X('var', t=rng.choice(v)) if v else self.rlp()
        if k == 'each': return X('call', f='for-each', a=[self.nodes(d - 1), X('dyn', a=[self.nodes(d - 1)])])
        return X('seq', a=[self.nodes(d - 1) for _ in range(rng.randint(0, 3))])

    def lit(self):
        rng = self.rng
        if rng.random() < .5: return X('lit', v=Item('S', 0, cps(rng.choice(WORDS + self.names))))
        return X('lit', v=Item('F', rng.choice([0, 1000, 1000, 2000, 3000, 4000, 500, 1500, 2500, 10000, 250, 1125])))

    def pred(self, d):
        k = self.pick(num=3, bool=4, nodes=2, str=1, any=1)
        if k == 'num': return X('lit', v=Item('F', self.rng.choice([0, 1000, 1000, 1000, 2000, 2000, 3000, 4000, 1500, 7000])))
        return getattr(self, k)(d)

    # values
    def bool(self, d):
        rng = self.rng
        k = self.pick(cmp=4, **({'logic': 2, 'not': 1, 'fun': 1.5, 'const': .5, 'boolean': .7} if d > 0 else {'const': 1}))
        if k == 'cmp': return X('cmp', t=cps(rng.choice(OPS)), a=[self.any(d - 1), self.any(d - 1)])
        if k == 'logic': return X(rng.choice(['and', 'or']), a=[self.pred(d - 1), self.pred(d - 1)])
        if k in ('not', 'boolean'): return X('call', f=k, a=[self.any(d - 1)])
        if k == 'fun': return X('call', f=rng.choice(['starts-with', 'contains']), a=[self.str(d - 1), self.str(d - 1)])
        return X('call', f=rng.choice(['true', 'false']))

    def num(self, d):
        rng = self.rng
        k = self.pick(lit=2, **({'count': 2, 'number': 2, 'len': 2, 'neg': 1} if d > 0 else {}))
        if k == 'count': return X('call', f='count', a=[self.any(d - 1)])
        if k == 'number': return X('call', f='number', a=[] if rng.random() < .3 else [self.any(d - 1)])
        if k == 'len': return X('call', f='string-length', a=[] if rng.random() < .2 else [self.any(d - 1)])
        if k == 'neg': return X('neg', a=[self.num(d - 1)])
        return X('lit', v=Item('F', rng.choice([0, 1000, 1000, 2000, 3000, 4000, 500, 1500, 2500])))

    def str(self, d):
        rng = self.rng
        k = self.pick(lit=2, **({'string': 2, 'concat': 2, 'sub': 2, 'part': 2, 'name': 1, 'nodes': 1, 'any': .5} if d > 0 else {}))
        if k == 'string': return X('call', f='string', a=[] if rng.random() < .3 else [self.any(d - 1)])
        if k == 'concat': return X('call', f='concat', a=[self.any(d - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))])
        if k == 'sub': return X('call', f='substring', a=[self.str(d - 1), self.num(d - 1), self.num(d - 1)])
        if k == 'part': return X('call', f=rng.choice(['substring-before', 'substring-after']), a=[self.str(d - 1), self.str(d - 1)])
        if k == 'name': return X('call', f='name', a=[] if rng.random() < .4 else [self.nodes(d - 1)])
        if k in ('nodes', 'any'): return getattr(self, k)(d - 1)
        return X('lit', v=Item('S', 0, cps(rng.choice(WORDS))))

    def any(self, d):
        rng = self.rng
        k = self.pick(nodes=3, lit=3, var=1.5, **({'seq': 1.5, 'bool': 1, 'num': 1, 'str': 1.5, 'pred': 1, 'each': .6, 'bad': .08} if d > 0 else {}))
        if k == 'nodes': return self.nodes(max(d, 0)) if rng.random() < .6 else rng.choice([self.step(), X('self'), X('absd', a=[self.step()])])
        if k == 'lit': return self.lit()
        if k == 'var': return X('var', t=rng.choice(self.vs)[0]) if self.vs else self.lit()
        if k == 'seq': return X('seq', a=[self.any(d - 1) for _ in range(rng.randint(0, 4))])
        if k == 'pred': return X('pred', a=[self.any(d - 1)] + [self.pred(d - 1) for _ in range(rng.choice([1, 1, 2]))])
        if k == 'each': return X('call', f='for-each', a=[self.any(d - 1), X('dyn', a=[self.any(d - 1)])])
        if k == 'bad': return X('var', t=cps('unset')) if rng.random() < .5 else X('call', f='nothing', a=[self.any(d - 1)])
        return getattr(self, k)(d - 1)


def size(e): return 1 + sum(map(size, e['a']))


NAMES = [['a', 'b'], ['a', 'b', 'c'], ['and', 'or', 'div', 'a'], ['text', 'node', 'self', 'count'], ['é', 'a-b', 'x.y', 'a']]


def clean(h):
    'Whether the tree would be the same after serialization'
    for nd in h:
        kids = [h[c - 1]['k'] for c in nd['c']]
        if any(a == b == 'T' for a, b in zip(kids, kids[1:])): return False
        if nd['k'] == 'T' and not nd['t']: return False
    return True


def children(h):
    for nd in h: nd['c'] = []
    for i, nd in enumerate(h):
        if nd['p']: h[nd['p'] - 1]['c'].append(i + 1)
    return h


def ways(rng, h, clean_):
    'An entry point with a context item'
    i = rng.randint(1, len(h)) if rng.random() < .75 else 1
    eps = ['xml_xpath', 'xml_xpath', 'qquery', 'plain', 'plain', 'forced'] + (['string', 'bytes'] if clean_ and rng.random() < .3 else [])
    ep = rng.choice(eps)
    d = {'ep': ep, 'i': i, 'at': [], 'how': rng.choice(['text', 'text', 'parsed', 'called']), 'style': rng.randint(0, 10 ** 6)}
    if rng.random() < .12:
        els = [j for j, nd in enumerate(h) if nd['a']]
        if els:
            j = rng.choice(els)
            d.update(ep='attr', i=j + 1, at=rng.choice(h[j]['a'])[0])
    if d['ep'] == 'qquery' and rng.random() < .3: d['i'] = 1
    if d['ep'] not in ('string', 'bytes') and rng.random() < .15: d['own'] = rng.choice(['only', 'more', 'swap'])
    return d


def rvars(rng, h):
    vs = []
    for n in rng.sample(['v', 'w', 'x', 'and', 'a'], rng.randint(0, 4)):
        k = rng.random()
        if k < .35: it = Item('N', rng.randint(1, len(h)))
        elif k < .42: it = Item('R')
        elif k < .62: it = Item('S', 0, cps(rng.choice(WORDS)))
        elif k < .75: it = Item('B', rng.randint(0, 1))
        elif k < .85: it = Item('F', 0, [rng.choice([1, 2, 3])])
        else: it = Item('F', rng.choice([0, 1000, 2000, -1000, 1500, -500, 123456000]))
        vs.append([cps(n), it])
    return vs


def random_case(rng, prop, nevs, big):
    names = rng.choice(NAMES[:2] + NAMES)
    while True:
        h = rtree(rng, names, rng.randint(1, 4), rng.choice([2, 3, 4])) if rng.random() < .9 else deep(rng, names, 14)
        if 2 <= len(h) <= big: break
    for nd in h:
        if nd['k'] == 'T' and rng.random() < .5: nd['t'] = cps(rng.choice(WORDS))
        for a in nd['a']:
            if rng.random() < .4: a[1] = cps(rng.choice(WORDS))
    children(h)
    if rng.random() < .5:
        # no text next to text
        drop = {c for nd in h for b, c in zip([0] + nd['c'], nd['c']) if h[c - 1]['k'] == 'T' and (not h[c - 1]['t'] or (b and h[b - 1]['k'] == 'T'))}
        keep = [i for i in range(1, len(h) + 1) if i not in drop]
        new = {o: n + 1 for n, o in enumerate(keep)}
        h = [dict(h[o - 1], p=new.get(h[o - 1]['p'], 0)) for o in keep]
        children(h)
    cl = clean(h) and all(c in gen_ok for nd in h for c in nd['t'] + [c for a in nd['a'] for c in a[1]])
    vs = rvars(rng, h)
    g = Exprs(rng, names, ANAMES + [names[0]], vs)
    evs = []
    while len(evs) < nevs:
        d = rng.choice([0, 1, 1, 2] if prop == 'P12' else [1, 2, 2, 3])
        if prop == 'P12': e = g.nodes(d)
        elif prop == 'P13': e = rng.choice([g.bool, g.bool, g.nodes, g.any, g.pred])(d)
        else: e = rng.choice([g.str, g.str, g.num, g.bool, g.any])(d)
        if prop == 'P13' and rng.random() < .3: e = X('pred', a=[g.any(d)] + [g.pred(d) for _ in range(rng.choice([1, 2, 2, 3]))])
        if size(e) > 25: continue
        w = ways(rng, h, cl)
        # variables with nodes are of this tree, not one made from a text
        if w['ep'] in ('string', 'bytes') and any(v[1]['k'] in 'NAR' for v in vs): w['ep'] = 'forced'
        evs.append(dict(w, e=e))
    return {'src': ['h', h], 'vs': vs, 'evs': evs}


def long_expr(rng, prop, g):
    '''An expression with much of something'''
    def few(n): return rng.choice([5, 9, 12, 17, n])
    kinds = {'P12': ['steps', 'union', 'seq', 'parens', 'path'], 'P13': ['preds', 'logic', 'not', 'seqcmp', 'seqcmp', 'litcmp', 'nested'], 'P14': ['concat', 'calls', 'lit', 'count', 'neg', 'each', 'sub']}
    k = rng.choice(kinds[prop])
    def lit(n): return X('lit', v=Item('S', 0, cps(rng.choice(['x', 'ab', 'a b', '1', '\U0001f600', 'e\u0301', ' ', 'ab\n']) * n + rng.choice(['', 'z', 'b']))))
    def chain(o, xs):
        if rng.random() < .7:
            e = xs[0]
            for x in xs[1:]: e = X(o, a=[e, x])
        else:
            e = xs[-1]
            for x in reversed(xs[:-1]): e = X(o, a=[x, e])
        return e
    def wrap(e, n, *fs):
        for _ in range(n): e = X('call', f=rng.choice(fs), a=[e])
        return e
    if k in ('steps', 'path'):
        # few of the steps go from one node to many: the implementation evaluates each occurrence of a node
        n = few(30)
        wide = dict((k, rng.choice([X('step', ax=rng.choice(['child', 'child', 'descendant-or-self', 'ancestor-or-self']), nt=rng.choice(['any', 'node'])), X('par')])) for k in rng.sample(range(n), rng.choice([0, 1, 2, 3])))
        e = g.step()
        for j in range(n): e = X('path', a=[e, wide.get(j) or rng.choice([X('self'), X('step', ax='self', nt=rng.choice(['any', 'node', 'node']))])])
        return X(rng.choice(['abs', 'absd']), a=[e]) if k == 'path' else e
    if k == 'union': return chain('union', [g.rlp(rng.choice([1, 1, 2])) for _ in range(few(25))])
    if k == 'seq': return X('seq', a=[g.nodes(0) for _ in range(few(40))])
    if k == 'parens':
        e = g.nodes(1)
        for _ in range(few(25)): e = X('seq', a=[e] + ([g.step()] if rng.random() < .2 else []))
        return e
    if k == 'preds': return X('pred', a=[X('absd', a=[X('step', ax='child', nt=rng.choice(['any', 'node']))])] + [rng.choice([g.bool(0), X('call', f='true'), X('self'), X('lit', v=Item('F', 1000)), g.pred(1)]) for _ in range(few(9))])
    if k == 'logic': return chain(rng.choice(['and', 'or']), [rng.choice([g.pred(0), X('call', f=rng.choice(['true', 'false']))]) for _ in range(few(30))])
    if k == 'not': return wrap(g.any(1), few(30), 'not', 'not', 'boolean')
    if k == 'seqcmp' and rng.random() < .5:
        # one against many of which just one is like it
        n = few(30)
        at = rng.choice([1, 2, n - 1, n, n, n, rng.randint(1, n)])
        return X('cmp', t=cps(rng.choice(['=', '=', '=', '=', '!=', '<', '>'])), a=[X('lit', v=Item('F', 1000 * at)), X('seq', a=[X('lit', v=Item('F', 1000 * (j if rng.random() < .9 else 77))) for j in range(1, n + 1)])][::rng.choice([1, -1])])
    if k == 'seqcmp': return X('cmp', t=cps(rng.choice(OPS)), a=[X('seq', a=[g.any(0) for _ in range(few(30))]), g.any(1)][::rng.choice([1, -1])])
    if k == 'litcmp':
        n = rng.choice([40, 130, 300, 1100])
        return X('cmp', t=cps(rng.choice(['=', '!='])), a=[lit(n), lit(n)])
    if k == 'nested':
        e = g.step()
        for k in range(rng.choice([4, 6, 9])): e = X('pred', a=[rng.choice([X('absd', a=[X('step', ax='child', nt='any')]), X('step', ax='ancestor-or-self', nt='node')]) if k < 3 else X('self'), e])
        return e
    if k == 'concat': return X('call', f='concat', a=[rng.choice([g.lit(), g.lit(), X('self'), X('call', f='name')]) for _ in range(few(40))])
    if k == 'calls': return wrap(g.any(1), few(30), 'string', 'string', 'number', 'boolean', 'concat', 'string-length') if rng.random() < .5 else wrap(g.any(1), few(30), rng.choice(['string', 'concat']))
    if k == 'count': return X('call', f='count', a=[X('seq', a=[g.any(0) for _ in range(few(60))])])
    if k == 'neg':
        e = g.num(1)
        for _ in range(few(12)): e = X('neg', a=[e])
        return e
    if k == 'each': return X('call', f='for-each', a=[X('seq', a=[g.any(0) for _ in range(few(40))]), X('dyn', a=[rng.choice([X('self'), X('call', f='string'), X('seq', a=[X('self')] * 2)])])])
    n = rng.choice([40, 70, 130, 300, 1100])
    if k == 'lit': return X('call', f=rng.choice(['string-length', 'string', 'boolean', 'number', 'concat']), a=[lit(n)])
    f = rng.choice(['substring', 'substring-before', 'substring-after', 'contains', 'starts-with'])
    if f == 'substring': return X('call', f=f, a=[lit(n), X('lit', v=Item('F', 1000 * rng.choice([1, 2, n, n - 1, n // 2]))), X('lit', v=Item('F', 1000 * rng.choice([1, 30, n, 3])))])
    return X('call', f=f, a=[lit(n), lit(rng.choice([n, 1, n - 1]))])


def spread(e):
    '''How often an expression goes from one node to many, roughly'''
    return (e['o'] in ('dpath', 'absd')) + (e['o'] == 'step' and e['ax'] not in ('self', 'child', 'attribute', 'parent')) + (e['o'] == 'var') * .5 + sum(map(spread, e['a']))


def large_case(rng, prop, most, kind=None):
    '''A large tree with small expressions'''
    names = rng.choice(NAMES[:2])
    h = gen.bigtree(rng, names, most, kind=kind, plain=True)
    vs = rvars(rng, h)
    g = Exprs(rng, names, ['i', 'j', 'a1', 'a16'], vs)
    evs = []
    far = [1, len(h), max(i for i in range(1, len(h) + 1) if h[i - 1]['k'] == 'E')]
    while len(evs) < 6:
        e = {'P12': lambda: g.nodes(rng.choice([0, 0, 1])), 'P13': lambda: rng.choice([g.bool, g.nodes])(1), 'P14': lambda: rng.choice([g.str, g.num, g.num])(1)}[prop]()
        if prop == 'P13' and rng.random() < .4: e = X('pred', a=[X(rng.choice(['absd', 'abs']), a=[g.rlp(1)])] + [g.pred(1)])
        if prop == 'P14' and rng.random() < .4: e = X('call', f=rng.choice(['count', 'string', 'string-length', 'number', 'boolean']), a=[g.nodes(0)])
        if prop == 'P14' and rng.random() < .2: e = X('call', f='for-each', a=[g.nodes(0), X('dyn', a=[rng.choice([X('self'), X('call', f='name')])])])
        # many steps from many nodes to many nodes are of no use, and take long
        if size(e) > 7 or spread(e) > 2: continue
        evs.append({'ep': rng.choice(['xml_xpath', 'qquery', 'plain', 'plain', 'forced']), 'i': rng.choice(far + [rng.randint(1, len(h))]), 'at': [], 'how': 'text', 'style': rng.randint(0, 10 ** 6), 'e': e})
    return {'src': ['h', h], 'vs': vs, 'evs': evs}


def long_case(rng, prop):
    '''A small tree with large expressions'''
    names = rng.choice(NAMES[:2])
    while True:
        h = rtree(rng, names, rng.randint(1, 3), 3)
        if 2 <= len(h) <= 8: break
    for nd in h:
        if nd['k'] == 'T' and rng.random() < .5: nd['t'] = cps(rng.choice(WORDS))
    children(h)
    vs = rvars(rng, h)
    vs += [[cps('v%d' % k), Item('F', 1000 * k)] for k in range(rng.choice([0, 0, 40]))]
    g = Exprs(rng, names, ANAMES, vs)
    evs = []
    for _ in range(6): evs.append(dict(ways(rng, h, False), e=long_expr(rng, prop, g)))
    return {'src': ['h', h], 'vs': vs, 'evs': evs}


gen_ok = set(range(0x20, 0x7f)) | {0xe9, 0x1f600, 9, 10}


def run(ctx):
    rng = ctx.rng
    if ctx.prop == 'P12':
        b = ctx.pick((4, 3, 'FALSE'), (4, 3, 'TRUE'))
        scs = ctx.scenarios('MCPath', MC % b, heap='8g', workers=6)
        ctx.bounds['specification'] = 'all trees of up to %d nodes, depth %d, with all axes and tests and combinations of steps, from every context' % b[:2]
        by = {}
        for s in scs: by.setdefault(str(s['h']), []).append(s)
        cases = []
        for key in sorted(by):
            h = by[key][0]['h']
            es = sorted((s['e'] for s in by[key]), key=str)
            evs = []
            for e in rng.sample(es, min(len(es), ctx.pick(50, 300))):
                evs.append(dict(ways(rng, h, clean(h)), e=e))
            for k in range(0, len(evs), 60): cases.append({'src': ['h', h], 'vs': [], 'evs': evs[k:k + 60]})
        ctx.bounds['scenarios'] = f'{sum(len(c["evs"]) for c in cases)} of {len(scs)} (tree, path) pairs, from random contexts'
        ctx.check('drv_path', 'TrPath', cases, 'trees and paths of the specification', heap='6g')
    else:
        scs = ctx.scenarios('MCValue', MCV % ctx.pick('FALSE', 'TRUE'), heap='8g', workers=6)
        ctx.bounds['specification'] = '23 items of all kinds in all comparisons, conversions, functions of one and two arguments; predicate pairs; logic'
        es = sorted((s['e'] for s in scs), key=str)
        mine = [e for e in es if (e['o'] == 'call' and e['f'] != 'not' or e['o'] == 'neg') == (ctx.prop == 'P14')]
        rng.shuffle(mine)
        mine = mine[:ctx.pick(6000, 60000)]
        h, vs = VALUE_TREE, VALUE_VARS
        cases = [{'src': ['h', h], 'vs': vs, 'evs': [{'ep': 'plain', 'i': 1, 'how': 'text', 'style': rng.randint(0, 10 ** 6), 'e': e} for e in mine[k:k + 30]]}
                 for k in range(0, len(mine), 30)]
        ctx.bounds['scenarios'] = f'{len(mine)} expressions'
        ctx.check('drv_path', 'TrPath', cases, 'expressions of the specification', heap='6g')
    cases = [random_case(rng, ctx.prop, rng.randint(3, 20), 25) for _ in range(ctx.pick(700, 9000))]
    ctx.check('drv_path', 'TrPath', cases, 'random trees and expressions', stack='256m', heap='6g')
    kinds = ['deep', 'wide', 'attrs', 'long', 'bush', 'wide']
    cases = [large_case(rng, ctx.prop, ctx.pick(170, 300), kinds[k % 6]) for k in range(ctx.pick(24, 300))]
    cases += [long_case(rng, ctx.prop) for _ in range(ctx.pick(60, 800))]
    ctx.check('drv_path', 'TrPath', cases, 'large trees, long expressions', stack='512m', heap='6g')


def T(k, n='', a=(), t='', p=0): return {'k': k, 'n': cps(n), 'a': [[cps(x), cps(y)] for x, y in a], 't': cps(t), 'p': p, 'c': []}


VALUE_TREE = children([T('E', 'a', [('i', '1')]), T('E', 'b', p=1), T('T', t='1', p=2), T('T', t='a', p=1)])
# as Items in MCValue
VALUE_ITEMS = [Item('S'), Item('S', t=cps('1')), Item('S', t=cps('a')), Item('S', t=cps('ab')), Item('S', t=cps(' 1.5\n')), Item('S', t=cps('-1')), Item('S', t=cps('1x')),
               Item('F', 0), Item('F', 1000), Item('F', 1500), Item('F', -1000), Item('F', 2000), Item('F', 0, [1]), Item('F', 0, [2]), Item('F', 0, [3]),
               Item('B', 1), Item('B', 0), Item('N', 1), Item('N', 2), Item('N', 3), Item('N', 4), Item('A', 1, cps('i'), cps('1')), Item('R')]
VALUE_VARS = [[cps('v%d' % (n + 1)), x] for n, x in enumerate(VALUE_ITEMS)]
