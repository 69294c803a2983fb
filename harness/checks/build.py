'''P04: trees built from MicroXML'''
from .. import gen

MC = '''SPECIFICATION Spec
CONSTANTS
  NBuilders = 2
  MaxParses = %d
INVARIANT InvConsistent
INVARIANT InvResults
INVARIANT InvOpen
CHECK_DEADLOCK FALSE
'''
EPS = ['treebuilder', 'treebuilder', 'treebuilder', 'tree.parse', 'uxml.parse', 'new']


def cps(s): return [ord(c) for c in s]


def run(ctx):
    rng = ctx.rng
    n = ctx.pick(2, 3)
    scs = ctx.scenarios('MCBuild', MC % n)
    ctx.bounds['specification'] = f'all successions of {n} of 7 documents on 2 builders'
    total = len(scs)
    cases = [[dict(s, ep=ep) for s in sc] for sc in scs for ep in ('treebuilder', 'mixed')]
    for c in cases:
        for s in c:
            if s['ep'] == 'mixed': s['ep'] = rng.choice(EPS)
    ctx.check('drv_build', 'TrBuild', cases, 'successions of documents of the specification')
    cases = []
    for _ in range(ctx.pick(900, 8000)):
        c = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            d = gen.doc(rng, depth=rng.randint(0, 5), fan=rng.randint(1, 5))
            if rng.random() < .2: d = gen.mutate(rng, d)
            c.append({'x': cps(d), 'b': rng.randint(1, 2), 'ep': rng.choice(EPS)})
        cases.append(c)
    # shapes: deep, wide, equal texts, much text
    for d in ['<a>' * 150 + 'x' + '</a>' * 150, '<a>' + '<b></b>x' * 200 + '</a>', '<a>' + '<b>x</b>' * 100 + '</a>',
              '<a>x<b>x<a>x</a>x</b>x<b>x</b></a>', '<a>' + '&#x41;' * 300 + '</a>']:
        cases.append([{'x': cps(d), 'b': 1, 'ep': 'treebuilder'}, {'x': cps('<a>x</a>'), 'b': 1, 'ep': 'treebuilder'}])
    for k in range(ctx.pick(14, 150)):
        h = gen.bigtree(rng, ['a', 'b', 'c'], ctx.pick(700, 2000), kind=['wide', 'deep', 'attrs', 'long', 'wide', 'bush', 'wide'][k % 7])
        cases.append([{'x': cps(gen.tomx(h)), 'b': 1, 'ep': rng.choice(EPS)}, {'x': cps('<a>x</a>'), 'b': 1, 'ep': rng.choice(EPS)}])
    ctx.check('drv_build', 'TrBuild', cases, 'random successions of documents', stack='256m', heap='6g')
