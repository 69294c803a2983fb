'''P15: histories of tree mutations and MicroXPath evaluations'''
from .. import xprender
from . import mutate
from .path import Exprs, Item, X, cps, size, WORDS

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxOps = %d
INVARIANT InvConsistent
INVARIANT InvSame
CHECK_DEADLOCK FALSE
'''

BAD = ['', 'a[', 'a b', '#', '"abc', 'a/', '(', 'foo::a', 'a]', 'a]b', '1 2', '/a//', 'child::', '$', 'a=', '!', 'f(', 'f(a,', "a['", 'a::b', 'text(', '@', 'a | ', 'ancestor::', 'x[1', '..a']


def random_history(rng, length):
    'Mutations, and evaluations among them'
    sim_ops = []
    names = ['a', 'b', 'c']
    # a forest in which something can be found
    base = [{'o': 'parse', 'x': cps(d)} for d in rng.sample(DOCS, rng.choice([1, 2, 2]))]
    n = {}
    ops = list(base)
    muts = mutate_more(rng, base, length)
    def some(): return [[cps(v), it] for v, it in [('v', Item('S', 0, cps(rng.choice(WORDS)))), ('w', Item('F', rng.choice([1000, 2000])))]]
    vs, other = some(), some()[::-1]
    g = Exprs(rng, names, ['i', 'j', 'a'], vs)

    def expr():
        for _ in range(50):
            if rng.random() < .15:
                e = X('call', f='concat', a=[X('self'), X('lit', v=Item('S', 0, cps(rng.choice(WORDS))))]) if rng.random() < .4 else g.any(1)
                e = X('call', f='for-each', a=[g.nodes(0) if rng.random() < .5 else X('lit', v=Item('S', 0, cps('x'))), X('dyn', a=[e])])
            else: e = rng.choice([g.nodes, g.nodes, g.nodes, g.any, g.bool, g.str])(rng.choice([0, 1, 1, 2]))
            try: xprender.render(e, 0)
            except xprender.CantSay: continue
            if size(e) <= 14: return e
        return X('self')
    pool = [expr() for _ in range(rng.randint(1, 4))]
    # expressions which are nearly the same
    for e in list(pool):
        if rng.random() < .6: pool += near(rng, e)
    opens, nid = [], 0
    while muts:
        k = rng.random()
        count = muts[0][1]      # nodes so far
        def ev():
            e = rng.choice(pool) if rng.random() < .75 else expr()
            swap = rng.random() < .2
            if rng.random() < .2 and e['o'] != 'self': e = xprender.swapped(e)
            return {'swap': swap, 'c': rng.randint(1, count), 'e': e, 'ep': rng.choice(['plain', 'plain', 'xml_xpath', 'qquery', 'forced']), 'at': [], 'vs': rng.choice([vs, vs, vs, other, other[:1], []]),
                    'pid': rng.random() < .6, 'style': 0}
        if k < .3: ops.append(muts.pop(0)[0])
        elif k < .36: ops.append({'o': 'bad', 't': cps(rng.choice(BAD))})
        elif k < .40:
            # one expression, right after each other with different variables
            v = X('var', t=cps(rng.choice('vw')))
            e = rng.choice([v, v, X('cmp', t=cps('='), a=[v, X('lit', v=Item('S', 0, cps('x')))]), X('pred', a=[X('absd', a=[X('step', ax='child', nt='any')]), v]), X('call', f='concat', a=[v, v]), rng.choice(pool)])
            c = rng.randint(1, count)
            for _ in range(rng.choice([2, 3])): ops.append(dict(ev(), e=e, c=c, swap=False, vs=rng.choice([vs, other, other[:1], vs[:1], [], [], [[vs[0][0], Item('S', 0, cps('other'))]]]), o='eval'))
        elif k < .62: ops.append(dict(ev(), o='eval'))
        elif k < .75:
            nid += 1
            opens.append(nid)
            ops.append(dict(ev(), o='open', id=nid))
        elif k < .95 and opens: ops.append({'o': 'pull', 'id': rng.choice(opens), 'n': rng.choice([1, 1, 2, 3, 50])})
        elif opens:
            i = opens.pop(rng.randrange(len(opens)))
            ops.append({'o': 'close', 'id': i, 'how': rng.random() < .5})
    return ops


DOCS = ['<a><b>1</b><b>x</b></a>', '<b><a i="1">x<c></c>x</a><c j="2" i="1"></c></b>', '<a><a><a>x</a></a><b></b></a>', '<c>x</c>']


def mutate_more(rng, base, length):
    '''Operations of tree mutation after base, with the number of nodes before each'''
    from xml.dom import minidom
    sim = mutate.Sim()

    def add(nd, p):
        i = sim.new('E' if nd.nodeType == 1 else 'T', p)
        if p: sim.ch[p].append(i)
        for c in nd.childNodes: add(c, i)
    for op in base: add(minidom.parseString(''.join(map(chr, op['x']))).documentElement, 0)
    out = []
    for _ in range(length):
        els = [i for i in range(1, len(sim.par)) if sim.kind[i] == 'E']
        texts = [i for i in range(1, len(sim.par)) if sim.kind[i] == 'T']
        n = len(sim.par) - 1
        k = rng.random()
        p = rng.choice(els)
        if k < .1 and n < 25:
            op = {'o': 'new', 'n': cps(rng.choice('abc')), 'a': []}
            sim.new('E')
        elif k < .4:
            cs = [c for c in els if sim.par[c] == 0 and c != p and c not in sim.anc(p)]
            if not cs: continue
            c = rng.choice(cs)
            sim.par[c] = p
            i = rng.choice([None, 0, 1, -1])
            op = {'o': 'app', 'p': p, 'c': c} if i is None else {'o': 'ins', 'p': p, 'i': i, 'c': c}
            sim.ch[p].insert(i if i is not None and i >= 0 else len(sim.ch[p]), c)
        elif k < .55 and n < 25:
            t = rng.choice(['x', '1', ''])
            i = rng.choice([None, 0, 1])
            op = {'o': 'apps', 'p': p, 't': cps(t)} if i is None else {'o': 'inss', 'p': p, 'i': i, 't': cps(t)}
            c = sim.new('T', p)
            sim.ch[p].insert(i if i is not None else len(sim.ch[p]), c)
        elif k < .8:
            kids = [(sim.par[c], c) for c in els + texts if sim.par[c]]
            if not kids: continue
            p, c = rng.choice(kids)
            op = {'o': 'rem', 'p': p, 'c': c}
            sim.ch[p].remove(c); sim.par[c] = 0
        elif k < .95: op = {'o': 'seta', 'p': p, 'a': [cps(rng.choice(['i', 'j', 'a'])), cps(rng.choice(['', '1', '2']))]}
        else: op = {'o': 'dela', 'p': p, 'n': cps(rng.choice(['i', 'j']))}
        out.append((op, n))
    return out


def run(ctx):
    rng = ctx.rng
    scs = ctx.scenarios('MCHist', MC % 3, heap='6g', workers=6)
    scs.sort(key=str)
    ctx.bounds['specification'] = 'all histories of 3 operations (8 mutations, 16 evaluations, 4 lazy ones, syntax errors) on a forest of two trees'
    full = [s for s in scs if len(s) == 5]
    want = ctx.pick(1500, 12000)
    total = len(full)
    if total > want: full = rng.sample(full, want)
    ctx.bounds['scenarios'] = f'{len(full)} of {total} histories'

    def way(op):
        if op['o'] in ('eval', 'open'): return dict(op, pid=rng.random() < .6, style=0, swap=rng.random() < .2)
        return op
    cases = []
    for s in full:
        ops = [way(op) for op in s]
        # what the history did to evaluations shows in some more of them
        for c in (1, 6): ops.append(way(next(op for op in [rng.choice(EVALS(c))])))
        cases.append({'ops': ops})
    ctx.check('drv_hist', 'TrHist', cases, 'histories of the specification', heap='6g')
    cases = [{'ops': random_history(rng, rng.randint(2, 12))} for _ in range(ctx.pick(700, 6000))]
    ctx.check('drv_hist', 'TrHist', cases, 'random histories', heap='6g', stack='256m')


def near(rng, e):
    '''The same expression, but for a detail, in two ways'''
    import copy
    e, e2 = copy.deepcopy(e), copy.deepcopy(e)

    def subs(x):
        yield x
        for a in x['a']: yield from subs(a)
    lits = [x for x in subs(e) if x['o'] == 'lit' and x['v']['k'] == 'S']
    nums = [x for x in subs(e) if x['o'] == 'lit' and x['v']['k'] == 'F']
    names = [x for x in subs(e) if x['o'] == 'step' and x['nt'] == 'name']
    what = rng.choice([lits, lits, nums, names]) or lits or nums or names
    if not what: return []
    x = rng.choice(what)
    if what is lits:
        t = x['v']['t']
        y = next(y for x1, y in zip(subs(e), subs(e2)) if x1 is x)
        x['v']['t'], y['v']['t'] = rng.choice([([32] + t, t + [32]), ([ord(c) for c in ''.join(map(chr, t)).upper()], t), (t[::-1], t[1:] + t[:1])])
    elif what is nums: x['v']['i'] = rng.choice([0, 1000, 2000, 1500])
    else: x['t'] = [rng.choice([97, 98, 99])]
    return [e, e2]


def EVALS(c):
    any_ = X('step', ax='child', nt='any')
    node = X('step', ax='child', nt='node')
    es = [X('absd', a=[any_]), X('union', a=[X('absd', a=[node]), X('par')]), X('path', a=[X('step', ax='ancestor-or-self', nt='node'), any_])]
    return [{'o': 'eval', 'c': c, 'e': e, 'ep': ep, 'at': [], 'vs': []} for e in es for ep in ('plain', 'qquery')]
