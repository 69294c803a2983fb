'''P07: tree mutations'''
from .. import gen

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxElems = %(e)d
  MaxTexts = %(t)d
  MaxOps = %(o)d
  WithLife = %(life)s
VIEW MCView
INVARIANT InvConsistent
INVARIANT InvAlive
CHECK_DEADLOCK FALSE
'''


def cps(s): return [ord(c) for c in s]


class Sim:
    '''What the generator needs to know of the forest to make operations in the domain'''
    def __init__(self): self.par, self.ch, self.kind = [None], [None], [None]

    def new(self, k, p=0):
        self.par.append(p); self.ch.append([]); self.kind.append(k)
        return len(self.par) - 1

    def anc(self, i):
        s = set()
        while self.par[i]: i = self.par[i]; s.add(i)
        return s


VIA = ['tree', 'builder', 'xml', 'ts', 'tsub', 'xs', 'xsub', 'html', 'uxml', 'hs']
HTML = ['<html><head></head><body>x<p id="1">y</p>z</body></html>', '<html><head><title>t</title></head><body><p>1</p><p>2<b>3</b></p></body></html>']
# Texts, and what HTML makes of them
MESSY = [('<b class="x"><p>1</b>2', '<html><head></head><body><b class="x"></b><p><b class="x">1</b>2</p></body></html>'),
         ('<p><i a="1">1<p>2', '<html><head></head><body><p><i a="1">1</i></p><p><i a="1">2</i></p></body></html>'),
         ('<a b="1"><div>x<a b="2">y', '<html><head></head><body><a b="1"></a><div><a b="1">x</a><a b="2">y</a></div></body></html>'),
         ('<table><b i="1">x<tr><td>y', '<html><head></head><body><b i="1">x</b><table><tbody><tr><td>y</td></tr></tbody></table></body></html>'),
         ('<p i="1"><b a="1"><b a="1">x</p>y', '<html><head></head><body><p i="1"><b a="1"><b a="1">x</b></b></p><b a="1"><b a="1">y</b></b></body></html>')]


def random_history(rng, length, life=False, first=None):
    sim, ops = Sim(), []
    held = set()

    def alive():
        s, todo = set(), list(held)
        while todo:
            i = todo.pop()
            if i not in s:
                s.add(i); todo += sim.ch[i]
        return s
    for _ in range(length):
        live = alive() if life else set(range(1, len(sim.par)))
        for i in range(1, len(sim.par)):    # what has gone is nothing's parent or child
            if i not in live: sim.par[i], sim.ch[i] = 0, []
            elif sim.par[i] and sim.par[i] not in live: sim.par[i] = 0
        els = [i for i in sorted(live) if sim.kind[i] == 'E']
        texts = [i for i in sorted(live) if sim.kind[i] == 'T']
        k = rng.random()
        if els and not first and rng.random() < .12:
            c, n = rng.choice(els), cps(rng.choice(['a', 'b', 'i']))
            ops.append({'o': 'seta', 'c': c, 'n': n, 't': cps(rng.choice(gen.TEXTS))} if rng.random() < .7 else {'o': 'dela', 'c': c, 'n': n})
            continue
        if (not els or k < .15) and not first:
            n = rng.choice(gen.NAMES[:5])
            a = [[cps(x), cps(rng.choice(gen.TEXTS))] for x in rng.sample(['a', 'b', 'c'], rng.choice([0, 0, 1, 2]))]
            ops.append({'o': 'new', 'n': cps(n), 'a': a}); held.add(sim.new('E'))
        elif first or k < .2 and len(sim.par) < 20:
            from xml.dom import minidom
            d = rng.choice(['<a>x<b></b>x<b>x</b></a>', '<r><a i="1">1</a><a i="2">1</a>1</r>', '<a></a>'])
            op = {'o': 'parse', 'x': cps(d)}
            if first:
                # a large tree, for all that follows
                d = first
                first, op['x'] = None, cps(d)
            elif life or rng.random() < .6:
                op['via'] = rng.choice(VIA)
                if op['via'] in ('html', 'hs'):
                    d = rng.choice(HTML)
                    if rng.random() < .6:
                        src, d = rng.choice(MESSY)
                        op['src'] = cps(src)
                    op['x'] = cps(d)
            ops.append(op)

            def add(nd, p):
                i = sim.new('E' if nd.nodeType == 1 else 'T', p)
                if p: sim.ch[p].append(i)
                if not life or not p: held.add(i)
                for c in nd.childNodes: add(c, i)
            add(minidom.parseString(d).documentElement, 0)
        elif k < .5:
            p = rng.choice(els)
            cs = [c for c in els if sim.par[c] == 0 and c != p and c not in sim.anc(p)]
            if not cs: continue
            c = rng.choice(cs)
            sim.par[c] = p
            if rng.random() < .5:
                ops.append({'o': 'app', 'p': p, 'c': c}); sim.ch[p].append(c)
            else:
                i = rng.randint(-1, len(sim.ch[p]) + 1)
                ops.append({'o': 'ins', 'p': p, 'i': i, 'c': c})
                sim.ch[p].insert(i if i >= 0 else len(sim.ch[p]), c)
        elif k < .68:
            p = rng.choice(els)
            t = rng.choice(['x', 'x', 'y', '', ' ', 'é<&', 'x'])
            i = rng.choice([None, -1, 0, 1, 2, len(sim.ch[p])])
            n = sim.new('T', p)
            if not life: held.add(n)
            if i is None:
                ops.append({'o': 'apps', 'p': p, 't': cps(t)}); sim.ch[p].append(n)
            else:
                ops.append({'o': 'inss', 'p': p, 'i': i, 't': cps(t)})
                sim.ch[p].insert(i if i >= 0 else len(sim.ch[p]), n)
        elif k < .8 or not life:
            kids = [(sim.par[c], c) for c in live if sim.par[c] and sim.par[c] in live]
            if kids and rng.random() < .8: p, c = rng.choice(sorted(kids))
            else: p, c = rng.choice(els), rng.choice(els + texts)
            ops.append({'o': 'rem', 'p': p, 'c': c})
            if sim.par[c] == p:
                sim.ch[p].remove(c); sim.par[c] = 0
        elif k < .86 and els:
            ops.append({'o': 'use', 'c': rng.choice(els)})
        elif rng.random() < .65 and held:
            c = rng.choice(sorted(held))
            held.discard(c)
            ops.append({'o': 'drop', 'c': c})
        else:
            c = rng.choice(sorted(live))
            held.add(c)
            ops.append({'o': 'hold', 'c': c})
    return ops


def run(ctx):
    rng = ctx.rng
    b = ctx.pick({'e': 3, 't': 2, 'o': 7, 'life': 'FALSE'}, {'e': 4, 't': 3, 'o': 9, 'life': 'FALSE'})
    scs = ctx.scenarios('MCMutate', MC % b, heap='6g')
    ctx.bounds['specification'] = f'all forests reachable with {b["e"]} elements, {b["t"]} texts of the same value and {b["o"]} operations'
    total = len(scs)
    # histories which are the beginning of another one need no run of their own
    want = ctx.pick(4000, 40000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total} (forest, operation) pairs'
    ctx.check('drv_heap', 'TrHeap', [{'ops': s, 'life': False} for s in scs], 'operations on forests of the specification')
    b = ctx.pick({'e': 3, 't': 1, 'o': 6, 'life': 'TRUE'}, {'e': 3, 't': 2, 'o': 7, 'life': 'TRUE'})
    scs = ctx.scenarios('MCMutate', MC % b, heap='6g')
    total, want = len(scs), ctx.pick(2000, 20000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['lives'] = f'{len(scs)} of {total} (forest, operation) pairs with nodes being let go of, {b["e"]} elements, {b["t"]} texts, {b["o"]} operations'
    ctx.check('drv_heap', 'TrHeap', [{'ops': s, 'life': True} for s in scs], 'operations on forests of which parts are let go of')
    cases = [{'ops': random_history(rng, rng.randint(5, 40)), 'life': False} for _ in range(ctx.pick(500, 6000))]
    for k in range(ctx.pick(12, 100)):
        h = gen.bigtree(rng, ['a', 'b', 'c'], ctx.pick(140, 300), kind=['wide', 'deep', 'wide', 'bush', 'long'][k % 5], plain=True)
        cases.append({'ops': random_history(rng, ctx.pick(12, 30), first=gen.tomx(h)), 'life': False})
    ctx.check('drv_heap', 'TrHeap', cases, 'random histories', stack='256m')
    # parents may go
    cases = [{'ops': random_history(rng, rng.randint(5, 40), True), 'life': True} for _ in range(ctx.pick(250, 3000))]
    ctx.check('drv_heap', 'TrHeap', cases, 'random histories in which nodes are let go of')
