'''P21: namespaces gathered while XML is parsed'''
from .pattern import rpat
from .reduce import It, XNAMES, TXT, URIS, cps, st, rdoc, render, big_doc

MC = '''SPECIFICATION Spec
CONSTANT MaxItems = %d
''' + '\n'.join('INVARIANT Inv' + i for i in 'Reduced Scope Function Used Simple Round'.split()) + '\nCHECK_DEADLOCK FALSE\n'
ANY = [{'k': 'any', 'n': []}]


def simple_doc(rng):
    '''Namespaces which do not conflict, as they most often are'''
    pre = rng.sample(['', 'x', 'y', 'p-1'], rng.randint(0, 3))
    uri = dict(zip(pre, rng.sample(URIS, len(pre))))
    of, aof = {}, {}
    items = []
    everywhere = rng.random() < .5

    def el(d, scope):
        n = rng.choice(XNAMES[:9])
        scope = set(scope)
        ns = []

        def use(p):
            if p in uri and p not in scope:
                ns.append(p)
                scope.add(p)
        p = of.setdefault(n, '' if '' in pre and rng.random() < .5 else rng.choice(pre or ['']))
        use(p)
        if everywhere and d == 0 or rng.random() < .1:
            for o in pre: use(o)
        a = []
        for an in rng.sample(XNAMES[:9], rng.choice([0, 0, 1, 2])):
            ap = aof.setdefault(an, rng.choice([''] * 2 + [o for o in pre if o] + ['xml']))
            use(ap) if ap else None
            a.append([cps(ap), cps(an), cps(rng.choice(TXT))])
        e = rng.random() < .2
        rng.shuffle(ns)
        items.append(It('start', p=cps(p), n=cps(n), ns=[[cps(o), cps(uri[o])] for o in ns], a=a, e=e))
        if e: return
        for _ in range(rng.choice([0, 1, 2, 3]) if d < 5 else 0):
            if rng.random() < .4: items.append(It('text', t=cps(rng.choice(TXT))))
            el(d + 1, scope)
        if rng.random() < .4: items.append(It('text', t=cps(rng.choice(TXT))))
        items.append(It('end', p=cps(p), n=cps(n)))
    el(0, set())
    return items


def run(ctx):
    rng = ctx.rng
    m = ctx.pick(5, 6)
    scs = ctx.scenarios('MCNames', MC % m, heap='6g', workers=6)
    ctx.bounds['specification'] = f'all documents of up to {m} items of 19 kinds (11 of them start tags, with declarations)'
    scs.sort(key=str)
    simple, other = [s['x'] for s in scs if s['simple']], [s['x'] for s in scs if not s['simple']]
    ctx.bounds['scenarios'] = f'{len(simple)} documents without conflicts, {len(other)} with'
    want = ctx.pick(1500, 12000)
    scs = rng.sample(simple, min(len(simple), want)) + rng.sample(other, min(len(other), want))

    def case(items):
        how = rng.choice(['events', 'deliver', 'deliver'])
        names = [st(it['n']) for it in items if it['i'] == 'start'] or ['a']
        cuts = sorted(rng.randint(0, 1000) for _ in range(rng.choice([0, 1, 3, 20])))
        stream = rng.random() < .5
        return {'items': items, 'x': render(items, rng, False), 'how': how, 'stream': stream, 'pat': ANY if rng.random() < .5 or not stream else rpat(rng, names, 3),
                'file': rng.random() < .4, 'bytes': rng.random() < .4, 'cuts': cuts}
    ctx.check('drv_names', 'TrNames', [case(s) for s in scs], 'documents of the specification')
    cases = []
    for _ in range(ctx.pick(700, 8000)):
        items = simple_doc(rng) if rng.random() < .6 else rdoc(rng, depth=rng.randint(0, 4), fan=rng.randint(1, 3))
        if len(items) < 300: cases.append(case(items))
    for k in range(ctx.pick(12, 120)): cases.append(case(big_doc(rng, ctx.pick(160, 400), ['wide', 'deep', 'attrs', 'long', 'names', 'names'][k % 6])))
    ctx.check('drv_names', 'TrNames', cases, 'random documents', stack='256m', heap='6g')
