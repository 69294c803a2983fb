'''P08: pattern-driven parses'''
from .. import gen
from . import html
from .write import XNAMES

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxNodes = %d
  MaxDepth = %d
  MaxPat = %d
INVARIANT InvNfa
INVARIANT InvExact
INVARIANT InvTrees
CHECK_DEADLOCK FALSE
'''


def cps(s): return [ord(c) for c in s]


def rpat(rng, names, maxlen=4):
    p = []
    if rng.random() < .12:
        # one which can have matched in part in many ways at a time
        c = rng.choice(names)
        p = [{'k': 'deep', 'n': []}]
        for _ in range(rng.randint(2, 7)): p.append(rng.choice([{'k': 'any', 'n': []}, {'k': 'any', 'n': []}, {'k': 'name', 'n': [cps(c)]}, {'k': 'deep', 'n': []}]))
        p.append({'k': 'name', 'n': [cps(rng.choice(names))]})
        return p
    if rng.random() < .05: maxlen *= 2
    for _ in range(rng.randint(1, maxlen)):
        k = rng.random()
        if k < .45: p.append({'k': 'name', 'n': [cps(rng.choice(names))]})
        elif k < .55: p.append({'k': 'name', 'n': [cps(n) for n in rng.sample(names, min(rng.choice([1, 2, 2, 3, 4, 5]), len(names)))]})
        elif k < .72: p.append({'k': 'any', 'n': []})
        else: p.append({'k': 'deep', 'n': []})
    if p[-1]['k'] == 'deep': p.append({'k': 'name', 'n': [cps(rng.choice(names))]} if rng.random() < .7 else {'k': 'any', 'n': []})
    if rng.random() < .3:
        for s in p: s['f'] = rng.choice([0, 1, 2])
    return p


def chain(rng, names):
    '''A document of elements inside one another, most of one name'''
    x = ''
    for k in range(rng.randint(5, 14)):
        n = names[0] if rng.random() < .8 else rng.choice(names)
        x = '<%s>%s%s</%s>' % (n, rng.choice(['', '', 't', '<%s></%s>' % (names[-1], names[-1])]), x or 'x', n)
    return x


def render(rng, evs):
    s = ''
    for e in evs:
        n = ''.join(map(chr, e['n']))
        s += ('<' + n + rng.choice(['', '', ' i="1"', " j='&lt;' i=\"2\""]) + '>' if e['k'] == 'S' else '</' + n + '>')
        s += rng.choice(['', '', 'x', ' ', 'y&amp;'])
    while not s.endswith('>'): s = s[:-1]
    return s


def cutpoints(x):
    return [k + 1 for k, c in enumerate(x) if c == '>' and k + 1 < len(x)]


def earlier(rng, cases):
    '''Some senders have parsed other documents before'''
    for c in cases:
        if c['kind'] not in ('ux', 'html') or rng.random() > .2: continue
        c['before'] = []
        for _ in range(rng.choice([1, 1, 2])):
            y = c['x'] if rng.random() < .5 else rng.choice(cases)['x']
            if rng.random() < .6: y = y[:rng.randint(0, len(y))]
            if rng.random() < .2: y = y + cps(rng.choice(['<', '</zz>', '&', ' ', '<a>']))
            c['before'].append(y)
    return cases


def run(ctx):
    rng = ctx.rng
    b = ctx.pick((4, 3, 3), (5, 4, 3))
    scs = ctx.scenarios('MCPattern', MC % b)
    ctx.bounds['specification'] = 'all documents of up to %d elements of 2 names, depth %d, with all patterns of up to %d steps' % b
    total = len(scs)
    want = ctx.pick(3000, 30000)
    pats = [s['pat'] for s in scs[::7]]
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total} (document, pattern) pairs'
    cases = []

    def add(x, ps):
        kind = rng.choice(['ux', 'ux', 'xml', 'xml', 'file'])
        c = {'x': cps(x), 'pats': ps, 'kind': kind, 'cuts': [], 'prompt': False, 'primed': rng.random() < .15, 'single': rng.random() < .6,
             'modes': [rng.choice(['keep', 'keep', 'adopt', 'disturb', 'detach']) for _ in ps], 'ns': rng.random() < .2}
        if kind == 'xml':
            k = rng.random()
            if k < .6:
                c['cuts'] = cutpoints(x)
                c['prompt'] = True
            elif k < .8: c['cuts'] = sorted(rng.randint(0, len(x)) for _ in range(3))
        cases.append(c)
        # cut off: what was complete by then has been delivered all the same
        if rng.random() < .3 and len(x) > 3:
            k = rng.choice(cutpoints(x) or [len(x)])
            cases.append(dict(c, kind='ux' if kind == 'file' else kind, x=cps(x[:k]), cuts=[], prompt=False))
        elif rng.random() < .1:
            cases.append(dict(c, kind='ux', x=cps(x + '<'), cuts=[], prompt=False))
            k = rng.choice(cutpoints(x) or [len(x)])
            cases.append(dict(c, kind='ux', x=cps(x[:k] + '</zz>' + x[k:]), cuts=[], prompt=False))
    for s in scs:
        ps = [s['pat']]
        if rng.random() < .4: ps = ps + [rng.choice(pats) for _ in range(rng.randint(1, 2))]
        rng.shuffle(ps)
        add(render(rng, s['evs']), ps)
    ctx.check('drv_pattern', 'TrPattern', earlier(rng, cases), 'documents and patterns of the specification')
    cases.clear()
    for _ in range(ctx.pick(700, 8000)):
        names = rng.choice([['a', 'b'], ['a', 'b', 'c'], ['a', 'é', 'b.c', 'x-1'], ['a', 'A', 'b', 'B'], ['a', 'b', 'c', 'd', 'e', 'f'], ['a', 'ab', 'aba', 'b']])
        x = gen.doc(rng, depth=rng.randint(1, 5), fan=3, names=names, xmlsafe=True).strip()
        if rng.random() < .15: x = chain(rng, names)
        if len(x) > 3000: continue
        ps = [rpat(rng, names) for _ in range(rng.choice([1, 1, 2, 3, 4, rng.randint(5, 12)]))]
        if rng.random() < .1: ps.append(ps[0])
        add(x, ps)
    deep = '<a>' * 40 + '<b>x</b>' + '</a>' * 40
    wide = '<a>' + '<b i="1">x</b><c></c>' * 60 + '</a>'
    for x in (deep, wide):
        for p in ([('**', 'b')], [('a', 'b'), ('a', 'c')], [('**', 'a'), ('**', 'b'), ('*', '*')], [('**', 'a', '**', 'b')], [('*', '**', 'a', 'b')]):
            add(x, [[{'k': 'any', 'n': []} if s == '*' else {'k': 'deep', 'n': []} if s == '**' else {'k': 'name', 'n': [cps(s)]} for s in q] for q in p])
    # many levels, children, attributes
    for k in range(ctx.pick(12, 100)):
        names = rng.choice([['a', 'b'], ['a', 'b', 'c']])
        x = gen.tomx(gen.bigtree(rng, names, ctx.pick(400, 900), kind=['deep', 'wide', 'attrs', 'long', 'deep', 'bush'][k % 6], plain=True))
        ps = [[{'k': 'deep', 'n': []}, {'k': 'name', 'n': [cps(rng.choice(names))]}]] if rng.random() < .6 else []
        while len(ps) < rng.choice([1, 2, 3]): ps.append(rpat(rng, names, 4))
        add(x, ps)
    # long texts and values, many attributes and elements: more than fits into any buffer
    for n in ctx.pick((300, 1500, 5000), (300, 1500, 5000, 9000, 20000)):
        for x in ('<a><b>' + 'xy' * n + '</b><b i="' + 'z' * n + '"></b></a>', '<a>' + ' ' * n + '<b' + ''.join(' a%d="1"' % k for k in range(n // 30)) + '>x</b>' + 'y&amp;' * (n // 5) + '<b>x</b></a>'):
            for p in ([('a', 'b')], [('**', 'b'), ('a',)]):
                add(x, [[{'k': 'deep', 'n': []} if s == '**' else {'k': 'name', 'n': [cps(s)]} for s in q] for q in p])
    ctx.check('drv_pattern', 'TrPattern', earlier(rng, cases), 'random documents and patterns', stack='256m', heap='6g')
    cases.clear()
    for _ in range(ctx.pick(400, 4000)):
        x = html.random_doc(rng)
        names = ['html', 'body', 'p', 'b', 'div', 'table', 'td', 'a', 'i']
        ps = [rng.choice([rpat(rng, names), [{'k': 'deep', 'n': []}, {'k': 'name', 'n': [cps(rng.choice(names[2:]))]}], [{'k': 'name', 'n': [cps('html')]}, {'k': 'name', 'n': [cps('body')]}, {'k': 'any', 'n': []}]]) for _ in range(rng.choice([1, 1, 2, 3]))]
        cases.append({'x': cps(x), 'pats': ps, 'kind': 'html', 'cuts': [], 'prompt': False, 'primed': rng.random() < .15, 'single': rng.random() < .6,
                      'modes': [rng.choice(['keep', 'adopt', 'disturb', 'detach']) for _ in ps], 'ns': False})
    ctx.check('drv_pattern', 'TrPattern', earlier(rng, cases), 'HTML documents')
