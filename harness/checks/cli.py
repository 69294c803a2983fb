'''P17: the command line tool'''
from .path import Exprs, X, cps, size
from .html import lax_doc, random_doc
from .. import xprender

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxSrcs = %d
INVARIANT InvSources
INVARIANT InvPartition
INVARIANT InvSelf
INVARIANT InvMatch
INVARIANT InvUnits
CHECK_DEADLOCK FALSE
'''

NONE = X('none')
WORDS = ['x', '1', 'xy', 'x y', '2', 'ab', '<', '&', "a'b", '\u00e9', '>', ' ', ' x', 'y ', 'X', 'a  b']


def rtree(rng, names, depth, fan):
    'A tree which XML can say, with no two texts next to each other'
    h = []

    def el(p, d):
        a = [[cps(n), cps(rng.choice(['1', '1', '2', '', 'a"b', '<&', 'x']))] for n in rng.sample(['i', 'j', 'ij'] + ([names[0]] if names[0] != 'i' else []), rng.choice([0, 0, 1, 2]))]
        h.append({'k': 'E', 'n': cps(rng.choice(names)), 'a': a, 't': [], 'p': p, 'c': []})
        me = len(h)
        if p: h[p - 1]['c'].append(me)
        text = False
        for _ in range(rng.randint(0, fan)):
            if not text and (rng.random() < .4 or d == 0):
                h.append({'k': 'T', 'n': [], 'a': [], 't': cps(rng.choice(WORDS)), 'p': me, 'c': []})
                h[me - 1]['c'].append(len(h))
                text = True
            elif d:
                el(me, d - 1)
                text = False
    el(0, depth)
    return h


def expr(rng, names, kinds):
    g = Exprs(rng, names, ['i', 'j', 'ij', 'a'], [])
    for _ in range(60):
        e = getattr(g, rng.choice(kinds))(rng.choice([0, 0, 1, 1, 2]))
        try: t = xprender.render(e, 0)
        except xprender.CantSay: continue
        if size(e) <= 12 and t.strip(): return e
    return X('self')


def way(rng, n, plain=False):
    w = {'first': rng.random() < .6}
    if rng.random() < .3: w['out'] = True
    if rng.random() < .2: w['url'] = rng.randrange(n)
    if not plain:
        if rng.random() < .3: w['decl'] = rng.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', '<!--c-->', '<!DOCTYPE a>'])
        if rng.random() < .3: w['tail'] = rng.choice(['\n', '<!--c-->', '<?p i?>'])
        if rng.random() < .2: w['enc'] = rng.choice(['iso-8859-1', 'us-ascii', 'utf-16', 'utf-8-sig'])
        if w.get('enc') == 'utf-16': w.pop('decl', None)
        if rng.random() < .04: w['broken'] = rng.randrange(n)
    if rng.random() < .2: w['names'] = ['doc-%d', '%d', 'a b%d.html'][:3] + ['s%d.xml'] * 6
    return w


def random_case(rng):
    names = rng.choice([['a', 'b', 'c'], ['a', 'b'], ['rec', 'name', 'x-y'], ['a', 'A', 'b']])
    n = rng.choice([1, 1, 1, 2, 3])
    srcs = []
    while len(srcs) < n:
        # Expressions can be of high cost on large trees
        s = rtree(rng, names, rng.choice([0, 1, 2, 3]), rng.choice([1, 2, 3, 4]))
        if len(s) <= 30: srcs.append(s)
    case = {'srcs': srcs, 'cmd': 'find', 'e': NONE, 'f': NONE, 'part': [], 'txt': [], 'atts': [], 'way': way(rng, n)}
    options(rng, case, names)
    if case['cmd'] == 'find' and rng.random() < .5:
        # many attributes, in any order
        for h in srcs:
            for nd in h:
                if nd['k'] == 'E' and rng.random() < .6:
                    nd['a'] = [[cps(a), cps(rng.choice(['1', '2', 'x', '', 'x y']))] for a in rng.sample(['i', 'j', 'ij', 'id', 'q', 'a'], rng.randint(2, 6))]
    return case


def options(rng, case, names):
    k = rng.random()
    if k < .2:
        case['txt'] = cps(rng.choice(['x', '1', 'y', '<', 'b', 'xy', 'zz', ' ', ' x', 'x ', 'X', '  ', 'x y']))
        case['atts'] = [cps(a) for a in rng.choice([[], [], ['i'], ['i', 'j'], ['j', 'q', 'i'], ['ij'], ['j', 'i'], rng.sample(['i', 'j', 'ij', 'id', 'q', 'a'], rng.randint(2, 6))])]
    else:
        case['cmd'] = rng.choice(['expr', 'expr', 'match'])
        case['e'] = expr(rng, names, ['nodes', 'nodes', 'nodes', 'any', 'bool', 'str', 'num'])
        if rng.random() < .45: case['f'] = expr(rng, names, ['nodes', 'nodes', 'any', 'bool', 'str', 'num'])
    if rng.random() < .35 and 'mode' not in case['way']: case['part'] = cps(rng.choice(names))
    return case


def html_case(rng):
    mode = rng.choice(['html', 'html', 'lax'])
    n = rng.choice([1, 1, 2])
    docs = [random_doc(rng) if mode == 'html' else lax_doc(rng) for _ in range(n)]
    docs = [d.replace('\0', '').replace('\f', ' ') for d in docs]
    case = {'srcs': [{'x': cps(d), 'mode': mode} for d in docs], 'cmd': 'find', 'e': NONE, 'f': NONE, 'part': [], 'txt': [], 'atts': [], 'way': dict(way(rng, n, True), mode=mode)}
    # What's retrieved is bytes, and nothing tells the encoding of these documents
    if 'url' in case['way'] and not all(d.isascii() for d in docs): del case['way']['url']
    return options(rng, case, ['b', 'p', 'i', 'table', 'body', 'a1'])


def run(ctx):
    rng = ctx.rng
    scs = ctx.scenarios('MCCli', MC % 2, heap='6g', workers=6)
    scs.sort(key=str)
    total = len(scs)
    ctx.bounds['specification'] = f'all {total} combinations of 1 or 2 of 3 documents with commands, for-each, partition and attributes to show from small sets'
    want = ctx.pick(1500, total)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total} invocations'
    for s in scs: s['way'] = way(rng, len(s['srcs']), rng.random() < .5)
    ctx.check('drv_cli', 'TrCli', scs, 'invocations of the specification')
    cases = [random_case(rng) for _ in range(ctx.pick(1200, 12000))]
    for _ in range(ctx.pick(20, 200)):
        c = random_case(rng)
        c.update(srcs=c['srcs'][:1], part=[], limit=rng.choice([1, 2]), cmd=rng.choice(['expr', 'match']), f=NONE, way={}, e=X('absd', a=[X('step', ax='child', nt='any')]))
        cases.append(c)
    ctx.check('drv_cli', 'TrCli', cases, 'random invocations', stack='256m')
    cases = [html_case(rng) for _ in range(ctx.pick(300, 3000))]
    ctx.check('drv_cli', 'TrCli', cases, 'random invocations on HTML and lax XML', stack='256m')
