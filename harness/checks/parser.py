'''P01, P02, P03: the MicroXML parser'''
from .. import gen

MC = '''SPECIFICATION Spec
CONSTANTS
  Alphabet = {%(alpha)s}
  MaxLen = %(maxlen)d
  MaxDepth = 2
  MaxRef = 4
  Emit = TRUE
  Abstract = TRUE
VIEW AbsView
INVARIANT InvType
INVARIANT InvNested
INVARIANT InvText
INVARIANT InvRoot
INVARIANT InvComplete
INVARIANT InvSplit
CHECK_DEADLOCK FALSE
'''
TAGS = '''SPECIFICATION Spec
CONSTANTS
  MaxLen = %d
  MaxDepth = 2
INVARIANT InvNested
INVARIANT InvText
INVARIANT InvRoot
INVARIANT InvState
INVARIANT InvDoc
CHECK_DEADLOCK FALSE
'''
ALPHA = '60, 62, 47, 108, 116, 32, 61, 34, 39, 38, 59, 35, 120, 57, 13'


def cps(s):
    return [ord(c) for c in s]


def rcuts(rng, n, k=1):
    return sorted(rng.randint(0, n) for _ in range(k))


def case(rng, s, cuts=None, ends=True):
    n = len(s)
    return {'x': cps(s), 'ends': ends,
            'cuts': cuts if cuts is not None else
            [['chars', False], [rcuts(rng, n, 1), False], [rcuts(rng, n, 3), True], ['empties', rng.random() < .5]]}


def charcases(c, pid):
    '''Character c in every context where there is a rule about it'''
    ch = chr(c)
    docs = ['<a>x' + ch + 'y</a>', '<a b="' + ch + '"></a>', "<a b='" + ch + "'></a>", '<' + ch + '></' + ch + '>', '<a' + ch + '></a' + ch + '>',
            '<a ' + ch + '="1"></a>', '<a b' + ch + '="1"></a>', '<a>&#x%x;</a>' % c, '<a b="&#%d;"></a>' % c, '<a>&' + ch + ';</a>', '<a>&#x' + ch + ';</a>', '<a>&#' + ch + ';</a>',
            '<a>&l' + ch + 't;</a>', ch + '<a></a>', '<a></a>' + ch, '<a></a' + ch, '<a b' + ch + "'1'></a>", '<a b=' + ch + '1"></a>', '<a b="1"' + ch + '></a>', '<a b="1"' + ch + 'c="2"></a>']
    return docs


def longdocs(rng, some):
    '''Documents with something long in them: texts, values, names, white space in each place, references'''
    makers = [lambda n: '<a>' + 'xy z' * (n // 4) + '</a>', lambda n: '<a>' + 'x' * n + '<b></b>' + 'y' * n + '&lt;</a>',
              lambda n: '<a b="' + "x'" * (n // 2) + '" c="1">t</a>', lambda n: '<' + 'n' * n + '>t</' + 'n' * n + '>',
              lambda n: '<a ' + 'n' * n + '="1">t</a>', lambda n: '<a' + ' ' * n + 'b="1">t</a' + '\n' * n + '>',
              lambda n: '<a b' + ' ' * n + '=' + '\t' * n + '"1">t</a>', lambda n: ' ' * n + '<a>t</a>' + '\n' * n,
              lambda n: '<a>' + '&#65;' * (n // 5) + '</a>', lambda n: '<a>&#' + '0' * n + '65;</a>',
              lambda n: '<a' + ''.join(' a%d="1"' % k for k in range(n // 9)) + '>t</a>', lambda n: '<a>' + 'é\U0001f600' * (n // 2) + '</a>']
    for m in makers:
        for size in (250, 700, 1500, rng.choice([3000, 4500])) * some:
            yield m(size + rng.randint(0, 90))


def run(ctx):
    rng = ctx.rng
    maxlen = ctx.pick(11, 17)
    scs = ctx.scenarios('MCParser', MC % {'alpha': ALPHA, 'maxlen': maxlen}, heap='4g')
    ctx.bounds['specification'] = f'all texts of up to {maxlen} characters over 15 characters up to the abstraction of MCParser, at most 2 open elements'
    total = len(scs)
    want = ctx.pick(2500, 40000)
    if len(scs) > want:
        # all short ones, a sample of the rest
        short = [s for s in scs if len(s['t']) <= 5]
        rest = [s for s in scs if len(s['t']) > 5]
        scs = short[:want // 2] + rng.sample(rest, want - min(len(short), want // 2))
    ctx.bounds['scenarios'] = f'{len(scs)} of the {total} abstract transitions'
    cases = []
    for s in scs:
        t, c = s['t'], s['c']
        n, m = len(t), len(t) + len(c)
        # cut just before and just after the last step, and everywhere
        cases.append({'x': t + c, 'cuts': [[[n - 1, n], False], ['chars', True]], 'ends': True})
        if c and ctx.prop != 'P02':
            cases.append({'x': t, 'cuts': [['chars', False]], 'ends': True})
    ctx.check('drv_parser', 'TrParser', cases, 'transitions of the specification')

    cases = []
    n = ctx.pick(500, 6000)
    for _ in range(n):
        d = gen.doc(rng, depth=rng.randint(0, 4))
        cases.append(case(rng, d))
        if ctx.prop != 'P02':
            cases.append(case(rng, gen.mutate(rng, d)))
            cases.append(case(rng, gen.mutate(rng, gen.doc(rng, depth=1, names=['a', 'b']))))
            cases.append(case(rng, gen.soup(rng)))
        else:
            cases.append(case(rng, gen.doc(rng, depth=2, fan=5)))
    for d in ['<a' + ' b' * 0 + '>' + '<b>' * 200 + 'x' + '</b>' * 200 + '</a>', '<a>' + 'xyz &amp; ' * 300 + '</a>', '<a b="' + '&#10;' * 200 + '"></a>',
              '<' + 'n' * 1000 + '></' + 'n' * 1000 + '>', '<a>' + '<b></b>' * 300 + '</a>']:
        cases.append(case(rng, d, cuts=[['chars', False], [rcuts(rng, len(d), 5), False]]))
    for k in range(ctx.pick(6, 60)):
        d = gen.tomx(gen.bigtree(rng, ['a', 'b'], 400, kind=['attrs', 'wide', 'deep', 'attrs', 'bush', 'long'][k % 6]))
        cases.append(case(rng, d if rng.random() < .7 or ctx.prop == 'P02' else gen.mutate(rng, d), cuts=[[rcuts(rng, len(d), 4), False]]))
    for d in longdocs(rng, ctx.pick(1, 5)):
        n = len(d)
        cases.append(case(rng, d, cuts=[[rcuts(rng, n, 1), False], [rcuts(rng, n, 2), False], [rcuts(rng, n, 6), False],
                                        [list(range(512, n, 512)), False], [[max(0, n - 9), max(0, n - 1)], False]]))
    if ctx.prop == 'P01':
        # something long, then a piece which is cut at every position
        for k in range(ctx.pick(24, 240)):
            some = rng.choice(['x', 'x ', '&lt;', '\n', 'é', '&#65;', '\r']) * rng.choice([20, 40, 70, 140, 260])
            piece = rng.choice(['&#x%s41;' % ('0' * 12), '&#%s65;' % ('0' * 9), '&quot;', '\r\n', '<b  c = "&#65;d" ></b>', '<b></b\n>', '&amp;&amp;'])
            d, tail = ('<a>' + some, piece + 'y</a>') if rng.random() < .6 or '<' in piece else ("<a b='" + some, piece + "y'>z</a>")
            cases.append({'x': cps(d + tail), 'ends': False, 'cuts': [[[len(d) + j], False] for j in range(-1, len(tail))] + [['chars', False]]})
    if ctx.prop == 'P03':
        base = '<?<!<a b="1">x&lt;y<c></c></a> '
        for d in [gen.doc(rng, depth=2, names=['a', 'b']) for _ in range(ctx.pick(6, 60))]:
            for k in range(len(d)):
                cases.append(case(rng, d[:k], cuts=[]))
        for d in gen.BADREFS:
            for pat in ['<a>%s</a>', '<a>x%sy</a>', '<a b="%s"></a>', "<a b='x%sy'>z</a>", '<a>%s', '<a b="%s']:
                cases.append(case(rng, pat % d))
        cases.append(case(rng, '< a></ a>'))
    if ctx.prop != 'P02':
        # Documents after one edit of a token
        m = ctx.pick(6, 7)
        scs = sorted({tuple(s['t']) for s in ctx.scenarios('MCTags', TAGS % m, heap='6g')})
        total = len(scs)
        want = ctx.pick(6000 if ctx.prop == 'P03' else 1200, 120000 if ctx.prop == 'P03' else 15000)
        if total > want: scs = rng.sample(scs, want)
        ctx.bounds['edits'] = f'{len(scs)} of all {total} results of one edit of a token in a document of up to {m} tokens'
        ctx.check('drv_parser', 'TrParser', [{'x': list(t), 'ends': True, 'cuts': [['chars', k % 2 == 0]] if ctx.prop == 'P01' or k % 8 == 0 else []} for k, t in enumerate(scs)],
                  'documents after one edit of a token')
    if ctx.prop == 'P01' and True:
        # every way of cutting some documents in three
        for d in ['<a b="x&#65;" c=\'&lt;\'>t&amp;u<b></b> </a>\n', ' <é x = "&quot;" >\r\n</é > '] + [gen.doc(rng, depth=1) for _ in range(ctx.pick(2, 40))]:
            n = len(d)
            if n > 120: continue
            pairs = [(i, j) for i in range(n + 1) for j in range(i, n + 1)]
            lim = ctx.pick(400, 4000)
            if len(pairs) > lim: pairs = rng.sample(pairs, lim)
            for k in range(0, len(pairs), 40):
                cases.append({'x': cps(d), 'ends': False, 'cuts': [[list(p), False] for p in pairs[k:k + 40]]})
    ctx.check('drv_parser', 'TrParser', cases, 'random documents, damaged documents and noise')

    if ctx.prop in ('P02', 'P03'):
        cases = []
        for c in gen.boundaries():
            for d in charcases(c, ctx.prop):
                cases.append(case(rng, d, cuts=[]))
        if ctx.prop == 'P03' and not ctx.thorough:
            cases = rng.sample(cases, 4000)
        elif not ctx.thorough:
            cases = rng.sample(cases, 5000)
        ctx.check('drv_parser', 'TrParser', cases, 'characters at class boundaries in every context')
        if ctx.thorough:
            everychar(ctx)


def everychar(ctx):
    '''Every code point, in text, attribute value, element name and reference'''
    step = 1
    cases = []
    for base in range(0, 0x110000, 64):
        block = range(base, min(base + 64, 0x110000))
        # all at once, if they are all allowed; and with rejection one by one only at the boundaries
        for pat in (lambda s: '<a>' + s + '</a>', lambda s: '<a b="' + s + '"></a>', lambda s: '<a' + s + '></a' + s + '>',
                    lambda s: '<a>' + ''.join('&#x%x;' % ord(c) for c in s) + '</a>'):
            cases.append({'x': cps(pat(''.join(map(chr, block)))), 'cuts': [], 'ends': False})
        # as beginning of a name, one by one
        for c in block[::16]:
            cases.append({'x': cps('<' + chr(c) + '></' + chr(c) + '>'), 'cuts': [], 'ends': False})
    ctx.check('drv_parser', 'TrParser', cases, 'all code points in blocks of 64', batch=30000)
    ctx.bounds['characters'] = 'every code point, in blocks of 64 (a block with a character which is not allowed is rejected as a whole)'
