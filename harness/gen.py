'''Seeded generators of documents and texts (as Python strings)'''

NAMES = ['a', 'b', 'c', 'aa', 'ab', 'b.c', 'x-1', '_z', 'é', 'À', 'Öd', '\u0370x', 'n\u00b7\u0300', '\U00010000q', 'item', 'B', 'a1']
TEXTS = ['x', 'hello world', ' ', '\n  ', 'é\u20ac', '\U0001F600', 'a\tb', "it's", '"q"', '1', '42', '3.5', '-', ']]', ';', '#x;', 'lt;', '=', '/', "/ '", '\xa0', 'ab', '  x  ', '0', 'A-_.']
REFS = {'&lt;': '<', '&gt;': '>', '&amp;': '&', '&quot;': '"', '&apos;': "'", '&#x41;': 'A', '&#65;': 'A', '&#x20AC;': '\u20ac', '&#x1F600;': '\U0001F600', '&#10;': '\n', '&#x9;': '\t', '&#xe9;': 'é', '&#x0a;': '\n', '&#00065;': 'A'}
# nearly every kind of badness
BADREFS = ['&', '&;', '&#;', '&#x;', '&foo;', '&lt', '&#x0;', '&#xD800;', '&#x110000;', '&#xFFFE;', '&#99999999999;', '& ', '&#xg;', '&#-1;', '&LT;', '&ltt;', '&l;', '&#x1', '&#X41;', '&#a;', '&amp', '&#128;', '&#x7F;', '&#13;', '&am p;', '&#x 41;', '&lt &gt;']
WS = [' ', '\n', '\t', '  ', ' \r\n ', '\r']


def text(rng):
    s = ''
    for _ in range(rng.randint(1, 3)):
        s += rng.choice(TEXTS) if rng.random() < .7 else rng.choice(list(REFS))
    return s


def attval(rng, xmlsafe=False):
    q = rng.choice('"\'')
    s = ''
    for _ in range(rng.randint(0, 3)):
        s += rng.choice(TEXTS).replace(q, '') if rng.random() < .65 else rng.choice(list(REFS))
    if rng.random() < .2: s += {'"': "'", "'": '"'}[q]
    if xmlsafe: s = s.replace('\n', ' ').replace('\t', ' ')      # XML would make them spaces
    return q + s + q


def ws(rng, p=.3):
    return rng.choice(WS) if rng.random() < p else ''


def doc(rng, depth=3, fan=3, names=NAMES, xmlsafe=False):
    '''A well-formed document made of the constructs of P02'''
    def el(d):
        n = rng.choice(names)
        s = '<' + n
        used = set()
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
            an = rng.choice(names)
            if an in used: continue
            used.add(an)
            s += rng.choice(WS) + an + ws(rng, .15) + '=' + ws(rng, .15) + attval(rng, xmlsafe)
        s += ws(rng, .15) + '>'
        if d > 0:
            for _ in range(rng.randint(0, fan)):
                if rng.random() < .5: s += text(rng)
                if rng.random() < .65: s += el(d - 1)
                if rng.random() < .1: s += '\r\n'
        elif rng.random() < .7:
            s += text(rng)
        return s + '</' + n + ws(rng, .1) + '>'
    return ws(rng) + el(depth) + ws(rng)


SOUP = list('<>/="\'&;#x ab\n!?-[]\r\t') + ['</', '<a>', '</a>', '<a ', "='", '="', '&lt;', '&#', '\ufeff', '\x00', '\x7f', '\ud800', '\ufffe', '\u2028', '\x0b', '\xa0', ':', 'x="1"', '0', '.', '-', '<!--', '-->', '<?', '<a/>']


def mutate(rng, s):
    '''A document with some damage'''
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        k = rng.randint(0, 7)
        if k == 0: s = s[:i]                                  # truncation
        elif k == 1: s = s[:i] + s[i + 1:]                    # deletion
        elif k == 2: s = s[:i] + rng.choice(SOUP) + s[i:]
        elif k == 3: s = s[:i] + rng.choice(SOUP) + s[i + 1:]
        elif k == 4: s = s[:i] + rng.choice(BADREFS) + s[i:]
        elif k == 5:
            j = rng.randint(0, len(s))
            s = s[:min(i, j)] + s[max(i, j):]
        elif k == 6: s = s + rng.choice(['x', '<a>', '</a>', '<b></b>', '&lt;', ' ', '<', s])
        else:
            # swap tags or quotes
            a, b = rng.choice([('"', "'"), ('</a>', '</b>'), ('=', ''), (' ', ''), ('>', ''), ('</', '<'), ('<', ''), (';', '')])
            p = s.find(a, i)
            if p >= 0: s = s[:p] + b + s[p + len(a):]
    return s


def soup(rng):
    return ''.join(rng.choice(SOUP) for _ in range(rng.randint(0, 12)))


def boundaries():
    '''Code points at, and next to, the boundaries of every character class of MicroXML and of what code might confuse them with'''
    edges = [0, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0xb7, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8,
             0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x2028, 0x203e, 0x203f, 0x2040, 0x2041,
             0x206f, 0x2070, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef, 0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xf8ff, 0xf900,
             0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfeff, 0xfffd, 0xfffe, 0xffff]
    for p in range(1, 17):
        edges += [p << 16, (p << 16) + 1, (p << 16) + 0xfffd, (p << 16) + 0xfffe, (p << 16) + 0xffff]
    edges += [0xeffff, 0xf0000]
    cs = set(range(0x21, 0x7f))
    for e in edges:
        for d in (-1, 0, 1):
            if 0 <= e + d <= 0x10ffff: cs.add(e + d)
    return sorted(cs)


# ---- things which are many, deep or long: more of them than any table, window, cache or short cut of the code might hold

def bigtree(rng, names, most=700, kind=None, plain=False):
    '''A tree of one dimension which is large, as nodes: many levels, many children, many attributes, or long texts, values and names'''
    h = []

    def el(p, n=None, a=()):
        h.append({'k': 'E', 'n': [ord(c) for c in n or rng.choice(names)], 'a': [[[ord(c) for c in x], [ord(c) for c in y]] for x, y in a], 't': [], 'p': p, 'c': []})
        return len(h)

    def tx(p, t=None): h.append({'k': 'T', 'n': [], 'a': [], 't': [ord(c) for c in (rng.choice(['x', '1', ' ', 'xx']) if t is None else t)], 'p': p, 'c': []})
    kind = kind or rng.choice(['deep', 'deep', 'wide', 'wide', 'attrs', 'long', 'bush'])
    most = max(most, 40)
    some = [('i', '1')]
    if kind == 'deep':
        p = el(0)
        for _ in range(rng.randint(35, min(most, 130))):
            if rng.random() < .2: tx(p)
            if rng.random() < .15: el(p)
            last, p = p, el(p, a=some if rng.random() < .2 else ())
            if rng.random() < .1: tx(last)
        tx(p)
    elif kind == 'wide':
        p = el(0)
        for _ in range(rng.choice([0, 0, 1, 2])): p = el(p)
        n, texts, was = rng.choice([rng.randint(min(130, most // 2), most), most]), rng.random(), False
        for _ in range(n):
            if not was and rng.random() < texts * .5: tx(p); was = True
            else: el(p, a=some if rng.random() < .3 else ()); was = False
    elif kind == 'bush':
        p = el(0)
        for _ in range(rng.randint(12, max(13, most // 12))):
            c = el(p, a=some if rng.random() < .5 else ())
            for _ in range(rng.randint(0, 9)):
                if h[-1]['k'] == 'T' or rng.random() < .6: el(c, a=some if rng.random() < .3 else ())
                else: tx(c)
    elif kind == 'attrs':
        p = el(0)
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([17, 33, 65, 70, 130, 260])
            at = [('a%d' % k, rng.choice(['', '1', 'x', '<', str(k)] if not plain else ['1', 'x'])) for k in range(n)]
            rng.shuffle(at)
            c = el(p, a=at + some)
            tx(c)
    else:
        n = rng.choice([40, 70, 130, 260, 520, 1100])
        p = el(0, a=[('i', rng.choice(['', ' ', 'x']) + 'v' * n + rng.choice(['', ' ', 'z'] if plain else ['', ' ', '\n', '\t'])), ('b' * min(n, 300), '1')])
        tx(p, rng.choice(['x', 'word ', '12', 'a\n', ' '] if plain else ['x', 'word ', '<', 'a\n', 'é', ' ', '\n ', '\U0001f600']) * n + rng.choice(['z', ' ', '\n']))
        if rng.random() < .5:
            el(p)
            tx(p, rng.choice([' ', '\n', '\t']) * n)
        c = el(p, rng.choice('ab') * min(n, 300))
        tx(c, 'x' * rng.choice([n, n - 1]))
        el(c, a=[('j', rng.choice(['"', "'", '&', ' ', 'y'] if not plain else ['y ']) * n)])
    for k, nd in enumerate(h):
        if nd['p']: h[nd['p'] - 1]['c'].append(k + 1)
    return h


def tomx(h):
    '''The text of a tree'''
    def st(c): return ''.join(map(chr, c)).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    out, todo = [], [1]
    while todo:
        k = todo.pop()
        if isinstance(k, str):
            out.append(k)
            continue
        nd = h[k - 1]
        if nd['k'] == 'T': out.append(st(nd['t']))
        else:
            out.append('<' + st(nd['n']) + ''.join(' ' + st(a) + '="' + st(v) + '"' for a, v in nd['a']) + '>')
            todo.append('</' + st(nd['n']) + '>')
            todo += reversed(nd['c'])
    return ''.join(out)
