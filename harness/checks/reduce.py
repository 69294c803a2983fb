'''P09: XML reduced to MicroXML'''
from .. import gen
from .pattern import rpat
from .write import XNAMES

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxItems = %d
  MaxBad = 1
VIEW RView
INVARIANT InvNested
INVARIANT InvRead
INVARIANT InvTree
CHECK_DEADLOCK FALSE
'''
BAD = ['<<', '&;', '< >', '<1>', '&#0;', '&#xD800;', '</>', '<a b></a>', '<a b=c></a>', '<!-- -- -->', '<a b="1" b="2"></a>', '<a b="<"></a>', '<?xml?>', '&undef;', '<a:b:c/>', '\x01', '<zz:a/>', '<a zz:b=""/>', '<a b="1"c="2"/>', 'x]]>y']
UNENDED = ['<!DOCTYPE', '<![CDATA[', '<!--', '<a', '<?p', '&#1', '<a b="', '</a']   # malformed only once it is known that nothing follows


def cps(s): return [ord(c) for c in s]
def st(c): return ''.join(map(chr, c))


def q(p, n): return (st(p) + ':' if p else '') + st(n)


def esc(s, rng):
    s = s.replace('&', rng.choice(['&amp;', '&#38;', '&#x26;'])).replace('<', rng.choice(['&lt;', '&#60;']))
    if rng.random() < .5 or ']]>' in s: s = s.replace('>', '&gt;')
    return s


def escatt(s, rng):
    d = rng.choice('"\'')
    s = esc(s, rng).replace(d, '&quot;' if d == '"' else '&apos;').replace('\n', '&#10;').replace('\t', '&#9;')
    return d + s + d


def render(items, rng, ends):
    out = []
    for it in items:
        i, t = it['i'], st(it['t'])
        if i == 'start':
            parts = [('xmlns' + (':' + st(p) if p else ''), st(u)) for p, u in it['ns']]
            atts = [(q(p, n), st(v)) for p, n, v in it['a']]
            if rng.random() < .5: parts = parts + atts
            else: parts = atts + parts
            out.append('<' + q(it['p'], it['n']) + ''.join(rng.choice([' ', '\n', '  ']) + k + rng.choice(['=', '=', ' = ']) + escatt(v, rng) for k, v in parts)
                       + rng.choice(['', '', ' ']) + ('/>' if it['e'] else '>'))
        elif i == 'end': out.append('</' + q(it['p'], it['n']) + rng.choice(['', '', ' ']) + '>')
        elif i == 'text': out.append(esc(t, rng) if t.strip() else t)
        elif i == 'cdata': out.append('<![CDATA[' + t + ']]>')
        elif i == 'ref': out.append(''.join(rng.choice(['&#%d;' % ord(c), '&#x%x;' % ord(c), {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}.get(c, '&#%d;' % ord(c))]) for c in t))
        elif i == 'com': out.append(rng.choice(['<!---->', '<!-- x -->', '<!--<a>&-->']))
        elif i == 'pi': out.append(rng.choice(['<?p?>', '<?xml-stylesheet href="x"?>', '<?p <a> ?>']))
        elif i == 'decl': out.append(rng.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>", '<?xml version="1.0" standalone="yes"?>']))
        elif i == 'dtd':
            ents = ''.join('<!ENTITY %s "%s">' % (st(n), st(v).replace('&', '&#38;#38;').replace('<', '&#38;#60;').replace('"', '&#34;').replace('%', '&#37;')) for n, v in it['ent'])
            ents += ''.join('<!ATTLIST %s %s CDATA %s>' % (q(p, n), q(ap, an), escatt(st(v), rng)) for p, n, ap, an, v in it['att'])
            out.append('<!DOCTYPE a' + (' [' + ents + rng.choice(['', '<!-- c -->', '<!ELEMENT a ANY>']) + ']' if ents or rng.random() < .5 else '') + '>')
        elif i == 'ent': out.append('&' + st(it['n']) + ';')
        elif i == 'bad': out.append(rng.choice(UNENDED if ends and it is items[-1] and rng.random() < .5 else BAD))
    return ''.join(out)


def It(i, **kw):
    d = {'i': i, 'p': [], 'n': [], 'ns': [], 'a': [], 'e': False, 't': [], 'ent': [], 'att': []}
    d.update(kw)
    return d


TXT = ['x', ' ', '\n', 'hello', '<', '&', '>', ']]>', '"', "'", 'é\u20ac', '\U0001F600', 'a b', '\t', '  \n  ', '&amp;', '<!--', '42', '\xa0', '\x85\u2028', '\u3000', '\x7f\u200b\ufdd0', '\U0010fffd\ufffd']
DNAMES = ['d', 'd.1', '\xeed', 'D']
URIS = ['urn:x', 'urn:y', 'http://e.org/?a=1&b=2', 'é', 'http://e.org/#', 'urn:a\xa0b', 'urn:\u3000']


def rdoc(rng, depth=4, fan=4):
    items = []
    ents = []

    def misc():
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            items.append(rng.choice([It('com'), It('pi'), It('text', t=cps(rng.choice([' ', '\n', '\t \n'])))]))

    def txt(): return cps(''.join(rng.choice(TXT) for _ in range(rng.randint(1, 3))))

    def content():
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.random()
            if k < .45: items.append(It('text', t=txt()))
            elif k < .6:
                t = txt()
                while st(t).find(']]>') >= 0: t = txt()
                items.append(It('cdata', t=t))
            elif k < .75: items.append(It('ref', t=cps(rng.choice(['<', '&', 'A', '\n', '\u20ac', '\r', '"', '\U0001F600']))))
            elif k < .85: items.append(It(rng.choice(['com', 'pi'])))
            elif ents: items.append(It('ent', n=rng.choice(ents)[0]))

    def el(d, scope, top=False):
        ns = []
        for p in rng.sample(['', 'x', 'y', 'a'], rng.choice([0, 0, 1, 1, 2] if not top else [0, 1, 2, 3])):
            ns.append([cps(p), cps(rng.choice(URIS + ([''] if p == '' else [])))])
        scope = dict(scope)
        for p, u in ns: scope[st(p)] = st(u)
        pre = rng.choice([p for p in scope] + [''])
        name = rng.choice(XNAMES)
        a = []
        for n in rng.sample(XNAMES, rng.choice([0, 0, 1, 2, 3])):
            p = rng.choice([''] * 3 + [p for p in scope] + ['xml'])
            a.append([cps(p), cps(n), cps(''.join(rng.choice(TXT) for _ in range(rng.randint(0, 2))))])
        e = rng.random() < (.2 if not top else .05)
        items.append(It('start', p=cps(pre), n=cps(name), ns=ns, a=a, e=e))
        if e: return
        content()
        if d:
            for _ in range(rng.randint(0, fan)):
                el(d - 1, scope)
                content()
        items.append(It('end', p=cps(pre), n=cps(name)))
    if rng.random() < .3: items.append(It('decl'))
    misc()
    if rng.random() < .3:
        ents += [[cps(n), cps(rng.choice(['v', 'a<b', '&', '', 'two words']))] for n in rng.sample(['e', 'f', 'gg'], rng.randint(0, 3))]
        atts = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            atts.append([cps(rng.choice(['', '', 'x'])), cps(rng.choice(XNAMES)), cps(rng.choice(['', '', '', 'xml'])), cps(rng.choice(DNAMES)), cps(''.join(rng.choice(TXT) for _ in range(rng.randint(0, 2))))])
        # Which of two attributes counts that have but the local name in common is not specified
        atts = [a for j, a in enumerate(atts) if not any(a[:2] == b[:2] and a[2] != b[2] and a[3] == b[3] for b in atts)]
        items.append(It('dtd', ent=ents, att=atts))
        misc()
    el(depth, {}, True)
    misc()
    return items


def big_doc(rng, most, kind):
    '''A document with much of something, with namespaces'''
    items = []
    pre = ['', 'x', 'y']

    def start(p, n, ns=(), a=(), e=False): items.append(It('start', p=cps(p), n=cps(n), ns=[[cps(q), cps(u)] for q, u in ns], a=[[cps(q), cps(m), cps(v)] for q, m, v in a], e=e))
    def end(p, n): items.append(It('end', p=cps(p), n=cps(n)))
    start('', 'r', [('x', 'urn:x'), ('y', 'urn:y')], [('x', 'i', '1')])
    if kind == 'wide':
        for _ in range(rng.randint(most // 2, most)):
            if items[-1]['i'] != 'text' and rng.random() < .2: items.append(It('text', t=cps(rng.choice(TXT))))
            elif rng.random() < .1: items.append(It('com'))
            else: start(rng.choice(pre), rng.choice(XNAMES), e=True)
    elif kind == 'deep':
        open_ = []
        for d in range(rng.randint(35, 130)):
            p, n = rng.choice(pre), rng.choice(XNAMES[:6])
            ns = [(rng.choice(['z', 'x']), 'urn:%d' % d)] if rng.random() < .3 else []
            start(p, n, ns)
            open_.append((p, n))
            if rng.random() < .2: items.append(It('text', t=cps(rng.choice(TXT))))
        for p, n in reversed(open_): end(p, n)
    elif kind == 'attrs':
        for _ in range(rng.choice([1, 2])):
            at = [(rng.choice(pre), 'a%d' % k, rng.choice(TXT)) for k in range(rng.choice([17, 33, 70, 130]))]
            start('x', 'b', (), at, e=True)
    elif kind == 'names':
        for k in range(rng.choice([20, 40, 70])): start('p%d' % k, 'e%d' % k, [('p%d' % k, 'urn:%d' % k)], [('p%d' % k, 'a%d' % k, '1')], e=True)
        start('', 'b', [('q%d' % k, 'urn:q%d' % k) for k in range(rng.choice([17, 40]))], e=True)
    elif kind == 'texts':
        for k in range(most // 2): items.append(rng.choice([It('text', t=cps(rng.choice(['a', '\n', '&', ' ']))), It('cdata', t=cps('<')), It('ref', t=cps('A')), It('com')]))
    else:
        def edge(): return rng.choice(['\n', '\n', ' ', '\t', 'x', '<', '\xa0', ''])
        for n in (70, 140, rng.choice([300, 1100])):
            start('x', 'n' * min(n, 300), (), [('y', 'b' * min(n, 300), edge() + 'v<' * n + edge()), ('', 'c', edge() + 'v' * n + edge())])
            items.append(It('text', t=cps(edge() + 'word & ' * n + edge())))
            items.append(It('com'))
            items.append(It('cdata', t=cps('<a>' * n + edge())))
            end('x', 'n' * min(n, 300))
    end('', 'r')
    return items


def damage(rng, items):
    items = list(items)
    k = rng.randint(0, 6)
    n = len(items)
    i = rng.randint(0, n)
    if k == 0: return items[:i]
    if k == 1: items.insert(i, It('bad'))
    elif k == 2 and n: del items[rng.randrange(n)]
    elif k == 3:
        e = [j for j in range(n) if items[j]['i'] == 'end']
        if e:
            j = rng.choice(e)
            items[j] = dict(items[j], n=cps('zz')) if rng.random() < .5 else dict(items[j], p=cps('zz'))
    elif k == 4: items.append(rng.choice([It('text', t=cps('x')), It('start', n=cps('a'), e=True), It('cdata', t=cps(' ')), It('end', n=cps('a')), It('ref', t=cps(' '))]))
    elif k == 5:
        e = [j for j in range(n) if items[j]['i'] == 'start']
        if e:
            j = rng.choice(e)
            items[j] = dict(items[j], a=items[j]['a'] + [[cps('undecl'), cps('q'), []]])
    elif k == 6 and n:
        i, j = rng.randrange(n), rng.randrange(n)
        items[i], items[j] = items[j], items[i]
    return items


def run(ctx):
    rng = ctx.rng
    m = ctx.pick(5, 6)
    scs = ctx.scenarios('MCReduce', MC % m, heap='6g')
    ctx.bounds['specification'] = f'all documents of up to {m} items of 21 kinds, with namespace scopes'
    total = len(scs)
    want = ctx.pick(3000, 40000)
    if total > want:
        good = [s for s in scs if s[-1]['i'] in ('end', 'start')]
        scs = rng.sample(scs, want // 2) + rng.sample(good, min(len(good), want // 2))
    ctx.bounds['scenarios'] = f'{len(scs)} of {total}'

    def entry(items):
        ep = rng.choice(['tb', 'tb', 'ev', 'file', 'feed'])
        x = render(items, rng, ep in ('tb', 'file'))
        names = [st(it['n']) for it in items if it['i'] == 'start'] or ['a']
        cuts = sorted(rng.randint(0, 1000) for _ in range(rng.choice([0, 1, 3, 20, 300])))
        return {'items': items, 'x': x, 'ep': ep, 'b': rng.randint(1, 2), 'pat': rpat(rng, names, 3), 'ns': rng.random() < .4, 'cuts': cuts, 'bytes': rng.random() < .4}
    cases, k = [], 0
    while k < len(scs):
        n = rng.choice([1, 2, 3])
        cases.append([entry(s) for s in scs[k:k + n]])
        k += n
    ctx.check('drv_reduce', 'TrReduce', cases, 'documents of the specification')
    cases = []
    for _ in range(ctx.pick(700, 8000)):
        c = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            items = rdoc(rng, depth=rng.randint(0, 4), fan=rng.randint(1, 4))
            if rng.random() < .25: items = damage(rng, items)
            if len(items) < 400: c.append(entry(items))
        if c: cases.append(c)
    big = [It('start', n=cps('a'))] + [It('text', t=cps('x' * 3000 + '\n' * 3 + 'é' * 2000)), It('start', n=cps('b')), It('text', t=cps('line\n' * 20)), It('end', n=cps('b'))] * 2 + [It('end', n=cps('a'))]
    cases.append([dict(entry(big), ep=ep) for ep in ('tb', 'ev', 'file', 'feed')])
    for k in range(ctx.pick(12, 120)):
        items = big_doc(rng, ctx.pick(260, 700), ['wide', 'deep', 'attrs', 'long', 'names', 'texts'][k % 6])
        cases.append([entry(items)])
    ctx.check('drv_reduce', 'TrReduce', cases, 'random documents', stack='256m', heap='6g')
