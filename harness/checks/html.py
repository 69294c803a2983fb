'''P16: HTML parsing'''
import itertools
from .. import gen

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxElems = %(e)d
  MaxOthers = %(t)d
  MaxOps = %(o)d
VIEW MCView
INVARIANT InvConsistent
INVARIANT InvText
INVARIANT InvNested
CHECK_DEADLOCK FALSE
'''

# what moves content around
CORE = ['<b>', '</b>', '<a href=u>', '</a>', '<p>', '</p>', '<div>', '</div>', '<table>', '</table>', '<tr>', '<td>', '</td>', 'x', ' ', '<!--c-->', '<i id=1>', '</i>', '<svg>', '</svg>', '<q:r>', '</q:r>',
        '<body k=1>', '<html l=2>', '<form>', '<select>', '<option>', '<li>']
MORE = CORE + ['<ul>', '</ul>', '<ol>', '</li>', '<dd>', '<dt>', '<math>', '</math>', '<mi>', '<br>', '</br>', '<hr/>', '<img src="a&amp;b" alt=>', '<!DOCTYPE html>', '<!DOCTYPE x PUBLIC "p" "s">',
               '<head>', '</head>', '<title>', '</title>', '<nobr>', '</nobr>', '<button>', '</button>', '<caption>', '<frameset>', '<frame>', '<script>', '</script>', '<style>', '</style>', '<font color=r>', '</font>',
               '<applet>', '</applet>', '<marquee>', '</select>', '<optgroup>', '</form>', '<textarea>', '</textarea>', '<pre>', '</pre>', '\n', '<tbody>', '</tbody>', '<thead>', '<col>', '<colgroup>', '<th>', '</tr>',
               '<em class="a b">', '</em>', '<b id=1>', '<b id=2>', '<foreignObject>', '<desc>', '<svg:rect>', '<g xlink:href=a viewBox="1" q:a=2>', '<math definitionurl=q>', '<annotation-xml encoding="text/html">',
               '<p xml:lang=en>', '<rect xml:lang="en" xlink:title=t/>', '<b xmlns:q="u">', '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">', '<![CDATA[x<b>]]>', '<h1>', '</h1>', '<h2>',
               '<input type=hidden>', '<input>', '<isindex prompt=p>', '<plaintext>', '<noscript>', '</noscript>', '<iframe>', '</iframe>', '<ruby>', '<rp>', '<rt>', '<image>', '</body>', '</html>', '</p x=1>', '<?pi x?>',
               '<!-->', '<!bogus>', '</>', '<>', '< a>', '<a b c="d\' e=\'f>', '<a"b>', '<a<b>', '<1>', '<q:>', '<a:b:c d:e=f>', '</a:b:c>', '<meta charset=utf-8>', '<base>', '<link>', '<wbr>', '<xmp>', '</xmp>', '<listing>', '\n<center>',
               '&lt;', '&amp', '&nbsp;', '&#65;', '&#13;', '&#0;', '&#x80;', '&bogus;', 'é', '☃', '\U0001f600', '\0', '\f', '\t', 'x y', 'a&b', '<strong>', '</strong>', '<u>', '</u>', '<tt>', '<code>', '<small>']


def cps(s): return [ord(c) for c in s]


def random_doc(rng):
    k = rng.random()
    toks = CORE if k < .4 else MORE
    few = rng.sample(toks, min(len(toks), rng.choice([4, 6, 10, 40])))
    return ''.join(rng.choice(few) for _ in range(rng.choice([2, 4, 6, 8, 12, 20, 30])))


def lax_doc(rng):
    'XML-like text, more or less well-formed'
    names = ['a1', 'b1', 'feed', 'x-y', 'entry', 'q:r', 'i', 'p', 'table', 'item']
    out = []

    def el(d):
        n = rng.choice(names)
        out.append('<' + n + ''.join(rng.choice([' i="1"', " j='<&amp;'", ' k=v', ' q:z="2"']) for _ in range(rng.choice([0, 0, 1, 2]))) + '>')
        for _ in range(rng.choice([0, 1, 2, 3]) if d < 4 else 0):
            if rng.random() < .5: out.append(rng.choice(['x', ' ', '&lt;', '<!--c-->', 'a&b', '\n ']))
            else: el(d + 1)
        if rng.random() < .8: out.append(f'</{n}>')
    if rng.random() < .2: out.append(rng.choice(['<!--c-->', ' ', '<!DOCTYPE x>']))
    el(0)
    if rng.random() < .3: out.append(rng.choice(['x', '<b1></b1>', ' ']))
    return ''.join(out)


def large_doc(rng):
    '''Much of something'''
    k = rng.randint(0, 6)
    n = rng.choice([20, 40, 70])
    f = rng.choice(['<b>', '<i id=1>', '<a href=u>', '<font color=r>'])
    if k == 0: return rng.choice(['<div>', '<b>', '<p><div>', '<svg>', '<ul><li>']) * n + 'x' + rng.choice(['', '</div>' * n, '</b>' * n, '</p>x'])
    if k == 1: return rng.choice(['<ul>', '<table>', '<div>', '']) + ''.join(rng.choice(['<li>', '<p>', 'x', '<b>', '</b>', '<br>', '<td>', '<!--c-->', '</p>', ' ']) for _ in range(2 * n))
    if k == 2: return '<p' + ''.join(' a%d="%d"' % (k, k) for k in range(n)) + '>x' + '<b' + ''.join(' b%d' % k for k in range(n // 2)) + '>y'
    if k == 3: return f * rng.choice([2, 4, 5, 9]) + '<p>x' + '</b></i></a></font>' * rng.choice([1, 3]) + 'y<p>z'
    if k == 4: return '<table>' + ''.join(rng.choice(['x', ' ', '<b>', '</b>', '<tr>', '<td>', '</td>', '</tr>']) for _ in range(n))
    if k == 5: return '<p title="' + 'v&amp;' * n * 5 + '">' + 'text &lt; ' * n * 5 + '<!--' + 'c' * n * 5 + '--><' + 'n' * n + '>x'
    return ''.join('<' + rng.choice(['html', 'body']) + ' a%d=%d>' % (j, j) for j in range(n // 2)) + 'x'


def run(ctx):
    rng = ctx.rng
    b = ctx.pick({'e': 3, 't': 2, 'o': 7}, {'e': 4, 't': 2, 'o': 7})
    scs = ctx.scenarios('MCHtml', MC % b, heap='6g')
    ctx.bounds['specification'] = f'all documents reachable with {b["e"]} elements, {b["t"]} texts or comments and {b["o"]} operations'
    total = len(scs)
    want = ctx.pick(3000, 16000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total} (document, operation) pairs'
    ctx.check('drv_html', 'TrHtml', [{'ops': s} for s in scs], 'operations on documents of the specification')

    docs = [''.join(t) for n in (1, 2, 3) for t in itertools.product(CORE, repeat=n)]
    ctx.bounds['texts'] = f'all of {len(docs)} texts of up to 3 of {len(CORE)} pieces' if ctx.thorough else f'1500 of {len(docs)} texts of up to 3 of {len(CORE)} pieces'
    if not ctx.thorough: docs = rng.sample(docs, 1500)
    cases = [{'x': cps(d), 'form': 'str', 'ways': ['top', 'frag', 'lax']} for d in docs]
    ctx.check('drv_html', 'TrHtml', cases, 'short texts')
    cases = []
    for _ in range(ctx.pick(2500, 12000)):
        ways = [rng.choice(['top', 'top', 'ns']), rng.choice(['frag', 'lax'])]
        cases.append({'x': cps(random_doc(rng)), 'form': rng.choice(['str', 'str', 'str', 'file']), 'ways': ways})
    for _ in range(ctx.pick(40, 500)): cases.append({'x': cps(large_doc(rng)), 'form': rng.choice(['str', 'file']), 'ways': ['top', rng.choice(['frag', 'lax'])]})
    for _ in range(ctx.pick(200, 2000)):
        d = '<meta charset="utf-8">' + random_doc(rng)
        cases.append({'x': cps(d), 'form': rng.choice(['bytes', 'bom', 'bfile']), 'ways': ['top', 'frag']})
    for _ in range(ctx.pick(500, 5000)):
        cases.append({'x': cps(lax_doc(rng)), 'form': 'str', 'ways': ['lax', 'top']})
    ctx.check('drv_html', 'TrHtml', cases, 'random texts', stack='256m')
