'''P20: texts of MicroXPath expressions mean what the grammar says'''
import re
from .. import xprender
from .path import Exprs, Item, children, T, rvars, size, X
from .select import rtree

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxLen = %d
  Wide = %s
''' + '\n'.join('INVARIANT Inv' + i for i in 'Lex Show Parens Pred Args Dead Or N'.split()) + '\nCHECK_DEADLOCK FALSE\n'


START = 'A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff'
NAME = '[' + START + '][-.0-9\xb7\u0300-\u036f\u203f-\u2040' + START + ']*'


def cps(s): return [ord(c) for c in s]


def join(rng, toks):
    '''Tokens to a text: apart, or together (which may make others of them)'''
    k = rng.random()
    out = []
    for t in toks:
        if out:
            p, n = chr(out[-1]), chr(t[0])
            need = (p.isalnum() and (n.isalnum() or n in '.-')) or (p + n in ('//', '..', '!=', '<=', '>=', '::', '.5', '.1'))
            if k < .3 or (need and k < .8) or (k > .8 and rng.random() < .4): out += cps(rng.choice([' ', ' ', ' ', '\t', '\n', '  ', '\r']))
        out += t
    if rng.random() < .1: out = cps(rng.choice([' ', '\n'])) + out + cps(rng.choice(['', ' ']))
    return out


TREE = children([T('E', 'a', [('a', '1'), ('or', 'x')]), T('E', 'a', [('self', '')], p=1), T('T', t='1', p=2), T('E', 'or', [('a', 'a')], p=1),
                 T('E', 'and', p=4), T('T', t='a', p=5), T('E', 'div', p=4), T('E', 'text', p=1), T('E', 'a', p=8), T('T', t='2', p=9), T('E', 'self', p=1),
                 T('E', 'count', p=11), T('E', 'concat', p=1), T('T', t='.5', p=13), T('E', 'ancestor-or-self', p=1), T('E', 'attribute', p=15), T('T', t='b', p=1)])
EDGES = [0x40, 0x5b, 0x60, 0x7b, 0xb6, 0xb7, 0xb8, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x660, 0x661, 0x969, 0x1fff,
         0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x2028, 0x203e, 0x203f, 0x2040, 0x2041, 0x206f, 0x2070, 0x2071, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef, 0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf8ff,
         0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xff11, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7ce, 0x1f600, 0xeffff, 0xf0000, 0x10ffff]
WORDNAMES = ['a', 'or', 'and', 'div', 'mod', 'text', 'node', 'self', 'attribute', 'count', 'not', 'position', 'a.b', 'a-b', '_', '\xe9']
VARS = [[cps('a'), Item('S', 0, cps('1'))], [cps('or'), Item('N', 4)], [cps('self'), Item('F', 1000)], [cps('text'), Item('B', 1)]]
STARTS = [[{'ep': 'plain', 'i': 1}, {'ep': 'xml_xpath', 'i': 4}], [{'ep': 'xml_xpath', 'i': 1}, {'ep': 'plain', 'i': 9}], [{'ep': 'plain', 'i': 8, 'how': 'parsed'}, {'ep': 'qquery', 'i': 1}]]

NAMES = [['a', 'or', 'and', 'text'], ['a', 'a-b', 'a.b', 'b'], ['div', 'node', 'mod', 'a'], ['é', 'e\u0301', 'a\xb71', '\u3042'], ['a1', 'x-1', '_', 'a']]
CHARS = list('/.@()[]|=<>!-+*,$"\':1x ') + ['//', '..', '::', ' or ', ' and ', 'or', '[1]', '()', '\n', '\t', '\xa0', '#', '&', '{', '.5', '1.', 'text()', ' div ']


def rtext(rng, g):
    for _ in range(50):
        e = rng.choice([g.nodes, g.any, g.bool, g.str, g.num, g.pred])(rng.choice([0, 1, 1, 2, 3]))
        if size(e) > 16: continue
        try: s = xprender.render(e, rng.randint(0, 10 ** 6))
        except xprender.CantSay: continue
        break
    else: s = '.'
    k = rng.random()
    if k < .35: return s
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        p = rng.randint(0, len(s))
        w = rng.random()
        if w < .35: s = s[:p] + s[p + rng.choice([1, 1, 2, 5]):]
        elif w < .75: s = s[:p] + rng.choice(CHARS) + s[p:]
        elif w < .85: s = s[:p] + rng.choice(CHARS) + s[p + 1:]
        elif w < .95:
            q = rng.randint(0, len(s))
            s = s[:p] + s[min(p, q):max(p, q)][:12] + s[p:]
        else: s = s.replace(' ', rng.choice(['', '  ', '\n']), rng.choice([1, 9]))
    return s


def edge_case(rng, cs):
    '''Names and tokens around some characters'''
    def is_name(s): return bool(re.fullmatch(NAME, s))
    names = [n for c in cs for n in ('a' + c + 'b', c + 'b', 'b' + c, c) if is_name(n)] or ['a']
    h = [T('E', 'r', [(n, 'x') for n in rng.sample(names, min(2, len(names)))])]
    for n in rng.sample(names, min(6, len(names))): h.append(T('E', n, [], p=1))
    children(h)
    vs = [[cps(n), Item('F', 1000 * k)] for k, n in enumerate(rng.sample(names, min(2, len(names))) + rng.sample(WORDNAMES, 6))]
    vs = [v for k, v in enumerate(vs) if v[0] not in [w[0] for w in vs[:k]]]
    xs = []
    for c in cs:
        for f in ('%s', 'a%sb', '%sb', 'b%s', 'b%s%s', '@a%sb', '@%s', '$a%sb', '$b%s', '"%s"', "'x%s'", '1%s', '%s1', '1.%s', '.%s', 'a %s b', 'a/%s', 'a[%s]', 'b%s', 'self::%s', '%s::a', 'count(b%s)', '%s()', '../%s', '2 = 2%s'):
            if rng.random() < .7: xs.append(f.replace('%s', c))
    for n in WORDNAMES:
        for f in ('$%s', '%s', '@%s', 'r/%s', '%s/a', '%s::a', '$%s = 1', '$%s %s $%s', '%s %s %s', '%s()', '%s(a)', 'self::%s', '-%s', '(%s)', '$%s/a', '$%s[1]', '$ %s', 'a[%s]', '%s|%s'):
            if rng.random() < .12: xs.append(f.replace('%s', n))
    rng.shuffle(xs)
    return {'src': ['h', h], 'vs': vs, 'starts': [{'ep': rng.choice(['plain', 'xml_xpath', 'qquery']), 'i': rng.randint(1, len(h))}], 'xs': [cps(x) for x in xs]}


AXNAMES = ['ancestor', 'ancestor-or-self', 'attribute', 'child', 'descendant', 'descendant-or-self', 'following', 'following-sibling', 'parent', 'preceding', 'preceding-sibling', 'self']
FNAMES = ['count', 'not', 'string', 'number', 'boolean', 'concat', 'true', 'false', 'name', 'contains', 'starts-with', 'string-length', 'substring', 'for-each']


def almost(rng, n):
    '''A name which is nearly another one'''
    k = rng.randint(0, len(n) - 1)
    return rng.choice([n + 's', n[:-1], n.upper(), n.capitalize(), n.replace('-', '_'), n.replace('-', ''), n[:k] + n[k + 1:], n[:k] + n[k] + n[k:], n[:k] + rng.choice('aesx-._') + n[k + 1:], n + '-', 'x' + n,
                       n + '-or-self', n.split('-')[0], n + '1', n.replace('-', '.'), n + '-sibling', n[::-1], n.title(), '_' + n, rng.choice(['namespace', 'sibling', 'children', 'attributes', 'all', 'node', 'text', 'or', 'and'])])


def spelling(rng):
    '''Texts with axes, functions and node tests, some of them misspelled'''
    n = rng.choice(AXNAMES)
    a = n if rng.random() < .35 else almost(rng, n)
    f = rng.choice(FNAMES)
    f = f if rng.random() < .35 else almost(rng, f)
    t = rng.choice(['text()', 'node()', '*', 'a', 'Text()', 'NODE()', 'texts()', 'node', 'nodes()', 'comment()', 'element()', 'text ()', 'node( )', 'a()', 'or'])
    return rng.choice(['%s::%s' % (a, t), '%s :: %s' % (a, t), '/%s::%s' % (a, t), '*[%s::%s]' % (a, t), '%s::a/%s::%s' % (rng.choice(AXNAMES), a, t), '%s(.)' % f, '%s()' % f, '%s("1", "1")' % f, '1 = %s(a)' % f, '%s' % a, '%s/%s' % (a, t), '%s:%s' % (a, t), '@%s::%s' % (a, t)])


def lengthy(rng, names):
    '''Texts with much of something'''
    n = rng.choice([5, 9, 12, 17, 30, 45])
    def some(*of): return rng.choice(of)
    a = names[0]
    def at(): return rng.choice([rng.choice(names), '1', '"x"', '.', '..', '@i', 'text()', 'true()', '(1)', '*', '$unset', 'a[1]', '.5'])
    k = rng.randint(0, 11)
    if k == 0: return '(' + ', '.join(at() for _ in range(n)) + some(')', ')', ',)', '')
    if k == 1: return '(' * n + at() + ')' * some(n, n, n - 1, n + 1)
    if k == 2: return some('/', '//', '') + some('/', '/', '//').join(rng.choice(names + ['*', '.', '..', 'self::*', 'node()']) for _ in range(n))
    if k == 3: return some(a, '.', '*') + ''.join('[' + at() + ']' for _ in range(min(n, 17))) + some('', '', '[')
    if k == 4: return some(' or ', ' and ', ' = ', '|', ' | ', '!=').join(at() for _ in range(n))
    if k == 5: return some('concat', 'count', 'nothing') + '(' + ','.join(at() for _ in range(n)) + ')'
    if k == 6: return some('string', 'not', 'boolean', 'concat') .join(['', '(' ] + ['('] * (n - 1)) + at() + ')' * n
    if k == 7: return '"' + rng.choice(['x', 'ab ', "'", '\n', '\xe9']) * some(20, 70, 130, 300, 1100) + some('"', '"', "'", '')
    if k == 8: return some('', '@', '$', 'self::') + rng.choice(['a', 'ab', 'a-', 'a.', 'or', 'a1']) * some(20, 70, 130, 300)
    if k == 9: return at() + some(' ', '\n', '\t') * some(20, 70, 130, 300) + some('=', ' = ', '|', ' or ', '/') + at()
    if k == 10: return some('-', '- ') * n + some('1', 'a', '(1)')
    return ''.join('[' * 0 + some('a', '*') + '[' for _ in range(n)) + at() + ']' * some(n, n, n - 1)


def run(ctx):
    rng = ctx.rng
    bs = ctx.pick([(4, 'FALSE')], [(5, 'FALSE'), (4, 'TRUE')])
    scs = []
    for b in bs: scs += ctx.scenarios('MCSyntax', MC % b, heap='8g', workers=7)
    ctx.bounds['specification'] = '; '.join('all sequences of up to %d of %d tokens which can become an expression, and every token after each' % (b[0], 22 if b[1] == 'FALSE' else 34) for b in bs)
    scs.sort(key=str)
    good, bad = [s['x'] for s in scs if s['ok']], [s['x'] for s in scs if not s['ok']]
    total = len(good), len(bad)
    good = rng.sample(good, min(len(good), ctx.pick(8000, 60000)))
    bad = rng.sample(bad, min(len(bad), ctx.pick(8000, 80000)))
    ctx.bounds['scenarios'] = f'{len(good)} of {total[0]} which are expressions, {len(bad)} of {total[1]} which are not'
    texts = [join(rng, s) for s in good + bad]
    rng.shuffle(texts)
    cases = [{'src': ['h', TREE], 'vs': VARS, 'starts': rng.choice(STARTS), 'xs': texts[k:k + 40]} for k in range(0, len(texts), 40)]
    ctx.check('drv_syntax', 'TrSyntax', cases, 'token sequences of the specification', heap='6g')
    cases = []
    for _ in range(ctx.pick(1, 6)):
        deck = list(range(1, 256)) + EDGES * 2 + [rng.randint(256, 0x2fff) for _ in range(20)]
        rng.shuffle(deck)
        for k in range(0, len(deck), 5): cases.append(edge_case(rng, [chr(c) for c in deck[k:k + 5]]))
    ctx.check('drv_syntax', 'TrSyntax', cases, 'characters: the ends of the classes, and what is no token', heap='6g', stack='256m')
    cases = []
    for _ in range(ctx.pick(500, 6000)):
        names = rng.choice(NAMES)
        while True:
            h = rtree(rng, names, rng.randint(1, 3), 3)
            if 2 <= len(h) <= 20: break
        children(h)
        vs = rvars(rng, h)
        g = Exprs(rng, names, ['i', 'j', names[0]], vs)
        starts = [{'ep': rng.choice(['plain', 'xml_xpath', 'qquery']), 'i': rng.randint(1, len(h))} for _ in range(2)]
        cases.append({'src': ['h', h], 'vs': vs, 'starts': starts, 'xs': [cps(rtext(rng, g)) for _ in range(rng.randint(4, 24))]})
    ctx.check('drv_syntax', 'TrSyntax', cases, 'random texts', heap='6g', stack='256m')
    h = children([T('E', 'a', [('i', '1')]), T('E', 'b', p=1), T('T', t='1', p=2), T('E', 'a', p=1)])
    xs = [cps(spelling(rng)) for _ in range(ctx.pick(1200, 12000))] + [cps(lengthy(rng, ['a', 'b'])) for _ in range(ctx.pick(300, 4000))]
    cases = [{'src': ['h', h], 'vs': [[cps('a'), Item('N', 2)]], 'starts': [{'ep': rng.choice(['plain', 'xml_xpath', 'qquery']), 'i': rng.randint(1, 4)}], 'xs': xs[k:k + 20]} for k in range(0, len(xs), 20)]
    ctx.check('drv_syntax', 'TrSyntax', cases, 'names nearly those of axes and functions; long texts', heap='6g', stack='512m')
