'''P22: parsed expressions as texts again'''
from .path import Exprs, children, rvars
from .select import rtree
from .syntax import MC, TREE, VARS, cps, join, lengthy, rtext, spelling

NAMES = [['a', 'or', 'and', 'text'], ['a', 'a-b', 'a.b', 'b'], ['div', 'node', 'mod', 'a'], ['é', 'e\u0301', 'a\xb71', '\u3042'], ['a1', 'x-1', '_', 'a'], ['e-05', 'child', 'self', 'parent']]
NUMS = ['0', '1', '2.50', '.5', '007', '.00001', '0.0000001', '123456789012345', '1.', '100000000000000.5', '.000000123456', '99999999999999999999', '1' + '0' * 22 + '.5', '1234567.125', '0.1', '3.0', '16777217', '4503599627370497']
STRS = ['', 'x', ' ', "it's", 'say "x"', '1', 'a/b', '\n', '\\', '\\n', '\u00e9', '\U0001f600', '&amp;', '<', "''", '""', '\t\r', 'child::a', '\x7f', '\x01', '$a', '{', '%s', '\u2028']
OPS = [' - ', ' - ', '-', ' -', ' + ', '+', ' div ', ' mod ', ' = ', '=', '!=', ' < ', '<=', '>', ' or ', ' and ', ' or', '|', ' | ', '- -', ' - - ', ', ', '/', '//']


def atom(rng, names):
    n = rng.choice(names)
    k = rng.random()
    if k < .15: return rng.choice(NUMS)
    if k < .3:
        s = rng.choice(STRS)
        q = rng.choice([c for c in '"\'' if c not in s])
        return q + s + q
    return rng.choice([n, n, '@' + n, '$' + n, '*', '.', '..', 'self::' + n, n + '/' + n, '//' + n, '/' + n, '(/)', '()', 'text()', 'node()', n + '//..', 'ancestor-or-self::*', '@*', 'following-sibling::' + n, 'descendant::text()',
                       'attribute::' + n, 'child::' + n, '(' + n + ')', n + '[1]', n + '[' + rng.choice(names) + '][2]', 'true()', 'name()', 'position()', 'last()', '/', n + '()', n + '(' + n + ')'])


def combine(rng, names, d):
    if d == 0: return atom(rng, names)
    def sub(): return combine(rng, names, rng.randint(0, d - 1))
    k = rng.random()
    if k < .5: return sub() + rng.choice(OPS) + sub()
    if k < .6: return '-' + rng.choice(['', ' ']) + sub()
    if k < .7: return '(' + ', '.join(sub() for _ in range(rng.randint(1, 3))) + ')'
    if k < .8: return sub() + '[' + sub() + ']'
    if k < .9: return rng.choice(['concat', 'count', 'not', 'string', 'number', 'nothing', 'or', 'contains']) + '(' + ','.join(sub() for _ in range(rng.randint(0, 3))) + ')'
    t = sub()
    q = [c for c in '"\'' if c not in t]
    return 'for-each(' + sub() + ',' + q[0] + t + q[0] + ')' if q else t


def run(ctx):
    rng = ctx.rng
    bs = ctx.pick([(3, 'TRUE'), (4, 'FALSE')], [(5, 'FALSE'), (4, 'TRUE')])
    scs = []
    for b in bs: scs += ctx.scenarios('MCSyntax', MC % b, heap='8g', workers=7)
    ctx.bounds['specification'] = '; '.join('all sequences of up to %d of %d tokens which can become an expression' % (b[0], 22 if b[1] == 'FALSE' else 34) for b in bs)
    good = sorted((s['x'] for s in scs if s['ok']), key=str)
    total = len(good)
    good = rng.sample(good, min(len(good), ctx.pick(6000, 60000)))
    ctx.bounds['scenarios'] = f'{len(good)} of {total} expressions'
    texts = [join(rng, s) for s in good]
    cases = [{'src': ['h', TREE], 'vs': VARS, 'at': [1, 4], 'xs': texts[k:k + 60]} for k in range(0, len(texts), 60)]
    ctx.check('drv_serial', 'TrSerial', cases, 'token sequences of the specification', heap='6g')
    cases = []
    for _ in range(ctx.pick(500, 6000)):
        names = rng.choice(NAMES)
        while True:
            h = rtree(rng, names, rng.randint(1, 3), 3)
            if 2 <= len(h) <= 20: break
        children(h)
        vs = rvars(rng, h)
        g = Exprs(rng, names, ['i', 'j', names[0]], vs)
        xs = [rtext(rng, g) if rng.random() < .3 else combine(rng, names, rng.choice([0, 1, 1, 2, 2, 3])) for _ in range(rng.randint(4, 24))]
        cases.append({'src': ['h', h], 'vs': vs, 'at': [rng.randint(1, len(h))], 'xs': [cps(x) for x in xs]})
    ctx.check('drv_serial', 'TrSerial', cases, 'random expressions', heap='6g', stack='256m')
    cases = []
    deck = [chr(c) for c in list(range(1, 256)) + [0x300, 0x37e, 0x2028, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x10ffff]]
    rng.shuffle(deck)
    for k in range(0, len(deck), 5):
        xs = []
        for c in deck[k:k + 5]:
            for f in ('"%s"', "'%s'", 'b%s', '%s', 'concat("%s", \'x%s\')', 'a%sb', '$%s', '@a[. = "%s"]', 'b%s - a', '1%s', '%s1', 'self::a%s', "for-each(., 'a%s')"): xs.append(cps(f.replace('%s', c)))
        cases.append({'src': ['h', TREE], 'vs': VARS, 'at': [1], 'xs': xs})
    xs = [cps(spelling(rng)) for _ in range(ctx.pick(200, 2000))] + [cps(lengthy(rng, ['a', 'b'])) for _ in range(ctx.pick(200, 3000))]
    for k in range(0, len(xs), 10): cases.append({'src': ['h', TREE], 'vs': VARS, 'at': [1], 'xs': xs[k:k + 10]})
    ctx.check('drv_serial', 'TrSerial', cases, 'characters, long texts', heap='6g', stack='512m')
