'''P05, P06: encoding of trees, and writers'''
from .. import gen
from .mutate import random_history

MC = '''SPECIFICATION Spec
CONSTANTS
  MaxCalls = %(calls)d
  MaxChars = %(chars)d
  Alphabet = {%(alpha)s}
INVARIANT InvProper
INVARIANT InvReadBack
INVARIANT InvEncode
CHECK_DEADLOCK FALSE
'''
# names which XML 1.0 as implemented by expat has as well
XNAMES = ['a', 'b', 'c', 'aa', 'ab', 'b.c', 'x-1', '_z', 'é', 'À', 'Öd', 'item', 'B', 'a1', 'xml', 'a\u0301']
CHARS = list('<>&"\';\n\t #x]-=/ \'"') + ['é', '\u20ac', '\U0001F600', '\xa0', '\u2028', '\ufffd', '\U0010fffd', '&lt;', '&amp;', '&#10;', ']]>', '<!--', '\n\n', "'\"", 'abc']


def cps(s): return [ord(c) for c in s]


def rtext(rng, n=6): return ''.join(rng.choice(CHARS) for _ in range(rng.randint(0, n)))


def rattrs(rng):
    return [[cps(k), cps(rtext(rng))] for k in rng.sample(XNAMES, rng.choice([0, 0, 1, 2, 3, 6]))]


def rcalls(rng, depth=3, fan=4, empties=True):
    out = []

    def el(d):
        n, a = cps(rng.choice(XNAMES)), rattrs(rng)
        if empties and d < depth and rng.random() < .2:
            out.append({'c': 'M', 'n': n, 'a': a, 't': []})
            return
        out.append({'c': 'S', 'n': n, 'a': a, 't': []})
        if d:
            for _ in range(rng.randint(0, fan)):
                if rng.random() < .5: out.append({'c': 'T', 'n': [], 'a': [], 't': cps(rtext(rng))})
                else: el(d - 1)
        out.append({'c': 'E', 'n': n, 'a': [], 't': []})
    el(depth)
    return out


PLAIN = {'kind': 'raw', 'ns': [], 'em': [], 'am': [], 'pad': False}


def rcfg(rng):
    k = rng.random()
    if k < .3: return PLAIN
    if k < .65: return dict(PLAIN, pad=True, indent=cps(rng.choice([' ', '  ', '\t', '    '])), depth=rng.choice([0, 0, 0, 1, 3]))
    ns = [[cps(p), cps(rng.choice(['urn:x', 'http://e.org/?a=1&b=2', 'x"y']))] for p in rng.sample(['', 'x', 'yy', 'é'], rng.randint(0, 3))]
    em = [[cps(n), cps(rng.choice(['x', 'yy', '']))] for n in rng.sample(XNAMES, rng.randint(0, 6))]
    am = [[cps(n), cps(rng.choice(['x', 'yy', '']))] for n in rng.sample(XNAMES, rng.randint(0, 6))]
    if k > .95: return dict(PLAIN, kind='wh', em=em, am=am)
    if k > .9: return dict(PLAIN, kind='wh')
    return {'kind': 'ns', 'ns': ns, 'em': em, 'am': am, 'pad': False}


def history(rng):
    '''A history of mutations with tricky text'''
    ops = random_history(rng, rng.randint(3, 30))
    for op in ops:
        if op['o'] in ('apps', 'inss'): op['t'] = cps(rtext(rng))
        if op['o'] == 'new': op['n'], op['a'] = cps(rng.choice(XNAMES)), rattrs(rng)
    return ops


HTML = ['<p>', '</p>', '<b>', '</b>', '<i class="x">', '</i>', '<!--c-->', '<!--a<b-->', '<br>', 'x', ' ', '&amp;', '&lt;i', "<p id='1&quot;2'>", '<table>', '<td>', '</table>', '<svg>', '</svg>', '<!DOCTYPE html>', '<select><option selected>',
        '<pre>\n\n', 'é', '<script>a < b && c</script>', '<style>"</style>', '<textarea>', '<h1 title=a&b>', '&nbsp;', '\U0001f600', '<x-y a.b="1">', '<title>', '<body lang=en>', '<html a="<">']


def run(ctx):
    rng = ctx.rng
    b = ctx.pick({'calls': 4, 'chars': 2, 'alpha': '60, 38, 34, 39, 10, 59'}, {'calls': 5, 'chars': 2, 'alpha': '60, 62, 38, 34, 39, 10, 9, 59, 120, 93'})
    scs = ctx.scenarios('MCWrite', MC % b, heap='6g')
    ctx.bounds['specification'] = f'all properly nested sequences of up to {b["calls"]} calls, 3 configurations, texts of up to {b["chars"]} of the characters {b["alpha"]}'
    total = len(scs)
    want = ctx.pick(2500, 30000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios'] = f'{len(scs)} of {total}'
    cases = []
    for s in scs:
        calls, cfg = s['calls'], s['cfg']
        if ctx.prop == 'P05':
            if not (cfg['ns'] or cfg['em']):
                cases.append({'p': 'P05', 'src': ['calls', calls], 'pick': 0, 'indent': rng.choice([[], [], [32, 32], [9]])})
        else:
            cfg = dict(cfg, kind='ns' if cfg['ns'] or cfg['em'] else 'raw', pad=False)
            cases.append({'p': 'P06', 'calls': calls, 'cfg': cfg, 'bare': rng.random() < .5})
            if cfg['kind'] == 'raw' and rng.random() < .3:
                cases.append({'p': 'P06', 'calls': calls, 'cfg': dict(cfg, pad=True, indent=[32, 32])})
    ctx.check('drv_write', 'TrWrite', cases, 'sequences of calls of the specification')
    cases = []
    for _ in range(ctx.pick(600, 8000)):
        calls = rcalls(rng, depth=rng.randint(0, 4))
        noempty = rcalls(rng, depth=rng.randint(0, 4), empties=False)
        if ctx.prop == 'P05':
            cases.append({'p': 'P05', 'src': ['calls', calls], 'pick': rng.choice([0, 0, rng.randint(0, 50)])})
            cases.append({'p': 'P05', 'src': ['ux', cps(gen.doc(rng, depth=3, names=XNAMES))], 'pick': rng.randint(0, 3)})
            ops = history(rng)
            if ops: cases.append({'p': 'P05', 'src': ['ops', ops], 'pick': rng.choice([0, 0, rng.randint(0, 50)])})
            x = gen.doc(rng, depth=2, names=XNAMES)
            cases.append({'p': 'P05', 'src': ['xml', cps(x.lstrip().replace('\x00', ''))], 'pick': 0})
            if rng.random() < .5: cases.append({'p': 'P05', 'src': ['html', cps(''.join(rng.choice(HTML) for _ in range(rng.randint(1, 10))))], 'pick': rng.choice([0, 0, rng.randint(0, 9)])})
            for c in cases[-5:]:
                if rng.random() < .4: c.update(indent=cps(rng.choice([' ', '  ', '\t', '\n '])), depth=rng.choice([0, 0, 1, 4]))
        else:
            cfg = rcfg(rng)
            cases.append({'p': 'P06', 'calls': noempty if cfg['kind'] == 'ns' else calls, 'cfg': cfg, 'bare': rng.random() < .5})
            cfg = rcfg(rng)
            src = rng.choice([['calls', noempty], ['calls', noempty], ['ux', cps(gen.doc(rng, depth=3, names=XNAMES))], ['ux', cps(gen.doc(rng, depth=3, names=XNAMES))], ['html', cps(''.join(rng.choice(HTML) for _ in range(rng.randint(1, 10))))]])
            cases.append({'p': 'P06', 'calls': [], 'src': src, 'cfg': cfg})
    for k in range(ctx.pick(16, 150)):
        h = gen.bigtree(rng, ['a', 'b', 'c'], ctx.pick(500, 1200), kind=['attrs', 'wide', 'deep', 'long', 'attrs', 'bush'][k % 6])
        src = ['ux', cps(gen.tomx(h))]
        if ctx.prop == 'P05':
            cases.append({'p': 'P05', 'src': src, 'pick': rng.choice([0, 0, 1, 40])})
            if rng.random() < .5: cases[-1].update(indent=cps(rng.choice([' ', '  ', '\t'])), depth=rng.choice([0, 0, 1, 4]))
        else:
            cases.append({'p': 'P06', 'calls': [], 'src': src, 'cfg': rcfg(rng)})
            calls = []
            cfg = rcfg(rng)

            def put(i):
                nd = h[i - 1]
                if nd['k'] == 'E' and not nd['c'] and cfg['kind'] != 'ns' and rng.random() < .4: calls.append({'c': 'M', 'n': nd['n'], 'a': nd['a'], 't': []})
                elif nd['k'] == 'T': calls.append({'c': 'T', 'n': [], 'a': [], 't': nd['t']})
                else:
                    calls.append({'c': 'S', 'n': nd['n'], 'a': nd['a'], 't': []})
                    for c in nd['c']: put(c)
                    calls.append({'c': 'E', 'n': nd['n'], 'a': [], 't': []})
            put(1)
            cases.append({'p': 'P06', 'calls': calls, 'cfg': cfg, 'bare': rng.random() < .5})
    # every single character of MicroXML near a boundary, and the classes of ASCII
    chars = [c for c in gen.boundaries() if (c in (9, 10) or 32 <= c < 127 or 0xa0 <= c < 0xd800 or 0xe000 <= c) and (c & 0xffff) < 0xfffe and not 0xfdd0 <= c <= 0xfdef]
    for k in range(0, len(chars), 3):
        t = chars[k:k + 3]
        calls = [{'c': 'S', 'n': [97], 'a': [[[98], t], [[99], t[::-1]]], 't': []}, {'c': 'T', 'n': [], 'a': [], 't': t}, {'c': 'E', 'n': [97], 'a': [], 't': []}]
        if ctx.prop == 'P05': cases.append({'p': 'P05', 'src': ['calls', calls], 'pick': 0})
        else: cases.append({'p': 'P06', 'calls': calls, 'cfg': PLAIN})
    ctx.check('drv_write', 'TrWrite', cases, 'random trees and calls', stack='256m', heap='6g')
