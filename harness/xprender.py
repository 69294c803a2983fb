'''Expressions of spec/UXPath.tla as text'''
import random


class CantSay(Exception): pass


OPS = {'61': '=', '33,61': '!=', '60': '<', '62': '>', '60,61': '<=', '62,61': '>='}
RLP = ('step', 'self', 'par')
PRIMARY = ('seq', 'lit', 'var', 'call', 'dyn')


def un(cs): return ''.join(map(chr, cs))


def is_rlp(e):
    return e['o'] in RLP or (e['o'] in ('path', 'dpath') and is_rlp(e['a'][0]) and e['a'][1]['o'] in RLP)


def namechar(c): return c.isalnum() or c in '_-.\xb7' or ord(c) > 0x7f


# Functions which may take the place of each other
SWAP = {}
for _a, _b in ('string', 'name'), ('count', 'boolean'), ('not', 'number'), ('starts-with', 'contains'), ('substring-before', 'substring-after'), ('true', 'false'):
    SWAP[_a], SWAP[_b] = _b, _a


def swapped(e):
    '''The expression with the text which e has if functions are called by the names of others'''
    return dict(e, a=[swapped(x) for x in e['a']], **({'f': SWAP.get(e['f'], e['f'])} if e['o'] == 'call' else {}))


class Renderer:
    own = ''        # what names of functions begin with, or a mapping of names to names

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.loose = self.rng.choice([0, 0, .3, 1])

    def text(self, e):
        out = ''
        for t in self.expr(e):
            if out:
                p, n = out[-1], t[0]
                need = (namechar(p) and namechar(n)) or (p == '/' and n == '/') or (p == '.' and (n == '.' or n.isdigit())) \
                    or (p in '<>!' and n == '=') or (p == ':' or n == ':') and False
                if p in '"\'' or n in '"\'': need = False
                if need: out += self.rng.choice([' ', ' ', '\n', '\t'])
                elif self.rng.random() < self.loose * .5: out += self.rng.choice([' ', ' ', '  ', '\r\n'])
            out += t
        return out

    def parens(self, e): return ['('] + self.expr(e) + [')']

    def level(self, e):
        return {'or': 1, 'and': 2, 'neg': 6, 'union': 7}.get(e['o']) or ((3 if len(e['t']) and e['t'] in ([61], [33, 61]) else 4) if e['o'] == 'cmp' else 8)

    def op(self, e, text, lo, ro):
        def side(x, least): return self.expr(x) if self.level(x) >= least else self.parens(x)
        return side(e['a'][0], lo) + [text] + side(e['a'][1], ro)

    def base(self, e):
        'Left of / or [ '
        if is_rlp(e) or e['o'] in PRIMARY or e['o'] == 'pred': return self.expr(e)
        return self.parens(e)

    def args(self, a):
        out = ['(']
        for i, x in enumerate(a):
            if i: out.append(',')
            out += self.expr(x)
        return out + [')']

    def lit(self, s):
        q = [c for c in '"\'' if c not in s]
        if not q: raise CantSay()
        q = self.rng.choice(q)
        return [q + s + q]

    def expr(self, e):
        o, a, rng = e['o'], e['a'], self.rng
        if o == 'step':
            if e['ax'] == 'child' and rng.random() < .7: out = []
            elif e['ax'] == 'attribute' and rng.random() < .7: out = ['@']
            else: out = [e['ax'], '::']
            return out + {'name': [un(e['t'])], 'any': ['*'], 'text': ['text', '(', ')'], 'node': ['node', '(', ')']}[e['nt']]
        if o == 'self': return ['.']
        if o == 'par': return ['..']
        if o == 'root': return ['(', '/', ')']
        if o in ('path', 'dpath'):
            if not is_rlp(a[1]): raise CantSay()
            return self.base(a[0]) + ['/' if o == 'path' else '//'] + self.expr(a[1])
        if o in ('abs', 'absd'):
            if not is_rlp(a[0]): raise CantSay()
            return ['/' if o == 'abs' else '//'] + self.expr(a[0])
        if o == 'union': return self.op(e, '|', 7, 8)
        if o == 'cmp':
            l = self.level(e)
            return self.op(e, OPS[','.join(map(str, e['t']))], l, l + 1)
        if o == 'and': return self.op(e, 'and', 2, 3)
        if o == 'or': return self.op(e, 'or', 1, 2)
        if o == 'neg': return ['-'] + (self.expr(a[0]) if self.level(a[0]) >= 6 else self.parens(a[0]))
        if o == 'pred':
            # what is left of the predicates may be an absolute path
            out = self.expr(a[0]) if a[0]['o'] in ('abs', 'absd') or (a[0]['o'] in ('path', 'dpath')) else self.base(a[0])
            for p in a[1:]: out += ['['] + self.expr(p) + [']']
            return out
        if o == 'seq': return self.args(a)
        if o == 'lit':
            v = e['v']
            if v['k'] == 'S': return self.lit(un(v['t']))
            n = v['i']
            if v['k'] != 'F' or v['t'] or n < 0: raise CantSay()
            s = str(n // 1000)
            f = ('%03d' % (n % 1000)).rstrip('0')
            if f:
                if s == '0' and rng.random() < .3: s = ''
                return [s + '.' + f]
            return [s + rng.choice(['', '', '', '.0', '.'])]
        if o == 'var': return ['$', un(e['t'])]
        if o == 'dyn': return self.lit(self.text(a[0]))
        if o == 'call': return [self.own.get(e['f'], e['f']) if isinstance(self.own, dict) else self.own + e['f']] + self.args(a)
        raise CantSay()


def render(e, seed, own=''):
    r = Renderer(seed)
    r.own = own
    return r.text(e)
