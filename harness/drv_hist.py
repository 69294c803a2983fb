'''Driver: histories of mutations and MicroXPath evaluations'''
import gc
from .real import attempt, codes, uncodes
from .drv_heap import Forest
from .drv_path import Item, item, topof, value, ROOT, SWAPPED
from . import xprender

from amara3.uxml import tree
from amara3.uxml.uxpath import context, parse, qquery


class History:
    def __init__(self):
        self.f = Forest(False)
        self.parsed = {}
        self.opens = {}
        self.bags = {}      # variables, shared by all evaluations with the same ones

    def ids(self): return {id(r()): i + 1 for i, r in enumerate(self.f.refs) if r() is not None}

    def item(self, x):
        ids = self.ids()
        if isinstance(x, ROOT): return Item('R', ids.get(id(x.xml_children[0]), -1))
        return item(x, ids, None)

    def vars(self, vs):
        key = repr(vs)
        if key not in self.bags: self.bags[key] = {uncodes(n): value(v, []) for n, v in vs}
        return self.bags[key]

    def start(self, op):
        nd = self.f.get(op['c'])
        text = xprender.render(op['e'], op.get('style', 0), xprender.SWAP if op.get('swap') else '')
        expr = text
        if op.get('pid'):
            # one parsed expression used again and again
            key = text
            if key not in self.parsed: self.parsed[key] = parse(text)
            expr = self.parsed[key]
        vs = self.vars(op['vs'])
        fs = SWAPPED if op.get('swap') else None
        ep = op['ep']
        if ep == 'xml_xpath': return nd.xml_xpath(expr, vs, fs)
        if ep == 'qquery': return qquery(nd, expr, vars=vs, funcs=fs)
        if isinstance(expr, str): expr = parse(expr)
        ctx = context(nd, variables=vs, functions=fs) if ep == 'forced' else context(nd, variables=vs, functions=fs, force_root=False)
        return expr.compute(ctx)

    def op(self, op):
        o = op['o']
        self.got, self.end = [], False
        if o == 'bad': parse(uncodes(op['t']))
        elif o == 'seta': self.f.get(op['p']).xml_attributes[uncodes(op['a'][0])] = uncodes(op['a'][1])
        elif o == 'dela': del self.f.get(op['p']).xml_attributes[uncodes(op['n'])]
        elif o == 'eval':
            for x in self.start(op):
                self.got.append(self.item(x))
                if len(self.got) > 5000: break
        elif o == 'open': self.opens[op['id']] = iter(self.start(op))
        elif o == 'pull':
            it = self.opens.get(op['id'])
            if it is None: return
            for _ in range(op['n']):
                x = next(it, None)
                if x is None:
                    self.end = True
                    break
                self.got.append(self.item(x))
        elif o == 'close':
            it = self.opens.pop(op['id'], None)
            if it is not None and op.get('how'): it.close()
        else: self.f.op(op)

    def vars_ok(self):
        return all(repr({uncodes(n): value(v, []) for n, v in eval(k)}) == repr(b) for k, b in self.bags.items())


def nodes(f):
    out = f.dump()
    for r in out: r.pop('v', None); r.pop('al', None)
    return out


def run(case):
    H = History()
    obs = []
    for op in case['ops']:
        H.got, H.end = [], False
        try: out, _ = attempt(H.op, op)
        except xprender.CantSay: out = 'err'
        obs.append({'out': out, 'got': H.got, 'end': H.end, 'vars': H.vars_ok(), 'nodes': nodes(H.f)})
        if out == 'hang': break
    refs = H.f.refs
    keep = H.parsed         # parsed expressions hold no trees
    H.opens.clear()
    H.f.held.clear()
    del H
    gc.collect()
    alive = sum(1 for r in refs if r() is not None)
    del keep
    return {'ops': case['ops'][:len(obs)], 'obs': obs, 'alive': alive}
