'''Driver: lives of the subtrees which senders deliver'''
import gc, weakref
from .real import attempt, codes, uncodes
from .trees import dump, order
from .drv_pattern import pattern

from amara3.uxml import tree, treeiter, xmliter, xml


class Watch:
    def __init__(self, case):
        self.acts, self.log = list(case['acts']), []
        self.refs, self.held = [], []

    def came(self, s, e):
        nodes = order(e)
        self.refs.append([weakref.ref(nd) for nd in nodes])
        hold = []
        while self.acts and self.acts[0]['a'] == 'drop': self.drop()
        if self.acts:
            n = self.acts.pop(0)['n']
            hold = [n] if 0 < n <= len(nodes) else []
        now = dump(e)
        self.held.append([nodes[n - 1] for n in hold])
        del nodes
        gc.collect()
        self.log.append({'a': 'came', 's': s, 'now': now, 'hold': hold, 'al': [[r() is not None for r in rs] for rs in self.refs], 'j': 0})

    def drop(self):
        j = self.acts.pop(0)['n']
        if j > len(self.held): return
        self.held[j - 1] = []
        self.log.append({'a': 'drop', 'j': j, 's': 0, 'now': [], 'hold': [], 'al': []})

    def sink(self, s):
        while True:
            e = yield
            self.came(s, e)
            del e

    def end(self):
        gc.collect()
        out = []
        for rs in self.refs:
            ns = [r() for r in rs]
            ids = {id(nd): k + 1 for k, nd in enumerate(ns) if nd is not None}
            row = []
            for nd in ns:
                if nd is None: row.append({'al': False, 'p': 0, 'c': [], 'v': []})
                else:
                    par = nd.xml_parent
                    row.append({'al': True, 'p': 0 if par is None else ids.get(id(par), -1), 'c': [ids.get(id(c), -1) for c in nd.xml_children], 'v': codes(nd.xml_value)})
            out.append(row)
        return out


def run(case):
    gc.freeze()
    x = uncodes(case['x'])
    w = Watch(case)

    def go():
        pats = [pattern(p) for p in case['pats']]
        sinks = [w.sink(k + 1) for k in range(len(pats))]
        if case['kind'] == 'ux': treeiter.sender(pats, sinks).parse(x)
        else:
            ts = xmliter.sender(pats, sinks)
            pos = [0] + case['cuts'] + [len(x)]
            for a, b in zip(pos, pos[1:]): ts.parse(x[a:b])
    out, _ = attempt(go)
    return {'x': case['x'], 'exact': case['kind'] == 'ux', 'pats': case['pats'], 'out': out, 'log': w.log, 'end': w.end()}
