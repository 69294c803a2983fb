'''
Driver: parsers, builders, senders, writers and queries at work at the same time.

How the steps of a schedule are done within each other: 'cb' in handlers and
sinks which are called in a step; 'thread' in threads of their own, each of which
is held up after so many lines of the library's code.
'''
import io, sys, json, threading
from .real import attempt, codes, uncodes, Hang
from .trees import dump
from .drv_parser import canon
from .drv_pattern import pattern
from .drv_write import attrs

from amara3 import uxml
from amara3.uxml import parser as P, tree, xml, treeiter, xmliter, writer, html5, treeutil
from amara3.uxml.uxpath import parse as xpathparse, qquery


class Task:
    def __init__(self, d, k):
        self.d, self.back, self.acc = d, None, []
        self.x = uncodes(d['x'])
        self.made = False

    def pieces(self):
        pos = [0] + self.d['cuts']
        return [self.x[a:b] for a, b in zip(pos, pos[1:])]

    def called(self):
        'In a handler or sink'
        b = self.back
        if b: b()

    def step(self, k):
        'Step k, counting from 0'
        self.acc = []
        out, s = 'ok', ''
        try:
            if not self.made:
                self.make()
                self.made = True
            s = self.go(k) or ''
        except Hang: raise
        except (Exception, GeneratorExit): out = 'err'
        return {'out': out, 'evs': self.acc, 's': s}

    def make(self): pass


class Push(Task):
    def make(self):
        def handler():
            while True:
                ev = yield
                self.acc.append(canon(ev))
                self.called()
        self.p = P.parser(handler())

    def go(self, k):
        last = k == self.d['steps'] - 1
        self.p.send((self.pieces()[k], last and self.d['fin']))
        if last and not self.d['fin']: self.p.send(('', True))


class Frags(Task):
    def make(self): self.it = P.parsefrags(iter(self.pieces()))

    def go(self, k):
        n = 2 + k if k < self.d['steps'] - 1 else 10 ** 6
        for _ in range(n):
            ev = next(self.it, None)
            if ev is None: break
            self.acc.append(canon(ev))


class Send(Task):
    'xmliter.sender, fed in pieces'
    def sink(self):
        while True:
            e = yield
            self.acc.append(dump(e))
            self.called()

    def make(self):
        pats, sinks = [pattern(self.d['pat'])], [self.sink()]
        if self.d['fin']:
            pats.append(('zz', '*')); sinks.append(self.sink())
        self.ts = xmliter.sender(pats, sinks)

    def go(self, k): self.ts.parse(self.pieces()[k])


class Sends(Task):
    'treeiter.sender, a document in each step'
    def go(self, k):
        sink = Send.sink(self)
        treeiter.sender(pattern(self.d['pat']), sink).parse(uncodes(self.d['docs'][k]))


class Build(Task):
    def make(self): self.b = tree.treebuilder()

    def go(self, k):
        root = self.b.parse(uncodes(self.d['docs'][k]))
        self.acc = dump(root) if root is not None else []


class BuildU(Task):
    def go(self, k):
        root = uxml.parse(uncodes(self.d['docs'][k])) if self.d['fin'] else tree.parse(uncodes(self.d['docs'][k]))
        self.acc = dump(root) if root is not None else []


class BuildX(Build):
    def make(self): self.b = xml.treebuilder()


class Html(Task):
    def go(self, k): return json.dumps(dump(html5.parse(uncodes(self.d['docs'][k]))))


class Write(Task):
    def make(self):
        self.fp = io.StringIO()
        cfg = self.d['cfg']
        if cfg['kind'] == 'ns':
            pre = {uncodes(k): uncodes(v) for k, v in cfg['ns']}
            mapping = {uncodes(k): ('urn:x', uncodes(v)) for k, v in cfg['em']}
            self.w = writer.namespacer(self.fp, prefixes=pre, mapping=mapping)
        elif cfg['kind'] == 'indent': self.w = writer.raw(self.fp, indent='  ')
        else: self.w = writer.raw(self.fp)

    def go(self, k):
        cs = self.d['calls']
        n, m = len(cs), self.d['steps']
        for c in cs[n * k // m:n * (k + 1) // m]:
            if c['c'] == 'T': self.w.text(uncodes(c['t']))
            elif c['c'] == 'E': self.w.end_element(uncodes(c['n']))
            else: self.w.start_element(uncodes(c['n']), attribs=attrs(c['a']))
        self.acc = codes(self.fp.getvalue())


class Tree(Task):
    'Things done with trees, of which each task has its own'
    def make(self): self.t = tree.parse(uncodes(self.d['docs'][0]))

    def go(self, k):
        if k == 0: return self.t.xml_encode()
        if k == 1:
            fp = io.StringIO()
            writer.write(self.t, writer.raw(fp))
            return fp.getvalue()
        treeutil.make_pretty(self.t)
        return json.dumps(dump(self.t))


class Query(Task):
    'Results taken one by one'
    def make(self):
        e = self.d['how']
        if not e.startswith('q:'): self.t = tree.parse(uncodes(self.d['docs'][0]))
        if e.startswith('p:'): self.it = treeutil.select_pattern(self.t, tuple(e[2:].split()))
        elif e.startswith('d:'): self.it = treeutil.descendants(self.t)
        elif e.startswith('q:'): self.it = qquery(uncodes(self.d['docs'][0]), parsed(e[2:]))
        else: self.it = self.t.xml_xpath(parsed(e))

    def go(self, k):
        r = []
        for _ in range(2 if k < self.d['steps'] - 1 else 10 ** 4):
            x = next(self.it, None)
            if x is None: break
            r.append(x.xml_encode() if isinstance(x, tree.node) else repr(x))
        return json.dumps(r)


_parsed = {}


def parsed(e):
    'Expressions are shared by tasks'
    if e not in _parsed: _parsed[e] = xpathparse(e)
    return _parsed[e]


KINDS = {'push': Push, 'frags': Frags, 'send': Send, 'sends': Sends, 'build': Build, 'buildx': BuildX, 'buildu': BuildU,  'html': Html, 'write': Write, 'writep': Write, 'tree': Tree, 'query': Query}


def alone(tasks):
    return [[t.step(k) for k in range(t.d['steps'])] for t in tasks]


def by_callbacks(tasks, sched):
    'Returns what each step gave, and the schedule as it came out'
    outs = [[] for _ in tasks]
    real = []
    sched = list(sched)
    busy = []

    def go_on():
        'Do what comes next until that can only be done outside'
        while sched:
            t, ph = sched[0]
            if t - 1 in busy: return
            sched.pop(0)
            if ph == 'E': continue      # it has ended already
            one(t - 1)

    def one(me):
        task = tasks[me]

        def back():
            task.back = None
            go_on()
        task.back = back
        busy.append(me)
        real.append([me + 1, 'B'])
        outs[me].append(task.step(len(outs[me])))
        real.append([me + 1, 'E'])
        busy.remove(me)
        task.back = None
    go_on()
    return outs, real


class Runner(threading.Thread):
    'A task in a thread'
    def __init__(self, task, lines, n, real):
        threading.Thread.__init__(self, daemon=True)
        self.task, self.lines, self.outs = task, lines, []
        self.go, self.there = threading.Semaphore(0), threading.Semaphore(0)
        self.hold = 0       # after so many lines wait
        self.n, self.real = n, real

    def tracer(self, frame, what, arg):
        return self.line if '/uxml/' in frame.f_code.co_filename else None

    def line(self, frame, what, arg):
        if what == 'line' and self.hold:
            self.hold -= 1
            if not self.hold:
                self.there.release()
                self.go.acquire()
        return self.line

    def run(self):
        sys.settrace(self.tracer)
        for k in range(self.task.d['steps']):
            self.go.acquire()
            self.hold = self.lines[k]
            self.real.append([self.n, 'B'])
            r = self.task.step(k)
            self.real.append([self.n, 'E'])
            held = self.hold == 0 and self.lines[k]
            if not held:
                # done before it came to be held up
                self.hold = 0
                self.there.release()
                self.go.acquire()
            self.outs.append(r)
            self.there.release()


def by_threads(tasks, sched, lines):
    real = []
    rs = [Runner(t, l, i + 1, real) for i, (t, l) in enumerate(zip(tasks, lines))]
    for r in rs: r.start()
    ok = True
    for t, ph in sched:
        r = rs[t - 1]
        r.go.release()
        # If there is no answer, it may be waiting for something which another has; so go on
        if not r.there.acquire(timeout=4): ok = False
    for r in rs: r.join(3 if ok else 8)
    return [r.outs if len(r.outs) == r.task.d['steps'] else r.outs + [{'out': 'hang', 'evs': [], 's': ''}] for r in rs], real


def run(case):
    ds = case['tasks']

    def make(): return [KINDS[d['kind']](d, i) for i, d in enumerate(ds)]
    ref = alone(make())
    if case['mode'] == 'cb': outs, real = by_callbacks(make(), case['sched'])
    else: outs, real = by_threads(make(), case['sched'], case['lines'])
    return {'sched': [{'t': t, 'ph': ph} for t, ph in real],
            'tasks': [dict({k: d[k] for k in ('kind', 'steps', 'x', 'cuts', 'pat', 'docs', 'calls', 'cfg')}, alone=a, out=o) for d, a, o in zip(ds, ref, outs)]}
