'''P18: lives of nodes, and parses in progress at the same time'''
from .. import gen
from . import mutate, write, pattern, html
from .path import cps

MC = '''SPECIFICATION Spec
CONSTANTS
  Tasks = %d
  Steps = %d
  Within = %s
INVARIANT InvAlone
INVARIANT InvSchedule
INVARIANT InvOut
CHECK_DEADLOCK FALSE
'''
KINDS = ['push', 'push', 'push', 'frags', 'send', 'send', 'sends', 'build', 'build', 'buildu', 'buildx', 'html', 'write', 'writep', 'tree', 'query', 'query']
CALLING = ['push', 'push', 'send', 'sends']
QUERIES = ['p:* *', 'p:** b', 'd:', '//b', './/text()', '//*[a]', '//*[@a]', 'descendant::*/..', '//a|//b', 'for-each(//*, name())', '//*[2]', 'q://b', 'q://*', 'q://text()', 'q:.//b']
SMALL = ['a', 'b', 'c']


def cuts(rng, n, steps): return sorted(rng.randint(0, n) for _ in range(steps - 1)) + [n]


def task(rng, kind, steps):
    d = {'kind': kind, 'steps': steps, 'x': [], 'cuts': [], 'pat': [], 'docs': [], 'calls': [], 'cfg': {'kind': 'raw', 'ns': [], 'em': [], 'am': []}, 'fin': rng.random() < .5, 'how': rng.choice(QUERIES if rng.random() < .6 else QUERIES[-4:])}
    few = rng.random() < .6     # documents much alike show mix-ups less, others fail; have both

    def doc(xml=False):
        names = SMALL if few or xml else gen.NAMES
        while True:
            x = gen.doc(rng, depth=rng.randint(1, 3), fan=2, names=names, xmlsafe=xml).strip() if rng.random() < .8 else rng.choice(['<a>x<b>y</b></a>', '<b k="&lt;"><b>z</b></b>', '<a><b></b><b>1</b></a>'])
            if len(x) < 500: return x
    if kind in ('push', 'frags', 'send'):
        x = doc(kind == 'send')
        if kind == 'push' and rng.random() < .15: x = gen.mutate(rng, x)
        d['x'] = cps(x)
        d['cuts'] = cuts(rng, len(x), steps)
    if kind in ('send', 'sends'): d['pat'] = rng.choice([[{'k': 'deep', 'n': []}, {'k': 'name', 'n': [cps(rng.choice(SMALL))]}], [{'k': 'any', 'n': []}] * 2, pattern.rpat(rng, SMALL)])
    if kind in ('sends', 'build', 'buildu', 'buildx', 'tree', 'query'):
        ds = [doc(kind == 'buildx') for _ in range(steps)]
        if kind in ('build', 'buildu') and rng.random() < .15: ds[rng.randrange(steps)] = gen.mutate(rng, ds[0])
        d['docs'] = [cps(x) for x in ds]
    if kind == 'html': d['docs'] = [cps(html.random_doc(rng)) for _ in range(steps)]
    if kind in ('write', 'writep'):
        calls = []
        while len(calls) < 4: calls = write.rcalls(rng, 2, 3, False)
        d['calls'] = calls
        if kind == 'writep': d['cfg'] = dict(d['cfg'], kind='indent')
        elif rng.random() < .5:
            d['cfg'] = {'kind': 'ns', 'ns': [[cps('x'), cps('urn:x')]], 'em': [[cps(n), cps('x')] for n in rng.sample(write.XNAMES, 5)], 'am': []}
    return d


def together(ctx, rng):
    scs = []
    for b in ctx.pick([(3, 2, 'FALSE'), (2, 2, 'TRUE'), (3, 1, 'TRUE'), (3, 3, 'FALSE')], [(3, 3, 'FALSE'), (2, 3, 'TRUE'), (3, 2, 'TRUE'), (4, 1, 'TRUE'), (4, 2, 'FALSE')]):
        ss = ctx.scenarios('MCConc', MC % b)
        scs.append((b, ss))
    ctx.bounds['schedules'] = ', '.join(f'{len(ss)} of {b[0]} tasks in {b[1]} steps{" within each other" if b[2] == "TRUE" else ""}' for b, ss in scs)
    cases = []
    per = ctx.pick(350, 4000)
    for b, ss in scs:
        for _ in range(per):
            sched = rng.choice(ss)
            mode = rng.choice(['cb', 'cb', 'thread', 'thread']) if b[2] == 'TRUE' else rng.choice(['cb', 'cb', 'cb', 'thread'])
            kinds = KINDS if mode == 'thread' or rng.random() < .5 else CALLING + KINDS
            first = rng.choice(kinds)
            tasks = [task(rng, first if rng.random() < .5 else rng.choice(kinds), b[1]) for _ in range(b[0])]
            # the same entry points, or different ones
            if rng.random() < .4:
                for t in tasks: t['how'] = tasks[0]['how']
            top = rng.choice([5, 30, 100, 300])
            cases.append({'mode': mode, 'tasks': tasks, 'sched': sched, 'lines': [[rng.randint(1, top) for _ in range(b[1])] for _ in range(b[0])] if b[2] == 'TRUE' else [[0] * b[1]] * b[0]})
    ctx.check('drv_conc', 'TrConc', cases, 'work of all kinds by schedules of the specification')


def run(ctx):
    rng = ctx.rng
    lives(ctx, rng)
    streams(ctx, rng)
    together(ctx, rng)


def lives(ctx, rng):
    b = ctx.pick({'e': 3, 't': 1, 'o': 6, 'life': 'TRUE'}, {'e': 3, 't': 2, 'o': 8, 'life': 'TRUE'})
    scs = ctx.scenarios('MCMutate', mutate.MC % b, heap='6g')
    ctx.bounds['specification of lives'] = f'all forests reachable with {b["e"]} elements, {b["t"]} texts of the same value and {b["o"]} operations, among them letting go of and taking hold of nodes'
    total = len(scs)
    want = ctx.pick(3000, 30000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios of lives'] = f'{len(scs)} of {total} (forest, operation) pairs'
    ctx.check('drv_heap', 'TrHeap', [{'ops': s, 'life': True} for s in scs], 'lives of nodes in forests of the specification')
    cases = [{'ops': mutate.random_history(rng, rng.randint(5, 50), True), 'life': True} for _ in range(ctx.pick(800, 8000))]
    ctx.check('drv_heap', 'TrHeap', cases, 'random histories of nodes made in all ways')


STREAM = '''SPECIFICATION Spec
CONSTANTS
  MaxNodes = %d
  MaxDepth = %d
INVARIANT InvHeld
INVARIANT InvBound
CHECK_DEADLOCK FALSE
'''
STREAMPATS = [[{'k': 'any', 'n': []}, {'k': 'name', 'n': [[97]]}], [{'k': 'any', 'n': []}] * 2]


def streams(ctx, rng):
    b = ctx.pick((4, 3), (5, 3))
    scs = ctx.scenarios('MCStream', STREAM % b)
    ctx.bounds['specification of streams'] = 'documents of up to %d elements of 2 names, depth %d, two sinks, any node of a delivery up to the second held, and let go of at any time' % b
    total = len(scs)
    want = ctx.pick(1500, 15000)
    if total > want: scs = rng.sample(scs, want)
    ctx.bounds['scenarios of streams'] = f'{len(scs)} of {total}'
    cases = []

    def add(x, pats, acts):
        kind = rng.choice(['ux', 'xml'])
        cases.append({'x': cps(x), 'pats': pats, 'acts': acts, 'kind': kind, 'cuts': rng.choice([[], pattern.cutpoints(x), sorted(rng.randint(0, len(x)) for _ in range(4))]) if kind == 'xml' else []})
    for s in scs: add(pattern.render(rng, s['evs']), STREAMPATS, s['acts'])
    for _ in range(ctx.pick(500, 5000)):
        x = gen.doc(rng, depth=rng.randint(2, 4), fan=4, names=SMALL, xmlsafe=True).strip()
        if len(x) > 1500: continue
        acts, n = [], 0
        for _ in range(40):
            if n and rng.random() < .3: acts.append({'a': 'drop', 'n': rng.randint(1, n)})
            else:
                acts.append({'a': 'hold', 'n': rng.choice([0, 0, 1, 1, 2, 3, 4, 6])})
                n += 1
        add(x, [pattern.rpat(rng, SMALL, 3) for _ in range(rng.choice([1, 1, 2, 3]))], acts)
    ctx.check('drv_stream', 'TrStream', cases, 'streams of subtrees, some held')
