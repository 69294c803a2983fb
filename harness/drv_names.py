'''Driver: namespaces gathered while XML is parsed, and written again'''
import io
import xml.parsers.expat
from .real import Pieces, attempt, codes
from .drv_pattern import pattern

from amara3.uxml import parser as P, writer, xml as uxml, xmliter


def pairs(m):
    return sorted([codes(k or ''), codes(v)] for k, v in m.items() if v)


KINDS = {P.event.start_element: 'S', P.event.end_element: 'E', P.event.characters: 'T'}


def expanded(text):
    '''Events of a document, with names as namespace & local name'''
    evs = []

    def name(n): return ([], codes(n)) if ' ' not in n else tuple(codes(x) for x in n.rsplit(' ', 1))

    def ev(k, u=(), n=(), a=(), t=()):
        if k == 'T' and evs and evs[-1]['k'] == 'T': evs[-1]['t'] += t
        else: evs.append({'k': k, 'u': list(u), 'n': list(n), 'a': [list(x) for x in a], 't': list(t)})
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
    p.StartElementHandler = lambda n, a: ev('S', *name(n), [[*name(k), codes(v)] for k, v in a.items()])
    p.EndElementHandler = lambda n: ev('E', *name(n))
    p.CharacterDataHandler = lambda t: ev('T', t=codes(t))
    p.Parse(text, True)
    return evs


def run(case):
    data = case['x'].encode('utf-8') if case['bytes'] else case['x']
    res = {k: case[k] for k in ('items', 'stream', 'how', 'pat')}
    res.update(obs=[], dobs=[], cum=[], rev=[], port=[], w='none', x=[])
    made = []

    def callbacks(h):
        kw = {'stream': True} if case['stream'] else {}
        made.append(uxml.ns_expat_callbacks(h, **kw))
        return made[-1]

    def handler():
        while True:
            ev = yield
            o = [KINDS.get(ev[0], 'X'), pairs(made[0].prefixes) if case['stream'] else []]
            if not (o[0] == 'T' and res['obs'] and res['obs'][-1] == o): res['obs'].append(o)

    def sink():
        while True:
            e = yield
            res['dobs'].append(pairs(made[0].prefixes) if case['stream'] else [])
            roots.append(e)

    roots = []

    def go():
        if case['how'] == 'events':
            cb = callbacks(handler())
            p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
            p.StartElementHandler = cb.start_element
            p.EndElementHandler = cb.end_element
            p.CharacterDataHandler = cb.char_data
            p.StartNamespaceDeclHandler = cb.start_namespace
            p.EndNamespaceDeclHandler = cb.end_namespace
            p.Parse(data, True)
        else:
            ts = xmliter.sender([pattern(case['pat'])], [sink()], callbacks=callbacks)
            if case['file']: ts.parse_file(Pieces(case['x'].encode('utf-8')))
            else:
                pos = [0] + [c * len(data) // 1000 for c in case['cuts']] + [len(data)]
                for a, b in zip(pos, pos[1:]): ts.parse(data[a:b])
    res['out'], _ = attempt(go)
    if not made: return res
    cb = made[0]
    res['cum'] = pairs(cb.prefixes)
    if not case['stream']:
        res['rev'] = sorted([codes(k or ''), codes(v or '')] for k, v in cb.prefixes_rev.items())
        res['port'] = sorted([k.startswith('@'), codes(k[1:] if k.startswith('@') else k), codes(v[0] or ''), codes(v[1] or '')] for k, v in cb.ns_portfolio.items())
        if case['how'] == 'deliver' and len(case['pat']) == 1 and case['pat'][0]['k'] == 'any' and len(roots) == 1:
            fp = io.StringIO()
            res['w'], _ = attempt(lambda: writer.write(roots[0], writer.namespacer(fp, prefixes=cb.prefixes, mapping=cb.ns_portfolio)))
            res['text'] = fp.getvalue()
            if res['w'] == 'ok':
                w, evs = attempt(lambda: expanded(res['text']))
                if w == 'ok': res['x'] = evs
                else: res['w'] = 'unreadable'
    return res
