'''Driver: invocations of the command line tool, in this process but as if run from a shell'''
import contextlib, io, os, re, runpy, sys, shutil, tempfile, urllib.request
from .real import attempt, codes, uncodes, REPO
from .drv_html import dump
from .trees import order
from . import xprender
from xml.sax.saxutils import escape, quoteattr

from amara3.uxml import html5

TOOL = os.path.join(REPO, 'exec', 'microx')


class Out(io.StringIO):
    'Standard output, which the tool closes'
    def close(self): pass


def xml(h, i=1):
    'The document, written without any help from the code under test'
    nd = h[i - 1]
    if nd['k'] == 'T': return escape(uncodes(nd['t']))
    n = uncodes(nd['n'])
    atts = ''.join(' %s=%s' % (uncodes(k), quoteattr(uncodes(v))) for k, v in nd['a'])
    return f'<{n}{atts}>' + ''.join(xml(h, c) for c in nd['c']) + f'</{n}>'


def sayable(nd):
    'Whether a node which HTML parsing has made can be written as markup'
    if not isinstance(nd, html5.element): return not re.search('[\0-\x08\x0b-\x1f\ufffe\uffff]', nd.xml_value)
    return all(re.fullmatch('[A-Za-z_][-A-Za-z0-9_.]*', n) and n != 'xmlns' for n in [nd.xml_name] + list(nd.xml_attributes)) and \
        not any(re.search('[\0-\x08\x0b-\x1f\ufffe\uffff]', v) for v in nd.xml_attributes.values())


def invoke(argv):
    out, err = Out(), Out()
    saved = sys.argv
    sys.argv = [TOOL] + argv
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(TOOL, run_name='__main__')
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception:
        code = 1
    finally: sys.argv = saved
    return code, out.getvalue()


def run(case):
    d = tempfile.mkdtemp(dir=os.environ['UX_TMP'])
    here = os.getcwd()
    os.chdir(d)
    try: return work(case, d)
    finally:
        os.chdir(here)
        shutil.rmtree(d, True)


def work(case, d):
    way = case.get('way', {})
    argv, srcs, ok = [], [], True
    for k, s in enumerate(case['srcs']):
        name = way.get('names', ['s%d.xml'] * 9)[k] % k
        if isinstance(s, dict):     # text, parsed by the library
            text = uncodes(s['x'])
            f = html5.parse if s['mode'] == 'html' else html5.parse_lax_xml
            out, top = attempt(f, text)
            if out != 'ok' or not isinstance(top, html5.element): return {'skip': True}
            if not all(sayable(e) for e in order(top)): return {'skip': True}
            srcs.append([{q: r[q] for q in 'knatpc'} for r in dump(top)])
        else:
            srcs.append(s)
            text = way.get('decl', '') + xml(s) + way.get('tail', '')
            if way.get('broken') == k:
                text, ok = text[:-1 - len(way.get('tail', ''))], False
        enc = 'utf-8' if isinstance(s, dict) else way.get('enc', 'utf-8')
        # XML says itself what its encoding is
        if enc in ('iso-8859-1', 'us-ascii'): text = f'<?xml version="1.0" encoding="{enc}"?>' + xml(s) + (way.get('tail', '') if ok else '<')
        with open(name, 'wb') as f: f.write(text.encode(enc, 'xmlcharrefreplace'))
        argv.append('file://' + urllib.request.pathname2url(os.path.join(d, name)) if way.get('url') == k else name)
    opts = []
    try:
        if case['cmd'] == 'find': opts.append(['--find-text', uncodes(case['txt'])])
        else: opts.append(['--' + case['cmd'], xprender.render(case['e'], 0)])
        if case['f']['o'] != 'none': opts.append(['--foreach', xprender.render(case['f'], 0)])
    except xprender.CantSay: return {'skip': True}
    if case['part']: opts.append(['--partition', uncodes(case['part'])])
    if case['atts']: opts.append(['--show-attrs', ','.join(map(uncodes, case['atts']))])
    if case.get('limit'): opts.append(['--limit', str(case['limit'])])
    if way.get('mode'): opts.append(['--' + way['mode'], None])
    if way.get('out'): opts.append(['-o', 'result.txt'])
    flat = []
    for o, v in opts:
        if v is None: flat.append(o)
        elif o.startswith('--'): flat.append(o + '=' + v)
        else: flat += [o, v]
    argv = flat + argv if way.get('first') else argv + flat
    outcome, r = attempt(invoke, argv, seconds=60)
    if outcome == 'hang': code, out = 1000, ''
    elif outcome == 'err': code, out = 1, ''
    else: code, out = r
    if way.get('out'):
        stray = out
        try: out = open('result.txt', encoding='utf-8').read()
        except OSError: out = ''
        out = stray + out
    return {'srcs': srcs, 'cmd': case['cmd'], 'e': case['e'], 'f': case['f'], 'part': case['part'], 'txt': case['txt'], 'atts': case['atts'], 'limit': case.get('limit', 0), 'ok': ok,
            'code': code, 'out': codes(out), 'argv': argv}
