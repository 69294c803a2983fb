'''P19: detection of XML'''
import os, subprocess, random
from ..lib import CheckError, REPO, PY

MC = '''SPECIFICATION Spec
CONSTANTS
  Mode = "%s"
  Starts = {%s}
  Bytes = {%s}
  FewBytes = {%s}
  MaxLen = %d
  Chars = {%s}
VIEW MCView
INVARIANT InvTexts
INVARIANT InvDeclared
INVARIANT InvFed
CHECK_DEADLOCK FALSE
'''
STARTS = [0x00, 0x3c, 0x3f, 0x78, 0x6d, 0x4c, 0x6f, 0xa7, 0x94, 0xfe, 0xff, 0xef, 0xbb, 0xbf, 0x20, 0x0a, 0x80, 0xc3, 0xe0, 0xed, 0xf0, 0xf4, 0x41]
BYTES = [0x00, 0x01, 0x09, 0x0a, 0x0d, 0x10, 0x11, 0x1f, 0x20, 0x3b, 0x3c, 0x3d, 0x41, 0x7f, 0x80, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xfe, 0xff]
FEW = [0, 1, 0x10, 0x11, 0x20, 0x3c, 0xd8, 0x0a, 0xff]
CHARS = [0x3c, 0x20, 0x0a, 0x0d, 0x09, 0x41, 0x3f, 0xe9, 0xa0, 0x3000, 0x3c00, 0x203c, 0xfeff, 0x1f600, 0x10ffff, 0x0b, 0x00, 0x85]


def build(ctx):
    lib = os.path.join(ctx.scratch, 'lib')
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--force', '--build-lib', lib, '--build-temp', os.path.join(ctx.scratch, 'temp')],
                       cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode: raise CheckError('the extension does not build: ' + p.stdout.decode(errors='replace')[-2000:])


def nums(s): return ', '.join(map(str, s))


def run(ctx):
    rng = ctx.rng
    build(ctx)
    starts = ctx.pick(STARTS[:19], STARTS)
    inputs = [s['b'] for s in ctx.scenarios('MCDetect', MC % ('bytes', nums(starts), nums(BYTES), nums(FEW), ctx.pick(9, 12), '0'))]
    ctx.bounds['machine'] = f'every transition of the detector, with first four bytes out of {len(starts)}, and after those any byte (UTF-8) or any of {len(BYTES)}: {len(inputs)} inputs'
    n = ctx.pick(2, 3)
    texts = [s['b'] for s in ctx.scenarios('MCDetect', MC % ('texts', '0', '0', '0', n, nums(CHARS)))]
    ctx.bounds['texts'] = f'all texts of up to {n} of {len(CHARS)} characters in five encodings: {len(texts)}'
    want = ctx.pick(60000, 400000)
    if len(inputs) > want: inputs = rng.sample(inputs, want)
    short = [[]] + [[a] for a in range(256)] + [[a, b] for a in STARTS for b in STARTS]
    three = [[a, b, c] for a in STARTS for b in STARTS for c in STARTS]
    short += three if ctx.thorough else [t for t in three if t.count(0) + t.count(0x3c) > 1] + rng.sample(three, 2500)
    more = []
    for _ in range(ctx.pick(4000, 40000)):
        b = list(rng.choice([inputs, texts])[rng.randrange(min(len(inputs), len(texts)))])
        k = rng.random()
        if k < .3: b += list(rng.choice([b'<', b'<a/>', b'  <', b'\0<', b'<\0', b'x', b'\xff']))
        elif k < .5: b = b[:rng.randint(0, len(b))]
        elif k < .7 and b: b[rng.randrange(len(b))] = rng.randrange(256)
        elif k < .8: b = list(rng.choice([b'\xef\xbb\xbf', b'\xff\xfe', b'\xfe\xff', b' ', b'\n\n', b'\t'])) + b
        else: b = list(b' ' * rng.choice([1, 3, 4, 100, 5000]) + rng.choice([b'<a/>', b'x<', b'', b'\xff', '\u3000<'.encode(), '<é'.encode('utf-16'), b'\0<'])) + b[:3]
        more.append(b)

    def cases(bs, size=40): return [{'bs': bs[k:k + size]} for k in range(0, len(bs), size)]
    ctx.check('drv_detect', 'TrDetect', cases(short + inputs), 'transitions of the detector')
    ctx.check('drv_detect', 'TrDetect', cases(texts), 'texts in all encodings')
    ctx.check('drv_detect', 'TrDetect', cases(more), 'other inputs')
    ctx.bounds['inputs'] = len(short) + len(inputs) + len(texts) + len(more)
