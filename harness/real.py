'''
Environment for running the real code in a worker process.

Everything under test is imported from /repo's working tree through the same
package path the test suite uses; no build product is needed for the Python
modules. PLY is kept from writing or reading parse tables in /repo.
'''
import io, os, sys, signal, resource, json, traceback, gc

REPO = os.environ.get('UX_REPO', '/repo')
SCRATCH = os.environ.get('UX_SCRATCH', '/tmp')


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def setup():
    sys.dont_write_bytecode = True
    # amara3.uxml from the working tree: a package path directory with a link
    pkg = os.path.join(SCRATCH, 'pkg')
    if pkg not in sys.path:
        sys.path.insert(0, pkg)
    lib = os.path.join(SCRATCH, 'lib')      # extensions, if the check has built them
    if os.path.isdir(lib): sys.path.insert(0, lib)
    import ply.yacc
    orig = ply.yacc.yacc

    def yacc(*args, **kw):
        kw['write_tables'] = False
        kw['debug'] = False
        kw['tabmodule'] = 'ux_no_such_parsetab'
        kw['errorlog'] = ply.yacc.NullLogger()
        return orig(*args, **kw)
    ply.yacc.yacc = yacc
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGALRM, _alarm)


class guard:
    '''Context manager: Hang is raised inside if the block takes too long.'''
    def __init__(self, seconds=5.0):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)


def attempt(func, *args, seconds=5.0):
    '''Returns (outcome, value): ("ok", result), ("err", None), ("hang", None)'''
    try:
        with guard(seconds):
            return 'ok', func(*args)
    except Hang:
        return 'hang', None
    except (Exception, GeneratorExit):
        return 'err', None


def codes(s):
    '''Text as code points. Anything which is not text is shown as such: [-1, ...]'''
    if not isinstance(s, str):
        return [-1] + [ord(c) for c in repr(type(s))[:60]]
    return [ord(c) for c in str.__str__(s)] if type(s) is str else list(map(ord, str.__getitem__(s, slice(None))))


def uncodes(cs):
    return ''.join(map(chr, cs))


class Pieces(io.BytesIO):
    '''A file which, like pipes and sockets, may deliver less than it is asked for'''
    def __init__(self, data, most=None):
        io.BytesIO.__init__(self, data)
        self.most = most or [1 << 20, 1, 7, 100][len(data) % 4]

    def read(self, size=-1):
        # Without a size it's everything
        return io.BytesIO.read(self, min(size, self.most) if size is not None and size >= 0 else -1)

    def read1(self, size=-1): return io.BytesIO.read(self, self.most if size is None or size < 0 else min(size, self.most))

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


def worker_main():
    '''python -m harness.real DRIVER JOBFILE OUTFILE: one JSON result line per case'''
    import importlib
    setup()
    name, jobfile, outfile = sys.argv[1:4]
    cases = json.load(open(jobfile))
    drv = importlib.import_module('harness.' + name)
    hangs = 0
    with open(outfile, 'w') as out:
        print(json.dumps({'_start': True}), file=out, flush=True)
        for case in cases:
            try:
                res = drv.run(case)
            except Hang:
                res = {'_crash': 'hang in driver'}
            except Exception:
                res = {'_crash': traceback.format_exc()[-2000:]}
            hangs += json.dumps(res).count('"hang"')
            print(json.dumps(res), file=out, flush=True)
            if hangs > 6:
                break   # Enough to report; hanging costs time
    return


if __name__ == '__main__':
    worker_main()
