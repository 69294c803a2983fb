'''
Machinery common to all checks: running TLC, running drivers on the real code,
known findings, replay files and evidence.
'''
import os, sys, json, time, random, re, shutil, subprocess, tempfile, atexit, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UX_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'


class CheckError(Exception):
    '''The machinery failed, so that there is no answer'''
    printed = ()
    evaluation = False      # TLC could not evaluate something


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(f'{prop}/{seed}')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'ux-{prop}-')
        atexit.register(shutil.rmtree, self.scratch, True)
        pkg = os.path.join(self.scratch, 'pkg')
        os.mkdir(pkg)
        os.symlink(os.path.join(REPO, 'pylib'), os.path.join(pkg, 'amara3'))
        self.states = self.transitions = self.validated = 0
        self.parts = []         # what was explored, for the evidence
        self.samples = []
        self.violations = []    # (verdict, case)
        self.known = {}         # tag -> number of times
        self.bounds = {}
        self.mc_runs = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, consts=None, env=None, workers=1, heap='3g', timeout=840, stack='64m', dump_to=None):
        '''
        Run TLC on a module of /verif/spec. cfg: name of config file, or consts: text for one
        Returns the lines printed by PrintT'''
        meta = tempfile.mkdtemp(dir=self.scratch)
        if consts is not None:
            cfgpath = os.path.join(meta, module + '.cfg')
            with open(cfgpath, 'w') as f: f.write(consts)
        else:
            cfgpath = os.path.join(SPEC, cfg or module + '.cfg')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss' + stack, '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC',
               '-metadir', os.path.join(meta, 'states'), '-noGenerateSpecTE', '-workers', str(workers),
               '-config', cfgpath, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        outpath = os.path.join(meta, 'out')
        with open(outpath, 'w') as out:
            try:
                rc = subprocess.call(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
            except subprocess.TimeoutExpired:
                raise CheckError(f'TLC on {module} took too long')
        printed, other = [], []
        with open(outpath, encoding='utf-8', errors='replace') as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('"') and line.endswith('"') and line[1:3] in ('V ', 'SC', 'N '):
                    printed.append(json.loads(line))
                else:
                    other.append(line)
        text = '\n'.join(other)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if rc != 0 or not m:
            if os.environ.get('UX_KEEP'):
                shutil.copytree(meta, os.environ['UX_KEEP'], dirs_exist_ok=True)
            e = CheckError(f'TLC on {module} failed (exit {rc}):\n' + '\n'.join(l for l in other if 'Progress' not in l)[:6000])
            e.printed, e.evaluation = printed, rc == 75
            raise e
        self.transitions += int(m[-1][0].replace(',', ''))
        self.states += int(m[-1][1].replace(',', ''))
        self.mc_runs.append({'module': module, 'generated': int(m[-1][0]), 'distinct': int(m[-1][1])})
        shutil.rmtree(meta, True)
        return printed

    def scenarios(self, module, consts, **kw):
        '''Model checking run of an MC module: its emitted scenarios, and the check of its invariants'''
        kw.setdefault('workers', 1)
        return [json.loads(l[3:]) for l in self.tlc(module, consts=consts, **kw) if l.startswith('SC ')]

    # -------------------------------------------------------------- drivers
    def drive(self, driver, cases, shards=6, timeout=600):
        '''Run cases on the real code. Returns a result for each case (or None where a shard stopped early)'''
        if not cases: return []
        shards = min(shards, max(1, len(cases) // 20))
        results = [None] * len(cases)
        threads = []

        def one(idx):
            todo = idx
            attempts = 0
            while todo and attempts < 4:
                attempts += 1
                d = tempfile.mkdtemp(dir=self.scratch)
                job, out = os.path.join(d, 'job.json'), os.path.join(d, 'out.jsonl')
                with open(job, 'w') as f: json.dump([cases[i] for i in todo], f)
                e = dict(os.environ)
                e.update(UX_SCRATCH=self.scratch, UX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=VERIF)
                e['UX_TMP'] = d
                with open(os.path.join(d, 'log'), 'w') as log:
                    try:
                        subprocess.call([PY, '-m', 'harness.real', driver, job, out], cwd=d, env=e, stdout=log, stderr=log, timeout=timeout, stdin=subprocess.DEVNULL)
                    except subprocess.TimeoutExpired:
                        pass
                got = []
                if os.path.exists(out):
                    for line in open(out):
                        try: got.append(json.loads(line))
                        except ValueError: break
                if not got:
                    self.driver_log = open(os.path.join(d, 'log')).read()[-3000:]
                    return
                got = got[1:]
                for i, r in zip(todo, got): results[i] = r
                hangs = sum(json.dumps(r).count('"hang"') for r in got)
                rest = todo[len(got):]
                if rest and hangs <= 6:
                    # The worker died in this case
                    results[rest[0]] = {'_crash': 'the process died or never came back'}
                    rest = rest[1:]
                    todo = rest
                else:
                    break
                shutil.rmtree(d, True)

        for s in range(shards):
            t = threading.Thread(target=one, args=(list(range(s, len(cases), shards)),))
            t.start()
            threads.append(t)
        for t in threads: t.join()
        if all(r is None for r in results):
            raise CheckError('driver did not run: ' + getattr(self, 'driver_log', '?'))
        return results

    # --------------------------------------------------------------- judging
    def judge(self, module, traces, env=None, workers=6, name=None, batch=20000, **kw):
        '''
        Have TLC judge recorded traces. traces: list of JSON-able dicts. Every one gets a verdict;
        returns the verdicts
        '''
        verdicts = [None] * len(traces)
        texts = [json.dumps(t) for t in traces]
        end = 0
        while end < len(traces):
            # Every worker of TLC reads all of a batch
            start, total = end, 0
            while end < len(traces) and end < start + batch and (total < 8e6 or end == start):
                total += len(texts[end])
                end += 1
            bad = None
            try:
                lines = self.judge_some(module, texts[start:end], env, workers, **kw)
            except CheckError as e:
                if not e.evaluation: raise
                lines, bad = e.printed, e
            for l in lines:
                if l.startswith('V '):
                    _, n, v = l.split(' ', 2)
                    verdicts[start + int(n) - 1] = v
            if not bad: continue
            # There is a trace which the specification can make nothing of: one of the first without a verdict.
            # It counts as a violation; the others are left aside
            rest = [k for k in range(start, end) if verdicts[k] is None]
            for k in rest[:3 * workers]:
                try:
                    verdicts[k] = self.judge_some(module, [texts[k]], env, 1, **kw)[0].split(' ', 2)[2]
                except CheckError as e:
                    if not e.evaluation: raise
                    verdicts[k] = 'senseless'
                    break
            else: raise bad
            verdicts = [v or 'ok:left aside' for v in verdicts]
            break
        missing = [i for i, v in enumerate(verdicts) if v is None]
        if missing:
            raise CheckError(f'{module}: no verdict for {len(missing)} of {len(traces)} traces')
        return verdicts

    def judge_some(self, module, texts, env, workers, **kw):
        path = os.path.join(self.scratch, f'cases-{module}.json')
        with open(path, 'w') as f: f.write('[' + ',\n'.join(texts) + ']')
        try:
            return self.tlc(module, cfg='Trace.cfg', env={'CASES': path, 'PROP': self.prop, **(env or {})}, workers=workers, **kw)
        finally:
            os.unlink(path)

    def check(self, driver, module, cases, what, env=None, post=None, **kw):
        '''Run cases on the real code, have TLC judge what was recorded, collect violations'''
        results = self.drive(driver, cases, **{k: kw.pop(k) for k in ('shards', 'timeout') if k in kw})
        traces, origin = [], []
        skipped = 0
        for case, res in zip(cases, results):
            if res is None:
                skipped += 1
            elif isinstance(res, dict) and res.get('skip') is True:
                pass        # there is no such case
            elif '_crash' in res:
                self.violations.append(('crash: ' + res['_crash'], {'case': case, 'driver': driver}))
            else:
                traces.append(res)
                origin.append(case)
        verdicts = self.judge(module, traces, env=env, **kw) if traces else []
        tags = {}
        for case, trace, v in zip(origin, traces, verdicts):
            tags[v if v.startswith('ok') or v.startswith('known') else 'bad'] = tags.get(v, 0) + 1
            if v == 'ok' or v.startswith('ok:'):
                pass
            elif v.startswith('known:'):
                t = v[6:]
                if t in known_tags(self.prop):
                    self.known[t] = self.known.get(t, 0) + 1
                else:
                    self.violations.append((v, {'case': case, 'trace': trace, 'driver': driver, 'module': module}))
            else:
                self.violations.append((v, {'case': case, 'trace': trace, 'driver': driver, 'module': module}))
        self.validated += len(traces)
        self.parts.append({'what': what, 'cases': len(cases), 'judged': len(traces), 'verdicts': tags, 'not_run': skipped})
        if skipped and not self.violations and not any(json.dumps(r).count('"hang"') for r in results if r):
            raise CheckError(f'{what}: {skipped} cases were not run')
        if traces and len(self.samples) < 12:
            for k in self.rng.sample(range(len(traces)), min(2, len(traces))):
                s = json.dumps(traces[k])
                self.samples.append({'what': what, 'trace': s if len(s) < 1500 else s[:1500] + '...', 'verdict': verdicts[k]})
        return verdicts

    def violation(self, verdict, detail):
        self.violations.append((verdict, detail))

    # ---------------------------------------------------------------- finish
    def finish(self, level='model_checking'):
        for tag, n in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.prop} {tag}: {known_tags(self.prop)[tag]} ({n} cases)')
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for name in os.listdir(rdir):
            if name.startswith(self.prop + '-'): os.unlink(os.path.join(rdir, name))
        seen = set()
        n = 0
        for verdict, detail in self.violations:
            # what comes after # is where in the case
            if verdict.split('#')[0] in seen or n >= 5: continue
            seen.add(verdict.split('#')[0])
            n += 1
            path = os.path.join(rdir, f'{self.prop}-{n}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'verdict': verdict, 'seed': self.seed, 'tier': self.tier, **detail}, f, indent=1)
            print(f'  {verdict[:300]}')
            print(f'VIOLATION property={self.prop} replay={path}')
        edir = os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.validated,
                'explored': self.parts, 'tlc_runs': self.mc_runs, 'bounds': self.bounds,
                'known_findings_seen': self.known, 'violations': len(self.violations),
                'samples': self.samples[:12] or ['none'],
            },
            'wall_s': round(time.time() - self.t0, 1),
        }
        with open(os.path.join(edir, f'{self.prop}.json'), 'w') as f: json.dump(ev, f, indent=1)
        print(f'{self.prop} {self.tier}: {self.validated} traces judged, {self.states} states, {self.transitions} transitions, '
              f'{len(self.violations)} violations, {time.time() - self.t0:.1f} s')
        return 1 if self.violations else 0


_known = None


def known_tags(prop):
    '''Known findings of a property: tag -> description, from known_findings.txt'''
    global _known
    if _known is None:
        _known = {}
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\w+) tag=(\S+) (.*)', line)
                if m: _known.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return _known.get(prop, {})
