"""
Shared machinery of the conformance checks.

A check of a property does three things:
  1. TLC model-checks the specification module(s) of the property on small
     exhaustive instances, and lets TLC write out cases (spec-generated inputs).
  2. The real code (imported from /repo's working tree) is driven through those
     cases and through seeded generated ones; every public call is recorded as
     an event (arguments, observable result, exception) of a trace.
  3. TLC validates every trace against the specification.
This module never judges the code: verdicts come from the TLC run in step 3.
"""
import collections, contextlib, json, os, random, re, resource, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself could not do its work (exit 2)."""


class CallTimeout(BaseException):
    pass


class Abort(Exception):
    """Stop driving the code (too many hangs); judge what was recorded."""


def big(n, width=4):
    """An int of up to `width` bytes as little-endian byte list (TLC ints are 32-bit)."""
    return list(int(n).to_bytes(width, 'little', signed=n < 0))


def bts(x):
    """Bytes-like object as list of ints. Anything else is an ill-typed observation."""
    if not isinstance(x, (bytes, bytearray)):
        raise IllTyped(f'expected bytes, got {type(x).__name__}')
    return list(x)


def num(x):
    if isinstance(x, bool) or not isinstance(x, int):
        raise IllTyped(f'expected int, got {type(x).__name__}')
    if not -2**31 < x < 2**31:
        raise IllTyped(f'int out of observable range: {x}')
    return int(x)


def boolean(x):
    if not isinstance(x, bool):
        raise IllTyped(f'expected bool, got {type(x).__name__}')
    return x


def text(x):
    """str as list of code points."""
    if not isinstance(x, str):
        raise IllTyped(f'expected str, got {type(x).__name__}')
    return [ord(c) for c in x]


def opt(x, f):
    """Optional value as a sequence of length 0 or 1."""
    return [] if x is None else [f(x)]


class IllTyped(Exception):
    pass


def limit():
    """Code under test that asks for endless memory gets a MemoryError."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def unlimit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.traces = []
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.runs = []
        self.hangs = 0
        self.trace_module = None
        self.t0 = time.time()
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- driving the code -------------------------------------------------
    def trace(self, name, finding=None):
        t = {'name': name, 'ev': []}
        if finding: t['finding'] = finding
        self.traces.append(t)
        return t

    def call(self, fn, *a, limit=20, **k):
        """Call into the code under test; returns (exception name or '', result)."""
        if self.hangs >= 3: raise Abort
        def onalarm(*_): raise CallTimeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            r = fn(*a, **k)
            signal.setitimer(signal.ITIMER_REAL, 0)
            return '', r
        except CallTimeout:
            self.hangs += 1
            return 'HANG', None
        except IllTyped as e:
            return 'ILLTYPED', str(e)
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            return type(e).__name__, str(e)[:200]
        except SystemExit as e:
            return 'SystemExit', str(e)
        except RecursionError:
            return 'RecursionError', None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=6, heap='6g', args=(), timeout=3000):
        cfg = cfg or module + '.cfg'
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        # only what java needs: TLC prints IOEnv in its error messages
        e = {k: os.environ[k] for k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'JAVA_HOME') if k in os.environ}
        e['CASES'] = os.devnull; e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={meta}',
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + '.tla')]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace', preexec_fn=unlimit)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = re.sub(r'(?m)^(Parsing file|Semantic processing|Running breadth).*\n', '', p.stdout)
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        run = {'module': module, 'config': cfg, 'states_generated': gen, 'distinct_states': dist,
               'wall_s': round(time.time() - t, 2)}
        self.runs.append(run)
        ok = p.returncode == 0 and 'No error has been found' in out
        return ok, out, run

    def model(self, module, cfg=None, **k):
        """Model-check a spec instance; any failure is a fault of the specification."""
        ok, out, run = self.tlc(module, cfg, **k)
        if not ok:
            raise MachineryError(f'model {module} did not pass:\n' + out[-4000:])
        if run['distinct_states'] < 1:
            raise MachineryError(f'model {module} explored nothing:\n' + out[-2000:])
        run['kind'] = 'model'
        return run

    def cases(self, module, cfg=None, **k):
        """Model-check and collect the cases the model writes (CSVWrite of JSON lines)."""
        path = os.path.join(self.scratch, f'cases-{module}-{len(self.runs)}.jsonl')
        run = self.model(module, cfg, env={'CASES': path}, **k)
        out = []
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    c = json.loads(line)
                    out.append(json.loads(c) if isinstance(c, str) else c)
        run['cases_emitted'] = len(out)
        if not out: raise MachineryError(f'{module} emitted no cases')
        # TLC's workers write in any order: make it deterministic
        out.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return out

    def validate(self, module, traces, cfg='Trace.cfg', **k):
        """TLC-validate recorded traces. Returns {index: (step, clause)} of the rejected ones."""
        live = list(range(len(traces)))
        bad = {}
        while live:
            ok, out, run, res = self._validate(module, [traces[i] for i in live], cfg, **k)
            if ok:
                bad.update({live[i]: v for i, v in res.items()})
                return bad
            # TLC could not evaluate the specification on some observation (say, an
            # offset pointing outside the file): that trace has no explanation.
            m = re.search(r'behavior up to this point is:.*?tid = (\d+)', out, re.S) \
                or re.search(r'working on the initial state:.*?tid = (\d+)', out, re.S)
            if not m or len(bad) > 8 or 'arsing or semantic analysis failed' in out:
                raise MachineryError(f'trace validation run {module} failed:\n' + out[-6000:])
            i = live.pop(int(m[1]) - 1)
            s = re.findall(r'\nk = (\d+)|/\\ k = (\d+)', out)
            bad[i] = (int(s[-1][0] or s[-1][1]) + 1 if s else 1, 'observation outside the domain of the specification')
            if os.environ.get('VERIF_DEBUG'): print(out[-3000:])
            if len(bad) >= 4:
                # enough; judge only what was collected so far
                return bad
        return bad

    def _validate(self, module, traces, cfg, **k):
        path = os.path.join(self.scratch, f'trace-{module}-{len(self.runs)}.json')
        with open(path, 'w') as f:
            json.dump([t['ev'] for t in traces], f)
        ok, out, run = self.tlc(module, cfg, env={'TRACE': path}, **k)
        run['kind'] = 'trace-validation'
        if os.environ.get('VERIF_KEEP'): shutil.copy(path, os.environ['VERIF_KEEP'])
        os.unlink(path)
        if not ok: return False, out, run, None
        acc = {int(x) for x in re.findall(r'<<\s*"OK",\s*(\d+)\s*>>', out)}
        bad = {int(a): (int(b), c) for a, b, c in
               re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', re.sub(r'\n\s+', ' ', out))}
        want = set(range(1, len(traces) + 1))
        if acc | set(bad) != want or acc & set(bad):
            raise MachineryError(f'{module}: {len(want - acc - set(bad))} traces without verdict\n' + out[-3000:])
        run['traces'] = len(traces)
        run['events'] = sum(len(t['ev']) for t in traces)
        return True, out, run, {i - 1: v for i, v in bad.items()}

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def known_findings():
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line.strip())
            if m: out[(m[1], m[2])] = m[3]
    return out


def shorten(x, n=1200):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + f'... ({len(s)} chars)'
