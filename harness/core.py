"""Shared machinery of the checks: environment, TLC runs, verdict collection, evidence, violations."""
import os, sys, json, time, shutil, subprocess, tempfile, re, hashlib, threading, traceback

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for k, v in dict(MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                 RAY_USAGE_STATS_ENABLED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                 TQDM_DISABLE='1', PYTHONWARNINGS='ignore').items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, REPO)

TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NA = -1000000000          # "missing" in the specs
BAD = -999999999          # "not a representable value": equals nothing a spec computes


class MachineryError(Exception):
    pass


def enc(v, scale=1, tol=1e-6):
    """project a float onto the spec's integers: v*scale must be an integer (up to tol)"""
    import math
    try:
        v = float(v)
    except Exception:
        return BAD
    if math.isnan(v):
        return NA
    if math.isinf(v):
        return BAD
    s = v * scale
    r = round(s)
    if abs(s - r) > tol * max(1.0, abs(s)) or abs(r) > 2 ** 31 - 2000:
        return BAD
    return int(r)


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or '1')
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # (key, message, payload)
        self.assumptions = []
        self.known = load_known(pid)
        self.seen_known = {}
        self._procs = []
        self._lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 8)

    def rng(self, *salt):
        import numpy as np
        h = hashlib.sha256(repr((self.seed, self.pid) + salt).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=2, simulate=None, depth=None, timeout=800, heap='3g', extra=()):
        """run TLC; returns (returncode, output)"""
        meta = tempfile.mkdtemp(prefix='meta_', dir=self.scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta, '-cp', TLA_CP, 'tlc2.TLC',
               '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(self.seed)]
        if depth:
            cmd += ['-depth', str(depth)]
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def _count(self, out):
        m = re.findall(r'(\d[\d,]*) states generated[^\n]*?(\d[\d,]*) distinct states found', out)
        if not m:
            raise MachineryError('no state count in TLC output:\n' + out[-3000:])
        g, d = [int(a.replace(',', '')) for a in m[-1]]
        with self._lock:
            self.transitions += g
            self.states += d
        return g, d

    def design(self, module, cfg=None, must_cover=(), workers=4, env=None, timeout=600):
        """exhaustive model check of the specification itself"""
        cfg = cfg or module.replace('.tla', '.cfg')
        rc, out = self.tlc(module, cfg, workers=workers, env=env, timeout=timeout, extra=['-coverage', '1'] if must_cover else [])
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('the specification %s/%s does not hold:\n%s' % (module, cfg, out[-6000:]))
        g, d = self._count(out)
        for a in must_cover:
            m = re.findall(r'<%s line[^>]*>: (\d+):(\d+)' % a, out)
            if not m or int(m[-1][1]) == 0:
                raise MachineryError('action %s of %s is never taken' % (a, module))
        self.notes.setdefault('design_models', []).append({'module': module, 'config': cfg, 'states': d, 'transitions': g})
        return out

    def behaviours(self, module, cfg=None, env=None, simulate=None, depth=None, workers=1, limit=None):
        """run TLC on a generator spec which prints BEH <json> for each complete behaviour"""
        cfg = cfg or module.replace('.tla', '.cfg')
        rc, out = self.tlc(module, cfg, env=env, simulate=simulate, depth=depth, workers=workers)
        if 'BEH' not in out or (rc != 0):
            raise MachineryError('behaviour generation %s failed (%s):\n%s' % (module, rc, out[-4000:]))
        if not simulate:
            self._count(out)
        res, seen = [], set()
        for m in re.finditer(r'<<\s*"BEH",\s*"(.*)"\s*>>', out):
            s = m.group(1).encode().decode('unicode_escape')
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        self.notes.setdefault('generated_behaviours', []).append({'module': module, 'config': cfg, 'count': len(res)})
        if limit and len(res) > limit:
            idx = self.rng('beh', module, cfg).permutation(len(res))[:limit]
            res = [res[i] for i in sorted(idx)]
        return res

    def validate(self, module, traces, cfg=None, shards=4, workers=1, env=None, keyfn=None, timeout=850):
        """Trace validation. traces: list of {"id":..., "ev":[...], ...}. Every trace must be consumed completely or
        rejected at a named clause. Rejections become violations."""
        if not traces:
            return []
        cfg = cfg or module.replace('.tla', '.cfg')
        shards = max(1, min(shards, len(traces)))
        parts = [traces[i::shards] for i in range(shards)]
        results, errs = [None] * shards, []

        def run(i):
            try:
                path = os.path.join(self.scratch, 'trace_%s_%d_%d.json' % (module.replace('.tla', ''), len(self.samples), i))
                path = '%s_%d' % (path, time.time_ns())
                e = {'TRACE_FILE': path}
                e.update(env or {})
                early = {}
                for _ in range(4):
                    live = [t for k, t in enumerate(parts[i]) if k + 1 not in early]
                    with open(path, 'w') as f:
                        json.dump([{k: v for k, v in t.items() if not k.startswith('_')} for t in live], f)
                    rc, out = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout)
                    # a missing or huge number, or another shape, where the specification computes with a value: not one it allows
                    cause = 'Overflow when computing' in out and 'a recorded number is missing or out of all bounds'
                    if not cause and re.search('Attempted to|The error occurred when TLC was evaluating', out) and not re.search('OutOfMemory|StackOverflow|heap space', out):
                        cause = 'recorded values do not have the shape which the specification demands'
                    over = re.findall(r'/\\ tid = (\d+)', out) if rc != 0 and cause else []
                    if not over:
                        break
                    k = [k + 1 for k in range(len(parts[i])) if k + 1 not in early][int(over[-1]) - 1]
                    lv = re.findall(r'/\\ l = (\d+)', out)
                    early[k] = (int(lv[-1]) if lv else 1, cause)
                    if len(live) == 1 or len(early) == 3:
                        results[i] = early
                        return
                if early and rc == 0:
                    left = [k + 1 for k in range(len(parts[i])) if k + 1 not in early]
                    self._count(out)
                    ver = {left[int(a) - 1]: (int(b), c) for a, b, c in re.findall(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)}
                    results[i] = {**ver, **early}
                    os.unlink(path)
                    return
                if rc != 0:
                    raise MachineryError('TLC failed on %s (rc %s):\n%s' % (module, rc, out[-6000:]))
                self._count(out)
                done = set(int(a) for a in re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out))
                ver = {int(a): (int(b), c) for a, b, c in re.findall(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)}
                if done | set(ver) != set(range(1, len(parts[i]) + 1)) or done & set(ver):
                    raise MachineryError('some traces were neither accepted nor rejected by %s:\n%s' % (module, out[-4000:]))
                if os.environ.get('VERIF_DEBUG'):
                    print('\n'.join(re.sub(r'\s+', ' ', a) for a in re.findall(r'^<<\s*"INFO"(?:.|\n)*?>> >>$|^<<\s*"VERDICT"(?:.|\n)*?>>$', out, re.M))[:6000])
                results[i] = ver
                os.unlink(path)
            except BaseException as ex:
                errs.append(ex)
        th = [threading.Thread(target=run, args=(i,)) for i in range(shards)]
        [t.start() for t in th]
        [t.join() for t in th]
        if errs:
            raise errs[0]
        rej = []
        for i in range(shards):
            for tid, (step, clause) in results[i].items():
                rej.append((parts[i][tid - 1], step, clause))
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        if len(self.samples) < 4:
            t = traces[len(traces) // 2]
            self.samples.append(clip({k: v for k, v in t.items() if not k.startswith('_')}))
        for t, step, clause in rej:
            key = keyfn(t, step, clause) if keyfn else None
            self.violation('%s: event %d of trace %s rejected: %s' % (module, step, t.get('id'), clause),
                           {'module': module, 'cfg': cfg, 'step': step, 'clause': clause, 'trace': t}, key=key or clause)
        return rej

    # ---------------------------------------------------------------- results
    def violation(self, msg, payload=None, key=None):
        for k in self.known:
            if key is not None and key == k.get('key'):
                self.seen_known.setdefault(k['key'], k)
                return
        self.violations.append((key, msg, payload))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(clip(s))

    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'events_validated': self.events,
                           'samples': self.samples or ['none'], **self.notes},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            if k['key'] in self.seen_known or not k.get('must_see', True):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            rd = os.path.join(VERIF, 'out', 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (key, msg, payload) in enumerate(self.violations[:int(os.environ.get("VERIF_MAXV", "5"))]):
                path = os.path.join(rd, '%s_%d.json' % (self.pid, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'message': msg, 'payload': payload}, f, indent=1, default=str)
                print('  ' + msg[:1500])
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('%d violations in total' % len(self.violations))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' %
              (self.pid, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 0


def clip(o, n=40, depth=0):
    if isinstance(o, dict):
        return {k: clip(v, n, depth + 1) for k, v in list(o.items())[:n]}
    if isinstance(o, (list, tuple)):
        r = [clip(v, n, depth + 1) for v in list(o)[:(12 if depth > 1 else 25)]]
        return r + (['... %d more' % (len(o) - len(r))] if len(o) > len(r) else [])
    return o


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    r.append(d)
    return r


def _quiet():
    sys.stdout = open(os.devnull, "w")        # what the code under test prints is of no interest


def pmap(fn, items, procs=8):
    """map over items in forked worker processes (fn must be a module-level function or closure; results picklable)"""
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [fn(i) for i in items]
    from concurrent.futures import ProcessPoolExecutor     # its workers may have children themselves
    global _FN
    _FN = fn
    with ProcessPoolExecutor(min(procs, len(items)), mp_context=mp.get_context("fork"), initializer=_quiet) as pool:
        return list(pool.map(_call, items, chunksize=max(1, len(items) // (4 * procs))))


def _call(i):
    return _FN(i)
