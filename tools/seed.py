#!/usr/bin/env python3
"""tools/seed.py FILE.py [ID...]: plant the bugs described in FILE.py (list SEEDS of dicts id, prop, edits [(file, old, new)],
demo (python source), needs, what) as /verif/seeded/<id>, after checking in a scratch copy that the demonstration passes
without and fails with the change and that the stable tests pass.  tools/seed.py --check [ID...]: run the checks on them."""
import sys, os, subprocess, shutil, json, runpy, tempfile, concurrent.futures as cf
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
           PYTHONHASHSEED='0', RAY_USAGE_STATS_ENABLED='0', OMP_NUM_THREADS='1')
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


import queue
CORES = queue.Queue()
for _k in (os.environ.get('CORES') or '2,3,4,5,6,7').split(','):
    CORES.put(_k)


def sh(cmd, cwd, t=900, env=ENV):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, 'timeout', 'timeout')


def copy(name):
    d = tempfile.mkdtemp(prefix='seed_%s_' % name) + '/repo'
    subprocess.run(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])
    return d


def plant(s):
    d = copy(s['id'])
    try:
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'edit matches %d times: %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], d).stdout
        o = os.path.join(V, s['id'])
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + s['demo'].lstrip('\n'))
        open(o + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(o + '/meta.json', 'w'), indent=1)
        clean = sh(['bash', o + '/demo.sh'], os.environ.get('VERIF_REPO', '/repo'), 300)
        if clean.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree: ' + (clean.stdout + clean.stderr)[-600:]
        bad = sh(['bash', o + '/demo.sh'], d, 300)
        if bad.returncode == 0:
            return s['id'], 'demo passes with the change'
        core = CORES.get()
        try:
          r = sh(['taskset', '-c', core, PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '--tb=line', '--timeout=300', '--continue-on-collection-errors',
                '-o', 'python_files=test_*.py tests_stats.py big_data_tests.py', '--ignore=tests/test_boosters.py', '--ignore=tests/test_models.py',
                '--ignore=tests/test_nns.py', 'tests'], d, 1500)
        finally:
          CORES.put(core)
        last = [l for l in r.stdout.strip().split('\n') if l.strip()][-1:]
        if 'failed' in r.stdout.split('\n')[-2] + str(last) or r.returncode:
            return s['id'], 'tests: %s' % r.stdout[-800:]
        return s['id'], 'ok  %s  demo: %s' % (last, (bad.stdout + bad.stderr).strip().split('\n')[-1][:140])
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


def check(i):
    meta = json.load(open(os.path.join(V, i, 'meta.json')))
    d = copy(i)
    try:
        r = sh(['git', 'apply', os.path.join(V, i, 'patch.diff')], d)
        if r.returncode:
            return i, meta['property'], 'patch does not apply', ''
        env = dict(ENV, VERIF_REPO=d, VERIF_MAXV='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        r = sh([PY, os.path.join(os.path.dirname(V), 'check.py'), meta['property']], os.path.dirname(V), 1200, env)
        v = [l for l in r.stdout.split('\n') if 'rejected' in l or 'raised' in l or 'VIOLATION' in l]
        ok = r.returncode == 1 and any('VIOLATION property=%s ' % meta['property'] in l for l in r.stdout.split('\n'))
        return i, meta['property'], 'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode, (v[0] if v else r.stdout[-300:])[:170]
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


if sys.argv[1] == '--check':
    ids = sys.argv[2:] or sorted(os.listdir(V))
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex:
        for r in ex.map(check, ids):
            print(*r, sep='  ', flush=True)
else:
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    seeds = [s for s in seeds if len(sys.argv) == 2 or s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for r in ex.map(plant, seeds):
            print(*r, flush=True)
