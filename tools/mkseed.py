"""mkseed.py [ID...]: write /verif/seeded/<id>/ from the table below and confirm each entry in a scratch copy."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = '719a452'
SEEDS = {}
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import numpy as np
np.random.seed(7)

def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)

def close(a, b, what, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol), what)

def rejected(f, what, exc=Exception):
    try:
        f()
    except exc:
        return
    check(False, what + ' was accepted')

'''


def seed(id, prop, file, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, file=file, edits=edits if isinstance(edits, list) else [edits], needs=needs, breaks=breaks, demo=demo)


exec(open(os.path.join(HERE, 'seeds.py')).read())


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def make(id):
    s = SEEDS[id]
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        run('cp -a /repo %s' % r, '/')
        run('git checkout -q -- .', r)
        for e in s['edits']:
            f, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return id, 'OLD TEXT FOUND %d TIMES' % t.count(old)
            open(p, 'w').write(t.replace(old, new))
        diff = run('git diff', r).stdout
        # only original lines may be changed
        for f in run('git diff --name-only', r).stdout.split():
            blame = run('git blame -s HEAD -- %s' % f, r).stdout.split('\n')
            n = None
            for l in run('git diff -U0 %s' % f, r).stdout.split('\n'):
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, c = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + c):
                        if not blame[i - 1].lstrip('^').startswith(BASE):
                            return id, 'CHANGES A LINE OF A FIX: ' + blame[i - 1]
        dst = os.path.join(OUT, id)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dst, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + "\nprint('ok')\n")
        open(os.path.join(dst, 'demo.sh'), 'w').write('#!/bin/sh\nPY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\nexec $PY "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        a = run('sh %s/demo.sh' % dst, r, env=env)
        t = run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', r, env=env)
        run('git checkout -q -- .', r)
        b = run('sh %s/demo.sh' % dst, r, env=env)
        tests = t.stdout.strip().split('\n')[-1]
        v = 'ok'
        if b.returncode != 0:
            v = 'DEMO FAILS ON CLEAN: ' + (b.stdout + b.stderr)[-300:]
        elif a.returncode == 0:
            v = 'DEMO PASSES WITH PATCH'
        elif 'failed' in tests or 'error' in tests or 'passed' not in tests:
            v = 'TESTS: ' + tests
        if v != 'ok':
            shutil.rmtree(dst)
        return id, v + ('' if v != 'ok' or 'FAILED' in a.stdout else ' (demo: %s)' % a.stderr.strip().split('\n')[-1])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(SEEDS)
    with ThreadPoolExecutor(6) as ex:
        for id, v in ex.map(make, ids):
            print(id, v, flush=True)
