"""Build /verif/seeded: each planted bug is applied to /repo, built, tested, its
demonstration run both ways, and undone again.  seed.py [ID ...]"""
import subprocess, sys, os, json, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location('bugs', os.path.join(HERE, 'seedsrc', 'bugs.py'))
bugs = importlib.util.module_from_spec(spec)
spec.loader.exec_module(bugs)
E2E = open(os.path.join(HERE, 'seedsrc', 'e2e.py')).read()
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable_tests']) if 'stable_tests' in json.load(open('/opt/vp/BASELINE.json')) else None


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def restore():
    sh('git -C /repo checkout -- .')


def demo(d):
    try:
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=280)
        return r.returncode, r.stdout[-300:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


bad = 0
for b in bugs.BUGS:
    if len(sys.argv) > 1 and b['id'] not in sys.argv[1:]:
        continue
    if len(sys.argv) == 1 and os.path.exists(os.path.join(V, 'seeded', b['id'], 'patch.diff')):
        continue
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
    path = '/repo/sqpdfo/' + b['file']
    d = '/tmp/seed_' + b['id']
    shutil.rmtree(d, True)
    os.makedirs(d)
    open(d + '/e2e.py', 'w').write(E2E)
    open(d + '/demo.py', 'w').write('from e2e import *\n' + b['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with the repository as working directory\nD=$(cd "$(dirname "$0")" && pwd)\n'
                                    'PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n'
                                    'export OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$D" exec $PY "$D/demo.py"\n')
    json.dump(dict(property=b['p'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    try:
        rc0, o0 = demo(d)
        src = open(path).read()
        ok = True
        for old, new in b['edits']:
            if src.count(old) != b.get('count', 1):
                print(b['id'], 'edit matches', src.count(old), repr(old)); ok = False
            src = src.replace(old, new)
        if not ok:
            bad += 1
            continue
        open(path, 'w').write(src)
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh /tmp/seed_test.json')
        t = json.load(open('/tmp/seed_test.json'))
        passed = set(t.get('passed', []))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable_tests') or base.get('stable') or base.get('passed') or []
        miss = [x for x in stable if x not in passed]
        rc1, o1 = demo(d)
    finally:
        restore()
        sh('bash /opt/vp/build.sh')
    good = rc0 == 0 and rc1 not in (0, 'timeout') and not miss
    print(b['id'], 'OK' if good else 'NOT-OK', 'clean', rc0, 'patched', rc1, 'tests missing', len(miss), '|', (o0 if rc0 else o1).strip().replace('\n', ' ')[-160:], miss[:2], flush=True)
    if good:
        t = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(t, True)
        shutil.copytree(d, t, ignore=shutil.ignore_patterns('__pycache__'))
    else:
        bad += 1
    shutil.rmtree(d, True)
sys.exit(1 if bad else 0)
