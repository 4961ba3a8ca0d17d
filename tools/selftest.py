"""Engine self-test: correct bodies verify, deliberately broken ones are refuted."""
import sys, os, shutil, tempfile, subprocess, json
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
BREAK = [
    ('P17', 'projgrad/finite', 'bcdfo_projgrad.py', [('gnorm=max_(gnorm', 'gnorm=min_(gnorm')]),
    ('P17', 'projgrad/extended', 'bcdfo_projgrad.py', [('if gi < 0.0', 'if gi < 0.5')]),
]


def run(pid, unit, repo):
    fd, o = tempfile.mkstemp()
    os.close(fd)
    subprocess.run([sys.executable, os.path.join(here, 'pyvc', 'rununit.py'), pid, unit, o], env=dict(os.environ, PYVC_REPO=repo), stdout=subprocess.DEVNULL)
    d = json.load(open(o))
    os.unlink(o)
    return d


def main():
    bad = 0
    for pid, unit, f, subs in BREAK:
        tmp = tempfile.mkdtemp(prefix='pyvc-self-')
        try:
            shutil.copytree(os.path.join(REPO, 'sqpdfo'), os.path.join(tmp, 'sqpdfo'), ignore=shutil.ignore_patterns('__pycache__'))
            p = os.path.join(tmp, 'sqpdfo', f)
            s = open(p).read()
            if any(a not in s for a, b in subs):
                print('selftest: %s: pattern not in the current source (skipped)' % unit)
                continue
            for a, b in subs:
                s = s.replace(a, b)
            open(p, 'w').write(s)
            d = run(pid, unit, tmp)
            ok = d['status'] != 'proved'
            print('selftest broken %s %s -> %s %s' % (pid, unit, d['status'], 'ok' if ok else 'NOT DETECTED'))
            bad += not ok
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
