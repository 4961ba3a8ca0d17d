#!/usr/bin/env python3
"""check.py PID [quick|thorough]

Decides one property on /repo's current working tree:
  1. every deductive unit of the property (specs/<pid>.py) is regenerated from
     the current source and its obligations are discharged (z3 / nlsat / cvc5);
  2. the property's contract is evaluated on runs of the real code for a fixed
     stream of generated inputs (bounded stand-in for what no unit proves, and
     source of concrete failing inputs).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  2: no answer."""
import sys, os, json, time, subprocess, importlib, tempfile, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
CORES = int(os.environ.get('PYVC_CORES', '0')) or max(1, min(8, os.cpu_count() or 1))
REPOPY = '/opt/venv/bin/python'
from plan import PLAN


def rt_env():
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_CORETYPE='Nehalem', PYTHONDONTWRITEBYTECODE='1',
             PYTHONWARNINGS='ignore', PYTHONPATH=REPO, PYVC_REPO=REPO, PYTHONHASHSEED='0')
    return e


class Pool:
    def __init__(self, n):
        self.n, self.run, self.todo = n, [], []

    def add(self, cmd, timeout, tag, **kw):
        self.todo.append((cmd, timeout, tag, kw))

    def drain(self):
        done = {}
        while self.todo or self.run:
            while self.todo and len(self.run) < self.n:
                cmd, to, tag, kw = self.todo.pop(0)
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, **kw)
                self.run.append((p, time.time() + to, tag))
            for it in list(self.run):
                p, end, tag = it
                if p.poll() is not None:
                    done[tag] = (p.returncode, p.stderr.read().decode('utf8', 'replace')[-500:])
                    self.run.remove(it)
                elif time.time() > end:
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    done[tag] = ('timeout', '')
                    self.run.remove(it)
            time.sleep(0.02)
        return done


def search(pool, tmp, pid, seed, n, budget, tag):
    """queue the run-time search shards"""
    outs = []
    for s in range(CORES):
        d = os.path.join(tmp, '%s%d' % (tag, s))
        os.makedirs(d)
        o = os.path.join(d, 'out.json')
        outs.append(o)
        pool.add([REPOPY, '-W', 'ignore', os.path.join(HERE, 'rt', 'run.py'), pid, str(seed), str(n), str(budget), o,
                  str(s), str(CORES)], budget + 120, (tag, s), cwd=d, env=rt_env())
    return outs


def collect(outs):
    r = dict(ok=0, skip=0, cases=0, bad=[], error=[], kinds={}, samples=[], missing=0, digests=set())
    for o in outs:
        if not os.path.exists(o):
            r['missing'] += 1
            continue
        d = json.load(open(o))
        for k in ('ok', 'skip', 'cases'):
            r[k] += d[k]
        r['bad'] += d['bad']
        r['error'] += d['error']
        r['samples'] += d.get('samples', [])
        r['digests'] |= set(d.get('digests', []))
        for k, v in d['kinds'].items():
            r['kinds'][k] = r['kinds'].get(k, 0) + v
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    plan = PLAN[pid]
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith('replay-%s-' % pid):
            os.unlink(os.path.join(ev, f))
    tmp = tempfile.mkdtemp(prefix='pyvc-')
    try:
        return decide(pid, tier, seed, t0, plan, ev, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, t0, plan, ev, tmp):
    units = []
    if os.path.exists(os.path.join(HERE, 'specs', pid.lower() + '.py')):
        units = [(u.name, u.budget, u.quick, u.par) for u in importlib.import_module('specs.' + pid.lower()).UNITS]
    if tier == 'quick':
        units = [u for u in units if u[2]]
    venv = dict(os.environ, PYVC_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    known = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith('known: property=%s ' % pid):
            known.append(line.split(' ', 2)[2].strip())

    def unknown(bad):
        return [b for b in bad if not any(k.split(' :: ')[0] in b['message'] for k in known)]
    U = []

    def run_units(pool, us, k0):
        for k, (name, budget, q, b) in enumerate(us, k0):
            pool.add([sys.executable, '-O', os.path.join(HERE, 'pyvc', 'rununit.py'), pid, name, os.path.join(tmp, 'u%d.json' % k)],
                     budget + 40, ('unit', name, k), env=dict(venv, PYVC_BUDGET=str(budget)))

    def gather(done):
        for tag, (rc, err) in done.items():
            if tag[0] == 'unit':
                f = os.path.join(tmp, 'u%d.json' % tag[2])
                if os.path.exists(f):
                    U.append(json.load(open(f)))
                else:
                    U.append(dict(unit=tag[1], status='undecided', obligations=[], undecided=['unit process ended: %s %s' % (rc, err)],
                                  exceptions=[], functions=[], solver_s=0, n=0, wall=0))
    pool = Pool(CORES)
    small = sorted([u for u in units if u[3] == 1], key=lambda u: -u[1])
    large = [u for u in units if u[3] > 1]      # use all cores themselves
    run_units(pool, small, 0)
    n, budget = plan['quick'] if tier == 'quick' else plan['thorough']
    outs = search(pool, tmp, pid, seed, n, budget, 'rt')
    gather(pool.drain())
    R = collect(outs)
    for k, u in enumerate(large):
        over = tier == 'quick' and (unknown(R['bad']) or time.time() - t0 > 480)
        if over:
            U.append(dict(unit=u[0], status='undecided', obligations=[], undecided=['not run: ' + ('failing input found' if unknown(R['bad']) else 'time')],
                          exceptions=[], functions=[], solver_s=0, n=0, wall=0))
            continue
        pool = Pool(1)
        left = 640 - (time.time() - t0) if tier == 'quick' else u[1]
        run_units(pool, [(u[0], min(u[1], left), u[2], u[3])], len(small) + k)
        gather(pool.drain())
    U.sort(key=lambda u: u['unit'])
    refuted = [(u, o) for u in U for o in u['obligations'] if o['refuted']]
    if refuted and not R['bad']:
        # look harder for a concrete failing input behind the failed obligation
        pool = Pool(CORES)
        outs2 = search(pool, tmp, pid, seed + 1000003, 3 * n, 120, 'deep')
        pool.drain()
        R2 = collect(outs2)
        for k in ('ok', 'skip', 'cases'):
            R[k] += R2[k]
        R['bad'] += R2['bad']
        R['digests'] |= R2['digests']
    new = []
    hit = []
    for b in sorted(R['bad'], key=lambda b: b['case']):
        m = [k for k in known if k.split(' :: ')[0] in b['message']]
        (hit if m else new).append((b, m))
    for k in sorted({m[0] for _, m in hit}):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    lines = []
    if new:
        b = new[0][0]
        rp = os.path.join(ev, 'replay-%s-%d-%d.json' % (pid, b['seed'], b['case']))
        b = dict(b)
        b['replay_cmd'] = 'cd $(mktemp -d) && PYTHONPATH=%s PYVC_REPO=%s OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem %s -W ignore %s --replay %s' % (
            REPO, REPO, REPOPY, os.path.join(HERE, 'rt', 'run.py'), rp)
        b['failed_obligations'] = ['%s: %s' % (u['unit'], o['name']) for u, o in refuted]
        json.dump(b, open(rp, 'w'), indent=1, default=str)
        print('failing input: case %d (seed %d): %s' % (b['case'], b['seed'], b['message']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif refuted:
        u, o = refuted[0]
        rp = os.path.join(ev, 'replay-%s-obligation.json' % pid)
        json.dump(dict(property=pid, failed_obligations=[dict(unit=u['unit'], target=u.get('target'), obligation=o) for u, o in refuted],
                       searched=R['cases']), open(rp, 'w'), indent=1, default=str)
        print('failed obligation: %s: %s' % (u['unit'], o['name']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    # ---- evidence
    unb = [u for u in U if not u.get('bound')]
    bnd = [u for u in U if u.get('bound')]

    def cnt(us):
        t = sum(o['instances'] for u in us for o in u['obligations'])
        return t, sum(o['proved'] for u in us for o in u['obligations'])
    nob, ndis = cnt(unb)
    nb, db = cnt(bnd)
    undec = [dict(unit=u['unit'], why=(u['undecided'] + u['exceptions'] + [o['name'] for o in u['obligations'] if o['unknown']] +
                                       ['vacuous: %s' % v for v in u.get('vacuous', [])])[:8]) for u in U if u['status'] == 'undecided']
    backends = {}
    for u in U:
        for o in u['obligations']:
            for k, v in o['backends'].items():
                backends[k] = backends.get(k, 0) + v
    trusted = sorted({a for u in U for a in u.get('assumes', [])}) + [
        'z3 4.x (python API), z3 nlsat, cvc5 1.1.2', 'pyvc symbolic executor (source text is the current file; loops cut at sidecar invariants; printing dropped)']
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='python3-vt /verif/pyvc/rununit.py %s <unit> <out.json>' % pid,
        trusted_base=trusted,
        units=[dict(unit=u['unit'], target=u.get('target'), status=u['status'], bound=u.get('bound'), paths=u.get('paths'),
                    completed_paths=u.get('completed'), instances=u.get('n'), solver_s=u.get('solver_s'), wall_s=u.get('wall'),
                    functions=[f for f in u.get('functions', []) if not f.endswith('<module>')],
                    obligations={o['name']: o['proved'] for o in u['obligations']}) for u in U],
        bounded_units_obligations=nb, bounded_units_discharged=db,
        undecided=undec, refuted=['%s: %s' % (u['unit'], o['name']) for u, o in refuted],
        backends=backends, solver_s=round(sum(u.get('solver_s') or 0 for u in U), 2),
        evaluations=R['cases'], distinct_nontrivial=len(R['digests']),
        rule='bounded stand-in on the real code: ' + plan['rule'] + ' Non-trivial: the drawn case satisfies the precondition and the whole contract was evaluated on it; distinct: by digest of the generated input stream.',
        samples=R['samples'][:4] or [dict(property=pid, seed=seed, case=0)], kinds=R['kinds'], skipped=R['skip'], harness_errors=R['error'][:5])
    rep = dict(property=pid, tier=tier, seed=seed, level=plan['level'], coverage=cov,
               assumptions=sorted(set(plan.get('assumptions', []) + trusted)), wall_s=round(time.time() - t0, 2), violations=len(lines))
    path = os.path.join(ev, pid + '.json')
    json.dump(rep, open(path + '.tmp', 'w'), indent=1, default=str)
    os.replace(path + '.tmp', path)
    print('%s %s: units %d (proved %d, undecided %d, refuted %d); obligations %d/%d unbounded, %d/%d bounded; run-time cases %d (ok %d, skipped %d); %.1fs' % (
        pid, tier, len(U), sum(u['status'] == 'proved' for u in U), len(undec), sum(u['status'] == 'refuted' for u in U), ndis, nob, db, nb,
        R['cases'], R['ok'], R['skip'], time.time() - t0))
    for d in undec:
        print('undecided unit %s: %s' % (d['unit'], '; '.join(map(str, d['why']))[:300]))
    if lines:
        print(lines[0])
        return 1
    if R['error']:
        print('harness errors: ' + R['error'][0][:400])
        return 2
    if R['missing'] or R['ok'] == 0:
        print('run-time search gave no result (%d shards missing)' % R['missing'])
        return 2
    return 0


sys.exit(main())
