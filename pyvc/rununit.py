"""rununit.py PID UNIT OUT: verify one unit against the current source"""
import gc
gc.set_threshold(100000, 50, 100)
import sys, os, json, time, importlib, ast, hashlib, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
from pyvc import core, snp, loader
from pyvc.core import ENG


def main():
    pid, uname, out = sys.argv[1:4]
    t0 = time.time()
    res = dict(pid=pid, unit=uname, status='error', obligations=[], undecided=[], exceptions=[])
    try:
        sp = importlib.import_module('specs.' + pid.lower())
        u = [u for u in sp.UNITS if u.name == uname][0]
        res.update(target=u.target, bound=u.bound, assumes=u.assumes)
        if u.prove_timeout:
            ENG.prove_timeout = u.prove_timeout
        if u.feas_timeout:
            ENG.feas_timeout = u.feas_timeout
        if u.setup:
            u.setup()
        W = loader.World()
        funcs = ENG.funcs = set()
        covers = ENG.covers = {}

        def cover(name='precondition'):
            covers.setdefault(name, False)
            if not covers[name]:
                ENG.solver.set('timeout', 20000)
                r = str(ENG.solver.check())
                ENG.solver.set('timeout', ENG.feas_timeout)
                if r == 'sat':
                    covers[name] = True
                else:
                    covers[name] = covers[name] or ('unknown' if r == 'unknown' else False)
        def body():
            u.body(W, cover)
        ENG.reset_stats()
        budget = float(os.environ.get('PYVC_BUDGET', u.budget))
        r = core.explore(pid + '/' + uname, body, max_paths=u.max_paths, budget=min(budget, u.budget),
                         par=int(os.environ.get('PYVC_PAR', min(u.par, os.cpu_count() or 1))))
        agg = {}
        for o in ENG.obligations:
            a = agg.setdefault(o['name'], dict(name=o['name'], instances=0, proved=0, refuted=0, unknown=0, time=0.0, backends={}))
            a['instances'] += 1
            a[o['result']] += 1
            a['time'] = round(a['time'] + o['time'], 3)
            a['backends'][o['backend']] = a['backends'].get(o['backend'], 0) + 1
            if o['result'] == 'refuted' and ('fail' not in a or a['fail'].get('taint') and not o.get('taint')):
                a['fail'] = {k: o.get(k) for k in ('goal', 'model', 'notes', 'taint', 'info')}
            if o['result'] == 'unknown' and 'unk' not in a:
                a['unk'] = {k: o.get(k) for k in ('goal', 'notes')}
        res['obligations'] = list(agg.values())
        res['undecided'] = sorted(set(r['undecided']))
        res['exceptions'] = sorted(set(r['exceptions']))
        res['covers'] = covers
        res['paths'], res['completed'] = r['paths'], r['completed']
        res['solver_s'] = round(ENG.solver_time, 2)
        res['functions'] = sorted(ENG.funcs)
        n = sum(a['instances'] for a in agg.values())
        res['n'] = n
        res['vacuous'] = [c for c, v in covers.items() if v is False]
        if any(a['refuted'] for a in agg.values()):
            res['status'] = 'refuted'
        elif res['undecided'] or res['exceptions'] or any(a['unknown'] for a in agg.values()) or n == 0 or res['vacuous']:
            res['status'] = 'undecided'
        else:
            res['status'] = 'proved'
    except BaseException as e:
        import traceback
        res['undecided'].append('%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
        res['status'] = 'undecided'
    res['wall'] = round(time.time() - t0, 2)
    json.dump(res, open(out + '.tmp', 'w'), default=str, indent=1)
    os.replace(out + '.tmp', out)


th = threading.Thread(target=main)
th.start()
th.join()
