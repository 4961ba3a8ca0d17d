"""run.py PROP SEED NCASES BUDGET OUT [START STEP]   search
   run.py --replay FILE                             re-run one case
Case k of property PROP is generated from (PROP, SEED, k) alone."""
import sys, json, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
import numpy as np
from common import Skip, Bad, REPO
import checks


class Rec:
    """generator proxy that writes down what was drawn (samples in the evidence)"""
    def __init__(self, rng, log):
        self._r, self._log = rng, log

    def __getattr__(self, n):
        f = getattr(self._r, n)
        if not callable(f) or n == 'spawn':
            return f

        def g(*a, **k):
            v = f(*a, **k)
            if len(self._log) < 40:
                self._log.append('%s%s -> %s' % (n, str(a)[:60], np.array2string(np.asarray(v), precision=6, threshold=12)[:160]))
            return v
        return g


def one(prop, seed, k, log=None):
    """None | message; plus a description of the case"""
    gen = np.random.default_rng([int(prop[1:]), seed, k])
    rng = gen if log is None else Rec(gen, log)
    info = {}
    try:
        checks.CHECKS[prop](rng, k, info)
    except Skip:
        return 'skip', None, info
    except Bad as e:
        return 'bad', str(e), info
    except (ValueError, TypeError, IndexError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError) as e:
        # the contract cannot even be evaluated on what the code returned
        # (the same case evaluates on a tree that satisfies the contract)
        return 'bad', 'contract not evaluable on the result: %s: %s | %s' % (type(e).__name__, e, traceback.format_exc()[-300:]), info
    info['digest'] = hash(str(gen.bit_generator.state['state']))
    return 'ok', None, info


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        st, msg, info = one(d['property'], d['seed'], d['case'])
        print(json.dumps(dict(status=st, message=msg, case=info), default=str, indent=1))
        sys.exit(1 if st == 'bad' else 0)
    prop, seed, ncases, budget, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    start, step = (int(sys.argv[6]), int(sys.argv[7])) if len(sys.argv) > 6 else (0, 1)
    t0 = time.time()
    res = dict(ok=0, skip=0, bad=[], error=[], kinds={}, cases=0, samples=[], digests=[])

    def flush():
        json.dump(res, open(out + '.tmp', 'w'), default=str)
        os.replace(out + '.tmp', out)
    for k in range(start, ncases, step):
        if time.time() - t0 > budget:
            break
        res['cases'] += 1
        try:
            log = [] if k in (1, 2, 3, 4) else None
            st, msg, info = one(prop, seed, k, log)
            if log:
                res['samples'].append(dict(property=prop, seed=seed, case=k, status=st, kind=info.get('kind'), drawn=log))
        except Exception as e:
            res['error'].append('case %d: %s: %s | %s' % (k, type(e).__name__, e, traceback.format_exc()[-400:]))
            if len(res['error']) > 20:
                break
            continue
        if st == 'bad':
            res['bad'].append(dict(property=prop, seed=seed, case=k, message=msg, info=info))
            flush()
            if len(res['bad']) >= 5:
                break
        else:
            res[st] += 1
            if st == 'ok':
                res['digests'].append(info['digest'])
            kd = info.get('kind')
            if kd:
                res['kinds'][kd] = res['kinds'].get(kd, 0) + 1
    res['wall'] = time.time() - t0
    flush()


if __name__ == '__main__':
    main()
