"""Run-time contract checks of whole optimizer runs (P01..P09): the real
optimizer is run on generated problems; the user's functions record every
call and the routines named below are observed at their call sites in
sqpdfo_main / sqpdfo_prelim (an observer is simply absent when the current
tree has no such routine or parameter)."""
import inspect, signal, sys, os, copy as _copy
import numpy as np
from common import *

CHECKS = {}


def check(p):
    def deco(f):
        CHECKS[p] = f
        return f
    return deco


class Slow(Exception):
    pass


def _alarm(*a):
    raise Slow()


def vec(x):
    return np.asarray(x, dtype=float).reshape(-1)


def key(x):
    return tuple(float(v) for v in vec(x))


# ---------------------------------------------------------------- problems
class Problem:
    """a random smooth problem with recording user functions"""

    def __init__(self, rng, bounds=None, cons=None, n=None, small=False):
        n = self.n = int(rng.integers(1, 5)) if n is None else n
        A = rng.normal(size=(n, n))
        A = A @ A.T * 10 ** rng.uniform(-1, 1) + 0.1 * np.eye(n)
        t = rng.random()
        if t < 0.1:
            A = A - np.trace(A) / n * np.eye(n)         # indefinite
        elif t < 0.15:
            A = 0 * A
        b = rng.normal(size=n) * 3
        c4 = rng.uniform(0, 1) * (rng.random() < 0.5) + (0.3 if t < 0.15 else 0)
        sn = int(rng.integers(0, 2))
        fs = 10.0 ** rng.uniform(-2, 2) if rng.random() < 0.3 else 1.0
        off = rng.normal() * 10 if rng.random() < 0.3 else 0.0

        def f0(x):
            return float(fs * (.5 * x @ A @ x + b @ x + c4 * np.sum(x ** 4) + (np.sin(3 * x).sum() if sn else 0)) + off)
        self.f0 = f0
        if cons is None:
            cons = rng.random() < 0.6
        self.me = int(rng.integers(0, min(n, 2) + 1)) if cons and rng.random() < 0.7 else 0
        self.mi = int(rng.integers(1, 3)) if cons and (rng.random() < 0.5 or self.me == 0) else 0
        m = self.me + self.mi
        C = rng.normal(size=(m, n))
        d = rng.normal(size=m)
        q = rng.normal(size=m) * .2 * (rng.random() < .7)
        if m and rng.random() < .12:        # badly scaled constraints
            K = 10.0 ** rng.integers(-3, 17, size=m)
            C, d, q = C * K[:, None], d * K, q * K
        self.c0 = (lambda x: C @ x + d + q * np.sum(x ** 2)) if m else None
        self.x0 = rng.normal(size=(1, n)) * 2
        column = rng.random() < .5
        self.lb = self.ub = None
        if bounds is None:
            bounds = rng.random() < 0.6
        if bounds:
            if column:
                self.x0 = self.x0.T.copy()
            w = 10 ** rng.uniform(-1, 2, size=(n, 1)) if not small else 10 ** rng.uniform(-3, 0.5, size=(n, 1))
            ctr = rng.normal(size=(n, 1)) * 3 if rng.random() < .6 else vec(self.x0).reshape(-1, 1) + w * rng.uniform(-1.2, 1.2, size=(n, 1))
            self.lb, self.ub = ctr - w, ctr + w
            for i in range(n):
                if rng.random() < .25:
                    self.lb[i] = -1e20
                if rng.random() < .25:
                    self.ub[i] = 1e20
            if rng.random() < .1:
                i = int(rng.integers(n))
                if self.lb[i] > -1e19:
                    self.x0.reshape(-1)[i] = self.lb[i]
        o = self.opts = dict(verbose=0)
        o['miter'] = int(rng.integers(2, 60)) if rng.random() < .4 else 200
        o['msimul'] = int(rng.integers(1, 80)) if rng.random() < .3 else 300
        if rng.random() < .8:
            o['final_degree'] = ['linear', 'diagonal', 'quadratic'][rng.integers(0, 3)]
        if rng.random() < .2:
            o['hess_approx'] = 'bfgs'
            if rng.random() < .5:
                o['bfgs_restart'] = int(rng.integers(0, 4))
        if rng.random() < .2:
            o['whichmodel'] = ['subbasis', 'l2norm', 'regression'][rng.integers(0, 3)]
        if rng.random() < .3:
            o['tol_grad'] = float(10 ** rng.uniform(-6, -2))
            o['tol_feas'] = float(10 ** rng.uniform(-6, -2))
        if rng.random() < .1:
            o['tol_bnds'] = 1e-4
        self.listed = rng.random() < .15
        u = rng.random()
        if u < .05 and m:                  # constraints without effect around the start
            c1, big = self.c0, 10.0 ** rng.uniform(0, 3)
            self.c0 = lambda x: np.maximum(0.0, np.abs(c1(x)) - big)
        elif u < .10:                      # objective with plateaus
            h = 10.0 ** rng.uniform(-3, 1)
            self.f0 = lambda x: float(h * np.floor(f0(x) / h))
        elif u < .13:                      # flat objective
            self.f0 = lambda x: 2.5
        elif u < .16:                      # kinks
            self.f0 = lambda x: float(np.abs(A @ x + b).sum())
        elif u < .19:                      # start at a stationary point of a convex objective
            z = vec(self.x0).copy()
            self.f0 = lambda x: float((x - z) @ (x - z))
        elif u < .22:                      # steep objective
            self.f0 = lambda x: float(np.exp(np.clip(b @ x, -600, 600)))

    def kind(self):
        return '%s%s%s' % ('b' if self.lb is not None else '', 'e' if self.me else '', 'i' if self.mi else '') or 'free'

    def describe(self):
        return dict(n=self.n, me=self.me, mi=self.mi, x0=self.x0.tolist(), lb=None if self.lb is None else self.lb.tolist(),
                    ub=None if self.ub is None else self.ub.tolist(), options=self.opts)

    def in_bounds(self, x, tol):
        if self.lb is None:
            return True
        x = vec(x)
        return bool(np.all(x >= vec(self.lb) - tol) and np.all(x <= vec(self.ub) + tol))


class Obs:
    """observer of one routine at its call sites in the given modules"""

    def __init__(self, run, mods, name, before=None, after=None):
        self.sites = []
        for m in mods:
            try:
                mod = __import__('sqpdfo.' + m, fromlist=['x'])
            except Exception:
                continue
            f = getattr(mod, name, None)
            if callable(f):
                self.sites.append((mod, name, f, self.wrap(run, f, before, after)))

    def wrap(self, run, f, before, after):
        try:
            sig = inspect.signature(f)
        except Exception:
            sig = None

        def g(*a, **k):
            args = {}
            if sig is not None:
                try:
                    args = {q.rstrip('_'): v for q, v in sig.bind_partial(*a, **k).arguments.items()}
                except TypeError:
                    args = {}
            st = None
            if before is not None:
                st = run.guard(before, args)
            r = f(*a, **k)
            if after is not None:
                run.guard(after, args, r, st)
            return r
        return g


class Run:
    def __init__(self, prob, fail_at=None, fail_kind=None, observers=(), opts_extra=None, limit=20.0):
        self.p = prob
        self.calls, self.ccalls = [], []
        self.f_at, self.c_at = {}, {}
        self.fail_at, self.fail_kind = fail_at, fail_kind
        self.bad = None
        self.notes = {}
        self.exc = None
        self.out = None
        self.extra = opts_extra or {}
        self.limit = limit
        self.obs = [(m, n, b, a) for m, n, b, a in observers]

    def guard(self, fn, *a):
        if self.bad is not None:
            return None
        try:
            return fn(self, *a)
        except Bad as e:
            self.bad = str(e)
        except (KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
            self.notes['observer'] = '%s: %s' % (type(e).__name__, e)
        return None

    def go(self):
        p = self.p

        def f(x):
            k = len(self.calls)
            xx = np.array(x, dtype=float)
            if self.fail_at is not None and k == self.fail_at and self.fail_kind[0] == 'f':
                self.calls.append((key(xx), None))
                if self.fail_kind == 'fexc':
                    raise ZeroDivisionError('injected')
                return {'fnan': float('nan'), 'finf': float('inf'), 'f-inf': float('-inf')}[self.fail_kind]
            v = p.f0(xx)
            self.calls.append((key(xx), v))
            self.f_at[key(xx)] = v
            return v

        def c(x):
            k = len(self.ccalls)
            xx = np.array(x, dtype=float)
            v = p.c0(xx)
            if self.fail_at is not None and k == self.fail_at and self.fail_kind[0] == 'c':
                self.ccalls.append((key(xx), None))
                if key(xx) not in self.c_at:
                    self.f_at.pop(key(xx), None)     # (unless evaluated successfully before)
                if self.fail_kind == 'cexc':
                    raise ZeroDivisionError('injected')
                v = np.array(v)
                v[k % len(v)] = float('nan')
                return v
            self.ccalls.append((key(xx), np.array(v)))
            self.c_at[key(xx)] = np.array(v)
            return v
        import sqpdfo
        o = Obj(**dict(p.opts, **self.extra))
        x0, lb, ub = p.x0.copy(), None if p.lb is None else p.lb.copy(), None if p.ub is None else p.ub.copy()
        if p.listed:
            x0 = [float(v) for v in vec(x0)]
            if lb is not None:
                lb, ub = [float(v) for v in vec(lb)], [float(v) for v in vec(ub)]
        self.args = dict(options=o, x0=x0, lb=lb, ub=ub)
        before = {k: _copy.deepcopy(v if k != 'options' else dict(v.__dict__)) for k, v in self.args.items()}
        obs = [Obs(self, *t) for t in self.obs]
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit, 0.5)
        try:
            for ob in obs:
                for mod, name, orig, new in ob.sites:
                    setattr(mod, name, new)
            with quiet():
                self.out = sqpdfo.optimize(o, f, x0, lb, ub, p.me, p.mi, c if p.c0 else None, None, None)
        except Slow:
            self.exc = 'slow'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [t for t in tb if 'sqpdfo' in t.filename and '/rt/' not in t.filename]
            self.exc = '%s: %s (%s)' % (type(e).__name__, str(e)[:150], '%s:%d' % (os.path.basename(loc[-1].filename), loc[-1].lineno) if loc else '?')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            for ob in obs:
                for mod, name, orig, new in ob.sites:
                    setattr(mod, name, orig)
        self.args_before = before
        if self.out is not None:
            self.x, self.lm, self.info = self.out
        try:
            g = glob()
            self.slacks = None if not g.get_nbr_slacks() else np.array(g.get_slacks(), dtype=float)
        except Exception:
            self.slacks = None
        return self

    def need_result(self):
        """the run ended with a result; otherwise the case says nothing"""
        if self.exc is not None or self.out is None:
            raise Skip()


START = lambda p: p.n + 1


# ---------------------------------------------------------------- P01
@check('P01')
def p01(rng, k, info):
    p = Problem(rng)
    fail = None
    if rng.random() < .25:
        kinds = ['fexc', 'fnan', 'finf', 'f-inf'] + (['cexc', 'cnan'] if p.c0 else [])
        fail = (int(rng.integers(START(p), START(p) + 40)), str(rng.choice(kinds)))
    r = Run(p, *(fail or (None, None))).go()
    info.update(p.describe(), fail=fail, kind=p.kind())
    if r.exc == 'slow':
        raise Skip()
    need(r.exc is None, 'optimize raised %s', r.exc)
    if len(r.calls) < START(p) or any(v is None for _, v in r.calls[:START(p)]):
        raise Skip()
    returned(r, p)
    info['kind'] = 'flag%d' % r.info.flag


def returned(r, p):
    x = key(r.x)
    need(len(x) == p.n, 'x has %d components instead of %d', len(x), p.n)
    need(x in r.f_at, 'the returned x %s is not a point at which the objective was called (flag %s)', x, r.info.flag)
    need(float(np.asarray(r.info.f).reshape(())) == r.f_at[x], 'info.f is %.17g but the objective returned %.17g at the returned x (flag %s)', float(np.asarray(r.info.f).reshape(())), r.f_at[x], r.info.flag)
    if p.c0:
        ce = np.asarray(r.info.ce, dtype=float).reshape(-1)
        need(x in r.c_at and same(ce, r.c_at[x]), 'info.ce is %s but the constraints returned %s at the returned x (flag %s)', show(ce), show(r.c_at.get(x)), r.info.flag)


# ---------------------------------------------------------------- P02
def obs_model(run, a):
    Y, fY = np.asarray(a['Y'], dtype=float), np.asarray(a['fY'], dtype=float)
    p = run.p
    nc = p.me + p.mi
    if fY.ndim != 2 or fY.shape[0] != 1 + nc or Y.shape[0] != p.n:
        return
    run.models += 1
    run.Y0 = key(Y[:, 0])
    need(fY.shape[1] == Y.shape[1], 'a model is built from %d points and %d values', Y.shape[1], fY.shape[1])
    for j in range(Y.shape[1]):
        y = key(Y[:, j])
        need(y in run.f_at, 'model %d uses the point %s (column %d) at which no function was called', run.models, y, j)
        need(fY[0, j] == run.f_at[y], 'model %d uses the objective value %.17g at column %d where the function returned %.17g', run.models, fY[0, j], j, run.f_at[y])
        if nc:
            need(same(fY[1:, j], run.c_at[y]), 'model %d uses the constraint values %s at column %d where the function returned %s', run.models, show(fY[1:, j]), j, show(run.c_at[y]))


def obs_center(run, a):
    x = key(a['x'])
    i = a['info']
    p = run.p
    run.steps += 1
    need(x in run.f_at, 'the model of step %d is centred on %s, which was never evaluated', run.steps, x)
    if run.Y0 is not None:
        need(run.Y0 == x, 'step %d: the current best point is %s but the model is centred on %s', run.steps, x, run.Y0)
    need(float(np.asarray(i.f).reshape(())) == run.f_at[x], 'step %d: the current objective value is %.17g, the function returned %.17g at the current point', run.steps, float(np.asarray(i.f).reshape(())), run.f_at[x])
    if p.me + p.mi:
        need(same(np.asarray(i.ce, dtype=float).reshape(-1), run.c_at[x]), 'step %d: the current constraint values are %s, the function returned %s at the current point', run.steps, show(i.ce), show(run.c_at[x]))


BOTH = ['sqpdfo_main', 'sqpdfo_prelim']


@check('P02')
def p02(rng, k, info):
    p = Problem(rng)
    p.opts['msimul'] = max(p.opts['msimul'], 20)
    r = Run(p, observers=[(BOTH, 'bcdfo_computeP_', obs_model, None), (['sqpdfo_main'], 'sqpdfo_solve_TR_bc_', obs_center, None)])
    r.models = r.steps = 0
    r.Y0 = None
    r.go()
    info.update(p.describe(), kind=p.kind(), models=r.models, steps=r.steps)
    need(r.bad is None, '%s', r.bad)
    if r.models == 0:
        raise Skip()
    if r.exc is None and r.info.flag in (0, 5, 6, 15):
        returned(r, p)


# ---------------------------------------------------------------- P03
def obs_count(run, a):
    run.steps += 1
    run.evals_at_step.append(len(run.calls))


@check('P03')
def p03(rng, k, info):
    p = Problem(rng)
    t = rng.random()
    if t < .4:
        p.opts['miter'] = int(rng.integers(1, 25))
    if t > .3 and rng.random() < .6:
        p.opts['msimul'] = int(rng.integers(1, 50))
    miter, msimul = p.opts['miter'], p.opts['msimul']
    fail = None
    if rng.random() < .15:
        fail = (int(rng.integers(0, 40)), str(rng.choice(['fexc', 'fnan', 'finf'])))
    r = Run(p, *(fail or (None, None)), observers=[(['sqpdfo_main'], 'sqpdfo_solve_TR_bc_', obs_count, None)])
    r.steps, r.evals_at_step = 0, []
    r.go()
    info.update(p.describe(), kind=p.kind(), fail=fail)
    n, N = p.n, len(r.calls)
    pq = (n + 1) * (n + 2) // 2
    pmax = 2 * pq + 1
    need(N <= max(n + 1, msimul - 1 + pmax + 1), '%d evaluations with an evaluation limit of %d', N, msimul)
    need(r.steps <= miter, '%d steps were computed with an iteration limit of %d', r.steps, miter)
    r.need_result()
    i = r.info
    ns = np.asarray(i.nsimul).reshape(-1)
    need(len(ns) > 1 and int(ns[1]) == N, 'info.nsimul reports %s simulations, the objective was called %d times', ns.tolist()[:3], N)
    need(i.niter <= miter + 1, 'info.niter is %d with an iteration limit of %d', i.niter, miter)
    need(i.niter >= r.steps, 'info.niter is %d after %d steps', i.niter, r.steps)
    need(i.flag != 5 or i.niter >= miter, 'the run stopped at iteration %d for the iteration limit %d', i.niter, miter)
    need(i.flag != 6 or N >= msimul, 'the run stopped after %d evaluations for the evaluation limit %d', N, msimul)
    if len(r.evals_at_step) > 1:
        # a step is computed only if, when its iteration began, the limit had not been reached
        late = [e for e in r.evals_at_step[1:] if e > msimul - 1 + pmax]
        need(not late, 'a step was computed after %s evaluations with an evaluation limit of %d', late[:1], msimul)
    info['kind'] = 'flag%d' % i.flag
    # the same run with an evaluation limit that is met exactly when an iteration would start
    if fail is None and i.flag == 5 and N > 0 and rng.random() < .7:
        p.opts['miter'], p.opts['msimul'] = 300, N
        q = Run(p)
        q.go()
        if q.exc is None and q.out is not None and len(q.calls) > 0:
            need(len(q.calls) <= N, 'an iteration was started with %d evaluations made and an evaluation limit of %d (%d evaluations in the end)', N, N, len(q.calls))


# ---------------------------------------------------------------- P04
@check('P04')
def p04(rng, k, info):
    p = Problem(rng)
    if rng.random() < .8:
        p.opts['miter'], p.opts['msimul'] = 200, 400
    tg, tf = p.opts.get('tol_grad', 1e-5), p.opts.get('tol_feas', 1e-5)
    fail = None
    if rng.random() < .1:
        fail = (int(rng.integers(0, 30)), 'fnan')
    r = Run(p, *(fail or (None, None))).go()
    info.update(p.describe(), kind=p.kind(), fail=fail)
    r.need_result()
    i = r.info
    info['kind'] = 'flag%d' % i.flag
    N = len(r.calls)
    need(i.flag in (0, 3, 5, 6, 8, 15, 30) or (i.flag in (1, 2) and N == 0), 'the run ended with the flag %s', i.flag)
    if any(v is None for _, v in r.calls):
        need(i.flag == 3, 'an evaluation failed and the flag is %s', i.flag)
    if i.flag == 3:
        need(any(v is None for _, v in r.calls), 'the flag reports a failed evaluation but none failed')
    if i.flag == 5:
        need(i.niter >= p.opts['miter'], 'flag 5 (iteration limit %d) at iteration %d', p.opts['miter'], i.niter)
    if i.flag == 6:
        need(N >= p.opts['msimul'], 'flag 6 (evaluation limit %d) after %d evaluations', p.opts['msimul'], N)
    if i.flag != 0:
        return
    need(N >= START(p), 'success after %d evaluations', N)
    glagn, feasn = float(np.asarray(i.glagn).reshape(())), float(np.asarray(i.feasn).reshape(()))
    need(glagn <= 100 * tg * (1 + 1e-12), 'success with a Lagrangian gradient norm of %.10g, tolerance %.3g', glagn, tg)
    need(feasn <= 100 * tf * (1 + 1e-12), 'success with a constraint violation of %.10g, tolerance %.3g', feasn, tf)
    if p.c0:
        x = key(r.x)
        ce = np.array(r.c_at.get(x, np.asarray(i.ce).reshape(-1)), dtype=float).reshape(-1, 1)
        if p.mi and r.slacks is not None:
            ce = ce - np.concatenate([np.zeros((p.me, 1)), r.slacks.reshape(-1, 1) ** 2])
        v = float(np.max(np.abs(ce)))
        need(abs(v - feasn) <= 1e-12 * (1 + abs(v)) * max(1.0, float(np.max(np.abs(r.c_at.get(x, [1.0]))))), 'the reported violation is %.17g, the one of the returned constraint values %.17g', feasn, v)
        # inequalities: whatever the slacks, the returned point satisfies them up to the reported violation
        if p.mi:
            ineq = np.asarray(i.ce, dtype=float).reshape(-1)[p.me:]
            need(np.all(ineq >= -feasn - 1e-12 * (1 + np.abs(ineq))), 'an inequality has the value %s with a reported violation of %.3g', show(ineq), feasn)
    else:
        need(feasn == 0, 'an unconstrained run reports a violation of %.3g', feasn)
    glag = np.asarray(i.glag, dtype=float).reshape(-1)
    need(abs(np.max(np.abs(glag)) - glagn) <= 1e-12 * (1 + glagn), 'the reported Lagrangian gradient norm %.17g is not the norm of the reported Lagrangian gradient %s', glagn, show(glag))
    g = vec(i.g).copy()
    lm = vec(r.lm)
    x = vec(r.x)
    if len(lm) >= p.n + p.me + p.mi and len(g) == p.n:
        ref = g.copy()
        if p.lb is not None:
            act = (np.abs(x - vec(p.lb)) < 1e-5) | (np.abs(x - vec(p.ub)) < 1e-5)
            near = np.abs(np.abs(x - vec(p.lb)) - 1e-5) + 0 < 1e-12
            if near.any():
                return
            ref[act] += lm[:p.n][act]
        if p.c0:
            ref = ref + np.asarray(i.ae, dtype=float).T @ lm[p.n:p.n + p.me + p.mi]
        need(np.max(np.abs(ref - glag)) <= 1e-9 * (1 + np.max(np.abs(g)) + np.max(np.abs(lm)) * (1 + (np.max(np.abs(i.ae)) if p.c0 else 0))), 'the reported Lagrangian gradient %s is not the one of the reported gradients and multipliers %s', show(glag), show(ref))


# ---------------------------------------------------------------- P05
@check('P05')
def p05(rng, k, info):
    p = Problem(rng, cons=True if rng.random() < .5 else None)
    p.opts.update(miter=200, msimul=300)
    if p.c0 is None or rng.random() < .6:
        kd = str(rng.choice(['fexc', 'fnan', 'finf', 'f-inf']))
    else:
        kd = str(rng.choice(['cexc', 'cnan']))
    # phases: starting set, steps, set improvement (late calls)
    t = rng.random()
    base = None
    if t < .25:
        at = int(rng.integers(0, START(p) + 1))
    else:
        base = Run(p).go()
        if base.exc is not None or len(base.calls) <= 1:
            raise Skip()
        at = int(rng.integers(0, len(base.calls))) if t < .7 else int(rng.integers(max(0, len(base.calls) - 2 * p.n - 3), len(base.calls)))
    r = Run(p, at, kd).go()
    info.update(p.describe(), fail=(at, kd), kind=kd)
    N = len(r.calls)
    if r.exc == 'slow' or N <= at:
        raise Skip()
    if r.exc is not None and (base is None and Run(p).go().exc is not None):
        raise Skip()
    need(r.exc is None, 'optimize raised %s when call %d failed (%s)', r.exc, at + 1, kd)
    need(N == at + 1, 'the objective was called %d more times after call %d failed (%s)', N - at - 1, at + 1, kd)
    need(r.info.flag == 3, 'the flag is %s after call %d failed (%s)', r.info.flag, at + 1, kd)
    if at >= START(p):
        bad = r.calls[at][0]
        good = {q for q, v in r.calls[:at]}
        need(bad in good or key(r.x) != bad, 'the point at which call %d failed is returned as the solution', at + 1)
        if bad not in good:
            returned(r, p)


# ---------------------------------------------------------------- P06
def flat(v):
    if isinstance(v, np.ndarray):
        return ('a', v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (float, np.floating)):
        return ('f', np.float64(v).tobytes())
    if isinstance(v, (list, tuple)):
        return tuple(flat(w) for w in v)
    if hasattr(v, '__dict__'):
        return tuple((kk, flat(w)) for kk, w in sorted(v.__dict__.items()))
    return repr(v)


@check('P06')
def p06(rng, k, info):
    A, B = Problem(rng), Problem(rng)
    for q in (A, B):
        q.opts['miter'] = min(q.opts['miter'], 40)
        q.opts['msimul'] = min(q.opts['msimul'], 80)
    fail = (int(rng.integers(0, 25)), 'fexc') if rng.random() < .2 else (None, None)
    r1 = Run(A).go()
    rb = Run(B, *fail).go()
    r2 = Run(A).go()
    info.update(A=A.describe(), B=B.describe(), kind=A.kind() + '/' + B.kind())
    if 'slow' in (r1.exc, r2.exc, rb.exc):
        raise Skip()
    need(r1.exc == r2.exc, 'a run raised %s, the same run after another one %s', r1.exc, r2.exc)
    if r1.exc is not None:
        raise Skip()
    need([q for q, _ in r1.calls] == [q for q, _ in r2.calls], 'the same run evaluates other points after another run (first difference at call %s)',
         next((i for i, (a, b) in enumerate(zip(r1.calls, r2.calls)) if a[0] != b[0]), 'none/length'))
    for nm, a, b in (('x', r1.x, r2.x), ('multipliers', r1.lm, r2.lm)):
        need(flat(np.asarray(a)) == flat(np.asarray(b)), 'the same run returns other %s after another run: %s and %s', nm, show(a), show(b))
    d1, d2 = r1.info.__dict__, r2.info.__dict__
    need(set(d1) == set(d2), 'the same run returns other information fields after another run')
    for kk in sorted(d1):
        need(flat(d1[kk]) == flat(d2[kk]), 'the same run returns another info.%s after another run: %s and %s', kk, show(d1[kk]), show(d2[kk]))
    for r in (r1, rb, r2):
        for kk, v in r.args.items():
            now = v if kk != 'options' else v.__dict__
            need(flat(now if not isinstance(now, dict) else Obj(**now)) == flat(r.args_before[kk] if not isinstance(r.args_before[kk], dict) else Obj(**r.args_before[kk])), 'the caller\'s %s was modified', kk)


# ---------------------------------------------------------------- P07
@check('P07')
def p07(rng, k, info):
    import sqpdfo
    p = Problem(rng)
    p.opts['msimul'], p.opts['miter'] = 4, 2
    calls = []

    def f(x):
        calls.append(list(x))
        return p.f0(np.array(x, dtype=float))

    def c(x):
        return p.c0(np.array(x, dtype=float))
    base = dict(p.opts, verbose=int(rng.integers(0, 2)))
    args = dict(options_=None, func_f=f, x0=p.x0.copy(), lb=p.lb, ub=p.ub, me=p.me, mi=p.mi, func_c=c if p.c0 else None)

    def go(o, **ch):
        a = dict(args, **ch)
        a['options_'] = o
        del calls[:]
        return call(sqpdfo.optimize, *[a[q] for q in ('options_', 'func_f', 'x0', 'lb', 'ub', 'me', 'mi', 'func_c')])
    what = k % 8
    info.update(p.describe(), kind='what%d' % what)
    if what == 0:       # missing arguments
        t = int(rng.integers(0, 3))
        ch = [dict(func_f=None), dict(x0=None), dict(func_c=None, me=max(1, p.me), mi=p.mi)][t]
        x, lm, i = go(Obj(**base), **ch)
        need(i.flag == 1, 'the flag is %s with %s missing', i.flag, list(ch)[0])
        need(not calls, 'the objective was called with %s missing', list(ch)[0])
    elif what == 1:     # inconsistent bounds
        n = p.n
        lb = rng.normal(size=(n, 1)) * 3
        ub = lb + 10 ** rng.uniform(-1, 1, size=(n, 1))
        j = int(rng.integers(n))
        ub[j] = lb[j] - 10 ** rng.uniform(-3, 1)
        info.update(lb=lb.tolist(), ub=ub.tolist())
        x, lm, i = go(Obj(**base), lb=lb, ub=ub)
        need(i.flag == 2, 'the flag is %s although the lower bound of component %d exceeds its upper bound', i.flag, j)
        need(not calls, 'the objective was called with inconsistent bounds')
    elif what in (2, 3):    # refused values
        o = dict(base)
        nm = str(rng.choice(['dxmin', 'inf', 'miter', 'msimul', 'tol_grad', 'tol_feas', 'tol_bnds', 'hess_approx', 'whichmodel', 'final_degree', 'algo_descent']))
        if nm in ('dxmin', 'inf'):
            v = float(rng.choice([0.0, -1.0, -1e-12, -float(10 ** rng.uniform(-8, 8))]))
        elif nm in ('miter', 'msimul'):
            v = int(rng.choice([0, -1, -1000]))
        elif nm.startswith('tol'):
            v = float(rng.choice([-1.0, -1e-12, -1e-5]))
        else:
            v = str(rng.choice(['', 'x', 'bfg', 'models', 'sub', 'quadrat', 'cubic', 'wolf', 'none', '0']))
        o[nm] = v
        info.update(option=nm, value=v)
        x, lm, i = go(Obj(**o))
        need(i.flag == 1, 'the flag is %s with options.%s=%r', i.flag, nm, v)
        need(not calls, 'the objective was called with options.%s=%r', nm, v)
    elif what in (4, 5):    # the option routine itself
        from_ = imp('sqpdfo_options')
        V = vals()
        names = ['algo_descent', 'dxmin', 'inf', 'miter', 'msimul', 'tol_grad', 'tol_feas', 'tol_bnds', 'hess_approx', 'bfgs_restart', 'whichmodel', 'final_degree', 'verbose', 'fout']
        o = {}
        exp = dict(algo_descent=V.powell, dxmin=1e-8, inf=np.inf, miter=1000, msimul=1000, tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5,
                   hess_approx=V.model, bfgs_restart=0, whichmodel=0, final_degree=V.diagonal, verbose=1, fout=1)
        sp = lambda s: ''.join((ch.upper() if rng.random() < .3 else ch) + (' ' if rng.random() < .15 else '') for ch in s)
        for nm in names:
            if rng.random() < .5:
                continue
            if nm == 'algo_descent':
                w = str(rng.choice(['powell', 'wolfe'])); o[nm] = sp(w); exp[nm] = getattr(V, w)
            elif nm == 'hess_approx':
                w = str(rng.choice(['bfgs', 'model'])); o[nm] = sp(w); exp[nm] = getattr(V, w)
            elif nm == 'whichmodel':
                w = str(rng.choice(['subbasis', 'frobnorm', 'l2norm', 'regression'])); o[nm] = sp(w)
                exp[nm] = dict(subbasis=0, frobnorm=1, l2norm=2, regression=3)[w]
            elif nm == 'final_degree':
                w = str(rng.choice(['linear', 'diagonal', 'quadratic'])); o[nm] = sp(w); exp[nm] = getattr(V, w)
            elif nm in ('miter', 'msimul'):
                o[nm] = exp[nm] = int(rng.integers(1, 2000))
            elif nm == 'verbose':
                v = int(rng.integers(-3, 10)); o[nm] = v; exp[nm] = v if 0 <= v <= 6 else 1
            elif nm == 'fout':
                v = int(rng.integers(-2, 4)); o[nm] = v; exp[nm] = v if v >= 0 else 1
            elif nm == 'bfgs_restart':
                o[nm] = exp[nm] = int(rng.integers(0, 5))
            elif nm.startswith('tol'):
                v = float(rng.choice([0.0, 1e-3, 1e-9, 10 ** rng.uniform(-12, 0)])); o[nm] = v; exp[nm] = v if v > 0 else 1e-5
            else:
                o[nm] = exp[nm] = float(10 ** rng.uniform(-9, 9))
        info.update(options=o)
        inf_ = Obj()
        oo = Obj(**o)
        i2, o2, v2 = call(from_, inf_, oo)
        need(oo.__dict__ == Obj(**o).__dict__, 'the option check modified the caller\'s options')
        need(i2.flag == 0, 'valid options %s were refused (flag %s)', o, i2.flag)
        for nm in names:
            need(getattr(o2, nm, None) == exp[nm], 'options.%s is %r after validation of %s, expected %r', nm, getattr(o2, nm, None), o, exp[nm])
        need(len({V.linear, V.diagonal, V.quadratic}) == 3 and V.bfgs != V.model and V.powell != V.wolfe, 'two keywords select the same setting')
    elif what == 6:     # the other components of inconsistent bounds come first or last; fixed ones are not errors of this kind
        n = p.n
        lb = -np.ones((n, 1)) * 10 ** rng.uniform(0, 2)
        ub = np.ones((n, 1)) * 10 ** rng.uniform(0, 2)
        j = int(rng.integers(n))
        lb[j], ub[j] = 10 ** rng.uniform(-6, 2), -10 ** rng.uniform(-6, 2)
        x, lm, i = go(Obj(**base), lb=lb, ub=ub)
        need(i.flag == 2 and not calls, 'inconsistent bounds in component %d: flag %s, %d calls', j, i.flag, len(calls))
    else:               # several refused options at once, refused before the first evaluation
        o = dict(base)
        o['tol_grad'] = -1.0
        o['miter'] = 0
        x, lm, i = go(Obj(**o))
        need(i.flag == 1 and not calls, 'two refused options: flag %s, %d calls', i.flag, len(calls))


# ---------------------------------------------------------------- P08
def obs_trial(run, a, r, st):
    xnew = r[0]
    run.steps += 1
    p = run.p
    x = key(a['x'])
    if not p.in_bounds(st if st is not None else x, 1e-8):
        return
    need(len(vec(xnew)) == p.n and bool(np.all(np.isfinite(vec(xnew)))), 'step %d: the trial point is %s', run.steps, show(xnew))
    need(p.in_bounds(xnew, 1.0000001e-8), 'step %d: the trial point %s violates the bounds by %.3g', run.steps, show(xnew),
         max(np.max(vec(p.lb) - vec(xnew)), np.max(vec(xnew) - vec(p.ub))))


@check('P08')
def p08(rng, k, info):
    p = Problem(rng, bounds=True, small=rng.random() < .4)
    if np.any(p.ub - p.lb < 1e-5):
        raise Skip()
    r = Run(p, observers=[(['sqpdfo_main'], 'sqpdfo_solve_TR_bc_', lambda run, a: key(a['x']), obs_trial)])
    r.steps = 0
    r.go()
    info.update(p.describe(), kind=p.kind(), steps=r.steps)
    sc = 1e-12 * (1 + max(np.max(np.abs(v)) for v in (p.lb[np.abs(p.lb) < 1e19], p.ub[np.abs(p.ub) < 1e19], p.x0) if np.size(v)))
    for j, (x, v) in enumerate(r.calls[:START(p)]):
        need(p.in_bounds(x, sc), 'starting point %d (%s) is outside the bounds', j, x)
    need(r.bad is None, '%s', r.bad)
    r.need_result()
    if len(r.calls) >= START(p) and r.info.flag in (0, 5, 6, 15):
        need(p.in_bounds(r.x, 1.0000001e-8), 'the returned x %s is outside the bounds', show(r.x))


# ---------------------------------------------------------------- P09
def obs_step_b(run, a):
    sl = glob().get_slacks() if run.p.mi else None
    i = a['info']
    return dict(x=key(a['x']), sl=None if sl is None else np.array(sl, dtype=float), M=np.array(a['M'], dtype=float), g=np.array(i.g, dtype=float))


def obs_step_a(run, a, r, st):
    run.steps += 1
    run.pending = None
    if st is None:
        return
    st = dict(st)
    st['xnew'] = key(vec(st['x']) + (vec(r[0]) - vec(st['x'])))
    st['s'] = vec(r[0]) - vec(st['x'])
    st['rpred'] = float(np.asarray(r[2]).reshape(()))
    st['slplus'] = None if st['sl'] is None else np.array(r[8], dtype=float)
    run.pending = st


def obs_sigma(run, a):
    if a.get('sigma') is None:
        return
    s = float(np.asarray(a['sigma']).reshape(()))
    need(s >= run.sigma, 'the penalty parameter drops from %.17g to %.17g', run.sigma, s)
    run.sigma = s
    return s


def obs_smallf(run, a):
    # the step before this one is over: it was accepted or not
    s = obs_sigma(run, a)
    accepted_step(run, key(a['x']), s)


def obs_hess(run, a):
    s = obs_sigma(run, a)
    accepted_step(run, key(a['x']), s)


def accepted_step(run, x, s):
    st, run.pending = run.pending, None
    if st is None or s is None:
        return
    p = run.p
    if x == st['x'] or x != st['xnew'] or x not in run.f_at or st['x'] not in run.f_at:
        if x != st['x'] and x != st['xnew']:
            need(False, 'after step %d from %s to %s the current point is %s', run.steps, st['x'], st['xnew'], x)
        return
    run.accepted += 1

    def merit(z, sl):
        m = run.f_at[z]
        if p.me + p.mi:
            c = run.c_at[z].reshape(-1, 1)
            if sl is not None:
                c = c - np.concatenate([np.zeros((p.me, 1)), sl.reshape(-1, 1) ** 2])
            m = m + s * float(np.linalg.norm(c))
        return m
    m0, m1 = merit(st['x'], st['sl']), merit(st['xnew'], st['slplus'])
    rnd = 1e-13 * (abs(m0) + abs(m1) + abs(run.f_at[st['x']]) + s)
    need(m1 < m0 + rnd, 'step %d was accepted although the merit value changes from %.17g to %.17g (penalty %.6g)', run.steps, m0, m1, s)
    sv = st['s'].reshape(-1, 1)
    q = float((st['g'].reshape(-1, 1).T @ sv + .5 * sv.T @ st['M'][:len(sv), :len(sv)] @ sv).reshape(()))
    pred = -q + s * st['rpred']
    rnd = rnd * 10 + 1e-12 * (abs(q) + s * abs(st['rpred']))
    need(m0 - m1 >= 1e-4 * pred - rnd, 'step %d was accepted with a reduction of %.6g where %.6g was predicted (ratio below the threshold)', run.steps, m0 - m1, pred)
    need(pred > -rnd, 'step %d was accepted with the predicted reduction %.6g', run.steps, pred)


@check('P09')
def p09(rng, k, info):
    p = Problem(rng)
    p.opts['msimul'] = 300
    if rng.random() < .5:
        p.opts['miter'] = 100
    r = Run(p, observers=[(['sqpdfo_main'], 'sqpdfo_solve_TR_bc_', obs_step_b, obs_step_a), (['sqpdfo_main'], 'sqpdfo_computeHessian_', obs_hess, None),
                          (['sqpdfo_main'], 'sqpdfo_find_smallf_', obs_smallf, None)])
    r.steps, r.accepted, r.sigma, r.pending = 0, 0, 0.0, None
    r.go()
    info.update(p.describe(), kind=p.kind(), steps=r.steps, accepted=r.accepted)
    if r.notes:
        info['kind'] = 'observer'
    need(r.bad is None, '%s', r.bad)
    if not r.steps:
        raise Skip()
