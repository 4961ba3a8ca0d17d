"""helper of the demonstrations: random problems, complete runs, recorded calls"""
import os, sys, tempfile, io, contextlib, warnings, shutil, atexit
REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
_tmp = tempfile.mkdtemp()
os.chdir(_tmp)
atexit.register(shutil.rmtree, _tmp, True)
warnings.simplefilter('ignore')
import numpy as np


class Opt:
    def __init__(self, **k):
        self.verbose = 0
        self.__dict__.update(k)


def vec(x):
    return np.asarray(x, dtype=float).reshape(-1)


class R:
    pass


def solve(f, x0, lb=None, ub=None, me=0, mi=0, c=None, **opt):
    import sqpdfo.sqpdfo as S
    r = R()
    r.f, r.c = [], []

    def ff(x):
        xx = tuple(float(v) for v in np.asarray(x, dtype=float).reshape(-1))
        r.f.append([xx, None])
        v = f(np.array(xx))
        r.f[-1][1] = v
        return v

    def cc(x):
        xx = tuple(float(v) for v in np.asarray(x, dtype=float).reshape(-1))
        r.c.append([xx, None])
        v = c(np.array(xx))
        r.c[-1][1] = np.array(v, dtype=float).reshape(-1)
        return v
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        r.x, r.lm, r.info = S.sqpdfo_(Opt(**opt), ff, x0, lb, ub, me, mi, cc if c else None)
    return r


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
        return fn(*a, **k)


def problem(rng, cons=None, bounds=None):
    n = int(rng.integers(1, 4))
    A = rng.normal(size=(n, n))
    A = A @ A.T + .1 * np.eye(n)
    b = rng.normal(size=n) * 3
    w = rng.uniform(0, 1)
    f = lambda x: float(.5 * x @ A @ x + b @ x + w * np.sum(x ** 4) + np.sin(2 * x).sum())
    me = mi = 0
    c = None
    if cons is None:
        cons = rng.random() < .6
    if cons:
        me = int(rng.integers(0, min(n, 2) + 1))
        mi = int(rng.integers(0 if me else 1, 3))
        C, d = rng.normal(size=(me + mi, n)), rng.normal(size=me + mi)
        q = rng.normal(size=me + mi) * .2
        c = lambda x: C @ x + d + q * np.sum(x ** 2)
    x0 = rng.normal(size=(1, n)) * 2
    lb = ub = None
    if bounds is None:
        bounds = rng.random() < .5
    if bounds:
        lb = x0.T - rng.uniform(0.01, 4, size=(n, 1))
        ub = x0.T + rng.uniform(0.01, 4, size=(n, 1))
        x0 = x0.T.copy()
    return n, f, x0, lb, ub, me, mi, c
