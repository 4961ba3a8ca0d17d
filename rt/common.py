"""Shared helpers of the run-time contract checks (executed by the repository's
own interpreter; numpy is the real one)."""
import os, sys, io, contextlib, warnings, traceback, json, math
warnings.simplefilter('ignore')
import numpy as np

REPO = os.environ.get('PYVC_REPO', '/repo')


class Skip(Exception):
    """the generated case is outside the property's precondition"""


class Bad(Exception):
    """the property is violated by the real code"""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
        yield


def imp(mod, name=None):
    import importlib
    with quiet():
        m = importlib.import_module('sqpdfo.' + mod)
    return getattr(m, name or (mod + '_'))


def call(f, *a, **k):
    """call code under test; any exception is a violation of its contract"""
    try:
        with quiet():
            return f(*a, **k)
    except RecursionError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [t for t in tb if REPO in t.filename or 'sqpdfo' in t.filename]
        where = '%s:%d' % (os.path.basename(loc[-1].filename), loc[-1].lineno) if loc else '?'
        raise Bad('%s raised %s: %s (%s)' % (getattr(f, '__name__', 'call'), type(e).__name__, str(e)[:200], where))


def close(a, b, rtol=1e-8, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, b))


class Frozen:
    """remember argument arrays to check they are not modified"""
    def __init__(self, **arrs):
        self.a = {k: (v, np.array(v, copy=True)) for k, v in arrs.items()}

    def check(self, what):
        for k, (v, c) in self.a.items():
            need(same(v, c), '%s modified its argument %s', what, k)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def opts(**k):
    from sqpdfo.helper import dummyOptions
    o = dummyOptions()
    o.__dict__.update(k)
    return o


def vals():
    from sqpdfo.sqpdfo_values import sqpdfoValues
    return sqpdfoValues()


def glob():
    import sqpdfo.sqpdfo_global_variables as g
    return g


def col(v):
    return np.asarray(v, dtype=float).reshape(-1, 1)


def show(v, k=400):
    s = np.array2string(np.asarray(v), precision=17, threshold=60) if not isinstance(v, (str, dict)) else str(v)
    return s if len(s) <= k else s[:k] + '...'
