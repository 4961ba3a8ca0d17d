"""P07: invalid input is refused before any evaluation; options."""
import math
from specs import Unit, REAL, NPSHIM
from specs.lib import *
from pyvc.loader import Went, segments

V = dict(success=0, fail_on_argument=1)
# documented options: default, and the test a given value has to pass
POSITIVE = ('dxmin', 'inf', 'miter', 'msimul')
TOL = ('tol_grad', 'tol_feas', 'tol_bnds')
KEYS = {'algo_descent': (('powell', 'powell'), ('wolfe', 'wolfe')),
        'hess_approx': (('bfgs', 'bfgs'), ('model', 'model')),
        'whichmodel': (('subbasis', 'subbasis'), ('frobnorm', 'frobnorm'), ('l2norm', 'l2norm'), ('regression', 'regression')),
        'final_degree': (('linear', 'linear'), ('diagonal', 'diagonal'), ('quadratic', 'quadratic'))}
DEFAULT = dict(dxmin=1e-8, inf=math.inf, miter=1000, msimul=1000, tol_grad=1e-5, tol_feas=1e-5, tol_bnds=1e-5,
               algo_descent='powell', hess_approx='model', whichmodel='subbasis', final_degree='diagonal', verbose=1, fout=1, bfgs_restart=0)


class Key:
    """an arbitrary string, known up to case and blanks by what it was compared
    with; every other operation on it is not modelled"""
    def __init__(self, name):
        self.name, self.value, self.norm = name, None, (False, False)

    def _with(self, lower, blank):
        k = Norm(self, (self_norm(self)[0] or lower, self_norm(self)[1] or blank))
        return k

    def lower(self):
        return self._with(True, False)

    def casefold(self):
        return self._with(True, False)

    def replace(self, a, b):
        if (a, b) != (' ', ''):
            raise Unsupported('replace')
        return self._with(False, True)

    def __copy__(self):
        return self


def self_norm(k):
    return k.norm


class Norm(Key):
    def __init__(self, root, norm):
        self.root, self.norm = root, norm

    def _with(self, lower, blank):
        return Norm(self.root, (self.norm[0] or lower, self.norm[1] or blank))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if self.norm != (True, True):
            raise Unsupported('comparison of a string that is not normalised')
        r = self.root
        if o != o.lower().replace(' ', ''):
            return False
        if r.value is not None:
            return r.value == o
        seen = r.__dict__.setdefault('seen', set())
        if o in seen:
            return False
        if ENG.choose('%s is %s' % (r.name, o)):
            r.value = o
            return True
        seen.add(o)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of an unknown string')


class Presence:
    def __init__(self, o):
        self.o = o

    def __contains__(self, k):
        return self.o._get(k) is not None


class Options:
    """an arbitrary options object: which fields it has, and their values, is
    decided at the first use"""
    __slots__ = ('_st',)

    def __init__(self):
        object.__setattr__(self, '_st', dict(init={}, cur={}))

    @property
    def __dict__(self):
        return Presence(self)

    def _get(self, k):
        st = self._st
        if k in st['cur']:
            return st['cur'][k]
        if k not in st['init']:
            if not ENG.choose('options.%s given' % k):
                v = None
            elif k in KEYS:
                v = Key(k)
            elif k in ('miter', 'msimul', 'verbose', 'fout', 'bfgs_restart'):
                v = integer(k)
            elif k in POSITIVE + TOL:
                v = ENG.fresh(k, 'x')
            else:
                raise Unsupported('option ' + k)
            st['init'][k] = v
        return st['init'][k]

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        v = self._get(k)
        if v is None:
            raise AttributeError(k)
        return v

    def __setattr__(self, k, v):
        self._get(k)
        self._st['cur'][k] = v

    def __copy__(self):
        return self


def expected(values, k, v):
    """(refused, setting) of option k given v (None: not given)"""
    if k in KEYS:
        if v is None:
            return False, getattr(values, DEFAULT[k])
        for w, nm in KEYS[k]:
            if v.value == w:
                return False, getattr(values, nm)
        return True, None
    if v is None:
        return False, DEFAULT[k]
    if k in POSITIVE:
        return compare('<=', v, 0), v
    if k in TOL:
        return compare('<', v, 0), ite(compare('==', v, 0), DEFAULT[k], v)
    if k == 'verbose':
        return False, ite(bor(compare('<', v, 0), compare('>', v, 6)), 1, v)
    if k == 'fout':
        return False, ite(compare('<', v, 0), 1, v)
    return False, v


SEEN = {}


def options(which):
    """each top-level statement of the option routine, from an arbitrary state in
    which no option was refused: it refuses exactly when an option it looks at
    is invalid, and otherwise gives each of these options the documented value"""
    def body(W, cover):
        segs = segments(W, 'sqpdfo_options', 'sqpdfo_options_')
        V = W.load('sqpdfo.sqpdfo_values').sqpdfoValues()
        opt = Options()
        info0 = Bag(flag=integer('flag0'), nsimul=0)
        env = dict(info_=info0, options_=opt)
        k0 = 0
        while k0 < len(segs) and not opt._st['init']:
            before = dict(env)
            r = segs[k0][1](env)
            if not isinstance(r, Went):
                break
            if opt._st['init']:
                env = before        # this statement looks at an option
                break
            env = r.env
            k0 += 1
        opt._st['init'].clear()
        opt._st['cur'].clear()
        # the states between the statements: flag success, settings arbitrary
        rest = segs[k0:-1]
        if which == 'frame':
            ENG.prove('prologue reports success', same(env['info'].flag, V.success))
            ENG.prove('prologue copies the information', env['info'] is not info0)
            ENG.prove('names of the settings differ', len({V.powell, V.wolfe}) == 2 and len({V.bfgs, V.model}) == 2 and len({V.linear, V.diagonal, V.quadratic}) == 3
                      and (V.subbasis, V.frobnorm, V.l2norm, V.regression) == (0, 1, 2, 3))
            r = segs[-1][1](dict(env))
            ENG.prove('returns information, options and values', isinstance(r, tuple) and len(r) == 3 and r[0] is env['info'] and r[1] is opt)
            # every option is handled by exactly one statement
            import re
            for nm in DEFAULT:
                n = sum(1 for t, _ in rest if re.search("Attribute\\(value=Name\\(id='options'[^)]*\\)\\), attr='%s', ctx=Store" % nm, t))
                SEEN[nm] = n
            cover()
            return
        n = len(rest)
        pick = [k for k in range(n) if ("attr='%s', ctx=Store" % which) in rest[k][0]]
        if len(pick) != 1:
            raise Unsupported('option %s is set by %d statements' % (which, len(pick)))
        cover()
        info = env['info']
        r = rest[pick[0]][1](dict(env))
        init, cur = opt._st['init'], opt._st['cur']
        if not isinstance(r, Went):
            ENG.prove('refusal returns information, options and values', isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], Bag))
            inf2 = r[0]
            o2 = r[1]
        else:
            inf2, o2 = r.env['info'], r.env['options']
        ENG.prove('the options object is the one given back', o2 is opt)
        bad = False
        for k in sorted(init):
            ref, want = expected(V, k, init[k])
            bad = bor(bad, ref)
        if isinstance(r, Went):
            ENG.prove('an invalid option is refused', bnot(bad))
            ENG.prove('flag stays success', same(inf2.flag, V.success))
            for k in sorted(init):
                ref, want = expected(V, k, init[k])
                have = cur.get(k, init[k])
                if isinstance(have, Key) or have is None:
                    ENG.prove('option %s is set' % k, False)
                else:
                    ENG.prove('option %s has its documented value' % k, implies(bnot(ref), same(have, want)))
            ENG.prove('the option is looked at', which in init)
        else:
            ENG.prove('only an invalid option is refused', bad)
            ENG.prove('refusal has flag 1', same(inf2.flag, V.fail_on_argument))
    return body


UNITS = [Unit('options/' + k, options(k), 'sqpdfo_options_', assumes=[REAL, 'strings: arbitrary up to case and blanks']) for k in ['frame'] + sorted(DEFAULT)]
from specs import entry, prelim
UNITS = UNITS + entry.REFUSE + entry.run_units("P07") + [prelim.unit("P07", True)]
