"""Path-by-path symbolic execution engine with contracts: decisions, scalars,
path condition, obligations.  Numbers are mathematical reals / integers."""
import time, math
from fractions import Fraction
import z3
from z3 import z3core as _zc


class _Unchecked:
    def __init__(self, f):
        self.f = f

    def Check(self, ctx):
        pass


# accessors that cannot fail on well-formed terms: skip the error query
for _n in ('get_ast_kind', 'inc_ref', 'dec_ref', 'get_sort', 'get_sort_kind', 'get_app_decl', 'get_decl_kind', 'is_eq_ast', 'is_app',
           'get_bool_value', 'get_ast_id', 'get_app_num_args', 'get_app_arg', 'is_eq_sort', 'get_numeral_string'):
    _f = getattr(_zc, 'Z3_' + _n, None)
    if _f is not None and _f.__defaults__ and isinstance(_f.__defaults__[0], _zc.Elementaries):
        _f.__defaults__ = (_Unchecked(_f.__defaults__[0].f),)
_CTX = z3.main_ctx().ref()
_GB, _AK, _DK, _AD = (f.__defaults__[0].f for f in (_zc.Z3_get_bool_value, _zc.Z3_get_ast_kind, _zc.Z3_get_decl_kind, _zc.Z3_get_app_decl))


def is_true(e):
    return _GB(_CTX, e.ast) == 1


def is_false(e):
    return _GB(_CTX, e.ast) == -1


def is_not(e):
    a = e.ast
    return _AK(_CTX, a) == 1 and _DK(_CTX, _AD(_CTX, a)) == z3.Z3_OP_NOT

z3.set_param('smt.random_seed', 1)
z3.set_option(max_args=12, max_lines=40, max_depth=12, max_visited=2000)


class EndPath(BaseException):
    """the current path ends here (infeasible, or a loop iteration was checked)"""


class Unsupported(BaseException):
    """construct outside the modelled subset: the unit is undecided"""


class Violated(BaseException):
    pass


import os
PROF = {} if os.environ.get('PYVC_PROF') else None     # time per query site


LTIME = 400
_LIN = {}
_NLR = z3.Function('nl*', z3.RealSort(), z3.RealSort(), z3.RealSort())
_NLI = z3.Function('nl*i', z3.IntSort(), z3.IntSort(), z3.IntSort())
_NPW = z3.Function('nl^', z3.RealSort(), z3.RealSort(), z3.RealSort())
_NDR = z3.Function('nl/', z3.RealSort(), z3.RealSort(), z3.RealSort())


def linear(e):
    """e with products and quotients of unknowns replaced by uninterpreted
    terms: what is unsatisfiable after the replacement is so before it"""
    if len(_LIN) > 300000:
        _LIN.clear()
    k = e.get_id()
    m = _LIN.get(k)
    if m is not None:
        return m[1]
    r = _linear(e)
    _LIN[k] = (e, r)
    return r


def _linear(e):
    n = e.num_args() if z3.is_app(e) else 0
    if n == 0:
        return e
    ch = e.children()
    new = [linear(c) for c in ch]
    d = e.decl()
    kd = d.kind()
    if kd == z3.Z3_OP_MUL:
        nums = [c for c in new if z3.is_rational_value(c) or z3.is_int_value(c)]
        oth = [c for c in new if not (z3.is_rational_value(c) or z3.is_int_value(c))]
        if len(oth) > 1:
            oth.sort(key=lambda c: c.get_id())
            f = _NLI if e.sort() == z3.IntSort() else _NLR
            r = oth[0]
            for c in oth[1:]:
                r = f(r, c)
            for c in nums:
                r = c * r
            return r
    elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(new[1]):
        return _NDR(new[0], new[1])
    elif kd == z3.Z3_OP_POWER:
        return _NPW(new[0] if new[0].sort() == z3.RealSort() else z3.ToReal(new[0]), z3.ToReal(new[1]) if new[1].sort() == z3.IntSort() else new[1]) if e.sort() == z3.RealSort() else e
    if all(a is b or a.get_id() == b.get_id() for a, b in zip(ch, new)):
        return e
    if kd == z3.Z3_OP_AND:
        return z3.And(*new)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*new)
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(*new)
    if kd == z3.Z3_OP_MUL:
        return new[0] * new[1] if n == 2 else z3.Product(*new)
    return d(*new)


class Engine:
    lemma = None            # called with a goal that is not proved yet; may add facts
    lemma_applies = None    # cheap test: could it add any

    def __init__(self):
        self.stack_unit = None
        self.funcs = set()
        self.covers = {}
        self.forker = None
        self.feas_timeout = 2000
        self.prove_timeout = 10000
        self.reset_stats()
        self.reset_path([])

    def reset_stats(self):
        self.solver_time = 0.0
        self.n_checks = 0
        self.obligations = []     # dicts
        self.paths = 0
        self.backends = {}

    def reset_path(self, prefix):
        self.prefix, self.qprefix = prefix if isinstance(prefix, tuple) else (prefix, [])
        self.qlog = []        # answers of the solver on the way, replayed with the prefix
        self.trace = []
        self.alternatives = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.lsolver = z3.Solver()
        self.lsolver.set('timeout', LTIME)
        self.known = {}
        self.counters = {}
        self.sums = {}
        self.sumvars = []
        self.n_unknown = 0
        self.registry = {}
        self.notes = []
        self.taint = []       # reasons why a refutation on this path is not conclusive
        self.write_epoch = 0

    # ---- names
    def fresh_name(self, base):
        k = self.counters.get(base, 0)
        self.counters[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def fresh(self, base, kind):
        nm = self.fresh_name(base)
        if kind == 'i':
            return S('i', z3.Int(nm))
        if kind == 'r':
            return S('r', z3.Real(nm))
        if kind == 'b':
            return S('b', z3.Bool(nm))
        if kind == 'x':
            k, r = z3.Int(nm + '.k'), z3.Real(nm + '.r')
            self.assume_raw(z3.And(k >= -1, k <= 2))
            return S('x', (k, r))
        raise Unsupported('kind ' + kind)

    # ---- path condition
    def assume_raw(self, e):
        if is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        self.lsolver.add(linear(e))
        self.known[e.get_id()] = (True, e)

    def assume(self, c):
        if isinstance(c, S):
            self.assume_raw(z3.simplify(c.e))
        elif isinstance(c, bool):
            if not c:
                raise EndPath()
        elif z3.is_expr(c):
            self.assume_raw(z3.simplify(c))
        else:
            if not c:
                raise EndPath()

    def _check(self, *extra, timeout=None, cheap=None):
        t = time.time()
        if cheap:
            self.lsolver.set('timeout', cheap)
        r = self.lsolver.check(*[linear(x) for x in extra])
        if cheap:
            self.lsolver.set('timeout', LTIME)
        elif r != z3.unsat:
            if timeout:
                self.solver.set('timeout', timeout)
            r = self.solver.check(*extra)
            if timeout:
                self.solver.set('timeout', self.feas_timeout)
        self.solver_time += time.time() - t
        self.n_checks += 1
        self.n_unknown += r == z3.unknown
        if PROF is not None:
            self.profile(t, r)
        return r

    def profile(self, t, r, tag=''):
            import sys
            f = sys._getframe(1)
            loc = []
            while f is not None:
                n = f.f_code.co_filename
                if f.f_code.co_name == 'prove':
                    loc.append('P ' + f.f_locals['name'])
                    break
                if '/repo/' in n or n == '<vc>':
                    loc.append('%s:%d' % (f.f_code.co_name, f.f_lineno))
                    break
                if 'specs' in n:
                    loc.append('%s:%d' % (n.split('/')[-1], f.f_lineno))
                f = f.f_back
            k = tag + ' '.join(loc[-2:])
            a = PROF.setdefault(k, [0, 0.0, 0.0, 0])
            a[0] += 1
            a[1] += time.time() - t
            a[2] = max(a[2], time.time() - t)
            a[3] += r == z3.unknown

    def unsat(self, *extra, timeout=None, cheap=None):
        """is the path condition with `extra` unsatisfiable?  Answers given
        before a decision are replayed on the paths that branch off there."""
        i = len(self.qlog)
        if i < len(self.qprefix):
            r = self.qprefix[i]
        else:
            r = self._check(*extra, timeout=timeout, cheap=cheap) == z3.unsat
        self.qlog.append(r)
        return r

    def entails(self, e, timeout=None, cheap=None):
        if isinstance(e, S):
            e = e.e
        if isinstance(e, (bool,)):
            return e
        e = z3.simplify(e)
        if is_true(e):
            return True
        if is_false(e):
            return self.unsat()
        kn = self.known.get(e.get_id())
        if kn is not None:
            return kn[0]
        return self.unsat(z3.Not(e), timeout=timeout, cheap=cheap)

    def branch(self, cond):
        """decide a symbolic boolean (a python bool comes back unchanged)"""
        if isinstance(cond, S):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        kn = self.known.get(cond.get_id())
        if kn is not None:
            return kn[0]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
        else:
            t_ok = self._check(cond) != z3.unsat
            f_ok = not t_ok or self._check(z3.Not(cond)) != z3.unsat
            if t_ok and f_ok:
                if self.sumvars and mentions(cond, self.sumvars):
                    raise Unsupported('case distinction on the bound variable of a sum')
                if PROF is not None:
                    self.profile(time.time(), None, 'ALT ')
                d = self.split()
            else:
                d = t_ok
            self.trace.append(d)
        neg = z3.simplify(z3.Not(cond))
        self.known[cond.get_id()] = (d, cond)
        self.known[neg.get_id()] = (not d, neg)
        lit = cond if d else neg
        self.pc.append(lit)
        self.solver.add(lit)
        self.lsolver.add(linear(lit))
        return d

    def split(self):
        if self.forker is not None:
            return self.forker.split()
        self.alternatives.append((self.trace + [False], list(self.qlog)))
        return True

    def choose(self, label=''):
        """free nondeterministic choice, explored both ways"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if PROF is not None:
                self.profile(time.time(), None, 'CHO %s ' % label)
            d = self.split()
        self.trace.append(d)
        return d

    def feasible(self):
        return not self.unsat()

    # ---- obligations
    def prove(self, name, goal, info=None):
        """record the obligation `goal` (S bool / z3 / bool / list of them)"""
        if isinstance(goal, (list, tuple)):
            for k, g in enumerate(goal):
                self.prove(name, g, info)
            return
        if len(self.trace) < len(self.prefix):
            return      # proved on the path this one branches off from
        if isinstance(goal, S):
            goal = goal.e
        rec = dict(unit=self.stack_unit, name=name, path=len(self.pc), backend='simplify', time=0.0)
        if isinstance(goal, bool):
            rec['result'] = 'proved' if goal else self._refute_const()
            if rec['result'] == 'refuted' and self.forker is not None:
                self.forker.failed.value += 1
            rec['taint'] = list(self.taint)
            self.obligations.append(rec)
            return
        g = z3.simplify(goal)
        if is_true(g):
            rec['result'] = 'proved'
            self.obligations.append(rec)
            return
        t = time.time()
        backend, soft = 'z3', False
        if self.lemma is not None and self.lemma_applies(g):
            r = self._check(z3.Not(g), cheap=2000)
            if r != z3.unsat:
                r = self._check(z3.Not(g), timeout=300)
            if r != z3.unsat:
                r = self.with_lemma(g)
                soft = r == z3.unknown      # a counter-model then proves nothing
                if r != z3.unsat:
                    r = self._check(z3.Not(g), timeout=self.prove_timeout)
        else:
            r = self._check(z3.Not(g), timeout=self.prove_timeout)
        model = None
        if r == z3.sat:
            model = self.solver.model()
        if r == z3.unknown:
            s2 = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
            s2.set('timeout', self.prove_timeout)
            try:
                for p in self.pc:
                    s2.add(p)
                s2.add(z3.Not(g))
                r = s2.check()
                backend = 'z3-nlsat'
                if r == z3.sat:
                    model = s2.model()
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.unknown:
            r2 = self._cvc5(g)
            if r2 is not None:
                r, backend = r2, 'cvc5'
        if soft and r == z3.sat:
            r = z3.unknown
        rec['time'] = round(time.time() - t, 3)
        rec['backend'] = backend
        rec['result'] = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[str(r)]
        if rec['result'] == 'refuted' and self.forker is not None:
            self.forker.failed.value += 1
        if rec['result'] != 'proved':
            rec['taint'] = list(self.taint)
            rec['goal'] = str(g)[:600]
            if model is not None:
                rec['model'] = str(model)[:1500]
            rec['notes'] = list(self.notes)[-8:]
            if os.environ.get('PYVC_SUMS'):
                info = ['%s = sum(%s) %s' % (r, n, e) for r, n, e, *_ in self.sums.values()]
                rec['goal'] += ' || ' + '; '.join(str(q) for q in self.pc if 'sqrt!' in str(q))[:1500]
            if info:
                rec['info'] = str(info)[:6000 if os.environ.get('PYVC_SUMS') else 300]
        self.obligations.append(rec)

    def with_lemma(self, g):
        """second attempt with the facts self.lemma adds; in a child process,
        so that the state of the path stays as it is"""
        import sys
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                self.forker = None
                self.qprefix = self.prefix = []
                import signal
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(60)
                self.solver.set('timeout', 300)
                self.feas_timeout = 300
                self.n_unknown = 0
                if any(self._check(z3.Not(q), cheap=3000) == z3.unsat for q in self.lemma(g)):
                    code = 42
                elif self.n_unknown == 0:
                    code = 43
            except BaseException:
                pass
            finally:
                os._exit(code)
        return {42: z3.unsat, 43: z3.sat}.get(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), z3.unknown)

    def _refute_const(self):
        return 'refuted' if self.feasible() else 'proved'

    def _cvc5(self, goal):
        try:
            import subprocess, tempfile, os, shutil
            exe = shutil.which('cvc5')
            if not exe:
                return None
            s = z3.Solver()
            for p in self.pc:
                s.add(p)
            s.add(z3.Not(goal))
            txt = '(set-logic ALL)\n' + s.to_smt2()
            fd, fn = tempfile.mkstemp(suffix='.smt2')
            os.write(fd, txt.encode()); os.close(fd)
            try:
                out = subprocess.run([exe, '--tlimit=%d' % self.prove_timeout, fn],
                                     capture_output=True, text=True, timeout=self.prove_timeout / 1000 + 5).stdout
            finally:
                os.unlink(fn)
            w = out.strip().split('\n')[0] if out.strip() else ''
            if w == 'unsat':
                return z3.unsat
            return None
        except Exception:
            return None


ENG = Engine()


def num(v):
    """python number -> z3 numeral, kind"""
    if isinstance(v, bool):
        return ('b', z3.BoolVal(v))
    if isinstance(v, int):
        return ('i', z3.IntVal(v))
    if isinstance(v, Fraction):
        return ('r', z3.Q(v.numerator, v.denominator))
    if isinstance(v, float):
        if math.isnan(v):
            return ('x', (z3.IntVal(2), z3.RealVal(0)))
        if math.isinf(v):
            return ('x', (z3.IntVal(1 if v > 0 else -1), z3.RealVal(0)))
        f = Fraction(v)
        return ('r', z3.Q(f.numerator, f.denominator))
    raise Unsupported('number %r' % (v,))


def lift(v):
    """(kind, expr) of a scalar"""
    if isinstance(v, S):
        return (v.k, v.e)
    if hasattr(v, '_scalar_'):
        return lift(v._scalar_())
    return num(v)


def is_scalar(v):
    return isinstance(v, (S, int, float, bool, Fraction))


def _real(k, e):
    if k == 'r':
        return e
    if k == 'i':
        return z3.ToReal(e)
    if k == 'b':
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported('real of ext')


def _int(k, e):
    if k == 'i':
        return e
    if k == 'b':
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int of ' + k)


def _ext(k, e):
    if k == 'x':
        return e
    return (z3.IntVal(0), _real(k, e))


_RANK = {'b': 0, 'i': 1, 'r': 2, 'x': 3}


def mk(k, e):
    """build a scalar, folding constants to python values"""
    if k == 'x':
        kk = z3.simplify(e[0])
        if z3.is_int_value(kk):
            c = kk.as_long()
            if c == 0:
                return mk('r', e[1])
            return {1: math.inf, -1: -math.inf, 2: math.nan}[c]
        return S('x', (kk, z3.simplify(e[1])))
    e = z3.simplify(e)
    if k == 'b':
        if is_true(e):
            return True
        if is_false(e):
            return False
    elif k == 'i' and z3.is_int_value(e):
        return e.as_long()
    elif k == 'r' and z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        fl = float(f) if abs(f) < Fraction(10) ** 300 else None
        if fl is not None and Fraction(fl) == f:
            return fl
        return S('r', e)
    return S(k, e)


def mkr(e):
    """real term; small terms are simplified"""
    if e.num_args() == 2 and z3.is_rational_value(e.arg(0)) and z3.is_rational_value(e.arg(1)):
        return mk('r', e)
    return S('r', e)


def mkb(e):
    if is_true(e):
        return True
    if is_false(e):
        return False
    return S('b', e)


def ite(c, a, b):
    if isinstance(c, S):
        c = c.e
    if isinstance(c, bool):
        return a if c else b
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a is b:
        return a
    if not is_scalar(a) and not hasattr(a, '_scalar_') or not is_scalar(b) and not hasattr(b, '_scalar_'):
        # opaque values: decide now
        return a if ENG.branch(c) else b
    ka, ea = lift(a)
    kb, eb = lift(b)
    k = ka if _RANK[ka] >= _RANK[kb] else kb
    if k == 'x':
        (p, q), (u, v) = _ext(ka, ea), _ext(kb, eb)
        return mk('x', (z3.If(c, p, u), z3.If(c, q, v)))
    if k == 'r':
        x, y = _real(ka, ea), _real(kb, eb)
        return S('r', x) if x.eq(y) else S('r', z3.If(c, x, y))
    if k == 'i':
        x, y = _int(ka, ea), _int(kb, eb)
        return S('i', x) if x.eq(y) else S('i', z3.If(c, x, y))
    return mk('b', z3.If(c, ea, eb))


def _conc(v):
    return isinstance(v, (int, float, bool))


def arith(op, a, b):
    if _conc(a) and _conc(b):
        try:
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if b == 0:
                    if a != a or a == 0: return math.nan
                    return math.inf if a > 0 else -math.inf
                # exact when representable, else keep a rational
                if math.isinf(a) or math.isinf(b) or a != a or b != b:
                    return a / b
                f = Fraction(a) / Fraction(b)
                return mk('r', z3.Q(f.numerator, f.denominator))
            if op == '//': return a // b
            if op == '%': return a % b
        except OverflowError:
            raise Unsupported('overflow')
    ka, ea = lift(a)
    kb, eb = lift(b)
    k = ka if _RANK[ka] >= _RANK[kb] else kb
    if k != 'x' and (_conc(a) or _conc(b)):
        # neutral and absorbing elements
        real = k == 'r' or op == '/'
        if op == '*':
            if (_conc(a) and a == 0) or (_conc(b) and b == 0):
                return 0.0 if real else 0
            if _conc(a) and a == 1 and kb == k:
                return b if isinstance(b, S) else S(kb, eb)
            if _conc(b) and b == 1 and ka == k:
                return a if isinstance(a, S) else S(ka, ea)
        elif op == '+':
            if _conc(a) and a == 0 and kb == k:
                return b if isinstance(b, S) else S(kb, eb)
            if _conc(b) and b == 0 and ka == k:
                return a if isinstance(a, S) else S(ka, ea)
        elif op == '-' and _conc(b) and b == 0 and ka == k:
            return a if isinstance(a, S) else S(ka, ea)
    if k == 'x':
        (p, q), (u, v) = _ext(ka, ea), _ext(kb, eb)
        both = z3.And(p == 0, u == 0)
        if op == '/':
            both = z3.And(both, v != 0)
        fin = {'+': lambda: q + v, '-': lambda: q - v, '*': lambda: q * v, '/': lambda: q / v}.get(op)
        if fin is None:
            raise Unsupported('ext op ' + op)
        o = ENG.fresh('ext', 'x')
        r = z3.If(both, fin(), o.e[1])
        nanin = z3.Or(p == 2, u == 2)
        if op in '+-':
            s = u if op == '+' else -u
            kk = z3.If(both, 0, z3.If(nanin, 2, z3.If(p == 0, s, z3.If(u == 0, p, z3.If(p == s, p, 2)))))
        else:
            kk = z3.If(both, 0, z3.If(nanin, 2, o.e[0]))
        return mk('x', (kk, r))
    if op in ('/',):
        return mkr(_real(ka, ea) / _real(kb, eb))
    if op in ('//', '%'):
        if k == 'r':
            raise Unsupported('real // or %')
        x, y = _int(ka, ea), _int(kb, eb)
        if not ENG.entails(y > 0):
            raise Unsupported('// or % by a possibly non-positive number')
        return mk('i', x / y if op == '//' else x % y)
    if k in ('i', 'b'):
        x, y = _int(ka, ea), _int(kb, eb)
        return mk('i', x + y if op == '+' else x - y if op == '-' else x * y)
    x, y = _real(ka, ea), _real(kb, eb)
    return mkr(x + y if op == '+' else x - y if op == '-' else x * y)


def power(a, b):
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if isinstance(b, int):
        if _conc(a) and b >= 0:
            return a ** b
        if b < 0:
            return arith('/', 1, power(a, -b))
        r = 1
        for _ in range(b):
            r = arith('*', r, a)
        return r
    if b == 0.5:
        return sqrt(a)
    raise Unsupported('power')


def compare(op, a, b):
    if _conc(a) and _conc(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    ka, ea = lift(a)
    kb, eb = lift(b)
    k = ka if _RANK[ka] >= _RANK[kb] else kb
    if op in ('>', '>='):
        op = {'>': '<', '>=': '<='}[op]
        ka, ea, kb, eb = kb, eb, ka, ea
    if k == 'x':
        (p, q), (u, v) = _ext(ka, ea), _ext(kb, eb)
        ok = z3.And(p != 2, u != 2)
        if op == '<':
            e = z3.And(ok, z3.Or(p < u, z3.And(p == 0, u == 0, q < v)))
        elif op == '<=':
            e = z3.And(ok, z3.Or(p < u, z3.And(p == u, z3.Or(p != 0, q <= v))))
        else:
            e = z3.And(ok, p == u, z3.Or(p != 0, q == v))
            if op == '!=':
                e = z3.Not(e)
        return mk('b', e)
    if k == 'r':
        x, y = _real(ka, ea), _real(kb, eb)
    elif k == 'i':
        x, y = _int(ka, ea), _int(kb, eb)
    else:
        x, y = ea, eb
        if op in ('<', '<='):
            x, y = _int(ka, ea), _int(kb, eb)
    if x.eq(y):
        return op in ('<=', '==')
    if op in ('==', '!=') and k in 'ir' and (is_zero(x) or is_zero(y)):
        m = y if is_zero(x) else x
        if z3.is_mul(m):
            # a product vanishes when a factor does
            e = z3.Or(*[c == 0 for c in m.children()])
            return mk('b', e if op == '==' else z3.Not(e))
    if k == 'i':
        return mk('b', x < y if op == '<' else x <= y if op == '<=' else x == y if op == '==' else x != y)
    return mkb(x < y if op == '<' else x <= y if op == '<=' else x == y if op == '==' else z3.Not(x == y))


def is_zero(e):
    return (z3.is_int_value(e) or z3.is_rational_value(e)) and e.as_fraction() == 0 if z3.is_rational_value(e) else z3.is_int_value(e) and e.as_long() == 0


def same(a, b):
    """identity of scalars as mathematical values (nan equals nan)"""
    ka, ea = lift(a)
    kb, eb = lift(b)
    if ka == 'x' or kb == 'x':
        (p, q), (u, v) = _ext(ka, ea), _ext(kb, eb)
        return mk('b', z3.And(p == u, z3.Or(p != 0, q == v)))
    return compare('==', a, b)


def bnot(a):
    if isinstance(a, bool):
        return not a
    k, e = lift(a)
    if k != 'b':
        return compare('==', a, 0)
    if is_not(e):
        return mkb(e.arg(0))
    return mkb(z3.Not(e))


def tobool(a):
    """truth value as bool scalar, no branching"""
    if isinstance(a, (bool, int, float)):
        return bool(a)
    if a.k == 'b':
        return a
    return compare('!=', a, 0)


def _be(v):
    v = tobool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v.e


def _flat(a, stop):
    """z3 terms of the arguments; None when one equals `stop`"""
    out = []
    for v in a:
        e = _be(v)
        if is_true(e):
            if stop:
                return None
        elif is_false(e):
            if not stop:
                return None
        else:
            out.append(e)
    return out


def band(*a):
    t = _flat(a, False)
    if t is None:
        return False
    return True if not t else S('b', t[0]) if len(t) == 1 else S('b', z3.And(t))


def bor(*a):
    t = _flat(a, True)
    if t is None:
        return True
    return False if not t else S('b', t[0]) if len(t) == 1 else S('b', z3.Or(t))


def implies(a, b):
    x, y = _be(a), _be(b)
    if is_false(x) or is_true(y):
        return True
    if is_true(x):
        return mkb(y)
    return S('b', z3.Implies(x, y))


def sabs(a):
    if _conc(a):
        return abs(a)
    if a.k == 'x':
        p, q = a.e
        return mk('x', (z3.If(p == -1, 1, p), z3.If(q < 0, -q, q)))
    return ite(compare('<', a, 0), arith('-', 0, a), a)


def neg(a):
    if _conc(a):
        return -a
    if a.k == 'x':
        p, q = a.e
        return mk('x', (z3.If(p == 2, 2, -p), -q))
    return arith('-', 0, a)


def smin(a, b):
    return ite(compare('<=', a, b), a, b)


def smax(a, b):
    return ite(compare('>=', a, b), a, b)


def isnan(a):
    if isinstance(a, S):
        return mk('b', a.e[0] == 2) if a.k == 'x' else False
    return isinstance(a, float) and math.isnan(a)


def isinf(a):
    if isinstance(a, S):
        return mk('b', z3.Or(a.e[0] == 1, a.e[0] == -1)) if a.k == 'x' else False
    return isinstance(a, float) and math.isinf(a)


def fmin(a, b):
    return ite(isnan(a), b, ite(isnan(b), a, smin(a, b)))


def fmax(a, b):
    return ite(isnan(a), b, ite(isnan(b), a, smax(a, b)))


def consts(e):
    """the uninterpreted constants of a term"""
    seen, out, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t)
        todo.extend(t.children())
    return out


def mentions(e, vs):
    ids = {v.get_id() for v in vs}
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(t.children())
    return False


def sqrt(a):
    if _conc(a):
        if a >= 0:
            r = math.sqrt(a)
            if Fraction(r) * Fraction(r) == Fraction(a):
                return r
        else:
            return math.nan
        a = S(*num(a))
    key = ('sqrt', a.k, str(a.e))
    if key in ENG.registry:
        return ENG.registry[key]
    if a.k == 'x':
        raise Unsupported('sqrt of extended real')
    e = _real(a.k, a.e)
    if ENG.branch(e < 0):
        return math.nan
    r = ENG.fresh('sqrt', 'r')
    ENG.assume_raw(r.e >= 0 if ENG.registry.get('abstract roots') else z3.And(r.e >= 0, r.e * r.e == e))
    ENG.registry[key] = r
    ENG.registry.setdefault('sqrts', {})[r.e] = e
    return r


class S:
    """symbolic scalar; behaves like a numpy 0-d scalar"""
    __slots__ = ('k', 'e')
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = 100

    def __init__(self, k, e):
        self.k = k
        self.e = e

    def __bool__(self):
        return ENG.branch(tobool(self))

    def __repr__(self):
        return '<%s %s>' % (self.k, str(self.e)[:80])

    __str__ = __repr__

    def __format__(self, f):
        return '<sym>'

    def __float__(self):
        raise Unsupported('float of a symbolic value')

    def __index__(self):
        raise Unsupported('index needs a concrete value')

    def __hash__(self):
        return id(self)

    def __add__(self, o): return _bin('+', self, o)
    def __radd__(self, o): return _bin('+', o, self)
    def __sub__(self, o): return _bin('-', self, o)
    def __rsub__(self, o): return _bin('-', o, self)
    def __mul__(self, o): return _bin('*', self, o)
    def __rmul__(self, o): return _bin('*', o, self)
    def __truediv__(self, o): return _bin('/', self, o)
    def __rtruediv__(self, o): return _bin('/', o, self)
    def __floordiv__(self, o): return _bin('//', self, o)
    def __mod__(self, o): return _bin('%', self, o)
    def __pow__(self, o): return power(self, o)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return sabs(self)
    def __lt__(self, o): return _cmp('<', self, o)
    def __le__(self, o): return _cmp('<=', self, o)
    def __gt__(self, o): return _cmp('>', self, o)
    def __ge__(self, o): return _cmp('>=', self, o)
    def __eq__(self, o): return _cmp('==', self, o)
    def __ne__(self, o): return _cmp('!=', self, o)
    def __and__(self, o): return band(self, o) if is_scalar(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return bor(self, o) if is_scalar(o) else NotImplemented
    __ror__ = __or__
    def __invert__(self): return bnot(self)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self
    def copy(self): return self
    def any(self): return tobool(self)
    def all(self): return tobool(self)
    def item(self): return self
    def conj(self): return self

    def reshape(self, *a):
        from . import snp
        return snp.asarray0(self).reshape(*a)

    def dot(self, o):
        return self * o

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self


def _bin(op, a, b):
    if hasattr(a, 'root') or hasattr(b, 'root') or hasattr(a, '_lin_') or hasattr(b, '_lin_'):
        return NotImplemented
    if (is_scalar(a) or hasattr(a, '_scalar_')) and (is_scalar(b) or hasattr(b, '_scalar_')):
        return arith(op, a._scalar_() if hasattr(a, '_scalar_') else a, b._scalar_() if hasattr(b, '_scalar_') else b)
    return NotImplemented


def _cmp(op, a, b):
    if is_scalar(a) and is_scalar(b):
        return compare(op, a, b)
    if b is None or isinstance(b, str) or a is None or isinstance(a, str):
        return op == '!='
    return NotImplemented


def run_path(body, pref, out):
    """one path; returns the prefixes of the alternatives found on it"""
    ENG.reset_path(pref)
    out['paths'] += 1
    try:
        body()
        out['completed'] += 1
    except EndPath:
        pass
    except Unsupported as e:
        if ENG.feasible():
            import traceback
            tb = [f for f in traceback.extract_tb(e.__traceback__)]
            loc = '; '.join('%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb[-7:])
            out['undecided'].append('unsupported: %s at %s' % (e, loc))
    except RecursionError as e:
        out['undecided'].append('recursion limit')
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        loc = '; '.join('%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb[-6:])
        if ENG.feasible():
            out['exceptions'].append('%s: %s at %s' % (type(e).__name__, str(e)[:200], loc))
    ENG.paths += 1
    return list(reversed(ENG.alternatives))


def explore(unit_name, body, max_paths=4000, budget=None, par=1):
    """run body() along every feasible path; returns status dict"""
    ENG.stack_unit = unit_name
    t0 = time.time()
    out = dict(unit=unit_name, paths=0, completed=0, undecided=[], exceptions=[])
    if par > 1:
        forked(body, out, max_paths, budget, par)
        out['wall'] = round(time.time() - t0, 2)
        return out
    todo = [([], [])]
    while todo:
        if out['paths'] >= max_paths:
            out['undecided'].append('path limit %d' % max_paths)
            break
        if budget and time.time() - t0 > budget:
            out['undecided'].append('time limit %ss (%d paths pending)' % (budget, len(todo)))
            break
        todo.extend(run_path(body, todo.pop(), out))
    out['wall'] = round(time.time() - t0, 2)
    return out


STOP_AFTER = 6


class Forker:
    """explores the alternatives of a decision in forked processes: the child
    takes the other side from the very state in which the decision arose.  At
    most `par` of the processes run, the others wait for a child."""

    def __init__(self, par, max_paths, budget):
        import multiprocessing as mp
        import tempfile
        self.dir = tempfile.mkdtemp(prefix='pyvc')
        self.tokens = mp.get_context('fork').Semaphore(par - 1)
        self.count = mp.get_context('fork').Value('i', 1)
        self.failed = mp.get_context('fork').Value('i', 0)
        self.max_paths = max_paths
        self.deadline = time.time() + budget if budget else None
        self.children, self.root = [], True

    def limit(self):
        if self.count.value > self.max_paths:
            return 'path limit %d' % self.max_paths
        if self.deadline and time.time() > self.deadline:
            return 'time limit'
        if self.failed.value >= STOP_AFTER:
            return 'stopped after %d failed obligations' % STOP_AFTER

    def split(self):
        """True on this side, False in the child that explores the other one"""
        why = self.limit()
        if why:
            self.out['undecided'].append(why)
            raise EndPath()
        with self.count.get_lock():
            self.count.value += 1
        tok = self.tokens.acquire(block=False)
        pid = os.fork()
        if pid == 0:
            self.root, self.children = False, []
            self.out.update(paths=1, completed=0, undecided=[], exceptions=[])
            ENG.obligations = []
            ENG.solver_time = 0.0
            if PROF is not None:
                PROF.clear()
            return False
        if tok:
            self.children.append(pid)
        else:
            # the child runs in this process's place and gives the place up
            # when its own path ends
            self.wait(pid)
            self.tokens.acquire()
        return True

    def wait(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            if os.WIFSIGNALED(st):
                self.tokens.release()
            self.out['undecided'].append('worker died')

    def finish(self):
        """end of a path: a child reports and ends"""
        import pickle
        # what is left is waiting: the place goes to somebody else
        self.tokens.release()
        for p in self.children:
            self.wait(p)
        if self.root:
            return
        code = 1
        try:
            fn = os.path.join(self.dir, str(os.getpid()))
            with open(fn + '.tmp', 'wb') as f:
                pickle.dump((self.out, ENG.obligations, ENG.solver_time, ENG.funcs, ENG.covers, PROF), f)
            os.rename(fn + '.tmp', fn + '.done')
            code = 0
        finally:
            os._exit(code)

    def collect(self):
        import pickle, shutil
        n = 0
        for fn in os.listdir(self.dir):
            if fn.endswith('.done'):
                n += 1
                o, obl, st, fs, cov, prof = pickle.load(open(os.path.join(self.dir, fn), 'rb'))
                for k in ('paths', 'completed', 'undecided', 'exceptions'):
                    self.out[k] += o[k]
                ENG.obligations += obl
                ENG.solver_time += st
                ENG.funcs |= fs
                for k, v in cov.items():
                    if v is True or not ENG.covers.get(k):
                        ENG.covers[k] = v
                for k, v in (prof or {}).items():
                    a = PROF.setdefault(k, [0, 0.0, 0.0, 0])
                    for j in (0, 1, 3):
                        a[j] += v[j]
                    a[2] = max(a[2], v[2])
        shutil.rmtree(self.dir, ignore_errors=True)
        if n != self.count.value - 1:
            self.out['undecided'].append('worker lost')


def forked(body, out, max_paths, budget, par):
    import gc
    ENG.forker = fk = Forker(par, max_paths, budget)
    fk.out = out
    gc.disable()
    try:
        run_path(body, ([], []), out)
    except BaseException:
        if not fk.root:
            os._exit(1)
        raise
    fk.finish()
    ENG.forker = None
    gc.enable()
    fk.collect()
    if PROF is not None:
        import json
        json.dump(PROF, open(os.environ['PYVC_PROF'], 'w'))
