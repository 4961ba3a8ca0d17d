"""Contracts of the evaluation chain (shared by P01, P03 and P05):
sqpdfo_func_ -> sqpdfo_evalfgh_ -> sqpdfo_augmX_evalf_."""
import math
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *

CAP = 1e25


class UserError(Exception):
    pass


def user_functions(G, n, me, form):
    """the user's objective and constraint function: arbitrary results, may
    raise; every call is recorded with its argument"""
    G['fcalls'], G['ccalls'] = [], []

    def point(v):
        a = snp.array(v)
        return a.snap(), a._dims

    def f(v):
        G['fcalls'].append(point(v))
        if ENG.choose('objective raises'):
            raise UserError()
        G['f'] = ENG.fresh('fval', 'x')
        return G['f']

    def c(v):
        G['ccalls'].append(point(v))
        if ENG.choose('constraint raises'):
            raise UserError()
        if form == 'array':
            r = arr('cval', (me,), 'x')
            G['c'] = r.snap()
            return r
        if form == 'list':
            r = arr('cval', (me,), 'x')
            G['c'] = r.snap()
            return snp.SymList(r)
        r = arr('cval', (me, 1), 'x')
        s = r.snap()
        G['c'] = lambda i: s(i, 0)
        return r
    return f, c


def is_call_of(calls, x0, n, what):
    for rd, dims in calls:
        ok = len(dims) == 1
        ENG.prove('%s called with a sequence of n numbers' % what, ok and compare('==', dims[0], n))
        if ok:
            prove_all('%s called at exactly this point' % what, (n,), lambda i: same(rd(i), x0(i, 0)))


def func(con, form, entry):
    """contract: one objective call at x, at most one constraint call at x;
    message set exactly when one of them raised; otherwise the values returned
    are the user's, constraints as a column"""
    def body(W, cover):
        glob = W.load('sqpdfo.sqpdfo_global_variables')
        if entry == 'func':
            fn = W.fn('sqpdfo_func', 'sqpdfo_func_')
        else:
            fn = W.fn('sqpdfo_evalfgh', 'sqpdfo_evalfgh_')
        G = {}
        n = integer('n', 1)
        me = integer('me', 1)
        f, c = user_functions(G, n, me, form)
        glob.filename_f = f
        glob.filename_cons = c if con else ''
        glob.simul_not_initialized = integer('sni', 0, 2)
        x = arr('x', (n, 1))
        x0 = x.snap()
        fr = Frame(x=x)
        cover()
        msg, fv, ci, ce = fn(x) if entry == 'func' else fn(2, x)
        fr.check()
        ENG.prove('objective called exactly once', len(G['fcalls']) == 1)
        ENG.prove('constraint function called at most once', len(G['ccalls']) <= 1)
        is_call_of(G['fcalls'], x0, n, 'objective')
        is_call_of(G['ccalls'], x0, n, 'constraint function')
        ENG.prove('no separate inequality values', ci.size == 0)
        ok_f, ok_c = 'f' in G, (not con) or 'c' in G
        failed = not (ok_f and ok_c)
        ENG.prove('message exactly when a user function raised', bool(msg != 0) == failed)
        ENG.prove('a failed objective is reported as infinite', True if ok_f else fv == math.inf)
        if ok_f:
            ENG.prove('objective value is the user\'s', same(fv, G['f']))
        if con and 'c' in G:
            prove_same('constraint values are the user\'s, as a column', ce, lambda i, z: G['c'](i), (me, 1))
        if not con:
            ENG.prove('no constraint values without constraints', ce.size == 0 and not G['ccalls'])
    return body


FUNC_UNITS = [Unit('%s/%s' % (e, ('constrained-' + fm) if c else 'unconstrained'), func(c, fm, e),
                   'sqpdfo_func_' if e == 'func' else 'sqpdfo_evalfgh_', assumes=[REAL, NPSHIM, 'user functions: arbitrary, may raise'])
              for e in ('func', 'evalfgh') for c, fm in ((0, 'array'), (1, 'array'), (1, 'list'), (1, 'column'))
              if not (e == 'evalfgh' and c and fm != 'array')]


# ------------------------------------------------------------------ recording one evaluation
def simulator(G, n, me):
    """contract of sqpdfo_evalfgh_ (FUNC_UNITS): outcome of one evaluation"""
    def sim(key, y):
        G['calls'].append((key, y.snap(), y._dims))
        fval = ENG.fresh('fval', 'x')
        okf = not ENG.choose('objective raises')
        okc = me is None or not ENG.choose('constraint raises')
        G['f'], G['ok'] = fval, okf and okc
        ce = empty()
        G['ce'] = None
        if me is not None and okc:
            ce = arr('cval', (me, 1), 'x')
            G['ce'] = ce.snap()
        return (0 if okf and okc else 'Error'), (fval if okf else math.inf), empty(), ce
    return sim


def clip(v):
    return ite(compare('>', v, CAP), CAP, ite(compare('<', v, -CAP), -CAP, v))


def augmX(con, first):
    def body(W, cover):
        fn = W.fn('sqpdfo_augmX_evalf', 'sqpdfo_augmX_evalf_')
        G = dict(calls=[])
        n = integer('n', 1)
        me = integer('me', 1) if con else None
        y = arr('y', (n, 1))
        y0 = y.snap()
        if first:
            m = 0
            X, fX, ceX = empty(), empty(), empty()
            xs, ss, ds = empty(), empty(), empty()
            nX = nF = nC = nS = 0
        else:
            m = integer('m', 1)
            # the records end at position m, or (row records) have room there
            nX = m
            nF, nS = (integer(k, 1) for k in ('nF', 'nS'))
            for v in (nF, nS):
                ENG.assume(compare('>=', v, m))
            X, fX = arr('X', (n, nX)), arr('fX', (nF,))
            nC = m
            ceX = arr('ceX', (me, nC)) if con else empty()
            xs, ss, ds = arr('xs', (nS,), 'i'), arr('ss', (nS,), 'i'), arr('ds', (nS,), 'i')
        olds = [None if first else a.snap() for a in (X, fX, ceX, xs, ss, ds)]
        ns0, ns1 = integer('nsimul0', 0), integer('nsimul1', 0)
        nsim = snp.array([ns0, ns1])
        FAIL = 3
        fl0 = integer('flag')
        f0 = real('f0')
        info = Bag(f=f0, ce=arr('ce0', (n, 1)), flag=fl0, nsimul=nsim)
        values = Bag(success=0, fail_on_simul=FAIL)
        neval = integer('neval', 0)
        fxmax = real('fxmax')
        xval = integer('xval')
        indfree = snp.arange(n)
        fr = Frame(y=y, **({} if first else dict(X=X, fX=fX, ceX=ceX, xstatus=xs, sstatus=ss, dstatus=ds)))
        sim = simulator(G, n, me)
        cover()
        X2, fX2, ciX2, ceX2, nev2, xs2, ss2, ds2, info2, msg = fn(sim, y, m, X, fX, empty(), ceX, 0, snp.full_((n, 1), 0.0), empty(), indfree, fxmax, neval,
                                                                   xs, xval, ss, ds, 0, snp.full_((1, n), 1.0), info, Bag(verbose=0, fout=1), values)
        fr.check()
        ENG.prove('objective evaluated exactly once', len(G['calls']) == 1)
        for k, rd, dims in G['calls']:
            ok = len(dims) == 2
            ENG.prove('evaluation of f and constraints (key 2) at a column', bool(ok and k == 2) and compare('==', dims[0], n))
            if ok:
                prove_all('evaluated at exactly this point', (n,), lambda i: same(rd(i, 0), y0(i, 0)))
        ENG.prove('simulation counter', same(info2.nsimul[1], arith('+', ns1, 1)))
        ENG.prove('other counter kept', same(info2.nsimul[0], ns0))
        # classification of the outcome
        bad = bor(not G['ok'], core.isnan(G['f']), core.isinf(G['f']))
        if con and G['ce'] is not None:
            q = ENG.fresh('nanrow', 'i')
            snp.add_probe(q, me)
            anynan = ENG.fresh('anynan', 'b')
            ce = G['ce']
            ENG.assume(implies(anynan, band(in_range(q, me), core.isnan(ce(q, 0)))))
            snp.forall(lambda r: ENG.assume(implies(band(in_range(r, me), core.isnan(ce(r, 0))), anynan)), me)
            bad = bor(bad, anynan)
        flagged = same(info2.flag, FAIL)
        ENG.assume(bnot(same(fl0, FAIL)))
        ENG.prove('failed evaluation is flagged', implies(bad, flagged))
        ENG.prove('flag untouched otherwise', implies(bnot(bad), same(info2.flag, fl0)))
        ENG.prove('message only after failure', implies(bnot(bad), bool(msg == 0)))
        # the point is recorded at position m in every case
        grow = lambda sz: ite(compare('<', m, sz), sz, arith('+', m, 1))

        def rec(name, new, old, sz, val, rows=None, kind=None):
            dims = ((rows,) if rows is not None else ()) + (grow(sz),)
            def want(*i):
                c = i[-1]
                o = old(*i) if old is not None else val(*i[:-1])
                return ite(compare('==', c, m), val(*i[:-1]), o)
            prove_same(name, new, want, dims)
        rec('point recorded at its position, others kept', X2, olds[0], nX, lambda i: y0(i, 0), rows=n)
        rec('status recorded', xs2, olds[3], nS, lambda: xval)
        rec('subspace status recorded', ss2, olds[4], nS, lambda: 1)
        rec('dummy status recorded', ds2, olds[5], nS, lambda: 0)
        if ENG.branch(bad):
            ENG.prove('failure: evaluation count of records unchanged', same(nev2, neval))
            for nm, a2, a, o in (('objective values', fX2, fX, olds[1]), ('constraint values', ceX2, ceX, olds[2])):
                if o is None or isinstance(a.size, int) and a.size == 0:
                    ENG.prove('failure: no %s recorded' % nm, a2.size == 0)
                else:
                    prove_same('failure: %s unchanged' % nm, a2, o, a._dims)
        else:
            ENG.prove('evaluation recorded', same(nev2, arith('+', neval, 1)))
            ENG.prove('current objective value is the one returned', same(info2.f, G['f']))
            rec('objective value recorded at the position of its point', fX2, olds[1], nF, lambda: core.smin(fxmax, G['f']))
            if con:
                rec('constraint values recorded at the position of their point', ceX2, olds[2], nC, lambda i: clip(G['ce'](i, 0)), rows=me)
            else:
                ENG.prove('no constraint values', ceX2.size == 0)
    return body


AUG_UNITS = [Unit('augmX/%s%s' % ('constrained' if c else 'unconstrained', '/first' if f else ''), augmX(c, f), 'sqpdfo_augmX_evalf_',
                  assumes=[REAL, NPSHIM, 'sqpdfo_evalfgh_: contract proved in the func/evalfgh units', 'no fixed variables (nfix == 0), scaleX == 0 (its only value)'], budget=200, par=4)
             for c in (0, 1) for f in (1, 0)]
