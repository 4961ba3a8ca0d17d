"""Contracts of the optimizer's main loop, sqpdfo_main_ (shared by P01-P05, P09).

Ghost state: the log of successful evaluations, column c of which is the c-th
evaluated point with its objective and constraint values.  The loop invariant
says how the program's arrays relate to the log; each property owns a part of
it (its 'focus') and proves that part, using the other parts, which the other
properties prove."""
import math
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *
from pyvc.xform import BlockSpec, BLOCKSPECS

WRAP.update(['sqpdfo_compute_multiplier_', 'sqpdfo_optimality_', 'sqpdfo_iter_printout_', 'sqpdfo_solve_TR_bc_', 'sqpdfo_augmX_evalf_',
             'bcdfo_augment_Y_', 'sqpdfo_swap_in_Y_', 'bcdfo_computeP_', 'bcdfo_gradP_', 'bcdfo_projgrad_', 'sqpdfo_computeHessian_',
             'bcdfo_poisedness_Y_', 'bcdfo_repair_Y_', 'bcdfo_find_new_yj_', 'bcdfo_replace_in_Y_', 'sqpdfo_find_smallf_',
             'bcdfo_include_in_Y_', 'bcdfo_build_QR_of_Y_'])
FN = 'sqpdfo_main_'
CAP = 1e25
G = {}
ALL = ('P01', 'P02', 'P03', 'P04', 'P05', 'P09')


def mine(tags):
    return tags == 'all' or G['focus'] in tags


def check(tags, name, goal):
    """an obligation of the properties `tags`; elsewhere it may be used"""
    if callable(goal) and not isinstance(goal, S):
        goal = goal()
    if mine(tags):
        ENG.prove(name, goal)
    else:
        ENG.assume(goal)


def check_all(tags, name, dims, f):
    if mine(tags):
        prove_all(name, dims, f)


class Log:
    def __init__(self, XX, F, CE, m):
        self.XX, self.F, self.CE, self.m = XX, F, CE, m

    def append(self, y, f, ce):
        o, m = self, arith('+', self.m, 1)
        return Log(lambda r, c: ite(compare('==', c, m), y(r), o.XX(r, c)),
                   lambda c: ite(compare('==', c, m), f, o.F(c)),
                   (lambda k, c: ite(compare('==', c, m), ce(k), o.CE(k, c))) if ce is not None else None, m)


def cval(idx, v):
    return band(compare('<', v, CAP), compare('>', v, -CAP))


def sl2(sl, me, ms):
    """slack-adjusted target of the constraints"""
    if not ms:
        return lambda k: 0.0
    s = sl.snap()
    return lambda k: ite(compare('>=', k, me - ms), s(k - (me - ms), 0) * s(k - (me - ms), 0), 0.0)


def residual_norm(col, sl):
    """norm of the slack-adjusted constraint values: the expression of the program"""
    np, me, ms = G['np'], G['me'], G['ms']
    if me is None:
        return 0.0
    ce = snp.ndarray.make((me, 1), lambda k, z: col(k), 'r')
    if ms:
        ce = ce - np.concatenate((np.zeros((me - ms, 1)), sl ** 2))
    return G['norm_'](ce)


def column_of(L, c):
    """constraint values of column c of the log: when it is a column of the log
    of the loop head (checked here), the head's reader, so that the sums over
    it are the same terms"""
    h = G['head'] and G['head']['log']
    if not h or h is L or L.CE is None or not ENG.entails(band(compare('>=', c, 0), compare('<=', c, h.m))):
        return lambda k: L.CE(k, c)
    q = ENG.fresh('row', 'i')
    snp.add_probe(q, G['me'])
    if not ENG.entails(implies(in_range(q, G['me']), same(L.CE(q, c), h.CE(q, c)))):
        return lambda k: L.CE(k, c)
    return lambda k: h.CE(k, c)


# ------------------------------------------------------------------ states
def factor(Y, x=None):
    t = Token('QZ', Y=Y.snap(), dims=Y._dims, args=None)
    r = Token('RZ', of=t)
    t.RZ = r
    t.xbase = x
    t.scale = arr('scale', (arith('+', Y._dims[0], 1), 1))
    return t, r


def new_log(m, keep=None):
    """log with m+1 columns; keep = (column, log): that column as in log"""
    n, me = G['n'], G['me']
    X, fX = arr('X', (n, m + 1)), arr('fX', (m + 1,))
    ceX = arr('ceX', (me, m + 1), fact=cval) if me is not None else empty()
    L = Log(X.snap(), fX.snap(), ceX.snap() if me is not None else None, m)
    if keep is not None:
        c0, K = keep
        x_, f_, c_ = L.XX, L.F, L.CE
        L.XX = lambda r, c: ite(compare('==', c, c0), K.XX(r, c0), x_(r, c))
        L.F = lambda c: ite(compare('==', c, c0), K.F(c0), f_(c))
        if c_ is not None:
            L.CE = lambda k, c: ite(compare('==', c, c0), K.CE(k, c0), c_(k, c))
    return L


def from_log(env, L, p, ind, best):
    """the program's arrays, as the invariant describes them"""
    n, me = G['n'], G['me']
    m1 = L.m + 1
    env['m'] = L.m
    env['X'] = snp.ndarray.make((n, m1), L.XX, 'r')
    env['fX'] = snp.ndarray.make((m1,), L.F, 'r')
    env['ceX'] = snp.ndarray.make((me, m1), L.CE, 'r') if me is not None else empty()
    env['ciX'], env['ciY'], env['gci'] = empty(), empty(), empty()
    env['ind_Y'] = ind
    i = ind.snap()
    env['Y'] = snp.ndarray.make((n, p), lambda r, j: L.XX(r, i(j)), 'r')
    env['fY'] = snp.ndarray.make((p,), lambda j: L.F(i(j)), 'r')
    env['ceY'] = snp.ndarray.make((me, p), lambda k, j: L.CE(k, i(j)), 'r') if me is not None else empty()
    env['i_xbest'] = best
    env['x'] = snp.ndarray.make((n, 1), lambda r, z: L.XX(r, best), 'r')
    env['fx'] = L.F(best)
    env['QZ'], env['RZ'] = factor(env['Y'], env['x'])
    env['scale'] = env['QZ'].scale
    env['xstatus'], env['sstatus'], env['dstatus'] = (arr(k, (m1,), 'i') for k in ('xstatus', 'sstatus', 'dstatus'))
    G['log'] = L


def derived(env):
    """results of earlier computations about which nothing is claimed"""
    n, me = G['n'], G['me']
    env['neval'] = integer('neval', 0)
    env['gx'], env['normgx'] = arr('gx', (n, 1)), real('normgx', 0)
    env['fcmodel'] = arr('fcmodel', (me + 1 if me is not None else 1, integer('nb', 1)))
    env['gce'] = arr('gce', (me, n)) if me is not None else empty()
    env['M'], env['pc'] = arr('M', (n, n)), real('pc')
    env['lm'] = arr('lm', (n + me if me is not None else n, 1))
    env['eps_current'] = real('eps_current')


def new_info(L, best, nsimul, flag, f=None):
    n, me = G['n'], G['me']
    return Bag(f=L.F(best) if f is None else f, g=arr('g', (n, 1)), ai=empty(), ci=empty(), hl=empty(),
               ae=arr('ae', (me, n)) if me is not None else empty(),
               ce=snp.ndarray.make((me, 1), lambda k, z: L.CE(k, best), 'r') if me is not None else empty(),
               niter=integer('niter', 0), nsimul=nsimul, flag=flag)


def positions(p, m, first=None):
    ind = arr('ind', (p,), 'i', fact=lambda i, v: in_range(v, m + 1))
    if first is not None:
        r = ind.snap()
        ind = snp.ndarray.make((p,), lambda j: ite(compare('==', j, 0), first, r(j)), 'i')
    return ind


def shaped(form, v):
    return snp.full_((1, 1), v) if form else v


def val(v):
    return v._scalar_() if isinstance(v, snp.ndarray) else v


def is_scalar_like(v):
    return core.is_scalar(v) or isinstance(v, snp.ndarray) and v._dims in ((), (1,), (1, 1))


# ------------------------------------------------------------------ invariant (what has to be proved)
def shape_goals(env):
    n, me = G['n'], G['me']
    p = env['cur_degree']
    m1 = env['m'] + 1
    mm = me + 1 if me is not None else 1
    want = dict(X=(n, m1), fX=(m1,), ind_Y=(p,), Y=(n, p), fY=(p,), x=(n, 1), xstatus=(m1,), sstatus=(m1,), dstatus=(m1,), gx=(n, 1), M=(n, n))
    if me is not None:
        want.update(ceX=(me, m1), ceY=(me, p), gce=(me, n), lm=(n + me, 1))
    out = []
    for k, d in want.items():
        a = env[k]
        ok = isinstance(a, snp.ndarray) and len(a._dims) == len(d)
        out.append(('shape of ' + k, band(True, *[compare('==', u, v) for u, v in zip(a._dims, d)]) if ok else False))
        if not ok:
            raise core.Unsupported('%s has another rank' % k)
    fc = env['fcmodel']
    out.append(('shape of fcmodel', isinstance(fc, snp.ndarray) and fc.ndim == 2 and compare('==', fc._dims[0], mm)))
    for k in ('ciX', 'ciY', 'gci') + (('ceX', 'ceY') if me is None else ()):
        if isinstance(env[k], snp.ndarray):
            out.append(('no entries in ' + k, compare('==', env[k].size, 0)))
    return out


def goals(env):
    n, me = G['n'], G['me']
    L = G['log']
    p = env['cur_degree']
    info = env['info']
    best = env['i_xbest']
    out = shape_goals(env)

    def g(tags, label, f, dims=None):
        if not mine(tags):
            return
        if dims is None:
            out.append((label, f()))
        else:
            ix = idx(dims)
            out.append((label, implies(within(ix, dims), f(*ix))))
    ind = env['ind_Y'].snap()
    Y, fY, x = env['Y'].snap(), env['fY'].snap(), env['x'].snap()
    X, fX = env['X'].snap(), env['fX'].snap()
    m1 = env['m'] + 1
    g(('P01', 'P02'), 'positions refer to evaluations', lambda j: in_range(ind(j), L.m + 1), (p,))
    g(('P01', 'P02'), 'first position is the best point', lambda: same(ind(0), best))
    g(('P01',), 'best index refers to an evaluation', lambda: in_range(best, L.m + 1))
    g(('P01',), 'one record per evaluation', lambda: same(env['m'], L.m))
    g(('P01',), 'recorded points are the evaluated ones', lambda r, c: same(X(r, c), L.XX(r, c)), (n, m1))
    g(('P01',), 'recorded objective values are the returned ones', lambda c: same(fX(c), L.F(c)), (m1,))
    if me is not None:
        ceX, ceY, ce = env['ceX'].snap(), env['ceY'].snap(), info.ce.snap()
        g(('P01',), 'recorded constraint values are the returned ones', lambda k, c: same(ceX(k, c), L.CE(k, c)), (me, m1))
        g(('P02',), 'constraint values of the set belong to its points', lambda k, j: same(ceY(k, j), L.CE(k, ind(j))), (me, p))
        if mine(('P04', 'P01', 'P09')):
            d = info.ce._dims
            out.append(('shape of current constraint values', len(d) == 2 and band(compare('==', d[0], me), compare('==', d[1], 1))))
        g(('P04', 'P09'), 'current constraint values are those of the best point', lambda k: same(ce(k, 0), L.CE(k, best)), (me,))
    g(('P01',), 'current point is the best one', lambda r: same(x(r, 0), L.XX(r, best)), (n,))
    g(('P01',), 'current value is that of the best point', lambda: same(env['fx'], L.F(best)))
    g(('P02',), 'points of the set are evaluated ones', lambda r, j: same(Y(r, j), L.XX(r, ind(j))), (n, p))
    g(('P02',), 'objective values of the set belong to its points', lambda j: same(fY(j), L.F(ind(j))), (p,))
    g(('P02',), 'centre is the first point of the set', lambda r: same(x(r, 0), Y(r, 0)), (n,))
    g(('P02',), 'factorization is the one of the set', lambda: factor_ok(env['QZ'], env['RZ'], env['scale']))
    if mine(('P02',)) and isinstance(env['QZ'], Token):
        q = env['QZ'].Y
        out.append(('factorized set has the size of the set', compare('==', env['QZ'].dims[1], p)))
        g(('P02',), 'factorized set is the set', lambda r, j: same(q(r, j), Y(r, j)), (n, p))
    g(('P01', 'P02', 'P09'), 'positive radius', lambda: compare('>', val(env['delta']), 0))
    g(('P01', 'P02', 'P03'), 'size of the set', lambda: band(compare('>=', p, G['rep']), compare('<=', p, G['PM'])))
    g(('P03',), 'simulation count', lambda: same(info.nsimul.at(1), L.m + 1))
    g(('P03',), 'iteration limit', lambda: compare('<=', info.niter, G['miter'] + 1))
    g(('P03',), 'evaluation limit', lambda: bor(compare('<=', L.m + 1, G['N0']), compare('<=', L.m + 1, G['msimul'] - 1 + G['PM'])))
    g(('P05',), 'no failed evaluation', lambda: not G['failed'])
    g(('P03',), 'counters keep their form', lambda: info.nsimul._dims[0] == 4)
    return out


def factor_ok(Q, R, sc):
    if not (isinstance(Q, Token) and Q.name == 'QZ' and R is Q.RZ):
        return False
    if sc is Q.scale:
        return True
    if not isinstance(sc, snp.ndarray) or not isinstance(Q.scale, snp.ndarray) or len(sc._dims) != len(Q.scale._dims):
        return False
    a, b = sc.snap(), Q.scale.snap()
    ix = idx(sc._dims)
    return band(*[compare('==', u, v) for u, v in zip(sc._dims, Q.scale._dims)] + [implies(within(ix, sc._dims), same(a(*ix), b(*ix)))])


def slack_goals(env):
    if not G['ms'] or not mine(('P04', 'P09')):
        return []
    gl, sl = G['glob'].slacks, env['sl']
    if not isinstance(gl, snp.ndarray) or not isinstance(sl, snp.ndarray):
        return [('slacks are stored', False)]
    a, b = gl.snap(), sl.snap()
    k = idx((G['ms'],))[0]
    return [('shape of the slacks', len(sl._dims) == 2 and len(gl._dims) == 2 and band(*[compare('==', d[0], G['ms']) for d in (sl._dims, gl._dims)])),
            ('slacks in force are the stored ones', implies(in_range(k, G['ms']), same(a(k, 0), b(k, 0))))]


class ByConstruction:
    """havoc builds a state in which the invariant holds; the goals are only
    ever proved"""
    fresh = False

    def havoc(self, env, *i):
        self.build(env, *i)
        self.fresh = True

    def _goals(self, env, *i):
        if self.fresh:
            self.fresh = False
            return []
        return self.targets(env, *i)


class Main(ByConstruction, LoopSpec):
    defined = ('radius_has_been_rejected', 'msg', 'ceplus')

    @classmethod
    def applies(cls, loop):
        return loop.kind == 'while' and 'i_xbest' in loop.names and 'info' in loop.names and 'delta' in loop.names

    def build(self, env, i):
        n, me, ms = G['n'], G['me'], G['ms']
        p = integer('p')
        ENG.assume(band(compare('>=', p, G['rep']), compare('<=', p, G['PM'])))
        snp.add_probe(0, p)
        snp.add_probe(1, p)
        m = integer('m', 0)
        ENG.assume(bor(compare('<=', m + 1, G['N0']), compare('<=', m + 1, G['msimul'] - 1 + G['PM'])))
        L = new_log(m)
        ind = positions(p, m)
        best = ind.at(0)
        snp.add_probe(best, m + 1)
        env['cur_degree'] = p
        from_log(env, L, p, ind, best)
        derived(env)
        G['failed'] = False
        ns = snp.ndarray.make((4,), lambda i: ite(compare('==', i, 1), m + 1, 0), 'i')
        pred = real('pred')
        f = real('f')
        ENG.assume(bor(same(pred, -1.0), same(f, L.F(best))))
        info = env['info'] = new_info(L, best, ns, integer('flag'), f=f)
        ENG.assume(compare('<=', info.niter, G['miter'] + 1))
        env['pred'] = shaped(G['form'], pred)
        d, sg = real('delta'), real('sigma', 1)
        ENG.assume(compare('>', d, 0))
        env['delta'], env['sigma'] = shaped(G['form'], d), shaped(G['form'], sg)
        env['old_delta'], env['norms'], env['merit'] = real('old_delta'), real('norms', 0), real('merit')
        env['itype'], env['msg'] = ' ', self.pre['msg']
        env['s'] = arr('s', (n, 1))
        env['poised_model'] = integer('poised_model', 0, 2)
        env['poised'], env['Y_radius'] = real('poised', 0), real('Y_radius', 0)
        if ms:
            env['sl'] = arr('sl', (ms, 1))
            G['glob'].slacks = env['sl']
        rej = ENG.choose('radius rejected before')
        env['radius_has_been_rejected'] = rej
        if rej:
            env['f0'] = L.F(best)
            env['ce0n'] = residual_norm(lambda k: L.CE(k, best), env['sl'] if ms else None)
            env['merit0'] = env['f0'] + env['sigma'] * env['ce0n']
            env['ce0'] = arr('ce0', (me, 1)) if me is not None else empty()
            env['prec_r'], env['prec_t'] = G['options'].tol_feas / 10, G['options'].tol_grad / 10
        env['ceplus'] = empty() if me is None else arr('ceplus', (me, 1))
        self.sigma0 = sg
        self.log0 = L
        G['head'] = dict(sigma=sg, log=L, m=m, p=p)
        G['trial'] = G['TR'] = None
        G['stepbest'] = best

    def inv(self, env, i):
        return self._goals(env, i)

    def targets(self, env, i):
        out = goals(env) + slack_goals(env)
        L = G['log']
        info = env['info']
        best = env['i_xbest']
        for k in ('pred', 'delta', 'sigma'):
            out.append((k + ' is a number', is_scalar_like(env[k])))
        out.append(('no message yet', bool(env['msg'] == self.pre['msg'])))
        if G['me'] is None:
            out.append(('no constraint values', isinstance(env['ceplus'], snp.ndarray) and same(env['ceplus'].size, 0)))
        if not mine(('P09',)):
            return out
        rej = env['radius_has_been_rejected']
        if rej not in (True, False):
            raise Unsupported('radius_has_been_rejected is no truth value')
        pred = val(env['pred'])
        out.append(('current value is that of the best point, or the prediction failed', bor(same(pred, -1.0), same(info.f, L.F(best)))))
        if getattr(self, 'sigma0', None) is not None:
            out.append(('penalty never decreases', compare('>=', val(env['sigma']), self.sigma0)))
        else:
            out.append(('penalty starts at one or above', compare('>=', val(env['sigma']), 1)))
        if rej:
            N = residual_norm(column_of(L, best), env['sl'] if G['ms'] else None)
            out += [('reference value is that of the best point', same(val(env['f0']), L.F(best))),
                    ('reference violation is that of the best point', same(val(env['ce0n']), val(N))),
                    ('reference merit is that of the best point', same(val(env['merit0']), val(env['f0']) + val(env['sigma']) * val(env['ce0n'])))]
        t = G['trial']
        if t is not None and G['head'] is not None:
            # acceptance decreases the merit function
            b0, s0 = G['stepbest'], G['stepslack']
            sg = val(env['sigma'])
            N0 = val(residual_norm(column_of(L, b0), s0))
            N1 = val(residual_norm(column_of(L, t['m']), t['slplus']))
            out.append(('a step replaces the best point only if the merit decreases',
                        bor(same(best, b0), band(same(best, t['m']), compare('<', L.F(t['m']) + sg * N1, L.F(b0) + sg * N0)))))
        return out


# ------------------------------------------------------------------ improvement of the set
class Improve(ByConstruction, BlockSpec):
    """the statement that improves the interpolation set"""
    fn = FN
    kept = ('cur_degree', 'msg', 'ciX', 'ciY', 'gci')
    defined = ('radius_has_been_rejected',)

    @classmethod
    def locate(cls, tree):
        import ast
        for w in ast.walk(tree):
            if isinstance(w, ast.While):
                for st in w.body:
                    if isinstance(st, ast.If) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'bcdfo_repair_Y_' for c in ast.walk(st)):
                        return st
        return None

    def setup(self, env):
        self.p0 = env['cur_degree']
        self.rej0 = env['radius_has_been_rejected']
        self.best0, self.log0 = env['i_xbest'], G['log']
        self.m0, self.niter0 = env['m'], env['info'].niter

    def build(self, env):
        n, me, ms, p = G['n'], G['me'], G['ms'], self.p0
        m = integer('m', 0)
        ENG.assume(band(compare('>=', m, self.m0), compare('<=', m, self.m0 + p - 1)))
        L0 = self.log0
        # declare what is overwritten in place
        for k in ('ind_Y', 'fY', 'ceY', 'xstatus'):
            if isinstance(env[k], snp.ndarray) and not (isinstance(env[k].size, int) and env[k].size == 0):
                snp.havoc_content(env[k], k)
        old = env['info']
        old.niter = integer('niter', 0)
        old.flag = integer('flag')
        ns = old.nsimul
        ns.write_all(lambda i: ite(compare('==', i, 1), m + 1, 0))
        rej = self.rej0
        if rej:
            rej = ENG.choose('still rejected')
        if rej:
            L = new_log(m, (self.best0, L0))
            best = self.best0
            ind = positions(p, m, best)
        else:
            L = new_log(m)
            ind = positions(p, m)
            best = ind.at(0)
        snp.add_probe(best, m + 1)
        env['radius_has_been_rejected'] = rej
        from_log(env, L, p, ind, best)
        derived(env)
        env['cur_degree'] = p
        d = real('delta')
        ENG.assume(compare('>', d, 0))
        env['delta'] = shaped(G['form'], d)
        info = env['info'] = new_info(L, best, ns, 0)
        ENG.assume(band(compare('>=', info.niter, self.niter0), compare('<=', info.niter, self.niter0 + 1)))
        info.glag, info.glagn, info.feasn, info.compl = arr('glag', (n, 1)), real('glagn'), real('feasn'), real('compl')
        env['poised_model'], env['poised'], env['Y_radius'] = integer('poised_model', 0, 2), real('poised', 0), real('Y_radius', 0)
        env['itype'] = 'impr'
        G['failed'] = False
        G['stepbest'] = best

    def post(self, env):
        return self._goals(env)

    def targets(self, env):
        out = goals(env) + [('size of the set unchanged', same(env['cur_degree'], self.p0)), ('no flag', same(env['info'].flag, 0)),
                            ('delta is a number', is_scalar_like(env['delta']))]
        L = G['log']
        if mine(('P03',)):
            out += [('at most one evaluation per point of the set', band(compare('>=', L.m, self.m0), compare('<=', L.m, self.m0 + self.p0 - 1))),
                    ('at most one iteration counted', band(compare('>=', env['info'].niter, self.niter0), compare('<=', env['info'].niter, self.niter0 + 1)))]
        if mine(('P09',)):
            rej = env['radius_has_been_rejected']
            if rej not in (True, False):
                raise Unsupported('radius_has_been_rejected is no truth value')
            out.append(('current value is that of the best point', same(env['info'].f, L.F(env['i_xbest']))))
            out.append(('rejection is not invented', bool(not rej or self.rej0)))
            if rej:
                b = self.best0
                out.append(('the reference point is still the best one', same(env['i_xbest'], b)))
                out.append(('its value is unchanged', same(L.F(b), self.log0.F(b))))
                if G['me'] is not None:
                    k = idx((G['me'],))[0]
                    out.append(('its constraint values are unchanged', implies(in_range(k, G['me']), same(L.CE(k, b), self.log0.CE(k, b)))))
        return out


class Prepare(Improve):
    """the statements before the step computation: limits, multipliers,
    convergence test, improvement of the set"""

    @classmethod
    def locate(cls, tree):
        import ast
        for w in ast.walk(tree):
            if isinstance(w, ast.While):
                for k, st in enumerate(w.body):
                    if k and isinstance(st, ast.If) and any(isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and c.id == 'f0' for c in ast.walk(st)):
                        return w.body[:k]
        return None

    def build(self, env):
        Improve.build(self, env)
        env['info'].niter = integer('niter', 0)
        ENG.assume(band(compare('>=', env['info'].niter, self.niter0), compare('<=', env['info'].niter, self.niter0 + 1)))
        ENG.assume(compare('<=', env['info'].niter, G['miter']))
        ENG.assume(compare('<', self.m0 + 1, G['msimul']))

    def targets(self, env):
        out = Improve.targets(self, env)
        if mine(('P03',)):
            out += [('the iteration limit is not exceeded', compare('<=', env['info'].niter, G['miter'])),
                    ('the evaluation limit was not reached', compare('<', self.m0 + 1, G['msimul']))]
        return out


class Replaced(ByConstruction, LoopSpec):
    """evaluation of the replaced points"""
    kept = ('ciX',)

    @classmethod
    def applies(cls, loop):
        return 'repair' in G and 'ind_Y' in loop.stores and 'fY' in loop.stores and 'm' in loop.names and 'X' in loop.names

    def setup(self, env):
        self.L0 = G['log']
        self.m0 = env['m']
        self.ind0, self.fY0 = env['ind_Y'].snap(), env['fY'].snap()
        self.ceY0 = env['ceY'].snap() if G['me'] is not None else None
        self.R = G['repair']
        self.p = env['cur_degree']

    def expected(self, i):
        R, m0 = self.R, self.m0
        done = lambda j: band(R.rep(j), compare('<', R.rinv(j), i))
        ind = lambda j: ite(done(j), m0 + 1 + R.rinv(j), self.ind0(j))
        XX = lambda r, c: ite(compare('<=', c, m0), self.L0.XX(r, c), R.Y(r, R.at(c - m0 - 1)))
        return done, ind, XX

    def build(self, env, i):
        n, me = G['n'], G['me']
        done, ind, XX = self.expected(i)
        m = self.m0 + i
        L = new_log(m)
        f_, c_, o, m0 = L.F, L.CE, self.L0, self.m0
        L.XX = XX
        L.F = lambda c: ite(compare('<=', c, m0), o.F(c), f_(c))
        if me is not None:
            L.CE = lambda k, c: ite(compare('<=', c, m0), o.CE(k, c), c_(k, c))
        G['log'], G['failed'] = L, False
        env['m'] = m
        env['X'] = snp.ndarray.make((n, m + 1), L.XX, 'r')
        env['fX'] = snp.ndarray.make((m + 1,), L.F, 'r')
        if me is not None:
            env['ceX'] = snp.ndarray.make((me, m + 1), L.CE, 'r')
            env['ceY'].write_all(lambda k, j: ite(done(j), L.CE(k, ind(j)), self.ceY0(k, j)))
        else:
            env['ceX'] = empty()
        env['ind_Y'].write_all(ind)
        env['fY'].write_all(lambda j: ite(done(j), L.F(ind(j)), self.fY0(j)))
        snp.havoc_content(env['xstatus'], 'xstatus')
        for k in ('xstatus', 'sstatus', 'dstatus'):
            env[k] = arr(k, (m + 1,), 'i')
        env['neval'] = integer('neval', 0)
        old = env['info']
        old.nsimul.write_all(lambda q: ite(compare('==', q, 1), m + 1, 0))
        info = env['info'] = old.__copy__()
        info.f = real('f')
        info.flag = 0
        if 'poised_model' in env:
            env['poised_model'] = integer('poised_model', 0, 2)

    def inv(self, env, i):
        return self._goals(env, i)

    def targets(self, env, i):
        n, me, L = G['n'], G['me'], G['log']
        done, ind, XX = self.expected(i)
        m = env['m']
        out = [('position counter', same(m, self.m0 + i)), ('log', same(L.m, m)), ('no flag', same(env['info'].flag, 0))]
        want = dict(X=(n, m + 1), fX=(m + 1,), xstatus=(m + 1,), sstatus=(m + 1,), dstatus=(m + 1,))
        if me is not None:
            want['ceX'] = (me, m + 1)
        for k, d in want.items():
            a = env[k]
            ok = isinstance(a, snp.ndarray) and len(a._dims) == len(d)
            out.append(('shape of ' + k, band(True, *[compare('==', u, v) for u, v in zip(a._dims, d)]) if ok else False))

        def g(tags, label, f, dims=None):
            if not mine(tags):
                return
            if dims is None:
                out.append((label, f()))
            else:
                ix = idx(dims)
                out.append((label, implies(within(ix, dims), f(*ix))))
        X, fX = env['X'].snap(), env['fX'].snap()
        a, fY = env['ind_Y'].snap(), env['fY'].snap()
        g(('P01', 'P02'), 'positions', lambda j: same(a(j), ind(j)), (self.p,))
        g(('P01', 'P02'), 'evaluated points', lambda r, c: same(L.XX(r, c), XX(r, c)), (n, m + 1))
        g(('P01', 'P09'), 'earlier objective values', lambda c: implies(compare('<=', c, self.m0), same(L.F(c), self.L0.F(c))), (m + 1,))
        g(('P01',), 'recorded points', lambda r, c: same(X(r, c), L.XX(r, c)), (n, m + 1))
        g(('P01',), 'recorded objective values', lambda c: same(fX(c), L.F(c)), (m + 1,))
        g(('P02',), 'objective values of the set', lambda j: same(fY(j), ite(done(j), L.F(ind(j)), self.fY0(j))), (self.p,))
        if me is not None:
            ceX, ceY = env['ceX'].snap(), env['ceY'].snap()
            g(('P01', 'P09'), 'earlier constraint values', lambda k, c: implies(compare('<=', c, self.m0), same(L.CE(k, c), self.L0.CE(k, c))), (me, m + 1))
            g(('P01',), 'recorded constraint values', lambda k, c: same(ceX(k, c), L.CE(k, c)), (me, m + 1))
            g(('P02',), 'constraint values of the set', lambda k, j: same(ceY(k, j), ite(done(j), L.CE(k, ind(j)), self.ceY0(k, j))), (me, self.p))
        g(('P03',), 'simulation count', lambda: same(env['info'].nsimul.at(1), L.m + 1))
        g(('P03',), 'iterations counted once', lambda: same(env['info'].niter, self.niter0(env)))
        g(('P05',), 'no failed evaluation', lambda: not G['failed'])
        return out

    def niter0(self, env):
        return self.pre['info'].niter


class Content(LoopSpec):
    """a loop that fills arrays about whose content nothing is claimed"""
    names_ok = ()

    @classmethod
    def applies(cls, loop):
        return len(loop.names) == 1 and 0 < len(loop.stores) <= 2 and set(loop.stores) <= set(cls.names_ok)

    def havoc(self, env, i):
        for k in self.loop.stores:
            snp.havoc_content(env[k], k)


class Gradients(Content):
    names_ok = ('gce', 'gci')


class Slacks(Content):
    names_ok = ('slplus',)


class Distances(LoopSpec):
    """distances of the points: position 0 is left alone when skipped"""
    @classmethod
    def applies(cls, loop):
        return loop.stores == ['d'] and len(loop.names) == 1 and loop.kind == 'srange'

    def setup(self, env):
        self.d0 = env['d'].at(0)
        self.skip = ENG.entails(compare('>=', self.loop.range.start, 1))

    def havoc(self, env, i):
        d0, h = self.d0, arr('dist', env['d']._dims).snap()
        env['d'].write_all((lambda j: ite(compare('==', j, 0), d0, h(j))) if self.skip else h)

    def inv(self, env, i):
        return [('first entry kept', same(env['d'].at(0), self.d0))] if self.skip else []


LOOPSPECS[(FN, None)] = [Main, Replaced, Gradients, Slacks, Distances]
BLOCKSPECS.extend([Improve, Prepare])


# ------------------------------------------------------------------ callees
def st_multiplier(a):
    """compute_multiplier: a column with one entry per variable and constraint; flag reset"""
    n, me = G['n'], G['me']
    for k in ('lb', 'ub'):
        prove_shape('compute_multiplier: bounds have the right size', a[k], (n, 1))
    info = a['info'].__copy__()
    info.flag = 0
    return arr('lm', (n + me if me is not None else n, 1)), info


def st_optimality(a):
    """optimality: slack-adjusted constraint values, gradient of the Lagrangian (proved in P04)"""
    n, me, ms = G['n'], G['me'], G['ms']
    info = a['info'].__copy__()
    info.glag = arr('glag', (n, 1))
    feas = info.ce
    if ms:
        c, t = info.ce.snap(), sl2(G['glob'].slacks, me, ms)
        feas = snp.ndarray.make((me, 1), lambda k, z: c(k, 0) - t(k), 'r')
    return feas, snp.zeros((n, 1)), info


def st_tr(a):
    """solve_TR_bc: a new point and new slacks; only the flag of the record changes"""
    n, me, ms = G['n'], G['me'], G['ms']
    check(('P01', 'P02'), 'step is computed at the best point', True)
    info = a['info'].__copy__()
    if ENG.choose('step computation fails'):
        info.flag = G['values'].fail_unexpected
    if me is not None:
        snp.havoc_content(info.ae, 'ae')
    sp = arr('slplus', (ms, 1)) if ms else snp.zeros_like(None)
    G['TR'] = sp.snap() if ms else True
    G['stepslack'] = snp.ndarray.make((ms, 1), G['glob'].slacks.snap(), 'r') if ms else None
    lm = arr('lm', (n + me if me is not None else n, 1))
    return (arr('xnew', (n, 1)), real('deltaTR'), real('rpred'), integer('active_r', 0, 2), integer('active_t', 0, 2), 0, lm, info, sp)


def st_augmX(a):
    """augmX_evalf: one evaluation, recorded at position m (proved in P03)"""
    n, me = G['n'], G['me']
    L = G['log']
    y, m, X, fX, ceX, info = a['y'], a['m'], a['X'], a['fX'], a['ceX'], a['info']
    check(('P05',), 'no evaluation after a failed one', not G['failed'])
    prove_shape('evaluated point is a column', y, (n, 1))
    check(('P01', 'P02'), 'next record position', same(m, L.m + 1))
    for k, A, d in (('points', X, (n, m)), ('objective values', fX, (m,)), ('status', a['xstatus'], (m,))):
        if k == 'status' and len(A._dims) == 1 and ENG.entails(compare('==', A._dims[0], m + 1)):
            continue
        prove_shape('records have one entry per evaluation: ' + k, A, d)
    xr, fr = X.snap(), fX.snap()
    check_all(('P01',), 'records are the evaluations (points)', (n, m), lambda r, c: same(xr(r, c), L.XX(r, c)))
    check_all(('P01',), 'records are the evaluations (objective)', (m,), lambda c: same(fr(c), L.F(c)))
    if me is not None:
        prove_shape('records have one entry per evaluation: constraint values', ceX, (me, m))
        cr = ceX.snap()
        check_all(('P01',), 'records are the evaluations (constraints)', (me, m), lambda k, c: same(cr(k, c), L.CE(k, c)))
    yr = y.snap()
    X2 = snp.ndarray.make((n, m + 1), lambda r, c: ite(compare('==', c, m), yr(r, 0), xr(r, c)), 'r')
    st = []
    for k, v in (('xstatus', a['xstatus_val']), ('sstatus', 1), ('dstatus', 0)):
        A = a[k]
        s = A.snap()
        sz = A._dims[0]
        st.append(snp.ndarray.make((ite(compare('<', m, sz), sz, m + 1) if not ENG.entails(compare('==', sz, m)) else m + 1,),
                                   lambda c, s=s, v=v: ite(compare('==', c, m), v, s(c)), 'i'))
    info.nsimul[1] = info.nsimul[1] + 1
    info = info.__copy__()
    if ENG.choose('evaluation fails'):
        G['failed'] = True
        info.f = real('ffail')
        info.flag = G['values'].fail_on_simul
        return X2, fX, empty(), ceX, a['neval'], st[0], st[1], st[2], info, ENG.fresh('msg', 'i')
    f = real('fval')
    ce = None
    if me is not None:
        cn = arr('cval', (me,), fact=cval)
        ce = cn.snap()
    info.f = f
    G['log'] = L2 = L.append(lambda r: yr(r, 0), f, ce)
    if G['TR'] is not None:
        G['trial'] = dict(m=m, slplus=snp.ndarray.make((G['ms'], 1), G['TR'], 'r') if G['ms'] else None)
    fX2 = snp.ndarray.make((m + 1,), lambda c: ite(compare('==', c, m), f, fr(c)), 'r')
    ceX2 = ceX
    if me is not None:
        ceX2 = snp.ndarray.make((me, m + 1), lambda k, c: ite(compare('==', c, m), ce(k), cr(k, c)), 'r')
    return X2, fX2, empty(), ceX2, a['neval'] + 1, st[0], st[1], st[2], info, 0


def st_smallf(a):
    """find_smallf: the selected point becomes the first (proved in P21)"""
    Y, ind, fY, ce = a['Y'], a['ind_Y'], a['fY'], a['ceY']
    n, p = Y._dims
    info = a['info'].__copy__()
    y0, i0, f0 = Y.snap(), ind.snap(), fY.snap()
    c0 = ce.snap() if G['me'] is not None else None
    if not ENG.choose('another point selected'):
        info.f = f0(0)
        if c0 is not None:
            info.ce = snp.ndarray.make((G['me'], 1), lambda k, z: c0(k, 0), 'r')
        return (a['x'].__copy__(), a['fx'], a['QZ'], a['RZ'], Y.__copy__(), fY.__copy__(), a['ciY'], ce.__copy__(), ind.__copy__(), a['i_xbest'], a['scale'], info)
    s = integer('selected', 1, p)
    if G.get('repair') is not None:
        G['repair'].at(G['repair'].rinv(s))
    q = swap_stub(dict(i=0, j=s, QZ=a['QZ'], RZ=a['RZ'], Y=Y, ind_Y=ind, fY=fY, ciY=a['ciY'], ceY=ce, xbase=a['x'], scale=a['scale'],
                       whichmodel=a['whichmodel'], shift_Y=a['shift_Y'], Delta=a['Delta'], normgx=a['normgx'], kappa_ill=a['kappa_ill']))
    Q, R, Y2, ind2, fY2, ci2, ce2, xb, sc = q
    info.f = f0(s)
    if c0 is not None:
        info.ce = snp.ndarray.make((G['me'], 1), lambda k, z: c0(k, s), 'r')
    x2 = snp.ndarray.make((n, 1), lambda r, z: y0(r, s), 'r')
    return x2, f0(s), Q, R, Y2, fY2, ci2, ce2, ind2, i0(s), sc, info


class Repair:
    pass


def st_repair(a):
    """repair_Y: replaces distinct non-base positions and names them (proved in P13)"""
    Y = a['Y']
    n, p = Y._dims
    if mine(('P02',)):
        ENG.prove('repair: one factorization', factor_ok(a['QZ'], a['RZ'], a['scale']))
        if isinstance(a['QZ'], Token):
            prove_same('repair: factorization of this set', Y, a['QZ'].Y, a['QZ'].dims)
        ENG.prove('repair: 2-norm steps without bounds', band(same(a['lSolver'], 1), same(a['hardcons'], 0)))
        ENG.prove('repair: thresholds positive', band(compare('>', a['farfact'], 0), compare('>', a['closethr'], 0), compare('>=', a['eps_L'], 0)))
        ENG.prove('repair: radius positive', compare('>', val(a['Delta']), 0))
    R = Repair()
    nm = ENG.fresh_name('repaired')
    rep = z3.Function(nm + '.is', z3.IntSort(), z3.BoolSort())
    rinv = z3.Function(nm + '.inv', z3.IntSort(), z3.IntSort())
    pos = z3.Function(nm + '.pos', z3.IntSort(), z3.IntSort())
    Ln = integer('replaced', 0)
    ENG.assume(compare('<=', Ln, p - 1))
    ie = lambda x: core.lift(x)[1]

    def at(k):
        v = S('i', pos(ie(k)))
        ENG.assume(implies(in_range(k, Ln), band(compare('>=', v, 1), compare('<', v, p), S('b', rep(ie(v))), same(S('i', rinv(ie(v))), k))))
        return v

    def rinv_(j):
        v = S('i', rinv(ie(j)))
        ENG.assume(implies(S('b', rep(ie(j))), band(in_range(v, Ln), same(S('i', pos(ie(v))), j), compare('>=', j, 1))))
        return v
    R.at, R.rinv, R.L = at, rinv_, Ln
    R.rep = lambda j: (rinv_(j), S('b', rep(ie(j))))[1]
    y0 = Y.snap()
    yn = arr('repairedY', (n, p)).snap()
    Y2 = snp.ndarray.make((n, p), lambda r, j: ite(R.rep(j), yn(r, j), y0(r, j)), 'r')
    R.Y = Y2.snap()
    G['repair'] = R
    x0 = a['xbase'].snap()
    xb = snp.ndarray.make((n, 1), lambda r, z: y0(r, 0), 'r')
    Q, Rz = factor(Y2, xb)
    replaced = snp.ndarray.make((Ln,), lambda k: S('r', z3.ToReal(ie(at(k)))), 'r')
    return Q, Rz, Y2, replaced, real('poised', 0), real('Y_radius', 0), xb, Q.scale


def set_is_true(a, what):
    """the interpolation set holds true evaluation data and is the factorized one"""
    L = G['log']
    Y, ind, QZ, RZ = a['Y'], a['ind_Y'], a['QZ'], a['RZ']
    if not mine(('P02',)):
        return
    n = G['n']
    p = Y._dims[1]
    y, i = Y.snap(), ind.snap()
    prove_shape(what + ': one index per point', ind, (p,))
    prove_shape(what + ': points of the problem dimension', Y, (n, p))
    prove_all(what + ': indices refer to evaluations', (p,), lambda j: in_range(i(j), L.m + 1))
    prove_all(what + ': every point was evaluated', (n, p), lambda r, j: same(y(r, j), L.XX(r, i(j))))
    ENG.prove(what + ': one factorization', factor_ok(QZ, RZ, a['scale']))
    if isinstance(QZ, Token):
        prove_same(what + ': factorization of this set', Y, QZ.Y, QZ.dims)


def st_computeP(a):
    n, me = G['n'], G['me']
    L = G['log']
    set_is_true(a, 'model')
    V = a['fY']
    p = a['Y']._dims[1]
    rows = me + 1 if me is not None else 1
    prove_shape('model: one row of values per function', V, (rows, p))
    if mine(('P02',)):
        v, i = V.snap(), a['ind_Y'].snap()
        prove_all('model: interpolated objective values are the returned ones', (p,), lambda j: same(v(0, j), L.F(i(j))))
        if me is not None:
            prove_all('model: interpolated constraint values are the returned ones', (me, p), lambda k, j: same(v(arith('+', k, 1), j), L.CE(k, i(j))))
    return arr('fcmodel', (rows, integer('nb', 1)))


def st_hessian(a):
    n, me = G['n'], G['me']
    set_is_true(a, 'Lagrangian model')
    info = a['info'].__copy__()
    info.g, info.ai, info.ae = a['gx'], a['gci'], a['gce']
    info.flag = integer('flag')
    return arr('M', (n, n)), real('pc'), info


def st_gradP(a):
    check(('P02',), 'model gradient: one model', isinstance(a['P'], snp.ndarray) and a['P'].ndim == 2)
    centre(a, 'model gradient')
    return arr('grad', (G['n'], 1))


def centre(a, what):
    """models are evaluated around the point they are centred on"""
    x, b = a['x'], a['xbase']
    if mine(('P02',)) and isinstance(x, snp.ndarray) and isinstance(b, snp.ndarray):
        r0, r1 = x.snap(), b.snap()
        prove_shape(what + ': column', x, (G['n'], 1))
        prove_shape(what + ': base column', b, (G['n'], 1))


def st_projgrad(a):
    return real('normgx', 0), arr('pg', (G['n'], 1))


def st_poised(a):
    return real('poised', 0), real('Y_radius', 0)


def st_augment(a):
    """augment_Y: appends the points (proved in P12)"""
    Y, yn = a['Y'], a['Ynew']
    n, p = Y._dims
    prove_shape('augment: one new point', yn, (n, 1))
    check(('P01', 'P02', 'P03'), 'augment: there is room', bor(compare('<', p, G['pquad']), same(a['whichmodel'], 3)))
    y0, v0 = Y.snap(), yn.snap()
    Y2 = snp.ndarray.make((n, p + 1), lambda r, c: ite(compare('<', c, p), y0(r, c), v0(r, 0)), 'r')
    Q, R, xb, sc = qr_stub(dict(Y_=Y2, whichmodel=a['whichmodel'], shift_Y=a['shift_Y'], Delta=a['Delta'], normgx=a['normgx'], kappa_ill=a['kappa_ill']))
    return p + 1, Q, R, Y2, xb, sc


def st_include(a):
    """include_in_Y: replaces one candidate or none (proved in P12)"""
    Y, ch = a['Y'], a['choice_set']
    n, p = Y._dims
    if ENG.choose('nothing included'):
        return a['QZ'], a['RZ'], Y, -1, a['xbase'], a['scale']
    if isinstance(ch, (list, tuple)):
        if not ch:
            raise core.EndPath()
        raise Unsupported('list of candidates')
    if ch.ndim == 2:
        ch = ch.reshape(-1)
    k = integer('cand', 0, ch._dims[0])
    pos = ch.at(k)
    if isinstance(pos, S):
        snp.add_probe(pos, p)
    check(('P01', 'P02'), 'include: candidates are positions of the set', in_range(pos, p))
    y0, v0 = Y.snap(), a['x'].snap()
    Y2 = snp.ndarray.make((n, p), lambda r, c: ite(compare('==', c, pos), v0(r, 0), y0(r, c)), 'r')
    Q, R, xb, sc = qr_stub(dict(Y_=Y2, whichmodel=a['whichmodel'], shift_Y=a['shift_Y'], Delta=a['Delta'], normgx=a['normgx'], kappa_ill=a['kappa_ill']))
    return Q, R, Y2, pos, xb, sc


def st_none(a):
    return None


STUBS = {'sqpdfo_compute_multiplier_': st_multiplier, 'sqpdfo_optimality_': st_optimality, 'sqpdfo_iter_printout_': st_none,
         'sqpdfo_solve_TR_bc_': st_tr, 'sqpdfo_augmX_evalf_': st_augmX, 'bcdfo_augment_Y_': st_augment, 'sqpdfo_swap_in_Y_': swap_stub,
         'bcdfo_computeP_': st_computeP, 'bcdfo_gradP_': st_gradP, 'bcdfo_projgrad_': st_projgrad, 'sqpdfo_computeHessian_': st_hessian,
         'bcdfo_poisedness_Y_': st_poised, 'bcdfo_repair_Y_': st_repair, 'sqpdfo_find_smallf_': st_smallf, 'bcdfo_include_in_Y_': st_include,
         'bcdfo_build_QR_of_Y_': qr_stub}


# ------------------------------------------------------------------ the function
def returned(r):
    """what holds whenever the function returns"""
    if not isinstance(r, tuple) or len(r) != 29:
        ENG.prove('29 results', False)
        return
    nit, best, x, fx, m, X, fX, ciX, ceX = r[:9]
    info = r[28]
    L, n, me, ms = G['log'], G['n'], G['me'], G['ms']
    failed = G['failed']
    if mine(('P01',)):
        ENG.prove('returned index refers to a successful evaluation', in_range(best, L.m + 1))
        xr, Xr, fr = x.snap(), X.snap(), fX.snap()
        prove_all('returned point is the evaluated one', (n,), lambda i: same(xr(i, 0), L.XX(i, best)))
        ENG.prove('returned value is the one of the returned point', same(fx, L.F(best)))
        ENG.prove('records cover the evaluations', band(compare('>=', X._dims[1], L.m + 1), compare('>=', fX._dims[0], L.m + 1)))
        prove_all('returned records: points', (n, L.m + 1), lambda i, c: same(Xr(i, c), L.XX(i, c)))
        prove_all('returned records: objective values', (L.m + 1,), lambda c: same(fr(c), L.F(c)))
        if me is not None:
            cr = ceX.snap()
            ENG.prove('constraint records cover the evaluations', band(compare('==', ceX._dims[0], me), compare('>=', ceX._dims[1], L.m + 1)))
            prove_all('returned records: constraint values', (me, L.m + 1), lambda k, c: same(cr(k, c), L.CE(k, c)))
    if mine(('P03',)):
        ENG.prove('simulations reported are simulations made', same(info.nsimul.at(1), L.m + 1 + (1 if failed else 0)))
        ENG.prove('iteration limit exceeded by at most one', compare('<=', info.niter, G['miter'] + 1))
        ENG.prove('evaluation limit exceeded by at most one iteration', bor(compare('<=', info.nsimul.at(1), G['N0']), compare('<=', info.nsimul.at(1), G['msimul'] - 1 + G['PM'])))
    if mine(('P05',)):
        if failed:
            ENG.prove('failed evaluation is reported', same(info.flag, G['values'].fail_on_simul))
        ENG.prove('the failed point is not the returned one', in_range(best, L.m + 1))
    if mine(('P04',)):
        if not failed:
            ENG.prove('evaluation failure is reported only after one', bnot(same(info.flag, G['values'].fail_on_simul)))
        if ENG.branch(same(info.flag, 0)):
            o = G['options']
            for a in ('glagn', 'feasn', 'compl'):
                if not hasattr(info, a):
                    ENG.prove('success carries ' + a, False)
                    return
            ENG.prove('success: Lagrangian gradient within 100 tolerances', compare('<=', info.glagn, 100 * o.tol_grad))
            ENG.prove('success: violation within 100 tolerances', compare('<=', info.feasn, 100 * o.tol_feas))
            gl = info.glag.snap()
            ENG.prove('success: reported gradient norm', same(info.glagn, G['norm_'](info.glag, math.inf)))
            if me is not None:
                ce, t = info.ce.snap(), sl2(G['glob'].slacks, me, ms)
                v = snp.ndarray.make((me, 1), lambda k, z: ce(k, 0) - t(k), 'r')
                ENG.prove('success: reported violation is that of the reported values', same(info.feasn, G['norm_'](v, math.inf)))
                prove_all('success: reported constraint values are those of the returned point', (me,), lambda k: same(ce(k, 0), L.CE(k, best)))
            else:
                ENG.prove('success: no violation without constraints', compare('==', info.feasn, 0))
        elif not failed:
            # the reason given is the one that applies
            fl = info.flag
            v = G['values']
            ENG.prove('flag names a reason', bor(*[same(fl, k) for k in (v.stop_on_max_iter, v.stop_on_max_simul, v.stop_on_small_trust_region, v.fail_unexpected, v.fail_on_non_decrease)]))
            ENG.prove('iteration limit reported only when reached', implies(same(fl, v.stop_on_max_iter), compare('>=', info.niter, G['miter'])))
            ENG.prove('evaluation limit reported only when reached', implies(same(fl, v.stop_on_max_simul), compare('>=', info.nsimul.at(1), G['msimul'])))
    if mine(('P09',)) and G['trial'] is not None:
        b0, t, s0 = G['stepbest'], G['trial'], G['stepslack']
        ENG.prove('no best point is left on returning after a trial', same(best, b0))


def main(me_, ms_, form, degree):
    def body(W, cover):
        f = W.fn('sqpdfo_main', FN)
        rt = W.load('sqpdfo.runtime')
        glob = W.load('sqpdfo.sqpdfo_global_variables')
        V = W.load('sqpdfo.sqpdfo_values').sqpdfoValues()
        focus = G['focus']
        G.clear()
        # norms: nonnegative, equal for equal vectors; nothing else is used
        ENG.registry['no norm components'] = True
        ENG.registry['abstract roots'] = True
        n = integer('n', 1)
        me = integer('me', 1) if me_ else None
        ms = None
        sl = None
        if ms_:
            ms = integer('ms', 1)
            ENG.assume(compare('<=', ms, me))
            sl = arr('sl', (ms, 1))
        glob.nbr_slacks, glob.slacks = (ms if ms_ else 0), sl
        pquad, pdiag, plin = integer('pquad'), 2 * n + 1, n + 1
        ENG.assume(compare('>=', pquad, pdiag))
        wm = integer('whichmodel', 0, 4)
        pf = {V.quadratic: pquad, V.diagonal: pdiag, V.linear: plin}[degree]
        PM = ite(compare('==', wm, 3), 2 * pf, pf)
        tg, tf, tb = (real(k) for k in ('tol_grad', 'tol_feas', 'tol_bnds'))
        for t in (tg, tf, tb):
            ENG.assume(compare('>', t, 0))
        miter, msimul = integer('miter', 1), integer('msimul', 1)
        options = Bag(final_degree=degree, miter=miter, msimul=msimul, tol_grad=tg, tol_feas=tf, tol_bnds=tb, verbose=integer('verbose', 0), fout=1,
                      hess_approx=integer('hess'), whichmodel=wm)
        p = n + 1
        m = integer('m0')
        ENG.assume(compare('>=', m, n))
        G.update(focus=focus, n=n, me=me, ms=ms, rep=n + 1, PM=PM, pquad=pquad, miter=miter, msimul=msimul, N0=m + 1, glob=glob, values=V, options=options,
                 np=W.np, norm_=rt.norm_, failed=False, form=form, trial=None, TR=None, stepbest=None, stepslack=None, head=None)
        snp.add_probe(0, p)
        snp.add_probe(1, p)
        L = new_log(m)
        ind = positions(p, m)
        best = ind.at(0)
        snp.add_probe(best, m + 1)
        e = {'cur_degree': p}
        from_log(e, L, p, ind, best)
        derived(e)
        info = new_info(L, best, snp.ndarray.make((4,), lambda i: ite(compare('==', i, 1), m + 1, 0), 'i'), 0)
        info.niter = 0
        delta = real('delta')
        Dmax, eps = real('Deltamax'), real('epsilon')
        for t in (delta, Dmax, eps):
            ENG.assume(compare('>', t, 0))
        C = Bag(free=0, fixed=1, alwaysfixed=2, in_=1, out=0, unused=0, inY=1, dummy=1, nodummy=0)
        nl = n + (ms if ms_ else 0)
        kw = dict(func=G.get('func', 'simulator'), n=n, nb=integer('nb', 0), mi=0, me=me if me_ else 0, lm=e['lm'], nitold=0, nit=0, i_xbest=best, lb=arr('lb', (nl, 1)), ub=arr('ub', (nl, 1)),
                  m=m, X=e['X'], fX=e['fX'], ciX=empty(), ceX=e['ceX'], ind_Y=ind, QZ=e['QZ'], RZ=e['RZ'], delta=delta, cur_degree=p, neval=0, maxeval=200 * n, maxit=200 * n,
                  fcmodel=e['fcmodel'], gx=e['gx'], normgx=e['normgx'], show_errg=0, pquad=pquad, pdiag=pdiag, plin=plin, stallfact=real('stallfact', 0), eps_rho=1e-14, Deltamax=Dmax,
                  rep_degree=n + 1, epsilon=eps, verbose=1, eta1=CONST['eta1'], eta2=CONST['eta2'], gamma1=CONST['gamma1'], gamma2=CONST['gamma2'], gamma3=CONST['gamma3'],
                  interpol_TR=CONST['interpol_TR'], factor_CV=CONST['factor_CV'], Lambda_XN=CONST['Lambda_XN'], Lambda_CP=CONST['Lambda_CP'], factor_FPU=CONST['factor_FPU'], factor_FPR=10,
                  Lambda_FP=CONST['Lambda_FP'], criterion_S='distance', criterion_FP='distance', criterion_CP='standard', mu=CONST['mu'], theta=1, eps_TR=CONST['eps_TR'], eps_L=0.001,
                  lSolver=CONST['lSolver'], stratLam=1, eps_current=real('eps_current', 0), vstatus=snp.zeros((n, 1)), xstatus=e['xstatus'], sstatus=e['sstatus'], dstatus=e['dstatus'], ndummyY=0,
                  sspace_save=empty(), xspace_save=empty(), xfix=snp.zeros((n, 1)), fxmax=1e25, poised_model=integer('pm', 0, 2), M=e['M'], kappa_ill=1e15, kappa_th=2000, eps_bnd=real('eps_bnd'),
                  poised=real('poised', 0), Y_radius=real('Y_radius', 0), c=C, level='toplevel', whichmodel=wm, hardcons=0, noisy=0, scaleX=0, scalefacX=snp.ones((1, n)), CNTsin=0,
                  shrink_Delta=CONST['shrink_Delta'], scale=e['scale'], shift_Y=CONST['shift_Y'], info=info, options=options, values=V)
        cover()
        from pyvc.sigs import SIGS
        r = f(*[kw[k] for k in SIGS[FN]])
        returned(r)
    return body


# constants with which sqpdfo_ calls the function (checked by the sqpdfo_ unit of P01)
CONST = dict(eta1=0.0001, eta2=0.9, gamma1=0.01, gamma2=0.5, gamma3=2.0, interpol_TR=1, factor_CV=100, factor_FPU=1, mu=0.1, eps_TR=0.0001, lSolver=1, shrink_Delta=1, shift_Y=1,
             Lambda_XN=1e-10, Lambda_CP=1.2, Lambda_FP=1e-10)


def units(focus):
    def setup():
        G['focus'] = focus
        ACTIVE['stubs'] = STUBS
    out = []
    for me, ms, nm in ((0, 0, 'unconstrained'), (1, 0, 'equalities'), (1, 1, 'slacks')):
        for form in (0, 1):
            for deg, dn in ((142, ''), (141, '/diagonal'), (140, '/linear')):
                quick = deg == 142 and form == 0 and nm == 'unconstrained'
                out.append(Unit('main/%s%s%s' % (nm, '/arrays' if form else '', dn), main(me, ms, form, deg), FN, assumes=AS, setup=setup, budget=500, par=8, quick=quick, feas_timeout=60, max_paths=100000))
    return out


AS = [REAL, NPSHIM, 'no fixed variables, linear start (rep_degree = n+1 points), inequalities rewritten with slacks (mi = 0), values below the 1e25 cap',
      'callees by contract: evaluation (P03), selection (P21), swap/augment/include (P12), repair (P13), step computation (frame), multipliers, optimality (P04), Hessian (frame)',
      'parts of the loop invariant owned by the other properties of this loop are proved there']
