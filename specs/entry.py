"""Contract of the entry point sqpdfo_ (each property states its own part): missing
arguments are refused before anything is called; otherwise the state prepared
by sqpdfo_prelim_ goes unchanged to sqpdfo_main_ together with the constants
that the main loop contract names, and what is returned is the point, value and
constraint column of the index that the main loop reports."""
from specs import Unit, REAL, NPSHIM
from specs.lib import *
from specs.mainloop import CONST

FN = 'sqpdfo_'
PRELIM = ('n nb mi me x lm lb ub scalefacX Delta nfix indfix xfix vstatus xstatus sstatus dstatus QZ RZ scale poised Y_radius poised_model X fX Y fY ciX ciY ceX ceY '
          'poisedness_known m gx normgx fcmodel ind_Y i_xbest cur_degree rep_degree plin pdiag pquad indfree info options values').split()
PASSED = ('n nb mi me lm i_xbest lb ub m X fX ciX ceX ind_Y QZ RZ cur_degree fcmodel gx normgx pquad pdiag plin rep_degree vstatus xstatus dstatus xfix poised_model '
          'poised Y_radius scale scalefacX info options values').split()
E = {}


class Slacks(LoopSpec):
    """counting the two-sided inequalities: the count only grows"""
    defined = ('mi',)

    def setup(self, env):
        self.mi0 = env['mi']

    def havoc(self, env, i):
        env['mi'] = integer('mi')

    def inv(self, env, i):
        return [('count of slacks only grows', compare('>=', env['mi'], self.mi0))]


class Printing(LoopSpec):
    """loops whose body only printed"""
    def havoc(self, env, i):
        pass

    def inv(self, env, i):
        return []


LOOPSPECS[(FN, 0)] = Slacks
LOOPSPECS[(FN, 1)] = LOOPSPECS[(FN, 2)] = Printing


def need(owners, name, goal):
    """stated by the properties that own it; for the others it is a condition
    under which their contract says something"""
    if E['focus'] in owners:
        ENG.prove(name, goal)
    elif goal is not True and not (core.is_scalar(goal) and ENG.entails(goal)):
        raise Unsupported('not as assumed: ' + name)


def need_same(owners, name, a, rd, dims):
    if E['focus'] in owners:
        prove_same(name, a, rd, dims)
        return
    if not isinstance(a, snp.ndarray) or len(a._dims) != len(dims) or not ENG.entails(band(True, *[compare('==', x, y) for x, y in zip(a._dims, dims)])):
        raise Unsupported('not as assumed: ' + name)
    r, ix = a.snap(), idx(dims)
    need((), name, implies(within(ix, dims), same(r(*ix), rd(*ix))))


def agree(owners, name, a, b):
    """the same value"""
    if a is b or isinstance(a, Bag) and isinstance(b, Bag):
        return
    if isinstance(a, snp.ndarray) and isinstance(b, snp.ndarray) and a.ndim == b.ndim:
        need_same(owners, name, a, b.snap(), b._dims)
    else:
        need(owners, name, core.is_scalar(a) and core.is_scalar(b) and same(a, b))


def state_of_run():
    """module-level state at the start of the run: a function of the arguments"""
    g, g0 = E['glob'], E['glob0']
    ns = E['mi'] if E['ineq'] else 0
    ENG.prove('the objective of this run is used', g.filename_f is E['user'])
    ENG.prove('the constraint function of this run is used', (g.filename_cons is E['user']) if E['con'] else isinstance(g.filename_cons, str) and g.filename_cons == '')
    ENG.prove('number of slacks of this run', core.is_scalar(g.nbr_slacks) and (compare('>=', g.nbr_slacks, ns) if E['ineq'] else same(g.nbr_slacks, 0)))
    if E['ineq']:
        ok = isinstance(g.slacks, snp.ndarray)
        ENG.prove('slacks start anew', ok)
        if ok:
            prove_shape('one slack per inequality', g.slacks, (g.nbr_slacks, 1))
            need_same((), 'slacks start at zero', g.slacks, lambda *i: 0.0, (g.nbr_slacks, 1))
    else:
        need((), 'no slacks left over', g.slacks is None or isinstance(g.slacks, snp.ndarray) and g.slacks.size == 0)
    for k, v in g0.items():
        if k not in RUNSTATE:
            ENG.prove('global %s is not written by a run' % k, getattr(g, k, None) is v)


RUNSTATE = ('filename_f', 'filename_cons', 'nbr_slacks', 'slacks')


def call_prelim(a):
    need(('P01', 'P03', 'P07'), 'initialisation happens once, before the main loop', not E['prelim'] and not E['main'])
    n, N, me = E['n'], E['N'], E['me']
    x0 = a['x0']
    need((), 'start is a column', isinstance(x0, snp.ndarray) and x0.ndim == 2)
    need_same((), 'start is the given one', x0, lambda i, z: E['x0'](i), (n, 1))
    for b, nm in (('lb', 'lower'), ('ub', 'upper')):
        t = a[b]
        need((), 'bounds are columns', isinstance(t, snp.ndarray) and len(t._dims) == 2 and band(compare('>=', t._dims[0], n), same(t._dims[1], 1)))
        need_same(('P07', 'P08'), '%s bounds are the given ones' % nm, t[0:n], lambda i, z: E[b](i), (n, 1))
    need((), 'linear starting model', same(a['cur_degree'], n + 1))
    need((), 'linear model wanted by repair', same(a['rep_degree'], n + 1))
    need((), 'sizes of the models', band(same(a['plin'], n + 1), same(a['pdiag'], 2 * n + 1)))
    need(('P08',), 'initial radius is positive', compare('>', a['Delta0'], 0))
    need((), 'simplex start', isinstance(a['initial_Y'], str) and a['initial_Y'] == 'simplx')
    need((), 'no scaling', same(a['scaleX'], 0))
    need((), 'step solver without bounds in the geometry phase', band(same(a['lSolver'], 1), same(a['hardcons'], 0)))
    if E['focus'] == 'P06':
        state_of_run()
        need((), 'the options object of the caller is not handed on', a['options'] is not E['opt'])
    v = {k: Token(k) for k in PRELIM}
    flag = integer('flag')
    v.update(n=n, nb=integer('nb', 0), mi=0, me=me, nfix=0, x=arr('xp', (n, 1)), X=arr('X', (n, N)), fX=arr('fX', (N,)), ciX=empty(),
             ceX=arr('ceX', (me, N)) if E['con'] else empty(), i_xbest=0, m=N - 1, gx=arr('gx', (n, 1)), normgx=real('normgx', 0), Delta=real('Delta'),
             sstatus=arr('ss', (N,), 'i'), cur_degree=n + 1, rep_degree=n + 1, plin=n + 1, pdiag=2 * n + 1, pquad=a['pquad'],
             info=Bag(flag=flag, f=real('f'), ce=empty()), options=Bag(verbose=integer('verbose', 0), fout=1, whichmodel=integer('wm', 0, 4)), indfix=empty(), indfree=Token('indfree'))
    ENG.assume(compare('>', v['Delta'], 0))
    E['prelim'].append(v)
    E['flag'] = flag
    return tuple(v[k] for k in PRELIM)


MAIN = ('nit i_xbest x fx m X fX ciX ceX ind_Y Delta eps_current cur_degree fcmodel gx normgx vstatus xstatus sstatus dstatus M ndummyY sspace_save xspace_save msg CNTsin neval lm info').split()


def call_main(a):
    need(('P01', 'P03', 'P07'), 'the main loop runs once, after a successful initialisation', len(E['prelim']) == 1 and not E['main'])
    v = E['prelim'][0]
    need(('P05', 'P07'), 'the main loop runs only without a failure flag', same(E['flag'], 0))
    for k in PASSED:
        agree(('P01',), '%s of the initialisation reaches the main loop' % k, a[k], v[k])
    need((), 'radius reaches the main loop', same(a['delta'], v['Delta']))
    for k, w in CONST.items():
        need((), 'main loop constant %s = %s' % (k, w), core.is_scalar(a[k]) and same(a[k], w))
    need((), 'model kind is the option', same(a['whichmodel'], v['options'].whichmodel))
    for k, w in (('nit', 0), ('nitold', 0), ('neval', 0), ('hardcons', 0), ('scaleX', 0), ('noisy', 0)):
        need((), '%s starts at %s' % (k, w), same(a[k], w))
    need((), 'selection criteria', (a['criterion_S'], a['criterion_FP'], a['criterion_CP']) == ('distance', 'distance', 'standard'))
    need((), 'largest radius is positive', compare('>', a['Deltamax'], 0))
    need((), 'smallest radius is positive', compare('>', a['epsilon'], 0))
    n, me = E['n'], E['me']
    N = integer('N2', 1)
    best = integer('best')
    ENG.assume(in_range(best, N))
    r = {k: Token(k) for k in MAIN}
    r.update(i_xbest=best, X=arr('X2', (n, N)), ceX=arr('ceX2', (me, N)) if E['con'] else empty(), fx=real('fx'), x=arr('x2', (n, 1)), gx=arr('gx2', (n, 1)), nit=integer('nit', 0),
             lm=arr('lm2', (n, 1)), info=Bag(flag=integer('flag2'), f=real('f2'), ce=arr('ce2', (me, 1)) if E['con'] else empty(), nsimul=Token('nsimul')))
    r['_X'], r['_ce'] = r['X'].snap(), r['ceX'].snap() if E['con'] else None
    r['nsimul'] = r['info'].nsimul
    E['main'].append(r)
    return tuple(r[k] for k in MAIN)


WRAP.update(('sqpdfo_prelim_', 'sqpdfo_main_'))
STUBS = dict(sqpdfo_prelim_=call_prelim, sqpdfo_main_=call_main)


def setup():
    ACTIVE['stubs'] = STUBS


def start(con):
    E.clear()
    n = integer('n', 1)
    E.update(prelim=[], main=[], n=n, me=integer('me', 1) if con else 0, N=n + 1, con=con, calls=[])
    return n


def refuse(what):
    def body(W, cover):
        f = W.fn('sqpdfo', FN)
        n = start(True)

        def user(*a):
            ENG.prove('nothing is evaluated', False)
        x0 = arr('x0', (n, 1))
        me, mi = integer('me', 0), integer('mi', 0)
        ENG.assume(compare('>', me + mi, 0))
        cover()
        args = dict(options_=None, func_f=user, x0=x0, lb=None, ub=None, me=me, mi=mi, func_c=user)
        args[what] = None
        E['focus'] = 'P07'
        E['prelim'] = [1]       # any call of the initialisation fails its first obligation
        x, lm, info = f(**args)
        ENG.prove('flag 1', same(info.flag, 1))
        ENG.prove('no point is reported', x.size == 0)
        ENG.prove('the main loop is not reached', not E['main'])
    return body


def run(con, ineq, bounds, focus):
    def body(W, cover):
        f = W.fn('sqpdfo', FN)
        n = start(con)
        E['focus'] = focus

        def user(*a):
            need(('P03', 'P07'), 'the entry point does not call the user functions', False)
        x0 = arr('x0', (n, 1) if bounds else (1, n))
        rx = x0.snap()
        E['x0'] = lambda i: rx(i, 0) if bounds else rx(0, i)
        lb = ub = None
        fr = dict(x0=x0)
        if bounds:
            lb, ub = arr('lb', (n, 1)), arr('ub', (n, 1))
            l, u = lb.snap(), ub.snap()
            E['lb'], E['ub'] = (lambda i: l(i, 0)), (lambda i: u(i, 0))
            fr.update(lb=lb, ub=ub)
        else:
            E['lb'], E['ub'] = (lambda i: -1e20), (lambda i: 1e20)
        fr = Frame(**fr)
        me, mi = (integer('me0', 0), integer('mi0', 1)) if ineq else ((integer('me0', 1) if con else 0), 0)
        opt = Bag(verbose=0)
        own = dict(opt.__dict__)
        E.update(user=user, mi=mi, ineq=ineq, opt=opt)
        g = E['glob'] = W.load('sqpdfo.sqpdfo_global_variables')
        for k in RUNSTATE:          # whatever an earlier run left
            setattr(g, k, Token('left over ' + k))
        E['glob0'] = {k: v for k, v in g.__dict__.items() if not k.startswith('_') and not callable(v)}
        cover()
        x, lm, info = f(opt, user, x0, lb, ub, me, mi, user if con else None)
        if focus == 'P06':
            fr.check()
            ENG.prove('options object of the caller is not modified', opt.__dict__ == own)
            for k, v in E['glob0'].items():
                if k not in RUNSTATE:
                    ENG.prove('global %s is not written by a run' % k, getattr(g, k, None) is v)
        need(('P07', 'P01'), 'initialised once', len(E['prelim']) == 1)
        if not E['main']:
            v = E['prelim'][0]
            need(('P03', 'P07'), 'the main loop is skipped only after a failed initialisation', compare('!=', E['flag'], 0))
            need(('P04', 'P05', 'P07'), 'a failed initialisation is reported as it is', same(info.flag, E['flag']))
            agree(('P05',), 'its start is reported', x, v['x'])
            agree((), 'its multipliers are reported', lm, v['lm'])
            return
        r = E['main'][0]
        need_same(('P01',), 'returned point is the column the main loop reports', x, lambda i: r['_X'](i, r['i_xbest']), (n,))
        need(('P01',), 'returned value is that of the main loop', same(info.f, r['fx']))
        if con:
            need_same(('P01', 'P04'), 'returned constraint values are those of the same column', info.ce, lambda k, z: r['_ce'](k, r['i_xbest']), (E['me'], 1))
        need(('P04', 'P05'), 'flag is that of the main loop', same(info.flag, r['info'].flag))
        need(('P03',), 'counters are those of the main loop', info.nsimul is r['nsimul'])
        agree(('P01',), 'multipliers are those of the main loop', lm, r['lm'])
        if focus in ('P06', 'P08'):
            ENG.prove('completed', True)
    return body


ASE = [REAL, NPSHIM, 'sqpdfo_prelim_ by contract (shapes; nothing fixed: nfix == 0, scaleX == 0), sqpdfo_main_ by contract (main units)', 'x0, lb, ub given as columns of numbers, or x0 as a row (what a list becomes) without bounds']
REFUSE = [Unit('entry/refuse/' + k, refuse(k), FN, assumes=ASE, setup=setup) for k in ('func_f', 'func_c', 'x0')]


def run_units(pid):
    return [Unit('entry/run/%s/%s' % (nm, 'bounds' if b else 'nobounds'), run(c, i, b, pid), FN, assumes=ASE, setup=setup)
            for c, i, nm in ((0, 0, 'unconstrained'), (1, 0, 'equalities'), (1, 1, 'inequalities')) for b in (1, 0)]
