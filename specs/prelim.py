"""Contract of the initialisation sqpdfo_prelim_: the starting set lies inside the
bounds (P08), crossed bounds are refused without evaluation (P07), the caller's
data are left alone (P06).

The whole initialisation is executed with the evaluation of a point replaced by
its contract; every point handed to the evaluation has to lie inside the bounds,
also after the radius was reduced because of values that are too large."""
import math
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *

FN = 'sqpdfo_prelim_'
G = {}


def between(c, v):
    """inside the bounds of component c"""
    return band(compare('<=', G['lb'](c), v), compare('<=', v, G['ub'](c)))


def room(x0, d, c):
    """component c of the start keeps the distance d from both bounds"""
    return band(compare('<=', arith('+', G['lb'](c), d), x0(c, 0)), compare('<=', x0(c, 0), arith('-', G['ub'](c), d)))


class Box(LoopSpec):
    """components below i of the start keep the radius from both bounds"""
    defined = ('temp', 'Delta0', 'templ', 'tempu', 'nfix', 'indfix')
    unchanged = ('x0', 'xfix', 'vstatus')

    @classmethod
    def applies(cls, loop):
        return 'Delta0' in loop.names and 'x0' in loop.stores and over(loop, (0, G['n']))

    def setup(self, env):
        self.d0 = env['Delta0']

    def havoc(self, env, i):
        for k in ('x0', 'temp', 'xfix', 'vstatus'):
            snp.havoc_content(env[k], k)
        env['Delta0'] = real('Delta0')
        env['nfix'] = 0
        env['indfix'] = empty()
        env['templ'], env['tempu'] = real('templ'), real('tempu')

    def inv(self, env, i):
        x0, d = env['x0'].snap(), env['Delta0']
        n = G['n']
        out = [('nothing is fixed', same(env['nfix'], 0))]
        if G['focus'] == 'P07':
            out += [('no bounds crossed so far', lambda c: implies(band(in_range(c, n), compare('<', c, i)), compare('<', G['lb'](c), G['ub'](c))), n)]
        if G['focus'] == 'P08':
            out += [('radius is positive and only shrinks', band(compare('>', d, 0), compare('<=', d, self.d0))),
                    ('done components keep the radius from the bounds', lambda c: implies(band(in_range(c, n), compare('<', c, i)), room(x0, d, c)), n)]
        return out


class Tries(LoopSpec):
    """every try: the radius keeps the start away from the bounds"""
    defined = ('Y', 'QZ', 'RZ', 'x', 'scale', 'poised', 'Y_radius', 'X', 'fX', 'fY', 'ciX', 'ciY', 'ceX', 'ceY', 'ind_Y', 'info', 'neval', 'outdic', 'xstatus', 'sstatus', 'dstatus',
               'getfY', 'gx', 'I', 'step1', 'poisedness_known', 'poised_model', 'Delta0', 'i', 'j')
    unchanged = ('x0', 'lb', 'ub')

    @classmethod
    def applies(cls, loop):
        return loop.kind == 'while' and 'getfY' in loop.names

    def setup(self, env):
        pass

    def havoc(self, env, i):
        env['Delta0'] = real('Delta0')
        env['getfY'] = integer('getfY', 0, 2)
        records(env)
        env['x'] = arr('x', (G['n'], 1))
        env['Y'], env['gx'] = Token('Y'), math.nan
        env['fY'], env['ciY'], env['ceY'] = arr('fY', (integer('nfY', 1),)), empty(), empty()

    def inv(self, env, i):
        x0, d = env['x0'].snap(), env['Delta0']
        n = G['n']
        if G['focus'] != 'P08':
            return []
        return [('start is a column', bool(env['x0'].ndim == 2)), ('radius is positive', compare('>', d, 0)),
                ('the start keeps the radius from the bounds', lambda c: implies(in_range(c, n), room(x0, d, c)), n)]


def records(env):
    info = env['info']
    info.flag = 0
    for k in ('X', 'fX', 'xstatus', 'sstatus', 'dstatus', 'ind_Y'):
        env[k] = arr(k, (integer('no', 1),))
    env['ciX'], env['ceX'] = empty(), empty()
    env['neval'], env['outdic'] = integer('neval', 0), 0


class Simplex(LoopSpec):
    """columns up to i lie inside the bounds"""
    unchanged = ('Y',)
    defined = ('step1', 'step2')

    @classmethod
    def applies(cls, loop):
        return 'Y' in loop.stores and 'ind_Y' not in loop.names and over(loop, (0, G['n']))

    def holds(self, r, c, i, v):
        return implies(band(in_range(r, G['n']), in_range(c, G['n'] + 1), compare('<=', c, i)), between(r, v))

    def havoc(self, env, i):
        old = arr('Y', env['Y']._dims, fact=lambda ix, v: self.holds(ix[0], ix[1], i, v) if G['focus'] == 'P08' else None).snap()
        env['Y'].write_all(lambda r, c: old(r, c))
        env['step1'] = env['step2'] = real('step')

    def inv(self, env, i):
        if G['focus'] != 'P08':
            return []
        Y = env['Y'].snap()
        r = ENG.fresh('row', 'i')
        snp.add_probe(r, G['n'])
        return [('points so far lie inside the bounds', lambda c: self.holds(r, c, i, Y(r, c)), G['n'] + 1)]


class Evaluations(LoopSpec):
    """the records are opaque; the points are stated where they are evaluated"""
    defined = ('X', 'fX', 'ciX', 'ceX', 'neval', 'xstatus', 'sstatus', 'dstatus', 'info', 'outdic', 'ind_Y', 'getfY')

    @classmethod
    def applies(cls, loop):
        return loop.kind == 'srange' and 'ind_Y' in loop.names and 'getfY' in loop.names

    def havoc(self, env, i):
        records(env)
        env['getfY'] = integer('getfY', 0, 2)

    def inv(self, env, i):
        return []


LOOPSPECS[(FN, None)] = [Box, Tries, Simplex, Evaluations]


def call_augmX(a):
    """contract of sqpdfo_augmX_evalf_ (augmX units of P03): evaluates y"""
    y = a['y']
    G['evaluated'] = True
    if G['focus'] == 'P07':
        ENG.prove('bounds checked before anything is evaluated', not G['crossed'])
    if G['focus'] != 'P08':
        G['info'] = a['info']
    if G['focus'] == 'P08':
        prove_starts(y)
    info = a['info']
    info.flag = integer('flag')
    return (arr('X', (integer('nX', 1),)), arr('fX', (arith('+', a['m'], 1),)), empty(), empty(), integer('neval', 0), arr('xs', (integer('nS', 1),)), arr('ss', (integer('nS', 1),)),
            arr('ds', (integer('nS', 1),)), info, 0)


def prove_starts(y):
    prove_shape('a point of the starting set is a column', y, (G['n'], 1))
    r = y.snap()
    prove_all('points of the starting set lie inside the bounds', (G['n'],), lambda c: between(c, r(c, 0)))


def finished():
    if G['focus'] == 'P06':
        G['frame'].check()
        ENG.prove('options object of the caller is not modified', G['opt'].__dict__ == G['own'])
        for k, v in G['glob0'].items():
            if k != 'slacks':
                ENG.prove('global %s is not written by the initialisation' % k, getattr(G['glob'], k, None) is v)


def done(a):
    """the rest computes models on the evaluated set"""
    if G['focus'] == 'P07':
        ENG.prove('crossed bounds do not reach the models', not G['crossed'])
    finished()
    raise core.EndPath()


WRAP.update(('sqpdfo_options_', 'bcdfo_poisedness_Y_', 'bcdfo_build_QR_of_Y_', 'sqpdfo_augmX_evalf_', 'bcdfo_computeP_'))


def options_stub(a):
    if G['focus'] == 'P06':
        if a['options'] is G['opt']:
            raise Unsupported('the option routine completes the options object it was given')
    info = a['info']
    info.flag = 0
    return info, G['options'], G['values']


def setup():
    ACTIVE['stubs'] = dict(sqpdfo_options_=options_stub, bcdfo_build_QR_of_Y_=qr_stub, bcdfo_poisedness_Y_=lambda a: (real('poised', 0), real('Y_radius', 0)),
                           sqpdfo_augmX_evalf_=call_augmX, bcdfo_computeP_=done)


def call(W, n, x0, lb, ub):
    f = W.fn('sqpdfo_prelim', FN)
    G['options'] = Bag(verbose=0, fout=1, whichmodel=integer('wm', 0, 4), inf=math.inf)
    G['values'] = Bag(nsimultype=16, fail_on_argument=1, fail_on_simul=3, success=0, dline='', eline='', sline='')
    d = real('Delta0')
    ENG.assume(compare('>', d, 0))
    p = n + 1
    c = Bag(free=0, fixed=1, alwaysfixed=2, inY=2)
    return f(func_=lambda *a: ENG.prove('nothing is evaluated directly', False), x0_=x0, lm0_=empty(), Delta0_=d, lb_=lb, ub_=ub, scaleX_=0, scalefacX_=snp.full_((1, n), 1.0), cur_degree_=p, rep_degree_=p, plin_=p,
             pdiag_=2 * n + 1, pquad_=integer('pquad', 1), c_=c, initial_Y_='simplx', kappa_ill_=1e15, factor_FPR_=10, Lambda_FP_=1e-10, Lambda_CP_=1.2, eps_L_=1e-3, lSolver_=1,
             hardcons_=0, stratLam_=1, xstatus_=empty(), sstatus_=empty(), dstatus_=empty(), options_=G['opt'])


def body(focus, crossed, kind='finite'):
    def run(W, cover):
        G.clear()
        n = G['n'] = integer('n', 1)
        x0 = arr('x0', (n, 1))
        if kind == 'finite':
            lo, up = arr('lb', (n, 1)), arr('ub', (n, 1))
        else:
            x0 = arr('x0', (n, 1), 'x', lambda i, v: S('b', v.e[0] == 0))
            lo = arr('lb', (n, 1), 'x', lambda i, v: S('b', z3.Or(v.e[0] == 0, v.e[0] == -1)))
            up = arr('ub', (n, 1), 'x', lambda i, v: S('b', z3.Or(v.e[0] == 0, v.e[0] == 1)))
        l, u = lo.snap(), up.snap()
        opt = Bag(verbose=0)
        G.update(focus=focus, crossed=crossed, lb=lambda c: l(c, 0), ub=lambda c: u(c, 0), opt=opt, own=dict(opt.__dict__))
        if crossed:
            j = integer('crossed')
            ENG.assume(in_range(j, n))
            ENG.assume(compare('>', l(j, 0), u(j, 0)))
            snp.forall(lambda c: ENG.assume(implies(in_range(c, n), compare('!=', l(c, 0), u(c, 0)))), n)
        else:
            snp.forall(lambda c: ENG.assume(implies(in_range(c, n), compare('<', l(c, 0), u(c, 0)))), n)
        G['frame'] = Frame(x0=x0, lb=lo, ub=up)
        g = G['glob'] = W.load('sqpdfo.sqpdfo_global_variables')
        g.nbr_slacks, g.slacks = 0, None
        G['glob0'] = {k: v for k, v in g.__dict__.items() if not k.startswith('_') and not callable(v)}
        cover()
        r = call(W, n, x0, lo, up)
        finished()
        info = [v for v in r if hasattr(v, 'niter')][0]
        if focus == 'P07':
            if crossed:
                ENG.prove('inconsistent bounds are refused', same(info.flag, 2))
        if focus == 'P08':
            ENG.prove('completed', True)
    return run


ASP = [REAL, NPSHIM, 'no fixed variables, linear starting set, scaleX == 0 (its only value)', 'sqpdfo_augmX_evalf_ by contract (P03); build_QR, poisedness: frames',
       'constraint values do not influence the starting points (executed without constraints)']


def unit(pid, crossed=False, kind='finite'):
    return Unit('prelim/' + ('crossed' if crossed else dict(P08='starts', P06='frame')[pid]) + ('' if kind == 'finite' else '/infinite'), body(pid, crossed, kind), FN, assumes=ASP, setup=setup, budget=120)
