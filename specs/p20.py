"""P20: the sign pattern of the multiplier estimate (the box handed to the bounded
least squares solver).  The whole preparation is executed up to the loop that
removes the entries whose box is a point; there the box is stated."""
import math
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *

FN = 'sqpdfo_compute_multiplier_'
G = {}


def pattern(lo, up, c):
    """box of the multiplier of variable c"""
    lb, ub = G['lb'].at(c, 0), G['ub'].at(c, 0)
    x, t = G['x'].at(c, 0), G['dxmin']
    nolo, noup = core.isinf(lb), core.isinf(ub)
    near = lambda b: compare('<', core.sabs(arith('-', x, b)), t)
    atlo, atup = band(bnot(nolo), near(lb)), band(bnot(noup), near(ub))
    l, u = lo(c, 0), up(c, 0)
    return [('no lower bound: not negative', implies(nolo, same(l, 0.0))), ('no upper bound: not positive', implies(noup, same(u, 0.0))),
            ('active lower bound: not positive', implies(atlo, same(u, 0.0))), ('active upper bound: not negative', implies(atup, same(l, 0.0))),
            ('free towards a bound that is only lower', implies(band(bnot(nolo), bnot(atup)), same(l, -math.inf))),
            ('free towards a bound that is only upper', implies(band(bnot(noup), bnot(atlo)), same(u, math.inf)))]


class Variables(LoopSpec):
    unchanged = ('lo', 'up')

    @classmethod
    def applies(cls, loop):
        n, ns = G['n'], G['ns']
        return set(loop.stores) == {'lo', 'up'} and over(loop, (0, n), (n, n + ns))

    def setup(self, env):
        self.l0, self.u0 = env['lo'].snap(), env['up'].snap()

    def havoc(self, env, i):
        n = G['n']
        for k, s in (('lo', self.l0), ('up', self.u0)):
            new = arr(k, env[k]._dims, 'x').snap()
            env[k].write_all(lambda c, z, new=new, s=s: ite(band(compare('<', c, i), compare('>=', c, self.a)), new(c, 0), s(c, 0)))

    a = 0

    def inv(self, env, i):
        lo, up = env['lo'].snap(), env['up'].snap()
        n = G['n']

        def goal(c):
            return implies(band(in_range(c, n), compare('<', c, i)), band(True, *[g for _, g in pattern(lo, up, c)]))

        def slack(c):
            return implies(band(compare('>=', c, n), compare('<', c, smaller(i, n + G['ns']))), band(same(lo(c, 0), 0.0), same(up(c, 0), 0.0)))

        def rest(c):
            return implies(band(compare('>=', c, i), compare('>=', c, n + G['ns']), compare('<', c, n + G['ns'] + G['me'])), band(same(lo(c, 0), -math.inf), same(up(c, 0), math.inf)))
        return [('boxes of the variables', goal, n), ('boxes of the slacks', slack), ('boxes of the constraints', rest)]


def smaller(a, b):
    return ite(compare('<', a, b), a, b)


class Compaction(LoopSpec):
    @classmethod
    def applies(cls, loop):
        return 'AAn' in loop.names

    def setup(self, env):
        n, ns, me = G['n'], G['ns'], G['me']
        for k in ('lo', 'up'):
            prove_shape('one %s bound per variable, slack and constraint' % k, env[k], (n + ns + me, 1))
        lo, up = env['lo'].snap(), env['up'].snap()
        c = idx((n,))[0]
        for nm, g in pattern(lo, up, c):
            ENG.prove(nm, implies(in_range(c, n), g))

        def at(c):
            snp.add_probe(c)
            return c
        prove_all('constraint multipliers are free', (me,), lambda k: band(same(lo(at(n + ns + k), 0), -math.inf), same(up(n + ns + k, 0), math.inf)))
        if not (isinstance(ns, int) and ns == 0):
            prove_all('no multiplier for the slacks', (ns,), lambda k: band(same(lo(at(n + k), 0), 0.0), same(up(n + k, 0), 0.0)))
        G['frame'].check()
        raise core.EndPath()


LOOPSPECS[(FN, None)] = [Variables, Compaction]
WRAP.update(('sqpdfo_check_convex_', 'sqpdfo_check_cond_', 'blls_'))


def setup():
    ACTIVE['stubs'] = dict(sqpdfo_check_convex_=lambda a: a.vals[0])


def body(slacks):
    def run(W, cover):
        f = W.fn('sqpdfo_compute_multiplier', FN)
        G.clear()
        n = G['n'] = integer('n', 1)
        me = G['me'] = integer('me', 1)
        ns = G['ns'] = integer('ns', 1) if slacks else 0
        if slacks:
            ENG.assume(compare('<=', ns, me))
        g = W.load('sqpdfo.sqpdfo_global_variables')
        g.nbr_slacks, g.slacks = ns, (arr('sl', (ns, 1)) if slacks else None)
        x = arr('x', (n, 1))
        lb = arr('lb', (n, 1), 'x', lambda i, v: S('b', z3.Or(v.e[0] == 0, v.e[0] == -1)))
        ub = arr('ub', (n, 1), 'x', lambda i, v: S('b', z3.Or(v.e[0] == 0, v.e[0] == 1)))
        t = real('dxmin')
        ENG.assume(compare('>', t, 0))
        gx, ae = arr('g', (n, 1)), arr('ae', (me, n))
        G.update(x=x, lb=lb, ub=ub, dxmin=t, frame=Frame(x=x, g=gx, ae=ae))
        info = Bag(g=gx, ae=ae, flag=0)
        cover()
        f(x, lb, ub, info, Bag(inf=math.inf, dxmin=t, verbose=0), Bag(success=0, fail_unexpected=9))
        ENG.prove('the least squares problem is reached', False)
    return run


UNITS = [Unit('multiplier/box' + ('/slacks' if s else ''), body(s), FN, budget=120, setup=setup,
              assumes=[REAL, NPSHIM, 'the box handed to the least squares solver; the solver itself and the expansion of its result are searched at run time (bounded)']) for s in (0, 1)]
