"""P21: selection of the best point of the set inside the bounds."""
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *

WRAP.update(['sqpdfo_swap_in_Y_'])
G = {}
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def uf(name, *sorts):
    return z3.Function(ENG.fresh_name(name), *sorts)


def ie(x):
    return core.lift(x)[1]


def inside(t):
    """all components of point t within the bounds and the point is no dummy;
    definition unfolded at t (with a witness row for the negation)"""
    k = z3.simplify(ie(t)).get_id()
    v = S('b', G['in'](ie(t)))
    if k not in G['unf'] and k not in G['wit']:
        G['unf'][k] = t
        w = S('i', G['row'](ie(t)))
        d = S('i', G['dum'](ie(t)))
        Y, xl, xu = G['Y0'], G['xl'], G['xu']
        bad = lambda r: bor(compare('<', Y(r, t), xl(r)), compare('>', Y(r, t), xu(r)))
        isd = lambda q: band(in_range(q, G['nd']), same(G['ds'](q), G['dummy']), same(q, G['ind'](t)))
        ENG.assume(implies(band(in_range(t, G['p1']), bnot(v)), bor(band(in_range(w, G['n']), bad(w)), isd(d))))
        for z, dim in ((w, G['n']), (d, G['nd'])):
            G['wit'][z3.simplify(ie(z)).get_id()] = z
            snp.add_probe(z, dim)
        snp.forall(lambda r: ENG.assume(implies(band(in_range(t, G['p1']), v, in_range(r, G['n'])), bnot(bad(r)))), G['n'])
        snp.forall(lambda r: ENG.assume(implies(band(in_range(t, G['p1']), v), bnot(isd(r)))), G['nd'])
    return v


def N(t):
    """norm of the (slack-adjusted) constraint values of point t"""
    return S('r', G['N'](ie(t)))


def N_unfold(t):
    me, ce, sl2 = G['me'], G['ce'], G['sl2']
    v = snp.norm(snp.ndarray.make((me,), lambda k: ce(k, t) - sl2(k)), 2)
    ENG.assume(same(N(t), v))


def N_ext(t, u):
    """points with equal constraint values have equal norms"""
    k = S('i', G['diff'](ie(t), ie(u)))
    G['wit'][z3.simplify(ie(k)).get_id()] = k
    snp.add_probe(k, G['me'])
    ENG.assume(bor(same(N(t), N(u)), band(in_range(k, G['me']), bnot(same(G['ce'](k, t), G['ce'](k, u))))))


def merit(t):
    v = G['fY'](t)
    return v + G['sigma'] * N(t) if G['me'] is not None else v


class Inside(LoopSpec):
    """entry t is t for points inside the bounds and 0 otherwise"""
    defined = ('ind_insideBounds',)

    def setup(self, env):
        self.last = None

    def havoc(self, env, i):
        env['ind_insideBounds'] = arr('inside', (i,), 'i')
        inside(i)

    def ghost(self, env, i):
        self.last = i

    def inv(self, env, i):
        a = env['ind_insideBounds']
        r = a.snap()
        f = lambda t: same(r(t), ite(inside(t), t, 0))
        out = [('length', band(len(a._dims) == 1, same(a._dims[0], i)))]
        if self.last is None:
            out.append(('entries', lambda t: implies(band(compare('>=', t, 0), compare('<', t, i)), f(t)), G['p1']))
        else:
            out.append(('entries', lambda t: implies(band(compare('>=', t, 0), compare('<', t, self.last)), f(t)), G['p1']))
            out.append(('entry of this point', f(self.last)))
        return out


class Norms(LoopSpec):
    unchanged = ('norm_ceY',)

    def setup(self, env):
        self.last = None

    def havoc(self, env, i):
        snp.havoc_content(env['norm_ceY'], 'nce')
        N_unfold(i)

    def ghost(self, env, i):
        self.last = i

    def inv(self, env, i):
        r = env['norm_ceY'].snap()
        s = i if self.last is None else self.last
        out = [('entries', lambda t: implies(band(compare('>=', t, 0), compare('<', t, s)), same(r(t), N(t))), G['p1'])]
        if self.last is not None:
            out.append(('entry of this point', same(r(self.last), N(self.last))))
        return out


LOOPSPECS[('sqpdfo_find_smallf_', 0)] = Inside
LOOPSPECS[('sqpdfo_find_smallf_', 1)] = Norms
LOOPSPECS[('sqpdfo_find_smallf_', 2)] = Norms


def smallf(con, slacks, dummies):
    def body(W, cover):
        f = W.fn('sqpdfo_find_smallf', 'sqpdfo_find_smallf_')
        gl = W.load('sqpdfo.sqpdfo_global_variables')
        G.clear()
        n, p1 = integer('n', 1), integer('p1', 1)
        nx = integer('nx', 1)
        Y, ind, fY = arr('Y', (n, p1)), arr('ind', (p1,), 'i'), arr('fY', (p1,))
        me = ms = None
        sl = None
        if con:
            me = integer('me', 1)
            ce = arr('ce', (me, p1))
            ms = 0
            if slacks:
                ms = integer('ms', 1)
                ENG.assume(compare('<=', ms, me))
                sl = arr('sl', (ms, 1))
        else:
            ce = empty()
        s0 = sl.snap() if sl is not None else None
        gl.nbr_slacks, gl.slacks = (ms if slacks else 0), sl
        xl, xu = arr('xl', (n, 1)), arr('xu', (n, 1))
        indfree = snp.arange(n)
        nd = integer('nd', 1)
        ds = arr('dstatus', (nd,), 'i')
        dummy = 1
        if not dummies:
            snp.forall(lambda q: ENG.assume(implies(in_range(q, nd), bnot(same(ds.at(q), dummy)))))
        sigma = real('sigma', 0)
        x = arr('x', (n, 1))
        xlr, xur = xl.snap(), xu.snap()
        c0 = ce.snap() if con else None
        G.update(n=n, p1=p1, Y0=Y.snap(), ind=ind.snap(), fY=fY.snap(), me=me, ce=c0, sigma=sigma, xl=lambda r: xlr(r, 0), xu=lambda r: xur(r, 0),
                 nd=nd, ds=ds.snap(), dummy=dummy, unf={}, wit={}, **{'in': uf('inside', I, B)}, row=uf('row', I, I), dum=uf('dum', I, I), N=uf('N', I, R), diff=uf('diff', I, I, I),
                 sl2=(lambda k: ite(compare('>=', k, me - ms), s0(k - (me - ms), 0) * s0(k - (me - ms), 0), 0.0)) if slacks else (lambda k: 0.0))
        info = Bag(f=real('f'), ce=arr('ce0', (n, 1)), ci=empty(), flag=0)
        i0 = ENG.fresh('ibest', 'i')
        fx = real('fx')
        o = dict(whichmodel=integer('whichmodel', 0, 4), shift_Y=integer('shift_Y', 0, 2), Delta=real('Delta'), normgx=real('normgx'), kappa_ill=real('kappa_ill'))
        Q, Rz = Token('QZ0'), Token('RZ0')
        sc = arr('sc0', (n, 1))
        fr = Frame(Y=Y, ind_Y=ind, fY=fY, ceY=ce, x=x, scale=sc, xl=xl, xu=xu, dstatus=ds, slacks=sl)
        snp.add_probe(0)
        cover()
        x2, fx2, Q2, R2, Y2, fY2, ci2, ce2, ind2, i2, sc2, info2 = f(Bag(dummy=dummy), Q, Rz, Y, fY, empty(), ce, ind, i0, p1, indfree, x, xl, xu, fx, ds,
                                                                    o['whichmodel'], sc, o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'], sigma, info)
        fr.check()
        sw = ENG.registry.get('qr')
        if sw:
            s = G['swapped']
        else:
            s = 0
        if con:
            N_ext(s, 0)
        ENG.prove('selected position belongs to the set', in_range(s, p1))
        if sw:
            ENG.prove('the best point is left only for a point inside the bounds', inside(s))
            ENG.prove('the best point is left only for a strictly better one', compare('<', merit(s), merit(0)))
        t = integer('other', 0, p1)
        if con:
            N_ext(s, t)
            N_ext(0, t)
        ENG.prove('no point inside the bounds has a smaller merit', implies(inside(t), compare('<=', merit(s), merit(t))))
        pm = lambda c: ite(compare('==', c, 0), s, ite(compare('==', c, s), 0, c))
        prove_same('points: selected first, all others kept', Y2, lambda r, c: G['Y0'](r, pm(c)), (n, p1))
        prove_same('objective values stay with their points', fY2, lambda c: G['fY'](pm(c)), (p1,))
        prove_same('indices stay with their points', ind2, lambda c: G['ind'](pm(c)), (p1,))
        if con:
            prove_same('constraint values stay with their points', ce2, lambda r, c: c0(r, pm(c)), (me, p1))
            prove_same('reported constraint values are those of the first point', info2.ce, lambda r, z: c0(r, s), (me, 1))
        ENG.prove('reported objective is that of the first point', same(info2.f, G['fY'](s)))
        if sw:
            ENG.prove('best index is that of the selected point', same(i2, G['ind'](s)))
            ENG.prove('best value is that of the selected point', same(fx2, G['fY'](s)))
            prove_same('best point is the selected point', x2, lambda r, z: G['Y0'](r, s), (n, 1))
            prove_same('factorization is that of the new set', Y2, Q2.Y, Q2.dims)
        else:
            ENG.prove('kept: best index and value unchanged', band(same(i2, i0), same(fx2, fx)))
            x0 = x.snap()
            prove_same('kept: best point unchanged', x2, lambda r, z: x0(r, 0), (n, 1))
            ENG.prove('kept: factorization unchanged', bool(Q2 is Q and R2 is Rz))
    return body


def swap_rec(a):
    j = a['j']
    G['swapped'] = j if core.is_scalar(j) else j._scalar_()
    if not (isinstance(a['i'], int) and a['i'] == 0):
        raise Unsupported('swap not with the first position')
    return swap_stub(a)


def setup():
    ACTIVE['stubs'] = {'sqpdfo_swap_in_Y_': swap_rec, 'bcdfo_build_QR_of_Y_': qr_stub}


AS = [REAL, NPSHIM, 'sqpdfo_swap_in_Y_: contract proved in P12', 'bcdfo_build_QR_of_Y_: contract (base point, nothing modified)',
      'norms of equal vectors are equal (extensionality)']
UNITS = [Unit('smallf/%s%s' % (('slack' if s else 'con') if c else 'unconstrained', '/dummies' if d else ''), smallf(c, s, d), 'sqpdfo_find_smallf_', assumes=AS, setup=setup, budget=240)
         for c, s in ((0, 0), (1, 0), (1, 1)) for d in (0, 1)]
