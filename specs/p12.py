"""P12: set updates."""
from specs import Unit, REAL, NPSHIM
from specs.lib import *

QRC = 'bcdfo_build_QR_of_Y_: contract of the callee (result is a function of set and options, nothing modified)'
EVL = 'bcdfo_evalL_: contract of the callee (p1 x 1 array that is zero outside choice_set, nothing modified)'
WRAP.update(['bcdfo_build_QR_of_Y_', 'bcdfo_evalL_', 'bcdfo_replace_in_Y_'])


def opts():
    return dict(whichmodel=integer('whichmodel', 0, 4), shift_Y=integer('shift_Y', 0, 2), Delta=real('Delta'), normgx=real('normgx'), kappa_ill=real('kappa_ill'))


def qargs(o):
    return (o['whichmodel'], o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'])


def old_factor():
    return Token('QZ0'), Token('RZ0')


def setup():
    ACTIVE['stubs'] = {'bcdfo_build_QR_of_Y_': qr_stub}


def swap(con):
    def body(W, cover):
        f = W.fn('sqpdfo_swap_in_Y', 'sqpdfo_swap_in_Y_')
        n, p1 = integer('n', 1), integer('p1', 1)
        i, j = integer('i', 0, p1), integer('j', 0, p1)
        Y, ind, fY = arr('Y', (n, p1)), arr('ind', (p1,), 'i'), arr('fY', (p1,))
        ci = arr('ci', (integer('mi', 1), p1)) if con[0] else empty()
        ce = arr('ce', (integer('me', 1), p1)) if con[1] else empty()
        o = opts()
        Q, R = old_factor()
        xb, sc = arr('xb0', (n, 1)), arr('sc0', (n, 1))
        fr = Frame(Y=Y, ind_Y=ind, fY=fY, ciY=ci, ceY=ce, xbase=xb, scale=sc)
        old = {k: v.snap() for k, v in dict(Y=Y, ind=ind, fY=fY, ci=ci, ce=ce).items()}
        cover()
        q2, r2, Y2, ind2, fY2, ci2, ce2, xb2, sc2 = f(i, j, Q, R, Y, ind, fY, ci, ce, xb, o['whichmodel'], sc, o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'])

        def pm(c):
            return ite(compare('==', c, i), j, ite(compare('==', c, j), i, c))
        prove_same('points exchanged', Y2, lambda r, c: old['Y'](r, pm(c)), (n, p1))
        prove_same('indices exchanged', ind2, lambda c: old['ind'](pm(c)), (p1,))
        prove_same('objective values exchanged', fY2, lambda c: old['fY'](pm(c)), (p1,))
        if con[0]:
            prove_same('inequality values exchanged', ci2, lambda r, c: old['ci'](r, pm(c)), ci._dims)
        if con[1]:
            prove_same('constraint values exchanged', ce2, lambda r, c: old['ce'](r, pm(c)), ce._dims)
        fr.check()
        if q2 is Q:
            ENG.prove('factorization kept only if nothing moved', compare('==', i, j))
            ENG.prove('factorization kept as a whole', bool(r2 is R and xb2 is xb and sc2 is sc))
        else:
            prove_factor_of('factorization of the new set', q2, r2, xb2, sc2, Y2, qargs(o))
    return body


def replace(W, cover):
    f = W.fn('bcdfo_replace_in_Y', 'bcdfo_replace_in_Y_')
    n, p1 = integer('n', 1), integer('p1', 1)
    j = integer('j', 0, p1)
    Y, y = arr('Y', (n, p1)), arr('ynew', (n, 1))
    o = opts()
    Q, R = old_factor()
    xb, sc = arr('xb0', (n, 1)), arr('sc0', (n, 1))
    fr = Frame(Y=Y, ynew=y, xbase=xb, scale=sc)
    y0, Y0 = y.snap(), Y.snap()
    cover()
    q2, r2, Y2, xb2, sc2 = f(Q, R, y, Y, j, xb, o['whichmodel'], sc, o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'])
    prove_same('only the named column changes', Y2, lambda r, c: ite(compare('==', c, j), y0(r, 0), Y0(r, c)), (n, p1))
    fr.check()
    prove_factor_of('factorization of the new set', q2, r2, xb2, sc2, Y2, qargs(o))


def augment(full):
    def body(W, cover):
        f = W.fn('bcdfo_augment_Y', 'bcdfo_augment_Y_')
        n, p1, k = integer('n', 1), integer('p1', 1), integer('k', 1)
        Y, yn = arr('Y', (n, p1)), arr('Ynew', (n, k))
        o = opts()
        if full:
            ENG.assume(compare('>=', 2 * p1, (n + 1) * (n + 2)))
            ENG.assume(compare('!=', o['whichmodel'], 3))
        else:
            ENG.assume(compare('<', 2 * p1, (n + 1) * (n + 2)))
        fr = Frame(Y=Y, Ynew=yn)
        Y0, N0 = Y.snap(), yn.snap()
        cover()
        p2, q2, r2, Y2, xb2, sc2 = f(yn, Y, o['whichmodel'], o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'])
        if full:
            ENG.prove('a full quadratic set stays as it is (size)', same(p2, p1))
            prove_same('a full quadratic set stays as it is', Y2, Y0, (n, p1))
        else:
            ENG.prove('size grows by the number of new points', same(p2, p1 + k))
            prove_same('new points appended, nothing else changed', Y2, lambda r, c: ite(compare('<', c, p1), Y0(r, c), N0(r, c - p1)), (n, p1 + k))
        fr.check()
        prove_factor_of('factorization of the new set', q2, r2, xb2, sc2, Y2, qargs(o))
    return body


# ------------------------------------------------------------------ include
A = {}


def evalL_stub(a):
    Y = a['Y']
    p1 = Y._dims[1]
    L = arr('Lvals', (p1, 1))
    C = A['choice']

    def zero(q):
        ENG.assume(implies(band(in_range(q, p1), bnot(A['chosen'](q))), same(L.at(q, 0), 0.0)))
    snp.forall(zero)
    A['L'] = L
    A['L0'] = L.snap()
    A['evalL_args'] = a
    return L


def value(q):
    """the requested criterion at position q of the set"""
    L, Y, x = A['L0'](q, 0), A['Y0'], A['x0']
    n = A['n']
    if A['crit'] == 'standard':
        return core.sabs(L)
    if A['succ'] == 1:
        ref = lambda r: x(r, 0)
    else:
        ref = lambda r: Y(r, 0)
    d = snp.norm(snp.ndarray.make((1, n), lambda z, r: Y(r, q) - ref(r)), 2)
    if A['crit'] == 'distance':
        return d
    return core.power(d, 2) * core.sabs(L)


class Choose(LoopSpec):
    """pos is -1 and nothing seen so far has a positive criterion value, or pos
    is a candidate above the threshold with the largest value seen so far"""
    defined = ('pos', 'crit_val')

    def setup(self, env):
        self.last = None
        self.choice = env['choice']

    def havoc(self, env, i):
        if ENG.choose('pos'):
            env['pos'] = -1
            env['crit_val'] = 0
        else:
            self.p = ENG.fresh('pos', 'i')
            ENG.assume(in_range(self.p, A['p1']))
            snp.add_probe(self.p, A['p1'])
            p = self.p
            env['pos'] = snp.ndarray.make((1,), lambda k: p, 'i')
            v = value(p)
            env['crit_val'] = snp.asarray(v)

    def ghost(self, env, i):
        self.last = i

    def inv(self, env, i):
        ch = self.choice.snap()
        pos, cv = env['pos'], env['crit_val']
        none = isinstance(pos, int) and pos == -1
        pe = pos if core.is_scalar(pos) else pos._scalar_()
        ce = cv if core.is_scalar(cv) else cv._scalar_()
        seen = i if self.last is None else self.last

        def dom(q):
            return implies(band(compare('>=', q, 0), compare('<', q, seen)), compare('<=', value(ch(q, 0)), ce))
        out = [('largest value so far', dom, self.loop.hi)]
        if self.last is not None:
            out.append(('largest value so far (this one)', compare('<=', value(ch(self.last, 0)), ce)))
        if none:
            out.append(('nothing chosen, value zero', same(ce, 0)))
        else:
            out.append(('value belongs to the chosen position', same(ce, value(pe))))
            out.append(('chosen value positive', compare('>', ce, 0)))
            out.append(('chosen is a candidate above the threshold', band(in_range(pe, A['p1']), compare('>', core.sabs(A['L0'](pe, 0)), A['thr']))))
        return out


LOOPSPECS[('bcdfo_include_in_Y_', 0)] = Choose


def include(crit, succ):
    def body(W, cover):
        f = W.fn('bcdfo_include_in_Y', 'bcdfo_include_in_Y_')
        n, p1, m = integer('n', 1), integer('p1', 1), integer('m', 0)
        Y, x = arr('Y', (n, p1)), arr('x', (n, 1))
        C = arr('choice', (m, 1), 'i', lambda ix, v: implies(in_range(ix[0], m), in_range(v, p1)))
        import z3
        chosen = z3.Function('chosen', z3.IntSort(), z3.BoolSort())
        thr = real('thr', 0)
        o = opts()
        Q, R = old_factor()
        xb, sc = arr('xb0', (n, 1)), arr('sc0', (n, 1))
        A.clear()
        A.update(n=n, p1=p1, choice=C, chosen=lambda q: S('b', chosen(core.lift(q)[1])), crit=crit, succ=succ, thr=thr,
                 Y0=Y.snap(), x0=x.snap())
        fr = Frame(Y=Y, x=x, choice_set=C, xbase=xb, scale=sc)
        Y0, x0 = Y.snap(), x.snap()
        cover()
        q2, r2, Y2, pos, xb2, sc2 = f(x, Q, R, Y, C, thr, crit, xb, o['whichmodel'], succ, sc, o['shift_Y'], o['Delta'], o['normgx'], o['kappa_ill'])
        fr.check()
        if 'L' in A:
            a = A['evalL_args']
            ENG.prove('Lagrange values are those of the new point, set and candidates', bool(a['Y'] is Y and a['x'] is x and a['choice_set'] is C and a['QZ'] is Q and a['RZ'] is R and a['scale'] is sc and a['xbase'] is xb))
        pe = pos if core.is_scalar(pos) else pos._scalar_()
        if isinstance(pe, int) and pe == -1:
            prove_same('nothing replaced: set unchanged', Y2, Y0, (n, p1))
            ENG.prove('nothing replaced: factorization unchanged', bool(q2 is Q and r2 is R and xb2 is xb and sc2 is sc))
            if 'L' in A:
                k = integer('cand', 0, p1)
                ENG.prove('nothing replaced only without a usable candidate',
                          implies(compare('>', core.sabs(A['L0'](k, 0)), thr), compare('<=', value_at(k), 0)))
            else:
                ENG.prove('no candidates were named', compare('<=', m, 0))
            return
        ENG.prove('the position is one of the set', in_range(pe, p1))
        ENG.prove('the position is above the threshold', compare('>', core.sabs(A['L0'](pe, 0)), thr))
        ENG.prove('the position is among the candidates', A['chosen'](pe))
        k = integer('cand', 0, p1)
        ENG.prove('the position maximises the criterion',
                  implies(compare('>', core.sabs(A['L0'](k, 0)), thr), compare('<=', value_at(k), value(pe))))
        prove_same('only the chosen column changes', Y2, lambda r, c: ite(compare('==', c, pe), x0(r, 0), Y0(r, c)), (n, p1))
        prove_factor_of('factorization of the new set', q2, r2, xb2, sc2, Y2, qargs(o))
    return body


def value_at(k):
    """criterion at k, tied to its occurrence in the candidate list"""
    fi = [f for f, _ in ENG.registry.get('finds', {}).values()]
    if fi and fi[-1].conc is None:
        w = fi[-1]
        pos = w.pos(k)
        snp.add_probe(pos)
        e = w.idx(pos)
        v, ve = value(k), value(e)
        ENG.assume(implies(compare('==', k, e), same(v, ve)))   # congruence of the sums
        return v
    return value(k)


A12 = [REAL, NPSHIM, QRC]
UNITS = [Unit('swap/%s%s' % ('ci' if a else '-', 'ce' if b else '-'), swap((a, b)), 'sqpdfo_swap_in_Y_', assumes=A12, setup=setup) for a in (0, 1) for b in (0, 1)]
UNITS += [Unit('replace', replace, 'bcdfo_replace_in_Y_', assumes=A12, setup=setup),
          Unit('augment', augment(False), 'bcdfo_augment_Y_', assumes=A12, setup=setup),
          Unit('augment/full', augment(True), 'bcdfo_augment_Y_', assumes=A12, setup=setup)]


def setup_inc():
    ACTIVE['stubs'] = {'bcdfo_build_QR_of_Y_': qr_stub, 'bcdfo_evalL_': evalL_stub}


UNITS += [Unit('include/%s/%d' % (c, s), include(c, s), 'bcdfo_include_in_Y_', assumes=A12 + [EVL], setup=setup_inc)
          for c in ('weighted', 'standard', 'distance') for s in (0, 1)]
