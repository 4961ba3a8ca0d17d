"""P11: interpolation models and Lagrange polynomials.  The basis matrix is an
abstract matrix (its entries are proved in P10); the set is an entry-level
array of any size."""
from specs import Unit, REAL, NPSHIM
from pyvc import core, snp, lin
from pyvc.core import ENG, band, bor, bnot, compare, same, implies, ite, arith
from pyvc.loader import LOOPSPECS, LoopSpec, Unbound, ACTIVE, WRAP
from specs.lib import Bag, real, integer, arr, Frame, prove_all, prove_shape, prove_same, idx, within
from specs.p18 import LINALG

G = {}
WRAP.update(('bcdfo_evalP_', 'bcdfo_evalZ_'))
QR = 'qr of the basis matrix: Z = Q R, Q has orthonormal columns (reduced factorization)'
POISED = 'the set is poised: the triangular factor is invertible (solve does not fail, pinv is the inverse)'


def factors(tall=True):
    """Q, R of the basis matrix: Q'Q = I, and QQ' = I when it is square"""
    q, p1 = G['q'], G['p1']
    Q, R = lin.mat('Q', q, p1), lin.mat('R', p1, p1)
    l = lin.letter(Q)
    lin.rule(((l, True), (l, False)), lin.ident(p1))
    if not tall:
        lin.rule(((l, False), (l, True)), lin.ident(q))
    G.update(Q=Q, R=R)
    return Q, R


def sizes(model, full):
    n = integer('n', 1)
    p1 = integer('p1', 1)
    q = ENG.fresh('qfull', 'i')
    ENG.assume(same(arith('*', 2, q), arith('*', arith('+', n, 1), arith('+', n, 2))))
    if full:
        ENG.assume(compare('==', p1, q))
    else:
        ENG.assume(compare('<', p1, q))
        ENG.assume(compare('>', p1, n))
    G.update(n=n, p1=p1, q=p1 if model == 0 else q, qfull=q)
    return n, p1, q


def computeP(model, full):
    def body(W, cover):
        f = W.fn('bcdfo_computeP', 'bcdfo_computeP_')
        ENG.registry['hooks'] = dict(pinv=lin.inverse)
        n, p1, q = sizes(model, full)
        m = integer('m', 1)
        Y = arr('Y', (n, p1))
        tr = model == 3 and full
        Q, R = factors(tall=not (full or model == 0))
        Z = lin.dot(Q, R)          # basis matrix, one column per point (per row for regression)
        fY = lin.mat('f', m, p1)
        cover()
        fr = Frame(Y=Y)
        shift = core.S('b', __import__('z3').Bool('shift'))
        P = f(Q, R, Y, fY, model, None, None, None, None, None, None, shift, 1.0)
        fr.check('computeP')
        P = lin.is_lin('model coefficients', P, m, G['q'])
        lin.prove_equal('the model takes the given values at the points', lin.dot(P, Z.T if tr else Z), fY)
    return body


def unit_row(name, v, j, p1):
    """the 1 x p1 row v is the j-th unit row"""
    v = lin.is_lin(name, v, 1, p1)
    t = v.norm_()
    if len(t) != 1:
        ENG.prove(name, False)
        raise core.EndPath()
    (w, c), = t.items()
    l, tr = w[0]
    if len(w) != 1 or l.arr is None:
        ENG.prove(name, False)
        raise core.EndPath()
    k = integer('k', 0, p1)
    e = l.arr(k, 0) if tr else l.arr(0, k)
    ENG.prove(name, same(arith('*', c, e), ite(compare('==', k, j), 1.0, 0.0)))


def computeLj(model, full):
    def body(W, cover):
        f = W.fn('bcdfo_computeLj', 'bcdfo_computeLj_')
        ENG.registry['hooks'] = dict(pinv=lin.inverse)
        n, p1, q = sizes(model, full)
        Y = arr('Y', (n, p1))
        tr = model == 3 and full
        Q, R = factors(tall=not (full or model == 0))
        Z = lin.dot(Q, R)
        j = integer('j', 0, p1)
        cover()
        fr = Frame(Y=Y)
        shift = core.S('b', __import__('z3').Bool('shift'))
        L = f(Q, R, j, Y, model, arr('scale', (arith('+', n, 1), 1)), shift)
        fr.check('computeLj')
        L = lin.is_lin('Lagrange coefficients', L, 1, G['q'])
        unit_row('the polynomial is one at its point and zero at the others', lin.dot(L, Z.T if tr else Z), j, p1)
    return body


def evalL(model, full):
    def body(W, cover):
        f = W.fn('bcdfo_evalL', 'bcdfo_evalL_')
        ENG.registry['hooks'] = dict(pinv=lin.inverse)
        n, p1, q = sizes(model, full)
        Y, x, xbase, scale = arr('Y', (n, p1)), arr('x', (n, 1)), arr('xbase', (n, 1)), arr('scale', (arith('+', n, 1), 1))
        Q, R = factors(tall=not (full or model == 0))
        if model == 3 and full:
            Q, R = lin.mat('Q', q, q), lin.mat('R', q, q)
        shift = core.S('b', __import__('z3').Bool('shift'))
        # a selection of distinct positions of the set
        lc = integer('lc', 1)
        z3 = __import__('z3')
        C, Ci = z3.Function('choice', z3.IntSort(), z3.IntSort()), z3.Function('choice_inv', z3.IntSort(), z3.IntSort())
        e = lambda v: core.lift(v)[1] if isinstance(v, core.S) else z3.IntVal(v)

        def sel(i):
            v = core.S('i', C(e(i)))
            ENG.assume(implies(snp.in_range(i, lc), band(snp.in_range(v, p1), same(core.S('i', Ci(v.e)), i))))
            return v

        def inv(k):
            i = core.S('i', Ci(e(k)))
            return band(snp.in_range(i, lc), same(sel(i), k)), i
        choice = snp.ndarray.make((lc,), sel, 'i', inv)
        ENG.registry['selectors'] = [sel]
        zx = lin.vec('z_x', G['q'])
        calls = []

        def evalP(a):
            # contract proved in P10: coefficient-weighted sum of the basis at x
            calls.append(a)
            ENG.prove('the polynomials are evaluated at the given point', band(a['x'] is x, a['xbase'] is xbase, a['scale'] is scale, same(a['shift_Y'], shift)))
            return lin.dot(lin.asl(a['P']), zx)
        ACTIVE['stubs'] = {'bcdfo_evalP_': evalP}
        cover()
        fr = Frame(Y=Y, x=x, xbase=xbase, scale=scale, choice=choice)
        v = f(Q, R, Y, choice, x, xbase, model, scale, shift)
        fr.check('evalL')
        prove_shape('one value per point', v, (p1, 1))
        if not calls:
            ENG.prove('polynomials evaluated', False)
            raise core.EndPath()
        # coefficients of the j-th Lagrange polynomial as computeLj gives them
        # (one at its point and zero at the others)
        coef = lin.dot(lin.inverse(R), Q.T) if not (model == 3 and full) else lin.dot(Q, lin.inverse(R.T))
        i = integer('i', 0, lc)
        ENG.prove('value of each chosen polynomial', same(v.at(sel(i), 0), lin.value_at(lin.dot(coef, zx), sel(i))))
        k = integer('k', 0, p1)
        ENG.prove('zero for the others', implies(bnot(inv(k)[0]), same(v.at(k, 0), 0.0)))
    return body


class Shifting(LoopSpec):
    """before point i: the points below i are relative to the first one,
    scaleY is the largest of their norms (attained at w)"""
    unchanged = ('Y',)
    w = ()
    last = None

    def havoc(self, env, i):
        y0 = G['y0']
        env['Y'].write_all(lambda r, c: ite(compare('<', c, i), arith('-', y0(r, c), y0(r, 0)), y0(r, c)))
        env['scaleY'] = ENG.fresh('scaleY', 'r')
        self.s0 = env['scaleY']
        w = ENG.fresh('w', 'i')
        snp.add_probe(w)
        self.w = (w,)

    def ghost(self, env, i):
        self.w += (i,)
        self.last = i

    def inv(self, env, i):
        y0, Y, sc = G['y0'], env['Y'].snap(), num(env['scaleY'])
        G['scaleY'] = sc
        r = ENG.fresh('row', 'i')
        snp.add_probe(r, G['n'])
        out = [('points shifted', lambda c: implies(band(snp.in_range(r, G['n']), snp.in_range(c, G['p1'])),
                                                    same(Y(r, c), ite(compare('<', c, i), arith('-', y0(r, c), y0(r, 0)), y0(r, c))))),
               ('largest norm', lambda c: implies(band(compare('>=', c, 0), compare('<', c, i if self.last is None else self.last)), compare('>=', sc, dist(c)))),
               ('norm zero at the start', implies(compare('==', i, 0), same(sc, 0.0))),
               ('norm not negative', compare('>=', sc, 0))]
        if self.last is not None:
            out.append(('largest norm at the last point', compare('>=', sc, dist(self.last))))
        if self.w:
            G['w'] = self.w[0]
            out.append(('norm attained', implies(compare('>', i, 0), bor(*[band(compare('>=', w, 0), compare('<', w, i), same(sc, dist(w))) for w in self.w]))))
        return out


def num(v):
    return v if core.is_scalar(v) else v._scalar_()


def dist(c):
    """distance of point c from the first one"""
    y0 = G['y0']
    return num(G['norm'](snp.ndarray.make((G['n'],), lambda r: arith('-', y0(r, c), y0(r, 0)), 'r')))


LOOPSPECS[('bcdfo_build_QR_of_Y_', 0)] = Shifting


def build(model, full, shift):
    def body(W, cover):
        f = W.fn('bcdfo_build_QR_of_Y', 'bcdfo_build_QR_of_Y_')
        n, p1, qf = sizes(model, full)
        q = G['q']
        Y = arr('Y', (n, p1))
        G.update(y0=Y.snap(), norm=W.load('sqpdfo.runtime').norm_, scaleY=None)
        snp.add_probe(0)
        delta, normgx, kappa = real('Delta'), real('normgx', 0), real('kappa', 0)
        ENG.assume(compare('>', delta, 0))
        if shift:
            # at least two points do not coincide
            d = integer('other', 1, p1)
            ENG.assume(compare('>', dist(d), 0))
        tr = model == 3 and full
        zs, qrs, svds = [], [], []

        def evalZ(a):
            zs.append(a['X'].snap())
            ENG.prove('basis of the right size', same(a['q'], q))
            X = a['X']
            prove_shape('basis evaluated at the set', X, (n, p1))
            r, c = idx((n, p1))
            want = G['y0'](r, c)
            if shift:
                want = arith('-', want, G['y0'](r, 0))
                got = arith('*', X.at(r, c), G['scaleY'])
            else:
                got = X.at(r, c)
            ENG.prove('basis evaluated at the shifted and scaled set', implies(within((r, c), (n, p1)), same(got, want)))
            return lin.mat('Z', q, p1)

        def svd(M, full_matrices=True, compute_uv=True, **k):
            t = G.setdefault('sv', arr('sv', (p1,)).snap())
            s = snp.ndarray.make((p1,), lambda i: t(i), 'r')
            if not compute_uv:
                return s
            U, V = lin.mat('U', M._dims[0], p1), lin.mat('Vh', p1, M._dims[1])
            svds.append((M, U, V))
            return U, s, V

        def qr(M):
            qrs.append(M)
            return lin.mat('Q', M._dims[0], p1), lin.mat('R', p1, M._dims[1])
        G.pop('sv', None)
        ENG.registry['hooks'] = dict(svd=svd, qr=qr)
        ACTIVE['stubs'] = {'bcdfo_evalZ_': evalZ}
        cover()
        fr = Frame(Y=Y)
        QZ, RZ, xb, scale = f(Y, model, 1 if shift else 0, delta, normgx, kappa)
        fr.check('build_QR')
        if len(zs) != 1 or len(qrs) != 1:
            ENG.prove('one factorization of one basis matrix', False)
            raise core.EndPath()
        prove_same('centred at the first point', xb, (lambda i, j: G['y0'](i, 0)) if shift else (lambda i, j: 0.0), (n, 1))
        prove_shape('scaling vector', scale, (q, 1))
        k = integer('k', 0, q)
        S = G['scaleY']
        if shift:
            c = integer('c', 0, p1)
            ENG.prove('scaled by the radius: no point is farther', compare('>=', S, dist(c)))
            w = G['w']
            ENG.prove('scaled by the radius: attained by a point', band(snp.in_range(w, p1), same(S, dist(w))))
            p = arith('*', scale.at(k, 0), ite(compare('==', k, 0), 1.0, ite(compare('<=', k, n), S, arith('*', S, S))))
            ENG.prove('scaling vector is one, 1/S, 1/S^2', same(p, 1.0))
        else:
            ENG.prove('scaling vector is one without shift', same(scale.at(k, 0), 1.0))
        M = qrs[0]
        t = M.norm_()
        if svds:
            # ill conditioned: singular values below the floor are raised to it
            (M0, U, V), = svds
            ok = len(t) == 1 and len(list(t)[0]) == 3
            ENG.prove('factorization of the regularised basis', ok)
            if not ok:
                raise core.EndPath()
            (w, c), = t.items()
            ENG.prove('regularisation keeps the singular vectors', w[0] == (lin.letter(U), False) and w[2] == (lin.letter(V), False) and w[1][0].diag is not None)
            i = integer('i', 0, p1)
            e, sv = w[1][0].diag(i), G['sv'](i)
            ENG.prove('regularisation only raises small singular values', bor(same(e, sv), band(compare('<', sv, e), compare('<=', e, 0.1))))
            ENG.prove('regularised only when ill conditioned', bor(same(G['sv'](arith('-', p1, 1)), 0.0),
                                                                  compare('>', arith('/', G['sv'](0), G['sv'](arith('-', p1, 1))), kappa)))
            M = M0
            t = M.norm_()
        (w, c), = t.items()
        ENG.prove('factorization of the basis matrix', w == ((w[0][0], bool(tr)),) and w[0][0].name.startswith('Z') and c == 1.0)
        ENG.prove('factors returned', QZ.norm_().keys() == {((lin.letter(QZ), False),)} if hasattr(QZ, '_lin_') else False)
    return body


UNITS = []
for model, full in ((0, False), (0, True), (2, False), (2, True), (3, False), (3, True)):
    nm = 'model%d/%s' % (model, 'quadratic' if full else 'smaller')
    UNITS.append(Unit('computeP/' + nm, computeP(model, full), 'bcdfo_computeP_', assumes=[REAL, LINALG, QR, POISED]))
    UNITS.append(Unit('computeLj/' + nm, computeLj(model, full), 'bcdfo_computeLj_', assumes=[REAL, LINALG, QR, POISED]))
    UNITS.append(Unit('evalL/' + nm, evalL(model, full), 'bcdfo_evalL_', assumes=[REAL, LINALG, QR, POISED, NPSHIM]))
    for shift in (True, False):
        UNITS.append(Unit('build_QR/' + nm + ('/shift' if shift else ''), build(model, full, shift), 'bcdfo_build_QR_of_Y_', assumes=[REAL, LINALG, QR, NPSHIM]))
