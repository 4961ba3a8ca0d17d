"""P10: basis, model value, gradient, Hessian."""
import z3
from specs import Unit, REAL, NPSHIM
from specs.lib import *

WRAP.update(['bcdfo_evalZ_'])
G = {}
LAYOUT = 'row layout: row 0 constant, rows 1..n variables, n+1..2n halved squares, then for gap d=1..n-1 the products x[d+s]*x[s], s<n-d (offsets: lemma unit layout)'


def Int(e):
    return S('i', e)


def off(k):
    """first row of the products with gap k; instances of its recurrence and
    monotonicity (proved in unit layout) are added for the terms in use"""
    n = G['n']
    f = G['off']
    ke = z3.simplify(core.lift(k)[1])
    seen = G['seen']
    if ke.get_id() not in seen:
        seen[ke.get_id()] = ke
        k = Int(ke)
        n1 = band(compare('>=', k, 1), compare('<=', k, n))
        ENG.assume_raw(f(z3.IntVal(1)) == core.lift(2 * n + 1)[1])
        ENG.assume(implies(band(n1, compare('<', k, n)), S('b', f(ke + 1) == f(ke) + core.lift(n)[1] - ke)))
        ENG.assume(implies(n1, band(compare('<=', Int(f(ke)), Int(f(core.lift(n)[1]))), compare('>=', Int(f(ke)), 2 * n + 1))))
        for o in list(seen.values()):
            for a, b in ((ke, o), (o, ke)):
                ENG.assume_raw(z3.Implies(z3.And(a >= 1, a < b, b <= core.lift(n)[1]), f(a + 1) <= f(b)))
    return Int(f(ke))


def gap(r):
    re = core.lift(r)[1]
    return Int(G['gap'](re)), Int(G['pos'](re))


def row(r):
    """partition of the product rows, instance at r"""
    n = G['n']
    key = z3.simplify(core.lift(r)[1]).get_id()
    g, p = gap(r)
    if key not in G['rows']:
        G['rows'][key] = r
        c = band(compare('>=', r, 2 * n + 1), compare('<', r, off(n)))
        ENG.assume(implies(c, band(compare('>=', g, 1), compare('<', g, n), compare('>=', p, 0), compare('<', p, n - g), same(r, off(g) + p))))
    return g, p


def phi(r, X):
    """basis function r at the point with components X(i)"""
    n = G['n']
    g, p = row(r)
    return ite(compare('==', r, 0), 1.0, ite(compare('<=', r, n), X(r - 1), ite(compare('<=', r, 2 * n), 0.5 * X(r - n - 1) * X(r - n - 1), X(g + p) * X(p))))


def start(nq=True):
    G.clear()
    n = integer('n', 1)
    I = z3.IntSort()
    G.update(n=n, off=z3.Function('off', I, I), gap=z3.Function('gap', I, I), pos=z3.Function('pos', I, I), seen={}, rows={})
    return n


def full():
    return off(G['n'])


# ------------------------------------------------------------------ layout lemmas
def layout(W, cover):
    n, a, b, r = integer('n', 1), integer('a', 1), integer('b', 1), integer('r')
    off2 = lambda k: 4 * n + 2 + 2 * (k - 1) * n - k * (k - 1)      # twice the offset (closed form)
    cover()
    ENG.prove('offset of gap 1', same(off2(1), 4 * n + 2))
    ENG.prove('recurrence', same(off2(a + 1), off2(a) + 2 * (n - a)))
    h = integer('h')
    ENG.assume(same(2 * h, n * (n - 1)))
    ENG.prove('the last gap ends at the full quadratic count', same(off2(n), (n + 1) * (n + 2)))
    # monotone: a+1 <= b <= n  =>  off(a+1) <= off(b), by induction on b
    ENG.prove('monotone step', implies(band(compare('<', a, n), compare('<=', off2(b), off2(a))), compare('<=', off2(b), off2(a + 1))))
    # partition by induction on the gap t: rows below off(t) are covered
    t, g, p = integer('t', 1), integer('g'), integer('p')
    cov = lambda g, p, r: band(compare('>=', g, 1), compare('>=', p, 0), compare('<', p, n - g), same(2 * r, off2(g) + 2 * p))
    ENG.prove('partition base', bnot(band(compare('>=', 2 * r, 4 * n + 2), compare('<', 2 * r, off2(1)))))
    ENG.assume(implies(band(compare('>=', 2 * r, 4 * n + 2), compare('<', 2 * r, off2(t))), band(cov(g, p, r), compare('<', g, t))))
    o = integer('o')
    ENG.assume(same(2 * o, off2(t)))
    low = compare('<', r, o)
    ENG.prove('partition step', implies(band(compare('<', t, n), compare('>=', 2 * r, 4 * n + 2), compare('<', 2 * r, off2(t + 1))),
                                        bor(band(low, cov(g, p, r), compare('<', g, t + 1)), band(bnot(low), cov(t, r - o, r)))))


# ------------------------------------------------------------------ basis
class Rows(LoopSpec):
    """before gap k the rows below off(k) are final and more are wanted"""
    defined = ('Z', 'nquad')

    def havoc(self, env, i):
        env['Z'] = arr('Z', (off(i), G['m']))
        env['nquad'] = ENG.fresh('nquad', 'i')

    def inv(self, env, i):
        Z = env['Z']
        z = Z.snap()
        c = G['c']
        return [('rows', band(same(Z._dims[0], off(i)), same(Z._dims[1], G['m']))),
                ('remaining', band(same(env['nquad'], G['q'] - off(i)), compare('>', env['nquad'], 0))),
                ('content', lambda r: implies(band(compare('>=', r, 0), compare('<', r, off(i))), same(z(r, c), phi(r, G['X']))))]


LOOPSPECS[('bcdfo_evalZ_', 0)] = Rows


def basis(W, cover):
    f = W.fn('bcdfo_evalZ', 'bcdfo_evalZ_')
    n = start()
    m, q = integer('m', 1), integer('q', 1)
    ENG.assume(compare('<=', q, full()))
    X = arr('X', (n, m))
    c = integer('c', 0, m)
    x0 = X.snap()
    G.update(m=m, q=q, c=c, X=lambda i: x0(i, c))
    fr = Frame(X=X)
    cover()
    Z = f(X, q)
    prove_shape('q rows, one column per point', Z, (q, m))
    z = Z.snap()
    prove_q('documented basis functions in order', lambda r: implies(in_range(r, q), same(z(r, c), phi(r, G['X']))))
    fr.check()


# ------------------------------------------------------------------ value
def evalZ_contract(a):
    X, q = a['X'], a['q']
    n, m = X._dims
    Z = arr('phi', (q, m))
    G.setdefault('evalZ', []).append(dict(X=X.snap(), dims=X._dims, q=q, Z=Z.snap()))
    return Z


def setup_value():
    ACTIVE['stubs'] = {'bcdfo_evalZ_': evalZ_contract}


def value(shift):
    def body(W, cover):
        f = W.fn('bcdfo_evalP', 'bcdfo_evalP_')
        G.clear()
        n, p1, m, k = integer('n', 1), integer('p1', 2 if shift else 1), integer('m', 1), integer('rhs', 1)
        P, x, xb, sc = arr('P', (k, p1)), arr('x', (n, m)), arr('xbase', (n, 1)), arr('scale', (p1, 1))
        s = sc.at(1, 0) if shift else None
        fr = Frame(P=P, x=x, xbase=xb, scale=sc)
        p0, x0, b0 = P.snap(), x.snap(), xb.snap()
        cover()
        v = f(P, x, xb, sc, 1 if shift else 0)
        prove_shape('one value per model and point', v, (k, m))
        ev = G.get('evalZ', [])
        ENG.prove('basis evaluated', len(ev) >= 1)
        if not ev:
            return
        e = ev[-1]
        ENG.prove('as many basis functions as coefficients', same(e['q'], p1))
        ENG.prove('dimension of the evaluated point', band(same(e['dims'][0], n), same(e['dims'][1], m)))
        prove_all('basis evaluated at the (shifted, scaled) point', (n, m), lambda i, c: same(e['X'](i, c), (x0(i, c) - b0(i, 0)) * s if shift else x0(i, c)))
        i, c = integer('i', 0, k), integer('c', 0, m)
        ENG.prove('value is the coefficient-weighted sum', same(v.at(i, c), snp.sum_term(p1, lambda r: p0(i, r) * e['Z'](r, c))))
        fr.check()
    return body


# ------------------------------------------------------------------ gradient
def coef(r):
    """coefficient of basis function r (zero beyond the model's terms)"""
    return ite(compare('<', r, G['p1']), G['P'](r), 0.0)


def contribution(t, d):
    """derivative in direction t of the products with gap d, weighted"""
    x, n = G['x'], G['n']
    o = off(d)
    up = ite(compare('>=', t, d), coef(o + t - d) * x(t - d), 0.0)
    lo = ite(compare('<', t, n - d), coef(o + t) * x(t + d), 0.0)
    return up + lo


def D(t, i):
    """derivative in direction t of all rows below off(i+1)"""
    n, x = G['n'], G['x']
    te, ie = core.lift(t)[1], core.lift(i)[1]
    return S('r', G['D'](te, ie))


def D_base(t):
    ENG.assume(same(D(t, 0), coef(t + 1) + coef(G['n'] + 1 + t) * G['x'](t)))


def D_step(t, i):
    ENG.assume(same(D(t, i + 1), D(t, i) + contribution(t, i + 1)))


class Grad(LoopSpec):
    defined = ('k', 'nquad')
    unchanged = ('g',)

    def setup(self, env):
        G['exit'] = 0

    def havoc(self, env, i):
        snp.havoc_content(env['g'], 'g')
        env['k'] = ENG.fresh('k', 'i')
        env['nquad'] = ENG.fresh('nquad', 'i')
        G['exit'] = i + 1
        t = G['t']
        D_step(t, i)

    def inv(self, env, i):
        g = env['g'].snap()
        t = G['t']
        return [('next row', same(env['k'], off(i + 1))),
                ('remaining', band(same(env['nquad'], G['p1'] - off(i + 1)), compare('>', env['nquad'], 0))),
                ('derivative so far', same(g(t), D(t, i)))]


LOOPSPECS[('bcdfo_gradP_', 0)] = Grad


def model_args(shift):
    n = start()
    p1 = integer('p1', 2 if shift else 1)
    ENG.assume(compare('<=', p1, full()))
    P, x, xb = arr('P', (1, p1)), arr('x', (n, 1)), arr('xbase', (n, 1))
    s = ENG.fresh('s', 'r')
    sc = snp.ndarray.make((p1, 1), lambda r, z: ite(compare('==', r, 0), 1.0, ite(compare('<=', r, n), s, s * s)), 'r')
    p0, x0, b0 = P.snap(), x.snap(), xb.snap()
    if shift:
        s0 = sc.snap()
        G.update(P=lambda r: p0(0, r) * s0(r, 0), x=lambda i: x0(i, 0) - b0(i, 0))
    else:
        G.update(P=lambda r: p0(0, r), x=lambda i: x0(i, 0))
    G.update(p1=p1)
    return n, p1, P, x, xb, sc, Frame(P=P, x=x, xbase=xb, scale=sc)


def gradient(shift):
    def body(W, cover):
        f = W.fn('bcdfo_gradP', 'bcdfo_gradP_')
        n, p1, P, x, xb, sc, fr = model_args(shift)
        I = z3.IntSort()
        t = integer('t', 0, n)
        G.update(D=z3.Function('D', I, I, z3.RealSort()), t=t, exit=0)
        D_base(t)
        cover()
        g = f(P, x, xb, sc, 1 if shift else 0)
        prove_shape('one component per variable', g, (n, 1))
        e = G['exit']
        ENG.prove('all terms of the model were visited', compare('<=', p1, off(e + 1)))
        ENG.prove('component is the exact partial derivative', same(g.at(t, 0), D(t, e)))
        fr.check()
    return body


# ------------------------------------------------------------------ Hessian
def hess(a, b):
    n = G['n']
    d = core.sabs(a - b)
    m = core.smin(a, b)
    return ite(compare('==', d, 0), coef(n + 1 + a), coef(off(d) + m))


class HessGap(LoopSpec):
    defined = ('k', 'nquad')
    unchanged = ('H',)

    def havoc(self, env, i):
        snp.havoc_content(env['H'], 'H')
        env['k'] = ENG.fresh('k', 'i')
        env['nquad'] = ENG.fresh('nquad', 'i')

    def inv(self, env, i):
        H = env['H'].snap()
        a, b = G['a'], G['b']
        d = core.sabs(a - b)
        return [('next row', same(env['k'], off(i + 1))),
                ('remaining', band(same(env['nquad'], G['p1'] - off(i + 1)), compare('>', env['nquad'], 0))),
                ('entries up to this gap', same(H(a, b), ite(compare('<=', d, i), hess(a, b), 0.0)))]


class HessPos(LoopSpec):
    unchanged = ('H',)

    def setup(self, env):
        self.i = env['i']

    def havoc(self, env, j):
        snp.havoc_content(env['H'], 'H')

    def inv(self, env, j):
        H = env['H'].snap()
        a, b = G['a'], G['b']
        d, m = core.sabs(a - b), core.smin(a, b)
        done = bor(compare('<=', d, self.i), band(compare('==', d, self.i + 1), compare('<', m, j)))
        return [('entries so far', same(H(a, b), ite(done, hess(a, b), 0.0)))]


def _pick(loop):
    return loop.kind == 'srange'


LOOPSPECS[('bcdfo_hessP_', 0)] = HessGap
LOOPSPECS[('bcdfo_hessP_', 1)] = HessPos


def hessian(shift):
    def body(W, cover):
        f = W.fn('bcdfo_hessP', 'bcdfo_hessP_')
        n, p1, P, x, xb, sc, fr = model_args(shift)
        a, b = integer('a', 0, n), integer('b', 0, n)
        G.update(a=a, b=b)
        cover()
        H = f(P, x, xb, sc, 1 if shift else 0)
        prove_shape('square of the dimension', H, (n, n))
        ENG.prove('entry is the exact second derivative', same(H.at(a, b), hess(a, b)))
        ENG.prove('symmetric', same(hess(a, b), hess(b, a)))
        fr.check()
    return body


AS = [REAL, NPSHIM, LAYOUT]
UNITS = [Unit('layout', layout, '(lemma)', assumes=[]),
         Unit('basis', basis, 'bcdfo_evalZ_', assumes=AS)]
UNITS += [Unit('value/%d' % s, value(s), 'bcdfo_evalP_', assumes=[REAL, NPSHIM, 'bcdfo_evalZ_: contract proved in unit basis'], setup=setup_value) for s in (0, 1)]
UNITS += [Unit('gradient/%d' % s, gradient(s), 'bcdfo_gradP_', assumes=AS + ['derivative of a sum is the sum of the derivatives, rows grouped by gap'], setup=lambda: None) for s in (0, 1)]
UNITS += [Unit('hessian/%d' % s, hessian(s), 'bcdfo_hessP_', assumes=AS) for s in (0, 1)]
