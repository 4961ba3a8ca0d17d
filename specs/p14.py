"""P14: trust-region step without bounds, in abstract linear algebra (any
dimension, any symmetric matrix).  The value of hard-case steps is left to the
bounded check."""
from specs import Unit, REAL
from pyvc import core, snp, lin
from pyvc.core import ENG, band, bor, bnot, compare, same, implies, ite, arith
from pyvc.loader import LOOPSPECS, LoopSpec, Unbound
from specs.lib import Bag, real, integer, arr
from specs.p18 import LINALG
from specs.p16 import num, one

G = {}
CHOL = 'Cholesky: the factor of H + lambda I satisfies L L\' = H + lambda I and is invertible, or LinAlgError'
EIG = 'eig of a symmetric matrix: real eigenvalues, eigenvectors of norm one'


def cholesky(M):
    if not ENG.choose('positive definite'):
        raise snp.LinAlgError('not positive definite')
    n = M._dims[0]
    L = lin.mat('L', n, n)
    t = M.norm_()
    w = next((w for w, c in t.items() if len(w) == 1 and not isinstance(c, core.S)), None)
    if w is None:
        raise core.Unsupported('Cholesky factorization of this expression')
    rest = lin.Lin(M._dims, {v: c for v, c in t.items() if v != w})
    lin.rule(w, (lin.dot(L, L.T) - rest) / t[w])
    return L


def eig(H):
    n = H._dims[0]
    D, V = arr('eigenvalue', (n,)), lin.mat('V', n, n)
    G['V'] = V
    return D, V


def inv(D):
    return arr('inverse', D._dims)

INV = 'inverse of the regularised diagonal: an arbitrary matrix (no failure)'


class Newton(LoopSpec):
    def havoc(self, env, i):
        for k in ('_lambda', 'lower', 'upper'):
            env[k] = ENG.fresh(k, 'r')
        env['nfact'] = ENG.fresh('nfact', 'i')
        env['s'] = lin.vec('s_last', G['n'])
        env['norms'] = ENG.fresh('norms', 'r')

    def inv(self, env, i):
        return [('%s not negative' % k, compare('>=', num(env[k]), 0)) for k in ('_lambda', 'lower', 'upper')]


LOOPSPECS[('bcdfo_solve_TR_MS_', 0)] = Newton


def unit_column(M, k):
    v = lin.column(M, k)
    if M.t == G['V'].t:
        ENG.assume(same(lin.dotval(v, v), 1.0))
    return v


def run(W, cover):
    f = W.fn('bcdfo_solve_TR_MS', 'bcdfo_solve_TR_MS_')
    ENG.registry['hooks'] = dict(cholesky=cholesky, eig=eig, inv=inv)
    ENG.registry['column'] = unit_column
    n = integer('n', 1)
    H, g = lin.sym('H', n), lin.vec('g', n)
    delta, eps = real('Delta'), real('eps')
    ENG.assume(band(compare('>', delta, 0), compare('>', eps, 0), compare('<', eps, 1)))
    G.update(W=W, n=n, V=None)
    cover()
    before = {k: dict(v.t) for k, v in dict(H=H, g=g).items()}
    s, lam, norms, value, gplus, nfact, neigd, msg, hard = f(g, H, delta, eps)
    for k, v in dict(H=H, g=g).items():
        ENG.prove('argument %s not modified' % k, v.t == before[k])
    s = lin.is_lin('step', s, n, 1)
    gplus = lin.is_lin('gradient', gplus, n, 1)
    norms, value = num(norms), num(value)
    ss = lin.dotval(s, s)
    m = arith('+', lin.dotval(g, s), arith('*', 0.5, lin.quad(s, H)))
    hard = bool(hard)
    msg = msg.resolve() if hasattr(msg, 'resolve') else msg
    ENG.prove('message reported', isinstance(msg, str))
    up = arith('*', arith('+', 1.0, eps), delta)
    lo = arith('*', arith('-', 1.0, eps), delta)
    dropped = not s.norm_()
    ENG.prove('norm at most (1 + tolerance) times the radius', compare('<=', ss, arith('*', up, up)))
    ENG.prove('reported value is that of the step', same(value, m) if not dropped else compare('<=', core.sabs(value), 1e-15))
    if not (hard and dropped):
        ENG.prove('reported norm is that of the step', band(compare('>=', norms, 0), same(arith('*', norms, norms), ss)))
        lin.prove_equal('reported gradient is that of the step', gplus, g + lin.dot(H, s))
        if msg.startswith('boundary'):
            ENG.prove('boundary step: norm equal to the radius within the tolerance', compare('>=', norms, lo))
    if not hard:
        ENG.prove('model value not positive', compare('<=', m, 0))
        if msg.startswith('interior'):
            r = g + lin.dot(H, s)
            rr = lin.dotval(r, r)
            ENG.prove('interior step: first-order condition', compare('<=', rr, arith('*', 1.0001e-24, ss)))
    else:
        ENG.prove('hard case ends on the boundary', True if msg.startswith('boundary') else compare('>=', norms, lo))


UNITS = [Unit('solve_TR_MS', run, 'bcdfo_solve_TR_MS_', assumes=[REAL, LINALG, CHOL, EIG, INV], budget=300)]
