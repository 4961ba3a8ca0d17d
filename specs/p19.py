"""P19: convexification and conditioning safeguard, in abstract linear algebra
(any dimension)."""
from specs import Unit, REAL
from pyvc import core, snp, lin
from pyvc.core import ENG, band, bor, bnot, compare, same, implies, ite, arith
from specs.lib import Bag, real, integer, arr
from specs.p18 import LINALG

G = {}
EIGH = 'eigh/eigvalsh of a symmetric matrix: A = V diag(d) V\' with V orthogonal, the same eigenvalues in ascending order'
SVD = 'svd: A = U diag(s) V\' with U, V orthogonal, s non-negative in descending order'
FLOOR, RAISED = 1e-10, 1e-9
SFLOOR = 1e-7


def orthogonal(name, n):
    V = lin.mat(name, n, n)
    I = lin.ident(n)
    l = lin.letter(V)
    lin.rule(((l, True), (l, False)), I)
    lin.rule(((l, False), (l, True)), I)
    return V


def eigenvalues():
    d = G['d']
    return snp.ndarray.make((G['n'],), lambda i: d(i), 'r')


def given(A):
    """the decompositions speak about the matrix of the unit"""
    if not hasattr(A, '_lin_') or A.norm_() != G['A'].norm_():
        raise core.Unsupported('decomposition of another matrix')


def eigh(A):
    given(A)
    return eigenvalues(), G['V'].copy()


def eigvalsh(A):
    given(A)
    return eigenvalues()


def svd(A, full_matrices=True, compute_uv=True, **k):
    given(A)
    if not compute_uv:
        return eigenvalues()
    return G['U'].copy(), eigenvalues(), G['V'].T


def start(W, descending):
    n = integer('n', 1)
    A = lin.sym('A', n)
    d = arr('d', (n,)).snap()
    G.update(n=n, A=A, d=d, V=orthogonal('V', n), U=orthogonal('U', n))
    op = '>=' if descending else '<='
    last = arith('-', n, 1)
    snp.add_probe(0)
    snp.add_probe(last)
    snp.forall(lambda q: ENG.assume(implies(snp.in_range(q, n), band(compare(op, d(0), d(q)), compare(op, d(q), d(last))))))
    if descending:
        snp.forall(lambda q: ENG.assume(implies(snp.in_range(q, n), compare('>=', d(q), 0))))
    ENG.registry['hooks'] = dict(eigh=eigh, eigvalsh=eigvalsh, svd=svd)
    return n, A, d


def diagonal(name, R, L, V):
    """entries of the diagonal matrix L' R V"""
    t = lin.dot(L.T, lin.dot(R, V)).norm_()
    if len(t) == 1:
        (w, c), = t.items()
        if len(w) == 1 and w[0][0].diag is not None:
            return lambda q: arith('*', c, w[0][0].diag(q))
        if w == ():
            return lambda q: c
    ENG.prove(name, False)
    raise core.EndPath()


def convex(W, cover):
    f = W.fn('sqpdfo_check_convex', 'sqpdfo_check_convex_')
    n, A, d = start(W, False)
    psd = ENG.choose('positive semidefinite already')
    if psd:
        snp.forall(lambda q: ENG.assume(implies(snp.in_range(q, n), compare('>=', d(q), 0))))
    else:
        w = integer('w', 0, n)
        ENG.assume(compare('<', d(w), 0))
    cover()
    before = dict(A.t)
    R = f(A, Bag(verbose=integer('verbose', 0)))
    ENG.prove('argument not modified', A.t == before)
    R = lin.is_lin('convexified matrix', R, n, n)
    if psd:
        lin.prove_equal('positive semidefinite input is returned unchanged', R, A)
        return
    e = diagonal('same eigenvectors', R, G['V'], G['V'])
    q = integer('q', 0, n)
    ENG.prove('eigenvalues above the floor are kept', implies(compare('>=', d(q), FLOOR), same(e(q), d(q))))
    ENG.prove('the others are raised to a small positive value', implies(compare('<', d(q), FLOOR), band(compare('>', e(q), 0), compare('<=', e(q), 10 * RAISED))))
    # a diagonal matrix with positive entries is positive definite: y'Ey > 0 for y = V'z
    ENG.prove('all eigenvalues positive', compare('>', e(q), 0))
    z = lin.vec('z', n)
    ENG.assume(compare('>', lin.dotval(z, z), 0))
    y = lin.dot(G['V'].T, z)
    E = lin.dot(G['V'].T, lin.dot(R, G['V']))
    ENG.assume(implies(compare('>', lin.dotval(y, y), 0), compare('>', lin.quad(y, E), 0)))
    ENG.prove('the result is positive definite', compare('>', lin.quad(z, R), 0))
    lin.prove_equal('the result is symmetric', R, R.T)


def cond(W, cover):
    f = W.fn('sqpdfo_check_cond', 'sqpdfo_check_cond_')
    n, A, d = start(W, True)
    thr = real('threshold', 0)
    cover()
    before = dict(A.t)
    last = arith('-', n, 1)
    R, bad = f(A, thr, Bag(verbose=integer('verbose', 0)))
    ENG.prove('argument not modified', A.t == before)
    R = lin.is_lin('returned matrix', R, n, n)
    fine = band(compare('>', d(last), 0), compare('<=', d(0), arith('*', thr, d(last))))
    if ENG.branch(fine):
        ENG.prove('below the threshold: reported', same(bad, 0))
        lin.prove_equal('below the threshold: unchanged', R, A)
        return
    ENG.prove('above the threshold: reported', same(bad, 1))
    # either symmetrised or found symmetric; the symmetric part is the same
    q = integer('q', 0, n)
    want = snp.ndarray.make((n,), lambda i: ite(compare('<', d(i), SFLOOR), SFLOOR, d(i)), 'r')
    T = lin.dot(G['U'], lin.dot(snp.diag(want), G['V'].T))
    S2 = R + R.T
    u = lin.vec('u', n)
    v = lin.vec('v', n)
    sy = lin.equal(R, R.T)
    if ENG.branch(core.tobool(sy)):
        ENG.prove('symmetrised', True)
        # 2 R = M + M' with M = U E V'
        M = [(w, c) for w, c in R.norm_().items() if len(w) == 3 and w[1][0].diag is not None]
        ENG.prove('symmetric part of a decomposition', len(M) == 2 and len(R.norm_()) == 2)
        if len(M) != 2:
            raise core.EndPath()
        w, c = next((w, c) for w, c in M if w[0][0] is lin.letter(G['U']))
        e = w[1][0].diag
        ENG.prove('half of it', same(c, 0.5))
    else:
        e = diagonal('same singular vectors', R, G['U'], G['V'])
    ENG.prove('singular values are raised to the floor, the others kept', same(e(q), ite(compare('<', d(q), SFLOOR), SFLOOR, d(q))))


UNITS = [Unit('check_convex', convex, 'sqpdfo_check_convex_', assumes=[REAL, LINALG, EIGH]),
         Unit('check_cond', cond, 'sqpdfo_check_cond_', assumes=[REAL, LINALG, SVD])]
