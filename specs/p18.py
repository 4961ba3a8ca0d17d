"""P18: quasi-Newton (BFGS) update, in abstract linear algebra (any dimension)."""
from specs import Unit, REAL
from pyvc import core, snp, lin
from pyvc.core import ENG, band, bor, bnot, compare, same, implies, ite, arith
from specs.lib import Bag, real, integer

LINALG = 'linear algebra over the reals: bilinearity, symmetry, Cauchy-Schwarz, definiteness of the given matrix'


def run(W, cover, spd):
    f = W.fn('sqpdfo_bfgs_update', 'sqpdfo_bfgs_update_')
    n = integer('n', 1)
    H = lin.sym('H', n, psd=spd)
    y, s = lin.vec('y', n), lin.vec('s', n)
    first = core.S('b', __import__('z3').Bool('first'))
    succ, fail = 0, 9
    values = Bag(success=succ, fail_unexpected=fail)
    info = Bag(flag=integer('flag0'))
    fl0 = info.flag
    options = Bag(verbose=integer('verbose', 0), fout=1)
    if spd:
        lin.pd(H, s)
    cover()
    before = {k: dict(v.t) for k, v in dict(H=H, y=y, s=s).items()}
    res = f(H, y, s, first, info, options, values)
    for k, v in dict(H=H, y=y, s=s).items():
        ENG.prove('argument %s not modified' % k, v.t == before[k])
    ENG.prove('caller record not modified', same(info.flag, fl0))
    ENG.prove('four results', len(res) == 4)
    Hn, pc, inf, val = res
    Hn = lin.is_lin('updated matrix', Hn, n, n)
    ss, sHs, ys = lin.dotval(s, s), lin.quad(s, H), lin.dotval(y, s)
    failing = bor(same(ss, 0.0), compare('<=', sHs, 0))
    if ENG.branch(failing):
        ENG.prove('null step or non-positive curvature: failure reported', same(inf.flag, fail))
        lin.prove_equal('null step or non-positive curvature: matrix unchanged', Hn, H)
        return
    th = arith('+', pc, 0.0) if core.is_scalar(pc) else pc._scalar_()
    r = th * y + (1.0 - th) * lin.dot(H, s)
    rs = lin.dotval(r, s)
    ENG.prove('damping factor between zero and one', band(compare('>=', th, 0), compare('<=', th, 1 + 1e-9)))
    ENG.prove('no damping when the curvature is sufficient', implies(compare('>=', ys, arith('*', 0.2 * (1 + 1e-9), sHs)), same(th, 1.0)))
    ENG.prove('damped curvature at least one fifth of the old one', compare('>=', rs, arith('*', 0.2 * (1 - 1e-9), sHs)))
    ENG.prove('success reported', same(inf.flag, succ))
    lin.prove_equal('the update maps the step to the (damped) gradient difference', lin.dot(Hn, s), r)
    lin.prove_equal('the update is symmetric', Hn, Hn.T)
    if not spd:
        return
    z = lin.vec('z', n)
    ENG.assume(compare('>', lin.dotval(z, z), 0))
    # z differs from a multiple of s (old part positive) or is one (new part positive)
    for t in (arith('/', lin.quad(z, H, s), sHs), arith('/', lin.dotval(z, s), ss)):
        w = z - t * s
        lin.pd(H, w)
        lin.cs(w, r)
    lin.cs(r, s)
    lin.cs(z, s)
    zHz = lin.quad(z, Hn)
    ENG.prove('the update is positive definite', compare('>', zHz, 0))


UNITS = [Unit('bfgs/definite', lambda W, c: run(W, c, True), 'sqpdfo_bfgs_update_', assumes=[REAL, LINALG]),
         Unit('bfgs/symmetric', lambda W, c: run(W, c, False), 'sqpdfo_bfgs_update_', assumes=[REAL, LINALG])]
