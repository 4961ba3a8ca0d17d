"""P16: truncated conjugate gradients, in abstract linear algebra (any
dimension, any symmetric matrix, any number of iterations)."""
from specs import Unit, REAL
from pyvc import core, snp, lin
from pyvc.core import ENG, band, bor, bnot, compare, same, implies, ite, arith
from pyvc.loader import LOOPSPECS, LoopSpec, Unbound
from specs.lib import Bag, real, integer
from specs.p18 import LINALG

G = {}


def model(x):
    """half x'Ax - b'x"""
    x = lin.asl(x)
    return arith('-', arith('*', 0.5, lin.quad(x, G['A'])), lin.dotval(G['b'], x))


def residual(x):
    return lin.dot(G['A'], lin.asl(x)) - G['b']


def num(v):
    return v if core.is_scalar(v) else v._scalar_()


class Iterations(LoopSpec):
    """before iteration i the iterate is inside the region, not above the
    starting value, g is its residual, and g is orthogonal to the last
    direction (so that the next direction is one of descent)"""
    def havoc(self, env, i):
        W = G['W']
        n, A, b = G['n'], G['A'], G['b']
        if ENG.choose('first iteration'):
            ENG.assume(compare('==', i, 0))
            x = lin.zero(n, 1)
            env['dAd'] = snp.array([])
        else:
            ENG.assume(compare('>=', i, 1))
            x = lin.vec('x', n)
            d = lin.vec('d', n)
            env['d'] = d
            env['dAd'] = one(lin.quad(d, A))
            env['g2_'] = one(ENG.fresh('g2_', 'r'))
        env['x'] = x
        env['g'] = residual(x)
        env['g2'] = one(lin.dotval(env['g'], env['g']))
        W.load('sqpdfo.sqpdfo_global_variables').set_iter(i)

    def inv(self, env, i):
        W = G['W']
        x, g = lin.asl(env['x']), lin.asl(env['g'])
        out = [('iteration counter', compare('==', W.load('sqpdfo.sqpdfo_global_variables').get_iter(), i)),
               ('g is the residual', lin.equal(g, residual(x))),
               ('g2 is its square', same(num(env['g2']), lin.dotval(g, g))),
               ('inside the region', compare('<=', lin.dotval(x, x), arith('*', G['delta'], G['delta']))),
               ('model value not above zero', compare('<=', model(x), 0))]
        d = env.get('d')
        if d is None or isinstance(d, Unbound):
            out.append(('starts at the origin', band(compare('==', i, 0), lin.equal(x, x * 0))))
        else:
            d = lin.asl(d)
            out += [('residual orthogonal to the last direction', same(lin.dotval(g, d), 0.0)),
                    ('last residual not zero', compare('>', num(env['g2_']), 0)),
                    ('curvature along the last direction', same(num(env['dAd']), lin.quad(d, G['A'])))]
        return out


def one(v):
    return snp.ndarray.make((1, 1), lambda i, j: v, 'r')


LOOPSPECS[('sqpdfo_truncated_cg_', 0)] = Iterations


def run(W, cover):
    f = W.fn('sqpdfo_truncated_cg', 'sqpdfo_truncated_cg_')
    n = integer('n', 1)
    A, b = lin.sym('A', n), lin.vec('b', n)
    delta, tol, mx = real('delta', 0), real('tol', 0), integer('maxiter', 0)
    G.update(W=W, n=n, A=A, b=b, delta=delta)
    cover()
    before = {k: dict(v.t) for k, v in dict(A=A, b=b).items()}
    x, info = f(A, b, delta, mx, tol)
    for k, v in dict(A=A, b=b).items():
        ENG.prove('argument %s not modified' % k, v.t == before[k])
    x = lin.is_lin('returned vector', x, n, 1)
    d2 = arith('*', delta, delta)
    xx = lin.dotval(x, x)
    fl = info.flag
    ENG.prove('returned vector inside the region', compare('<=', xx, d2))
    ENG.prove('model value not above zero', compare('<=', model(x), 0))
    ENG.prove('reported reason is one of four', bor(*[same(fl, k) for k in (-1, 0, 1, 2)]))
    ENG.prove('boundary exits end on the boundary', implies(bor(same(fl, 1), same(fl, 2)), same(xx, d2)))
    if ENG.branch(same(fl, 0)):
        r = residual(x)
        ENG.prove('converged: the residual meets the tolerance', compare('<=', lin.dotval(r, r), arith('*', tol, tol)))
    ENG.prove('iteration limit reported with its number', implies(same(fl, -1), same(info.iter, mx)))


UNITS = [Unit('truncated_cg', run, 'sqpdfo_truncated_cg_', assumes=[REAL, LINALG], budget=200)]
