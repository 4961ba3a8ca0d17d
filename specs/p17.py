"""P17: projected gradient."""
from specs import Unit, REAL, NPSHIM
from pyvc import core, snp
from pyvc.core import ENG, S, band, bor, bnot, compare, same, smax, smin, sabs, implies, ite, arith
from pyvc.loader import LOOPSPECS, LoopSpec, prove_q
from pyvc.snp import in_range

A = {}


def pg(q):
    """x - P(x - g), component q"""
    x, g, l, u = [A[k].at(q, 0) for k in 'xglu']
    return x - smax(l, smin(u, x - g))


class Components(LoopSpec):
    """after i iterations the components below i are final and gnorm is the
    largest of their magnitudes (witness w)"""
    defined = ('gnorm',)
    unchanged = ('gn',)
    w = None

    def havoc(self, env, i):
        snp.havoc_content(env['gn'], 'gn')
        env['gnorm'] = ENG.fresh('gnorm', 'r')
        self.w = ENG.fresh('w', 'i')
        self.g0 = env['gnorm']
        snp.add_probe(self.w)

    def ghost(self, env, i):
        self.w = ite(band(compare('==', env['gnorm'], self.g0), compare('>', i, 0)), self.w, i)
        snp.add_probe(self.w)

    def inv(self, env, i):
        gn, nrm = env['gn'].snap(), env['gnorm']
        out = [('component', lambda q: implies(band(compare('>=', q, 0), compare('<', q, i)), same(gn(q, 0), pg(q)))),
               ('norm dominates', lambda q: implies(band(compare('>=', q, 0), compare('<', q, i)), nrm >= sabs(gn(q, 0)))),
               ('norm starts at zero', implies(compare('==', i, 0), same(nrm, 0.0))),
               ('norm nonnegative', compare('>=', nrm, 0.0))]
        if self.w is not None:
            w = self.w
            out.append(('norm attained', implies(compare('>', i, 0), band(compare('>=', w, 0), compare('<', w, i), same(nrm, sabs(gn(w, 0)))))))
        return out


LOOPSPECS[('bcdfo_projgrad_', 0)] = Components


def projgrad(kind):
    def body(W, cover):
        f = W.fn('bcdfo_projgrad', 'bcdfo_projgrad_')
        n = ENG.fresh('n', 'i')
        ENG.assume(n >= 1)
        x, g = snp.havoc_array('x', (n, 1)), snp.havoc_array('g', (n, 1))
        if kind == 'finite':
            l = snp.havoc_array('bl', (n, 1))
            u = snp.havoc_array('bu', (n, 1))
        else:
            l = snp.havoc_array('bl', (n, 1), 'x', lambda i, v: S('b', __import__('z3').Or(v.e[0] == 0, v.e[0] == -1)))
            u = snp.havoc_array('bu', (n, 1), 'x', lambda i, v: S('b', __import__('z3').Or(v.e[0] == 0, v.e[0] == 1)))
        A.update(x=x, g=g, l=l, u=u)
        snp.forall(lambda q: ENG.assume(implies(in_range(q, n), band(compare('<=', l.at(q, 0), x.at(q, 0)), compare('<=', x.at(q, 0), u.at(q, 0))))))
        snp.add_probe(0)
        cover()
        res = f(n, x, g, l, u)
        gnorm, gn = res
        gr = gn.snap()
        ENG.prove('shape of the projected gradient', band(compare('==', gn.shape[0], n), compare('==', gn.shape[1], 1)))
        prove_q('component is x - P(x-g)', lambda q: implies(in_range(q, n), same(gr(q, 0), pg(q))))
        prove_q('norm dominates every component', lambda q: implies(in_range(q, n), compare('<=', sabs(gr(q, 0)), gnorm)))
        prove_q('norm zero => critical', lambda q: implies(band(in_range(q, n), same(gnorm, 0.0)), same(pg(q), 0.0)))
        ENG.prove('norm attained by a component', bor(*[band(in_range(p, n), same(sabs(gr(p, 0)), gnorm)) for p in list(snp.probes())]))
    return body


UNITS = [Unit('projgrad/finite', projgrad('finite'), 'bcdfo_projgrad_', assumes=[REAL, NPSHIM]),
         Unit('projgrad/extended', projgrad('x'), 'bcdfo_projgrad_', assumes=[REAL, NPSHIM])]
