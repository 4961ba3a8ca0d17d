"""Shared contract vocabulary."""
import builtins
from pyvc import core, snp
from pyvc.core import ENG, S, band, bor, bnot, compare, same, implies, ite, arith, Unsupported
from pyvc.loader import ACTIVE, CONTRACTS, LOOPSPECS, LoopSpec, prove_q, assume_q, WRAP
from pyvc.snp import in_range, havoc_array


def integer(name, lo=None, hi=None):
    v = ENG.fresh(name, 'i')
    if lo is not None:
        ENG.assume(compare('>=', v, lo))
    if hi is not None:
        ENG.assume(compare('<', v, hi))
    snp.add_probe(v, hi)
    return v


def real(name, lo=None):
    v = ENG.fresh(name, 'r')
    if lo is not None:
        ENG.assume(compare('>=', v, lo))
    return v


def arr(name, dims, kind='r', fact=None):
    return havoc_array(ENG.fresh_name(name), tuple(dims), kind, fact)


def empty():
    return snp.array([])


def idx(dims, tag='q'):
    """skolem indices of an array of these dimensions (they become probes)"""
    out = []
    for d in dims:
        if isinstance(d, int) and d == 1:
            out.append(0)
            continue
        q = ENG.fresh(tag, 'i')
        snp.add_probe(q, d)
        out.append(q)
    return out


def within(ix, dims):
    return band(True, *[in_range(i, d) for i, d in zip(ix, dims)])


def prove_all(name, dims, f):
    """forall indices inside dims: f(*indices)"""
    ix = idx(dims)
    ENG.prove(name, implies(within(ix, dims), f(*ix)))


def prove_shape(name, a, dims):
    if not isinstance(a, snp.ndarray):
        ENG.prove(name, False)
        raise core.EndPath()
    ok = len(a._dims) == len(dims) and band(True, *[compare('==', x, y) for x, y in zip(a._dims, dims)])
    ENG.prove(name, ok)
    if ok is False:
        raise core.EndPath()


def prove_same(name, a, rd, dims):
    """array a has these dimensions and the content rd"""
    prove_shape(name + ' (shape)', a, dims)
    s = a.snap()
    prove_all(name, dims, lambda *i: same(s(*i), rd(*i)))


def over(loop, *spans):
    """the loop runs over one of these ranges"""
    if loop.kind != 'srange' or loop.range.step != 1:
        return False
    return builtins.any(ENG.entails(band(same(loop.range.start, a), same(loop.range.stop, b))) for a, b in spans)


class Frame:
    """arrays that must come out as they went in"""
    def __init__(self, **arrays):
        self.a = {k: (v, v.snap(), v._dims) for k, v in arrays.items() if isinstance(v, snp.ndarray)}

    def check(self, what='argument'):
        for k, (v, s, d) in self.a.items():
            t = v.snap()
            prove_all('%s %s not modified' % (what, k), d, lambda *i: same(t(*i), s(*i)))


class Token:
    """opaque value (result of an abstract call)"""
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return '<%s>' % self.name


def qr_stub(a):
    """contract of bcdfo_build_QR_of_Y_ used by its callers: a function of the
    set and the options; frame: nothing is modified"""
    Y = a['Y_']
    n, p1 = Y._dims
    calls = ENG.registry.setdefault('qr', [])
    t = Token('QZ', Y=Y.snap(), dims=Y._dims, args=(a['whichmodel'], a['shift_Y'], a['Delta'], a['normgx'], a['kappa_ill']))
    r = Token('RZ', of=t)
    t.RZ = r
    sh = a['shift_Y']
    y0 = Y.snap()
    based = band(core.tobool(sh), compare('>', p1, 1))
    t.xbase = snp.ndarray.make((n, 1), lambda i, z: ite(based, y0(i, 0), 0.0), 'r')
    t.scale = arr('scale', (arith('+', n, 1), 1))
    calls.append(t)
    return t, r, t.xbase, t.scale


def same_args(x, y):
    return len(x) == len(y) and band(True, *[(p is q) if not core.is_scalar(p) or not core.is_scalar(q) else same(p, q) for p, q in zip(x, y)])


def prove_factor_of(name, QZ, RZ, xbase, scale, Y, args=None):
    """(QZ, RZ, xbase, scale) is the factorization computed for the set Y"""
    ok = isinstance(QZ, Token) and QZ.name == 'QZ' and RZ is QZ.RZ and xbase is QZ.xbase and scale is QZ.scale
    ENG.prove(name + ' (one factorization)', bool(ok))
    if not ok:
        raise core.EndPath()
    prove_same(name, Y, QZ.Y, QZ.dims)
    if args is not None:
        ENG.prove(name + ' (options)', same_args(QZ.args, args))


class Bag:
    """attribute record (info, options, values, the numerical constants c)"""
    def __init__(self, **kw):
        ENG.counters['storeno'] = no = ENG.counters.get('storeno', 0) + 1
        self.__dict__.update(kw)
        self.__dict__['_no'] = no

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        ENG.registry.setdefault('mut', []).append((('attr', self._no, k), self._no, 'attribute ' + k))

    def __copy__(self):
        return Bag(**{k: v for k, v in self.__dict__.items() if k != '_no'})


def swap_stub(a):
    """contract of sqpdfo_swap_in_Y_ (proved in P12)"""
    i, j = a['i'], a['j']
    Y, ind, fY, ci, ce = a['Y'], a['ind_Y'], a['fY'], a['ciY'], a['ceY']
    n, p1 = Y._dims
    ENG.prove('swap called with positions of the set', band(in_range(i, p1), in_range(j, p1)))

    def pm(c):
        return ite(compare('==', c, i), j, ite(compare('==', c, j), i, c))

    def perm2(A):
        r = A.snap()
        return snp.ndarray.make(A._dims, lambda p, c: r(p, pm(c)), A.root.kind) if A.ndim == 2 else A.__copy__()

    def perm1(A):
        r = A.snap()
        return snp.ndarray.make(A._dims, lambda c: r(pm(c)), A.root.kind)
    Y2, ind2, fY2, ci2, ce2 = perm2(Y), perm1(ind), perm1(fY), perm2(ci), perm2(ce)
    if ENG.branch(compare('==', i, j)):
        return a['QZ'], a['RZ'], Y2, ind2, fY2, ci2, ce2, a['xbase'], a['scale']
    Q, R, xb, sc = qr_stub(dict(Y_=Y2, whichmodel=a['whichmodel'], shift_Y=a['shift_Y'], Delta=a['Delta'], normgx=a['normgx'], kappa_ill=a['kappa_ill']))
    return Q, R, Y2, ind2, fY2, ci2, ce2, xb, sc


def norm_of(rd, n):
    """Euclidean norm of the vector with this content"""
    v = snp.norm(snp.ndarray.make((n,), rd, 'r'), 2)
    return v if core.is_scalar(v) else v._scalar_()


def same_norm(cond, rd1, rd2, n):
    """lemma: vectors with equal components have equal norms (used when the
    premise follows from the path)"""
    q = ENG.fresh('comp', 'i')
    snp.add_probe(q, n)
    if cond is False:
        return
    if ENG.entails(implies(band(cond, in_range(q, n)), same(rd1(q), rd2(q)))):
        ENG.assume(implies(cond, same(norm_of(rd1, n), norm_of(rd2, n))))
