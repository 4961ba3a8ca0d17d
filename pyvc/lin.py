"""Abstract linear algebra: vectors and matrices of symbolic dimension whose
entries are not looked at.

A `Lin` is a sum of words; a word is a product of letters (atomic vectors and
matrices, possibly transposed) with a scalar coefficient.  A piece of a word
that goes from a row of length one to a column of length one is a scalar; it
becomes one real symbol (the same symbol for the word and its transpose).
What is known about the letters is: symmetry (M' = M), rewrite rules for one or
two adjacent letters (V'V = I, R x = b, H = R'R - lambda I, ...), and for the
scalar symbols: u'u >= 0, u'Mu >= 0 for a positive semidefinite letter M.  The
Cauchy-Schwarz inequality is available through cs().  All of this is valid for
real vectors and matrices of every dimension."""
import z3
from . import core, snp
from .core import ENG, S, band, bor, bnot, compare, same, ite, arith, implies, is_scalar, Unsupported
from .snp import ndarray

one = lambda d: isinstance(d, int) and d == 1


class Letter:
    __slots__ = ('name', 'r', 'c', 'sym', 'psd', 'diag', 'no', 'inv', 'arr')

    def __init__(self, name, r, c, sym=False, psd=False, diag=None, arr=None):
        self.name, self.r, self.c, self.sym, self.psd, self.diag, self.arr = name, r, c, sym or diag is not None, psd, diag, arr
        self.inv = None
        ENG.counters['letter'] = self.no = ENG.counters.get('letter', 0) + 1

    def __repr__(self):
        return self.name


def _reg(k, f):
    return ENG.registry.setdefault('lin.' + k, f())


def _dims(x):
    l, t = x
    return (l.c, l.r) if t else (l.r, l.c)


def _tr(w):
    return tuple((l, (not t) and not l.sym) for l, t in reversed(w))


def _key(w):
    return tuple((l.no, t) for l, t in w)


# ------------------------------------------------------------------ rules
def rule(pattern, rhs):
    """pattern (tuple of one or two (letter, transposed)) = rhs (Lin); the
    transposed rule is added too.  Scalars already named are reconciled."""
    rules = _reg('rules', dict)
    rules[pattern] = rhs
    tp = _tr(pattern)
    if tp != pattern:
        rules[tp] = rhs.T
    for w, s in list(_reg('syms', dict).items()):
        if any(w[k:k + len(pattern)] in (pattern, tp) for k in range(len(w))):
            ENG.assume(same(s, _value(w)))


def _rewrite(w):
    """normal form of a word without interior scalar: dict word -> coefficient"""
    rules = ENG.registry.get('lin.rules')
    if rules:
        for k in range(len(w)):
            for m in (1, 2):
                if k + m <= len(w) and w[k:k + m] in rules:
                    rhs = rules[w[k:k + m]]
                    out = {}
                    for v, c in rhs.t.items():
                        for x, d in _normal(w[:k] + v + w[k + m:]).items():
                            _add(out, x, arith('*', c, d))
                    return out
    return {w: 1.0}


def _normal(w):
    """split off the scalars inside a word, rewrite the rest"""
    cuts = [k for k in range(1, len(w)) if one(_dims(w[k])[0])]
    if not w:
        return {w: 1.0}
    if one(_dims(w[0])[0]) and one(_dims(w[-1])[1]) and not cuts:
        return _rewrite_split(w)
    if not cuts:
        return _rewrite_split(w)
    pieces, p = [], 0
    for k in cuts + [len(w)]:
        pieces.append(w[p:k])
        p = k
    scal, ends = 1.0, []
    r1, c1 = one(_dims(w[0])[0]), one(_dims(w[-1])[1])
    for i, q in enumerate(pieces):
        if (i > 0 or r1) and (i < len(pieces) - 1 or c1):
            scal = arith('*', scal, _value(q))
        else:
            ends.append(q)
    out = {(): scal}
    for q in ends:
        new = {}
        for a, c in out.items():
            for b, d in _rewrite_split(q).items():
                _add(new, a + b, arith('*', c, d))
        out = new
    return out


def _rewrite_split(w):
    out = _rewrite(w)
    return out


def _add(out, w, c):
    if w in out:
        c = arith('+', out[w], c)
    if not isinstance(c, S) and c == 0:
        out.pop(w, None)
    else:
        out[w] = c


def _value(w):
    """scalar value of a word of shape 1 x 1"""
    tot = 0.0
    for v, c in _rewrite(w).items():
        k = [i for i in range(1, len(v)) if one(_dims(v[i])[0])]
        if not v:
            tot = arith('+', tot, c)
            continue
        val, p = 1.0, 0
        for i in k + [len(v)]:
            val = arith('*', val, _sym(v[p:i]))
            p = i
        tot = arith('+', tot, arith('*', c, val))
    return tot


def _sym(w):
    t = _tr(w)
    if _key(t) < _key(w):
        w, t = t, w
    syms = _reg('syms', dict)
    if w not in syms:
        if all(one(d) for x in w for d in _dims(x)) and len(w) == 1:
            pass
        s = syms[w] = ENG.fresh('<' + ' '.join(l.name + ("'" if tr else '') for l, tr in w) + '>', 'r')
        if w == t:
            m = len(w)
            if m % 2 == 0 or w[m // 2][0].psd:
                ENG.assume(compare('>=', s, 0))
    return syms[w]


# ------------------------------------------------------------------ values
class Lin:
    _lin_ = True
    __array_priority__ = 2000
    ndim_ = 2

    def __init__(self, shape, t, nd=2):
        self._dims = tuple(shape)
        self.t = t
        self.nd = nd
        ENG.counters['storeno'] = self.no = ENG.counters.get('storeno', 0) + 1

    # shape of a 1-D vector is kept as a column internally
    @property
    def dims(self):
        return self._dims[:1] if self.nd == 1 else self._dims

    @property
    def shape(self):
        return snp.Shape(self.dims)

    @property
    def ndim(self):
        return self.nd

    @property
    def size(self):
        return arith('*', self._dims[0], self._dims[1])

    @property
    def dtype(self):
        return float

    @property
    def real(self):
        return self

    @property
    def T(self):
        if self.nd == 1:
            return self
        return Lin(self._dims[::-1], {_tr(w): c for w, c in self.t.items()})

    def transpose(self, *a):
        return self.T

    def conj(self):
        return self

    conjugate = conj

    def copy(self, *a):
        return Lin(self._dims, dict(self.t), self.nd)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def norm_(self):
        """normal form (rules may have been added since)"""
        if not ENG.registry.get('lin.rules'):
            return self.t
        out = {}
        for w, c in self.t.items():
            for v, d in _normal(w).items():
                _add(out, v, arith('*', c, d))
        return out

    def reshape(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], (tuple, list)):
            a = tuple(a[0])
        col = one(self._dims[1])
        row = one(self._dims[0])
        if len(a) == 1 and (col or row):
            if not one(a[0]) and (isinstance(a[0], int) and a[0] == -1 or ENG.entails(compare('==', a[0], self.size))):
                v = self if col else self.T
                return Lin(v._dims, v.t, 1)
        if len(a) == 2 and (col or row):
            v = Lin(self._dims, self.t) if col else Lin(self._dims, self.t).T
            if one(a[1]):
                return v
            if one(a[0]):
                return v.T
        if len(a) == 2 and (one(a[0]) or one(a[1])) and ENG.entails(core.tobool(band(compare('==', self._dims[0], 1), compare('==', self._dims[1], 1)))):
            return Lin(self._dims, self.t)
        raise Unsupported('reshape of an abstract matrix')

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    # arithmetic
    def _bin(self, o, f):
        if not hasattr(o, '_lin_'):
            o = wrap(o)
        if o is None:
            raise Unsupported('abstract matrix and number added')
        if self.nd != o.nd:
            if one(self._dims[0]) or one(o._dims[0]):
                pass
            else:
                raise Unsupported('1-D and 2-D abstract operands')
        for a, b in zip(self._dims, o._dims):
            if not ENG.branch(compare('==', a, b)):
                raise Unsupported('abstract operands of different shapes')
        out = dict(self.norm_())
        for w, c in o.norm_().items():
            _add(out, w, c if f == '+' else arith('-', 0, c))
        return Lin(self._dims, out, self.nd)

    def __add__(self, o):
        return self._bin(o, '+')

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return (-self)._bin(o, '+')

    def __neg__(self):
        return self * -1.0

    def __pos__(self):
        return self.copy()

    def _scale(self, k):
        out = {}
        for w, c in self.t.items():
            _add(out, w, arith('*', c, k))
        return Lin(self._dims, out, self.nd)

    def __mul__(self, o):
        if is_scalar(o):
            return self._scale(o)
        if hasattr(o, '_lin_'):
            raise Unsupported('elementwise product of abstract matrices')
        o = snp.asarray(o)
        if all(one(d) for d in o._dims):
            return self._scale(o.at(*([0] * o.ndim)))
        raise Unsupported('elementwise product of abstract matrices')

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_scalar(o):
            if hasattr(o, '_lin_'):
                raise Unsupported('elementwise quotient')
            o = snp.asarray(o)
            if not all(one(d) for d in o._dims):
                raise Unsupported('elementwise quotient')
            o = o.at(*([0] * o.ndim))
        return self._scale(arith('/', 1.0, o))

    def _inplace(self, r):
        if self.nd != r.nd:
            raise Unsupported('in-place shape change')
        self.t = r.t
        ENG.registry.setdefault('mut', []).append((('store', self.no), self.no, 'abstract array'))
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __setitem__(self, k, v):
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis or (isinstance(k, tuple) and all(x == slice(None) for x in k)):
            self._inplace(asl(v))
            return
        raise Unsupported('assignment to a part of an abstract matrix')

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def norm(self, ord=None):
        col, row = one(self._dims[1]), one(self._dims[0])
        if (col or row) and (ord is None or ord == 2 or ord == 'fro'):
            v = self if col else Lin(self._dims, self.t).T
            sq = dotval(v, v)
            cache = _reg('norms', list)
            for q, r in cache:
                if same(q, sq) is True or (isinstance(q, S) and isinstance(sq, S) and z3.eq(q.e, sq.e)):
                    return r
            r = core.sqrt(sq)
            cache.append((sq, r))
            return r
        r = ENG.fresh('norm', 'r')
        ENG.assume(compare('>=', r, 0))
        return r

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and is_scalar(k[1]):
            return ENG.registry.get('column', column)(self, k[1])
        if isinstance(k, tuple) and len(k) == 2 and all(x == slice(None) for x in k):
            return Lin(self._dims, self.t, self.nd)
        raise Unsupported('part of an abstract matrix')

    def __iter__(self):
        raise Unsupported('iterating an abstract matrix')

    def __len__(self):
        raise Unsupported('len of an abstract matrix')

    def __bool__(self):
        raise Unsupported('truth of an abstract matrix')

    def _cmp(self, o):
        raise Unsupported('comparison of abstract matrices')

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp
    __hash__ = object.__hash__

    def _scalar_(self):
        raise Unsupported('abstract matrix used as a number')

    # decompositions through the hooks of the unit
    def _hook(self, name, *a, **k):
        return snp.hook(name, self, *a, **k)

    def inv_(self):
        return self._hook('inv')

    def pinv(self):
        return self._hook('pinv')

    def qr(self):
        return self._hook('qr')

    def svd(self, *a, **k):
        return self._hook('svd', *a, **k)

    def eigh(self):
        return self._hook('eigh')

    def eigvalsh(self):
        return self._hook('eigvalsh')

    def eig(self):
        return self._hook('eig')

    def cholesky(self):
        return self._hook('cholesky')

    def __repr__(self):
        return 'Lin%s' % (self.t,)


def atom(letter, nd=2):
    return Lin((letter.r, letter.c), {((letter, False),): 1.0}, nd)


def vec(name, n, nd=2):
    return atom(Letter(name, n, 1), nd)


def mat(name, r, c, **kw):
    return atom(Letter(name, r, c, **kw))


def sym(name, n, psd=False):
    return atom(Letter(name, n, n, sym=True, psd=psd))


def zero(r, c):
    return Lin((r, c), {})


def ident(n):
    return Lin((n, n), {(): 1.0})


def letter(v):
    """the letter of an atomic value"""
    (w, c), = v.t.items()
    assert len(w) == 1
    return w[0][0]


# ------------------------------------------------------------------ entry-level arrays
def wrap(a):
    """an entry-level array inside an abstract expression"""
    a = snp.asarray(a)
    if a.ndim == 0:
        return None
    nd = a.ndim
    dims = a._dims if nd == 2 else (a._dims[0], 1)
    if all(one(d) for d in dims):
        raise Unsupported('1 x 1 array added to an abstract matrix')
    s = a.snap()
    rd = s if nd == 2 else (lambda i, j: s(i))
    i = 0 if one(dims[0]) else ENG.fresh('wi', 'i')
    j = 0 if one(dims[1]) else ENG.fresh('wj', 'i')
    hyp = band(snp.in_range(i, dims[0]), snp.in_range(j, dims[1]))
    v = rd(i, j)
    if _holds(implies(hyp, same(v, 0.0))):
        return Lin(dims, {}, nd)
    square = not one(dims[0]) and not one(dims[1])
    if square and _holds(implies(band(hyp, compare('!=', i, j)), same(v, 0.0))) and _holds(compare('==', dims[0], dims[1])):
        d0 = rd(i, i)
        k = ENG.fresh('wk', 'i')
        if _holds(implies(band(hyp, snp.in_range(k, dims[0])), same(rd(k, k), d0))):
            return Lin(dims, {(): _const_entry(rd, dims[0])}, 2)
        key = ('diag', id(a.root.fn), tuple(map(str, a.rmap)))
        cache = _reg('wrapped', dict)
        if key not in cache:
            cache[key] = (Letter('diag', dims[0], dims[0], diag=lambda q: rd(q, q)), a.root.fn)
        l = cache[key][0]
    else:
        key = ('arr', id(a.root.fn), tuple(map(str, a.rmap)))
        cache = _reg('wrapped', dict)
        if key not in cache:
            old = None
            for m, _ in list(cache.values()):       # the same content through another view
                if m.arr is not None and _holds(band(compare('==', m.r, dims[0]), compare('==', m.c, dims[1]))) and _holds(implies(hyp, same(v, m.arr(i, j)))):
                    old = m
                    break
            cache[key] = (old or Letter('array', dims[0], dims[1], arr=rd), a.root.fn)
        l = cache[key][0]
    return atom(l, nd)


def _const_entry(rd, n):
    return rd(0, 0)


def _holds(f):
    if isinstance(f, bool):
        return f
    return ENG.entails(f)


def asl(v):
    return v if hasattr(v, '_lin_') else wrap(v)


# ------------------------------------------------------------------ products
def _prod(a, b):
    out = {}
    for w, c in a.norm_().items():
        for v, d in b.norm_().items():
            for x, e in _normal(w + v).items():
                _add(out, x, arith('*', arith('*', c, d), e))
    return out


def dot(a, b):
    if is_scalar(a):
        return b * a
    if is_scalar(b):
        return a * b
    a, b = _oper(a), _oper(b)
    if not hasattr(a, '_lin_'):
        return b * a
    if not hasattr(b, '_lin_'):
        return a * b
    if a.nd == 1:
        a2 = Lin(a._dims, a.t).T
    else:
        a2 = a
    if not ENG.branch(compare('==', a2._dims[1], b._dims[0])):
        raise ValueError('shapes not aligned')
    r, c = a2._dims[0], b._dims[1]
    if one(r) and one(c):
        v = _sval(a2, b)
        if a.nd == 1 and b.nd == 1:
            return v
        if a.nd == 1 or b.nd == 1:
            return ndarray.make((1,), lambda i: v, 'r')
        return ndarray.make((1, 1), lambda i, j: v, 'r')
    out = Lin((r, c), _prod(a2, b))
    if a.nd == 1 and b.nd == 2:
        out = out.T
    if a.nd == 1 or b.nd == 1:
        out.nd = 1
    return out


def _oper(a):
    if hasattr(a, '_lin_'):
        return a
    a = snp.asarray(a)
    if all(one(d) for d in a._dims) and a.ndim == 2:
        return a.at(0, 0) if False else a
    return wrap(a)


def _sval(row, col):
    tot = 0.0
    for w, c in row.norm_().items():
        for v, d in col.norm_().items():
            k = arith('*', c, d)
            tot = arith('+', tot, arith('*', k, _word_value(w + v)))
    return tot


def _word_value(w):
    val, p = 1.0, 0
    cuts = [k for k in range(1, len(w)) if one(_dims(w[k])[0])]
    for i in cuts + [len(w)]:
        val = arith('*', val, _value(w[p:i]) if i > p else 1.0)
        p = i
    return val


def dotval(u, v):
    """the number u'v"""
    u, v = asl(u), asl(v)
    return _sval(Lin(u._dims, u.t).T, v)


def quad(u, M, v=None):
    """the number u'Mv"""
    return dotval(u, dot(M, u if v is None else v))


def column(M, k):
    if one(M._dims[0]):
        raise Unsupported('entry of an abstract row')
    cache = _reg('cols', list)
    for m, q, v in cache:
        if m.t == M.t and (q is k or same(q, k) is True or (isinstance(q, S) and isinstance(k, S) and z3.eq(q.e, k.e))):
            return Lin(v._dims, v.t, 1)
    v = vec('col', M._dims[0])
    cache.append((M, k, v))
    return Lin(v._dims, v.t, 1)


# ------------------------------------------------------------------ entries
def selector(l):
    """function i -> k when row i of the letter is the k-th unit row (one of
    the selections announced by the unit)"""
    cache = _reg('selcache', dict)
    if l.no not in cache:
        cache[l.no] = None
        if l.arr is not None:
            for sel in ENG.registry.get('selectors', ()):
                i, k = ENG.fresh('si', 'i'), ENG.fresh('sk', 'i')
                hyp = band(snp.in_range(i, l.r), snp.in_range(k, l.c))
                if _holds(implies(hyp, same(l.arr(i, k), ite(compare('==', k, sel(i)), 1.0, 0.0)))):
                    cache[l.no] = sel
                    break
    return cache[l.no]


def entry(w, i, j):
    """entry (i, j) of a word in normal form"""
    while w and not w[0][1] and selector(w[0][0]) is not None:
        i = selector(w[0][0])(i)
        w = w[1:]
    while w and w[-1][1] and selector(w[-1][0]) is not None:
        j = selector(w[-1][0])(j)
        w = w[:-1]
    if not w:
        return ite(compare('==', i, j), 1.0, 0.0)
    if len(w) == 1 and w[0][0].arr is not None:
        return w[0][0].arr(j, i) if w[0][1] else w[0][0].arr(i, j)
    if len(w) == 1 and w[0][0].diag is not None:
        return ite(compare('==', i, j), w[0][0].diag(i), 0.0)
    t = _tr(w)
    if _key(t) < _key(w):
        w, i, j = t, j, i
    fs = _reg('entries', dict)
    if w not in fs:
        nm = ENG.fresh_name('[' + ' '.join(l.name + ("'" if tr else '') for l, tr in w) + ']')
        fs[w] = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return S('r', fs[w](core.lift(i)[1] if isinstance(i, S) else z3.IntVal(i), core.lift(j)[1] if isinstance(j, S) else z3.IntVal(j)))


def value_at(v, i, j=0):
    tot = 0.0
    for w, c in v.norm_().items():
        tot = arith('+', tot, arith('*', c, entry(w, i, j)))
    return tot


def to_array(v):
    """entry-level array with the entries of an abstract value"""
    if v.nd == 1:
        return ndarray.make(v._dims[:1], lambda i: value_at(v, i), 'r')
    return ndarray.make(v._dims, lambda i, j: value_at(v, i, j), 'r')


# ------------------------------------------------------------------ lemmas
def cs(u, v, M=None):
    """Cauchy-Schwarz for u, v (in the seminorm of the psd letter M)"""
    if M is None:
        a, b, c = dotval(u, v), dotval(u, u), dotval(v, v)
    else:
        a, b, c = quad(u, M, v), quad(u, M), quad(v, M)
    ENG.assume(compare('>=', b, 0))
    ENG.assume(compare('>=', c, 0))
    ENG.assume(compare('<=', arith('*', a, a), arith('*', b, c)))
    ENG.assume(implies(compare('==', b, 0), same(a, 0.0)))
    ENG.assume(implies(compare('==', c, 0), same(a, 0.0)))


def pd(M, v):
    """M is positive definite: instance at v"""
    ENG.assume(implies(compare('>', dotval(v, v), 0), compare('>', quad(v, M), 0)))
    ENG.assume(compare('>=', quad(v, M), 0))
    ENG.assume(compare('>=', dotval(v, v), 0))


def equal(a, b):
    """coefficientwise equality of two abstract values"""
    a, b = asl(a), asl(b)
    d = a - b
    return band(True, *[same(c, 0.0) for c in d.norm_().values()])


def prove_equal(name, a, b):
    """a and b are the same vector or matrix: agree against arbitrary vectors"""
    a, b = asl(a), asl(b)
    ENG.prove(name + ' (shape)', band(*[compare('==', x, y) for x, y in zip(a._dims, b._dims)]))
    d = a - b
    if not d.norm_():
        ENG.prove(name, True)
        return
    w = vec('w', a._dims[0])
    if one(a._dims[1]):
        ENG.prove(name, same(dotval(w, d), 0.0))
    else:
        z = vec('z', a._dims[1])
        ENG.prove(name, same(quad(w, d, z), 0.0))


def is_lin(name, v, r, c):
    """v is an abstract value (or array) of this shape"""
    if not hasattr(v, '_lin_'):
        if isinstance(v, ndarray) and v.ndim == 2:
            v = wrap(v)
        else:
            ENG.prove(name + ' (is a matrix)', False)
            raise core.EndPath()
    ENG.prove(name + ' (shape)', band(v.nd == 2, compare('==', v._dims[0], r), compare('==', v._dims[1], c)))
    return v


def solve(M, b):
    M, b = asl(M), asl(b)
    return dot(inverse(M), b)


def inverse(M):
    """inverse of an atomic (scaled, transposed) matrix"""
    t = M.norm_()
    if len(t) != 1:
        raise Unsupported('inverse of a sum')
    (w, c), = t.items()
    out = ident(M._dims[0])
    for l, tr in w:
        if l.inv is None:
            l.inv = Letter(l.name + '^-1', l.c, l.r, sym=l.sym)
            I = ident(l.r)
            rule(((l, False), (l.inv, False)), I)
            rule(((l.inv, False), (l, False)), I)
        v = atom(l.inv)
        out = dot(v.T if tr and not l.sym else v, out)
    return out / c
