"""Symbolic stand-in for the part of numpy the code under verification uses.
Arrays have a concrete number of dimensions, symbolic extents and element
closures; views share storage, writes update the storage."""
import math, builtins
import z3
from . import core
from .core import ENG, S, Unsupported, EndPath, ite, arith, compare, is_scalar, band, bor, bnot, tobool, sabs

inf = math.inf
nan = math.nan
Inf = infty = inf
NaN = nan
newaxis = None
pi = math.pi


# ------------------------------------------------------------------ storage
class Fn:
    """immutable element function with memo"""
    __slots__ = ('f', 'memo', 'inv', 'find', 'lift1', 'uid')
    _n = 0

    def __init__(self, f, inv=None):
        self.f = f
        self.memo = {}
        self.inv = inv
        self.find = None
        Fn._n += 1
        self.uid = Fn._n

    def __call__(self, *idx):
        key = tuple(_key(i) for i in idx)
        if key in self.memo:
            return self.memo[key][0]
        v = self.f(*idx)
        self.memo[key] = (v, idx)
        return v


def _key(i):
    return i if isinstance(i, int) else ('z', i.e.get_id())


class Store:
    __slots__ = ('fn', 'shape', 'kind', 'name', 'born', 'wlog', 'no')

    def __init__(self, fn, shape, kind='r', name=None):
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.shape = tuple(shape)
        self.kind = kind
        self.name = name
        self.born = ENG.write_epoch
        ENG.counters['storeno'] = self.no = ENG.counters.get('storeno', 0) + 1


class flagsobj:
    pass


class ndarray:
    __array_priority__ = 1000

    def __init__(self, root, dims=None, rmap=None):
        self.root = root
        self._dims = tuple(root.shape) if dims is None else tuple(dims)
        self.rmap = [('a', k, 0, 1) for k in range(len(root.shape))] if rmap is None else rmap

    # ---------- construction helpers
    @staticmethod
    def make(shape, f, kind='r', inv=None):
        return ndarray(Store(Fn(f, inv), shape, kind))

    @property
    def shape(self):
        return Shape(self._dims)

    @shape.setter
    def shape(self, v):
        raise Unsupported('shape assignment')

    @property
    def ndim(self):
        return len(self._dims)

    @property
    def size(self):
        r = 1
        for d in self._dims:
            r = arith('*', r, d)
        return r

    @property
    def dtype(self):
        return {'r': float, 'i': int, 'b': bool, 'x': float}.get(self.root.kind, float)

    @property
    def real(self):
        return self

    @property
    def T(self):
        n = self.ndim
        if n < 2:
            return self
        rm = [('a', n - 1 - m[1], m[2], m[3]) if m[0] == 'a' else m for m in self.rmap]
        return ndarray(self.root, self._dims[::-1], rm)

    def transpose(self, *a):
        return self.T

    @property
    def flat(self):
        return self.reshape(-1)

    # ---------- element access
    def snap(self):
        """immutable reader idx->scalar for the current content"""
        fn = self.root.fn
        rm = list(self.rmap)

        def rd(*idx):
            return fn(*[(m[1] if m[0] == 'f' else _aff(m, idx)) for m in rm])
        return rd

    def at(self, *idx):
        return self.snap()(*idx)

    def write_all(self, valfn, cond=None):
        """self[idx] = valfn(*idx) for all idx (where cond(*idx))"""
        root = self.root
        ENG.registry.setdefault('mut', []).append((('store', root.no), root.no, 'array of shape %s' % (root.shape,)))
        old = root.fn
        rm = list(self.rmap)
        dims = self._dims
        nd = len(dims)

        def new(*ridx):
            conds = []
            vidx = [0] * nd
            for r, m in zip(ridx, rm):
                if m[0] == 'f':
                    conds.append(compare('==', r, m[1]))
                else:
                    if m[3] not in (1, -1):
                        raise Unsupported('write through a strided view')
                    v = arith('-', r, m[2]) if m[3] == 1 else arith('-', m[2], r)
                    if not _is_full(m, dims[m[1]], v, r, root, rm):
                        conds.append(compare('>=', v, 0))
                        conds.append(compare('<', v, dims[m[1]]))
                    vidx[m[1]] = v
            c = band(*conds) if conds else True
            if c is False:
                return old(*ridx)
            if cond is not None:
                c = band(c, cond(*vidx))
                if c is False:
                    return old(*ridx)
            nv = valfn(*vidx)
            if c is True:
                return nv
            return ite(c, nv, old(*ridx))
        root.fn = Fn(new)
        root.born = root.born

    # ---------- python protocol
    def __len__(self):
        if not self._dims:
            raise TypeError('len() of unsized object')
        d = self._dims[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len of symbolic array through builtin')

    def length(self):
        return self._dims[0]

    def __iter__(self):
        n = self._dims[0]
        if not isinstance(n, int):
            raise Unsupported('iterating a symbolic array')
        for i in range(n):
            yield self[i]

    def __bool__(self):
        sz = self.size
        if ENG.branch(compare('==', sz, 1)):
            return ENG.branch(tobool(self.at(*([0] * self.ndim))))
        if ENG.branch(compare('==', sz, 0)):
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _scalar_(self):
        sz = self.size
        if ENG.branch(compare('==', sz, 1)):
            return self.at(*([0] * self.ndim))
        raise Unsupported('array used as scalar')

    def item(self, *a):
        return self._scalar_()

    def __copy__(self):
        return ndarray.make(self._dims, self.snap(), self.root.kind, _inv_of(self))

    copy = __copy__

    def __deepcopy__(self, memo):
        return self.__copy__()

    def __repr__(self):
        return '<array %s>' % (self._dims,)

    def __format__(self, f):
        return '<array>'

    def astype(self, *a):
        return self.__copy__()

    def conj(self):
        return self.__copy__()

    def tolist(self):
        raise Unsupported('tolist')

    # ---------- indexing
    def __getitem__(self, key):
        kind, payload = _resolve(self, key)
        if kind == 'view':
            dims, rm = payload
            if not dims:
                return self.root.fn(*[m[1] for m in rm])
            return ndarray(self.root, dims, rm)
        dims, rd, inv = payload
        if not dims:
            return rd()
        return ndarray.make(dims, rd, self.root.kind, inv)

    def __setitem__(self, key, val):
        if hasattr(val, '_lin_'):
            from . import lin
            val = lin.to_array(val)
        if isinstance(key, ndarray) and key.root.kind == 'b' or (isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], ndarray) and key[0].root.kind == 'b'):
            if isinstance(key, tuple):
                key = key[0]
            return self._set_mask(key, val)
        if isinstance(key, list):
            key = array(key)
        if isinstance(key, ndarray) and key.ndim >= 1:
            return self._set_adv((key,), val)
        if isinstance(key, tuple) and any_py(isinstance(k, (ndarray, list)) and (not isinstance(k, ndarray) or k.ndim >= 1) for k in key):
            return self._set_adv(key, val)
        if isinstance(key, tuple):
            key = tuple(k._scalar_() if isinstance(k, ndarray) else k for k in key)
        kind, payload = _resolve(self, key)
        if kind != 'view':
            raise Unsupported('assignment to advanced index')
        dims, rm = payload
        v = ndarray(self.root, dims, rm)
        v.write_all(_bcast_reader(val, dims))

    def _set_mask(self, mask, val):
        if mask.ndim == self.ndim:
            _check_same(mask._dims, self._dims)
            if mask.ndim == 2 and not any_one(mask._dims) and mask_const(mask) is False and \
                    (is_scalar(val) or isinstance(val, ndarray) and (val.ndim == 0 or isinstance(val.size, int) and val.size in (0, 1))):
                return
            mr = mask.snap()
            if is_scalar(val) or (isinstance(val, ndarray) and val.ndim == 0):
                v = val if is_scalar(val) else val.at()
                self.write_all(lambda *i: v, cond=mr)
                return
            if isinstance(val, ndarray):
                if val.size == 1 if isinstance(val.size, int) else False:
                    v = val.at(*([0] * val.ndim))
                    self.write_all(lambda *i: v, cond=mr)
                    return
                if self.ndim == 1:
                    fi = find_info(mask)
                    if val.ndim != 1:
                        if val.ndim == 2 and isinstance(val._dims[0], int) and val._dims[0] == 1:
                            val = val.reshape(-1)
                        else:
                            # numpy: value of shape (c,1) cannot be assigned unless c == 1 or empty
                            if ENG.branch(compare('==', fi.count, 1)) and ENG.branch(compare('==', val.size, 1)):
                                v = val.at(*([0] * val.ndim))
                                self.write_all(lambda *i: v, cond=mr)
                                return
                            raise ValueError('NumPy boolean array indexing assignment requires a 0 or 1-dimensional input')
                    if not ENG.branch(compare('==', fi.count, val._dims[0])):
                        if ENG.branch(compare('==', val._dims[0], 1)):
                            v = val.at(0)
                            self.write_all(lambda *i: v, cond=mr)
                            return
                        raise ValueError('cannot assign input values to the mask')
                    vr = val.snap()
                    self.write_all(lambda i: vr(fi.pos(i)), cond=mr)
                    return
                if self.ndim == 2 and isinstance(self._dims[1], int) and self._dims[1] == 1:
                    fi = find_info(mask)
                    if val.ndim != 1:
                        raise Unsupported('mask assignment of 2-d values')
                    vr = val.snap()
                    if not ENG.branch(compare('==', fi.count, val._dims[0])):
                        raise Unsupported('mask assignment length')
                    self.write_all(lambda i, j: vr(fi.pos(i)), cond=mr)
                    return
            raise Unsupported('mask assignment value')
        if mask.ndim == 1 and self.ndim == 2:
            # rows selected by the mask
            if not ENG.branch(compare('==', mask._dims[0], self._dims[0])):
                raise IndexError('boolean index did not match')
            mr = mask.snap()
            if is_scalar(val):
                self.write_all(lambda i, j: val, cond=lambda i, j: mr(i))
                return
            fi = find_info(mask)
            val = asarray(val)
            if val.ndim != 2:
                rdv = _bcast_reader(val, (fi.count, self._dims[1]))
            else:
                rdv = _bcast_reader(val, (fi.count, self._dims[1]))
            self.write_all(lambda i, j: rdv(fi.pos(i), j), cond=lambda i, j: mr(i))
            return
        raise Unsupported('mask assignment')

    def _set_adv(self, key, val):
        key = tuple(asarray(k) if isinstance(k, list) else k for k in key)
        advs = [k for k in key if isinstance(k, ndarray) and k.ndim >= 1]
        if len(advs) != 1:
            # cells named by several index arrays: every cell becomes arbitrary
            # (an over-approximation; a refutation that follows is not conclusive)
            ENG.taint.append('assignment with several index arrays')
            havoc_content(self, 'scattered')
            return
        a = advs[0]
        if a.root.kind == 'b':
            fi = find_info(a)
            a = fi.array()
        pos = [i for i, k in enumerate(key) if k is a or (isinstance(k, ndarray) and k.ndim >= 1)][0]
        others = list(key) + [slice(None)] * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError('too many indices for array')
        sz = a.size
        if isinstance(sz, int) and sz == 0:
            return
        if isinstance(sz, int) and sz == 1:
            j = a.at(*([0] * a.ndim))
            others[pos] = j
            dims, rm = _resolve(self, tuple(others))[1]
            v = ndarray(self.root, dims, rm)
            # shape of the indexed selection: a.shape + rest
            if is_scalar(val):
                v.write_all(lambda *i: val)
                return
            val = asarray(val)
            tgt = list(a._dims) + [d for d in dims] if pos == 0 else list(dims) + list(a._dims)
            rdv = _bcast_reader(val, tgt)
            na = a.ndim
            if pos == 0:
                v.write_all(lambda *i: rdv(*([0] * na + list(i))))
            else:
                v.write_all(lambda *i: rdv(*(list(i) + [0] * na)))
            return
        inv = _inv_of(a)
        if inv is None:
            raise Unsupported('assignment through a symbolic index array')
        if a.ndim == 2 and not (isinstance(a._dims[1], int) and a._dims[1] == 1):
            raise Unsupported('assignment through a 2-d index array')
        n = a._dims[0]
        rest = [k for i, k in enumerate(others) if i != pos]
        for k in rest:
            if not (isinstance(k, slice) and k == slice(None)):
                raise Unsupported('assignment mixing index array and slice')
        if is_scalar(val):
            self.write_all(lambda *i: val, cond=lambda *i: inv(i[pos])[0])
            return
        val = asarray(val)
        if pos != 0:
            raise Unsupported('index array on a later axis')
        tgt = list(a._dims) + list(self._dims[1:])
        rdv = _bcast_reader(val, tgt)
        na = a.ndim

        def vf(*i):
            k = inv(i[0])[1]
            return rdv(*([k] + [0] * (na - 1) + list(i[1:])))
        self.write_all(vf, cond=lambda *i: inv(i[0])[0])

    # ---------- shape operations
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [s._scalar_() if isinstance(s, ndarray) else s for s in shape]
        # drop unit dims of the source
        src = [(k, d) for k, d in enumerate(self._dims) if not (isinstance(d, int) and d == 1)]
        if len(src) > 1:
            # maybe a dimension is provably 1
            src2 = [(k, d) for k, d in src if isinstance(d, int) or not ENG.entails(compare('==', d, 1))]
            if len(src2) > 1 and _same_shape_req(self._dims, shape):
                return ndarray(self.root, self._dims, list(self.rmap))
            if len(src2) > 1:
                # decide whether one of them is 1
                for k, d in list(src2):
                    if len(src2) > 1 and not isinstance(d, int) and ENG.branch(compare('==', d, 1)):
                        src2.remove((k, d))
            src = src2
        if len(src) > 1:
            return self._reshape_general(shape)
        total = self.size
        unknown = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        known = 1
        for i, s in enumerate(shape):
            if i not in unknown:
                known = arith('*', known, s)
        if unknown:
            if not isinstance(known, int) or known != 1:
                if isinstance(total, int) and isinstance(known, int):
                    if known == 0 or total % known:
                        raise ValueError('cannot reshape')
                    shape[unknown[0]] = total // known
                else:
                    if ENG.branch(compare('==', known, total)):
                        shape[unknown[0]] = 1
                    elif ENG.branch(compare('==', known, 1)):
                        shape[unknown[0]] = total
                    else:
                        raise Unsupported('reshape %s' % (shape,))
            else:
                shape[unknown[0]] = total
        else:
            if not ENG.branch(compare('==', known, total)):
                raise ValueError('cannot reshape array')
        tgt = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        if len(tgt) > 1:
            tgt = [k for k in tgt if not (not isinstance(shape[k], int) and ENG.branch(compare('==', shape[k], 1)))]
        if len(tgt) > 1:
            return self._reshape_general(shape)
        # unit-length arrays: keep axis identity
        if not src:
            rm = [m if m[0] == 'f' else ('f', m[2]) for m in self.rmap]
            if tgt:
                # the extent is provably 1 here
                pass
            return ndarray(self.root, tuple(shape), rm)
        ax = src[0][0]
        if not tgt:
            rm = [m if m[0] == 'f' else ('f', m[2]) for m in self.rmap]
            return ndarray(self.root, tuple(shape), rm)
        t = tgt[0]
        rm = []
        for m in self.rmap:
            if m[0] == 'f':
                rm.append(m)
            elif m[1] == ax:
                rm.append(('a', t, m[2], m[3]))
            else:
                rm.append(('f', m[2]))
        return ndarray(self.root, tuple(shape), rm)

    def _reshape_general(self, shape):
        if all_py(isinstance(d, int) for d in self._dims) and builtins.sum(1 for s in shape if isinstance(s, int) and s == -1) <= 1:
            tot = 1
            for d in self._dims:
                tot *= d
            kn = 1
            for s in shape:
                if not isinstance(s, int):
                    raise Unsupported('reshape')
                if s != -1:
                    kn *= s
            shape = [tot // kn if s == -1 else s for s in shape]
            chk = 1
            for s in shape:
                chk *= s
            if chk != tot:
                raise ValueError('cannot reshape')
            rd = self.snap()
            sd = self._dims

            def f(*idx):
                lin = 0
                for i, s in zip(idx, shape):
                    lin = arith('+', arith('*', lin, s), i)
                out = []
                for d in reversed(sd):
                    out.append(arith('%', lin, d))
                    lin = arith('//', lin, d)
                return rd(*reversed(out))
            return ndarray.make(tuple(shape), f, self.root.kind)
        raise Unsupported('general reshape %s -> %s' % (self._dims, shape))

    def ravel(self):
        return self.reshape(-1)

    def flatten(self):
        return self.reshape(-1).__copy__()

    # ---------- reductions
    def any(self, *a):
        return reduce_any(self)

    def all(self, *a):
        return bnot(reduce_any(_map1(bnot, self, 'b')))

    def sum(self, axis=None):
        return sum_(self, axis)

    def max(self, *a):
        return reduce_max(self, False)[0]

    def min(self, *a):
        return reduce_max(self, True)[0]

    def argmax(self, *a):
        return reduce_max(self, False)[1]

    def argmin(self, *a):
        return reduce_max(self, True)[1]

    def dot(self, o):
        return dot(self, o)

    def take(self, idx):
        return self.reshape(-1)[array(list(idx)) if not isinstance(idx, ndarray) else idx]

    def fill(self, v):
        self.write_all(lambda *i: v)

    # ---------- arithmetic
    def __add__(self, o): return ew(lambda a, b: arith('+', a, b), self, o)
    def __radd__(self, o): return ew(lambda a, b: arith('+', b, a), self, o)
    def __sub__(self, o): return ew(lambda a, b: arith('-', a, b), self, o)
    def __rsub__(self, o): return ew(lambda a, b: arith('-', b, a), self, o)
    def __mul__(self, o): return ew(lambda a, b: arith('*', a, b), self, o)
    def __rmul__(self, o): return ew(lambda a, b: arith('*', b, a), self, o)
    def __truediv__(self, o): return ew(lambda a, b: arith('/', a, b), self, o)
    def __rtruediv__(self, o): return ew(lambda a, b: arith('/', b, a), self, o)
    def __pow__(self, o): return ew(core.power, self, o)
    def __mod__(self, o): return ew(lambda a, b: arith('%', a, b), self, o)
    def __matmul__(self, o): return dot(self, o)
    def __neg__(self): return _map1(core.neg, self)
    def __pos__(self): return self.__copy__()
    def __abs__(self): return _map1(sabs, self)
    def __invert__(self): return _map1(bnot, self, 'b')
    def __and__(self, o): return ew(band, self, o, 'b')
    def __or__(self, o): return ew(bor, self, o, 'b')

    def _inplace(self, f, o):
        r = ew(f, self, o)
        _check_same(r._dims, self._dims)
        rd = r.snap()
        self.write_all(rd)
        return self

    def __iadd__(self, o): return self._inplace(lambda a, b: arith('+', a, b), o)
    def __isub__(self, o): return self._inplace(lambda a, b: arith('-', a, b), o)
    def __imul__(self, o): return self._inplace(lambda a, b: arith('*', a, b), o)
    def __itruediv__(self, o): return self._inplace(lambda a, b: arith('/', a, b), o)

    def __lt__(self, o): return ew(lambda a, b: compare('<', a, b), self, o, 'b')
    def __le__(self, o): return ew(lambda a, b: compare('<=', a, b), self, o, 'b')
    def __gt__(self, o): return ew(lambda a, b: compare('>', a, b), self, o, 'b')
    def __ge__(self, o): return ew(lambda a, b: compare('>=', a, b), self, o, 'b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return ew(lambda a, b: compare('==', a, b), self, o, 'b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return ew(lambda a, b: compare('!=', a, b), self, o, 'b')

    def __hash__(self):
        return id(self)


class Shape(tuple):
    def count(self, v):
        r = 0
        for d in self:
            r = arith('+', r, ite(compare('==', d, v), 1, 0))
        return r

    def __contains__(self, v):
        return ENG.branch(tobool(core.bor(False, *[compare('==', d, v) for d in self])))

    def __eq__(self, o):
        if not isinstance(o, tuple) or len(o) != len(self):
            return False
        return ENG.branch(tobool(band(True, *[compare('==', a, b) for a, b in zip(self, o)])))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return tuple.__hash__(self)


any_py = builtins.any
all_py = builtins.all


def _aff(m, idx):
    i = idx[m[1]]
    if m[3] == 1:
        return i if (isinstance(m[2], int) and m[2] == 0) else arith('+', m[2], i)
    return arith('+', m[2], arith('*', m[3], i))


def _is_full(m, d, v, r, root, rm):
    """axis covers the whole root axis (no range condition needed)"""
    k = rm.index(m)
    if m[3] == 1 and isinstance(m[2], int) and m[2] == 0:
        rd = root.shape[k]
        if d is rd or (isinstance(d, int) and isinstance(rd, int) and d == rd):
            return True
        if not isinstance(d, int) and not isinstance(rd, int) and d.e.eq(rd.e):
            return True
    return False


def _inv_of(a):
    """inverse of the content as an index list, if the view is the whole store"""
    fn = a.root.fn
    if fn.inv is None:
        return None
    for k, m in enumerate(a.rmap):
        if m[0] != 'a':
            if not (isinstance(a.root.shape[k], int) and a.root.shape[k] == 1):
                return None
            continue
        if not _is_full(m, a._dims[m[1]], None, None, a.root, a.rmap):
            return None
    return fn.inv


def _same_shape_req(dims, shape):
    if len(dims) != len(shape):
        return False
    return all_py((isinstance(a, int) and isinstance(b, int) and a == b) or
                  (not isinstance(a, int) and not isinstance(b, int) and ENG.entails(compare('==', a, b)))
                  for a, b in zip(dims, shape))


def _check_same(a, b):
    if len(a) != len(b):
        raise ValueError('shape mismatch')
    for x, y in zip(a, b):
        if not ENG.branch(compare('==', x, y)):
            raise ValueError('operands could not be broadcast together')


def _slice(s, n):
    """(start, stop, step) with numpy clipping"""
    step = s.step
    if step is None:
        step = 1
    st, sp = s.start, s.stop
    st = st._scalar_() if isinstance(st, ndarray) else st
    sp = sp._scalar_() if isinstance(sp, ndarray) else sp
    for v in (st, sp):
        if isinstance(v, float) or (isinstance(v, S) and v.k == 'r'):
            raise TypeError('slice indices must be integers')
    if step == -1 and st is None and sp is None:
        return arith('-', n, 1), n, -1
    if step != 1:
        raise Unsupported('slice step')

    def clip(v, default):
        if v is None:
            return default
        if isinstance(v, int) and v == 0:
            return 0
        if isinstance(v, S) and not isinstance(n, int) and v.e.eq(n.e):
            return v
        if ENG.branch(compare('<', v, 0)):
            v = arith('+', v, n)
            if ENG.branch(compare('<', v, 0)):
                return 0
            return v
        if ENG.branch(compare('>', v, n)):
            return n
        return v
    a = clip(st, 0)
    b = clip(sp, n)
    if isinstance(a, int) and a == 0:
        return a, b, 1
    ln = arith('-', b, a)
    if ENG.branch(compare('<', ln, 0)):
        return a, a, 1
    return a, b, 1


def _int_index(i, n):
    if isinstance(i, ndarray):
        i = i._scalar_()
    if isinstance(i, bool) or (isinstance(i, S) and i.k == 'b'):
        raise Unsupported('boolean scalar index')
    if isinstance(i, float) or (isinstance(i, S) and i.k in 'rx'):
        raise IndexError('only integers are valid indices')
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError('index out of bounds')
        return i % n
    if ENG.branch(compare('<', i, 0)):
        j = arith('+', i, n)
        if ENG.branch(compare('<', j, 0)):
            raise IndexError('index out of bounds')
        return j
    if ENG.branch(compare('>=', i, n)):
        raise IndexError('index out of bounds')
    return i


def _resolve(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(array(k) if isinstance(k, (list, range, SRange)) else k for k in key)
    key = tuple(k.at() if isinstance(k, ndarray) and k.ndim == 0 else k for k in key)
    if any_py(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        nreal = builtins.sum(1 for k in key if k is not None) - 1
        key = key[:p] + (slice(None),) * (a.ndim - nreal) + key[p + 1:]
    nreal = builtins.sum(1 for k in key if k is not None)
    # 2-d boolean masks count for two
    if any_py(isinstance(k, ndarray) and k.root.kind == 'b' and k.ndim > 1 for k in key):
        if len(key) != 1:
            raise Unsupported('2-d mask in tuple')
        return 'copy', _mask2_read(a, key[0])
    if nreal > a.ndim:
        raise IndexError('too many indices for array')
    key = key + (slice(None),) * (a.ndim - nreal)
    if not any_py(isinstance(k, ndarray) for k in key):
        dims = []
        ax_new = {}
        fixed = {}
        src = 0
        for k in key:
            if k is None:
                dims.append(1)
                continue
            n = a._dims[src]
            if isinstance(k, slice):
                st, sp, step = _slice(k, n)
                ax_new[src] = (len(dims), st, step)
                if step == 1:
                    dims.append(sp if isinstance(st, int) and st == 0 else arith('-', sp, st))
                else:
                    dims.append(n)
            else:
                fixed[src] = _int_index(k, n)
            src += 1
        rm = []
        for m in a.rmap:
            if m[0] == 'f':
                rm.append(m)
            elif m[1] in fixed:
                rm.append(('f', _aff2(m, fixed[m[1]])))
            else:
                na, st, step = ax_new[m[1]]
                rm.append(('a', na, _aff2(m, st), m[3] * step))
        return 'view', (tuple(dims), rm)
    # advanced indexing
    advs = [i for i, k in enumerate(key) if isinstance(k, ndarray) or not isinstance(k, slice) and k is not None]
    if any_py(k is None for k in key):
        raise Unsupported('newaxis with advanced index')
    if advs != list(range(advs[0], advs[-1] + 1)):
        raise Unsupported('separated advanced indices')
    idxarrs = {}
    invs = {}
    for i in advs:
        k = key[i]
        if isinstance(k, ndarray):
            if k.root.kind == 'b':
                if not ENG.branch(compare('==', k._dims[0], a._dims[i])):
                    raise IndexError('boolean index did not match indexed array')
                fi = find_info(k)
                k = fi.array()
            elif k.root.kind == 'r' and not (isinstance(k.size, int) and k.size == 0):
                # float index arrays: numpy refuses them
                if k.root.kind == 'r' and not getattr(k.root, 'name', None) == 'intlike':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            idxarrs[i] = k
        else:
            idxarrs[i] = asarray0(_int_index(k, a._dims[i]))
    bshape = ()
    for k in idxarrs.values():
        bshape = _bshape(bshape, k._dims)
    rds = {i: _bcast_reader(k, bshape) for i, k in idxarrs.items()}
    # range check at a generic element
    for i, k in idxarrs.items():
        if k.ndim == 0:
            continue
        n = a._dims[i]
        if all_py(isinstance(d, int) for d in k._dims):
            rd = k.snap()
            import itertools
            for idx in itertools.product(*[range(d) for d in k._dims]):
                _int_index(rd(*idx), n)
        else:
            sk = [0 if isinstance(d, int) and d == 1 else ENG.fresh('sk', 'i') for d in k._dims]
            g = band(*[band(compare('>=', s, 0), compare('<', s, d)) for s, d in zip(sk, k._dims)])
            v = k.at(*sk)
            for s_, d_ in zip(sk, k._dims):
                if isinstance(s_, core.S):
                    add_probe(s_, d_)
            ok = core.implies(g, band(compare('>=', v, 0), compare('<', v, n)))
            if not (ok is True or ENG.entails(ok)):
                for s_ in sk:
                    if isinstance(s_, core.S):
                        add_probe(s_)
                if not ENG.entails(ok):
                    raise Unsupported('index array not provably inside the array')
    dims = []
    plan = []
    for i, k in enumerate(key):
        if i in idxarrs:
            if i == advs[0]:
                base = len(dims)
                dims.extend(bshape)
            plan.append(('adv', base, rds[i]))
        else:
            st, sp, step = _slice(k, a._dims[i])
            plan.append(('sl', len(dims), st, step))
            dims.append(arith('-', sp, st) if step == 1 else a._dims[i])
    rda = a.snap()
    nb = len(bshape)

    def rd(*idx):
        ai = []
        for p in plan:
            if p[0] == 'adv':
                v = p[2](*idx[p[1]:p[1] + nb])
                if isinstance(v, int) and v < 0:
                    v = arith('+', v, a._dims[len(ai)])
                ai.append(v)
            else:
                ai.append(arith('+', p[2], arith('*', p[3], idx[p[1]])))
        return rda(*ai)
    inv = None
    if a.ndim == 1 and len(idxarrs) == 1:
        ia = _inv_of(a)
        ik = _inv_of(list(idxarrs.values())[0])
        if ia is not None and ik is not None:
            def inv(i):
                c1, k1 = ia(i)
                c2, k2 = ik(k1)
                return band(c1, c2), k2
    return 'copy', (tuple(dims), rd, inv)


def _aff2(m, st):
    if isinstance(m[2], int) and m[2] == 0 and m[3] == 1:
        return st
    return arith('+', m[2], arith('*', m[3], st) if m[3] != 1 else st)


def _bshape(a, b):
    n = builtins.max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif isinstance(x, int) and isinstance(y, int):
            if x != y:
                raise ValueError('operands could not be broadcast together')
            out.append(x)
        elif (not isinstance(x, int) and not isinstance(y, int) and x.e.eq(y.e)) or ENG.branch(compare('==', x, y)):
            out.append(x)
        elif ENG.branch(compare('==', x, 1)):
            out.append(y)
        elif ENG.branch(compare('==', y, 1)):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def _bcast_reader(val, dims):
    """reader of val broadcast to dims"""
    if is_scalar(val):
        return lambda *i: val
    val = asarray(val)
    vd = list(val._dims)
    while len(vd) > len(dims) and isinstance(vd[0], int) and vd[0] == 1:
        vd = vd[1:]
    lead = val.ndim - len(vd)
    if len(vd) > len(dims):
        raise ValueError('could not broadcast input array')
    off = len(dims) - len(vd)
    one = []
    for k, d in enumerate(vd):
        t = dims[off + k]
        if isinstance(d, int) and d == 1:
            one.append(True)
        elif (not isinstance(d, int) and not isinstance(t, int) and d.e.eq(t.e)):
            one.append(False)
        elif ENG.branch(compare('==', d, t)):
            one.append(False)
        elif ENG.branch(compare('==', d, 1)):
            one.append(True)
        else:
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (vd, dims))
    rd = val.snap()

    def f(*idx):
        return rd(*([0] * lead + [0 if o else idx[off + k] for k, o in enumerate(one)]))
    return f


def _kindof(*vals):
    k = 'b'
    for v in vals:
        if isinstance(v, ndarray):
            kk = v.root.kind
        elif is_scalar(v):
            kk = core.lift(v)[0]
        else:
            kk = 'r'
        if kk in core._RANK and core._RANK[kk] > core._RANK.get(k, 0):
            k = kk
    return 'r' if k == 'x' else k


def ew(f, a, b, kind=None):
    """elementwise binary operation with broadcasting"""
    if hasattr(a, '_lin_') or hasattr(b, '_lin_'):
        return NotImplemented
    if isinstance(b, (list, tuple)):
        b = array(b)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if b is None or isinstance(b, str):
        raise TypeError('unsupported operand')
    if not isinstance(a, ndarray) and not isinstance(b, ndarray):
        return f(a, b)
    if not isinstance(b, ndarray) and not is_scalar(b):
        return NotImplemented
    da = a._dims if isinstance(a, ndarray) else ()
    db = b._dims if isinstance(b, ndarray) else ()
    dims = _bshape(da, db)
    ra, rb = _bcast_reader(a, dims), _bcast_reader(b, dims)
    if not dims:
        return f(ra(), rb())
    return ndarray.make(dims, lambda *i: f(ra(*i), rb(*i)), kind or _kindof(a, b))


def _map1(f, a, kind=None):
    if is_scalar(a):
        return f(a)
    rd = a.snap()
    if a.ndim == 0:
        return f(rd())
    return ndarray.make(a._dims, lambda *i: f(rd(*i)), kind or a.root.kind)


# ------------------------------------------------------------------ probes
def in_range(i, n):
    return band(compare('>=', i, 0), compare('<', i, n))


def probes():
    return ENG.registry.setdefault('probes', [])


def _tag(d):
    """identity of an index range (its extent); None fits every range"""
    if d is None:
        return None
    return ('c', d) if isinstance(d, int) else ('z', z3.simplify(d.e).get_id())


def add_probe(i, dim=None):
    """register an index term (of the range with this extent) at which lazily
    stated facts are instantiated"""
    tab = ENG.registry.setdefault('probetags', {})
    if isinstance(i, S):
        i = S(i.k, z3.simplify(i.e))
    k, t = _key(i), _tag(dim)
    if dim is not None:
        ENG.registry.setdefault('keep', []).append(dim)
    have = tab.get(k)
    if have is not None and (None in have or t in have):
        return i
    tab.setdefault(k, set()).add(t)
    if have is None:
        probes().append(i)
    for fact, ft in list(ENG.registry.setdefault('forall', [])):
        if ft is None or t is None or ft == t:
            if have is None or not (ft is None or ft in have):
                fact(i)
    return i


def forall(fact, dim=None):
    """fact(i) assumes an instance; applied to all present and future probes
    of the range (of every range when none is named)"""
    t = _tag(dim)
    if dim is not None:
        ENG.registry.setdefault('keep', []).append(dim)
    ENG.registry.setdefault('forall', []).append((fact, t))
    tab = ENG.registry.setdefault('probetags', {})
    for p in list(probes()):
        have = tab[_key(p)]
        if t is None or None in have or t in have:
            fact(p)


# ------------------------------------------------------------------ find
class FindInfo:
    ident = False

    def __init__(self, mask):
        self.n = mask.size if mask.ndim == 1 else mask.size
        rd = mask.snap()
        if mask.ndim == 1:
            m = lambda i: tobool(rd(i))
        elif mask.ndim == 2 and isinstance(mask._dims[1], int) and mask._dims[1] == 1:
            m = lambda i: tobool(rd(i, 0))
        elif mask.ndim == 2 and isinstance(mask._dims[0], int) and mask._dims[0] == 1:
            m = lambda i: tobool(rd(0, i))
        elif mask.ndim == 0:
            m = lambda i: tobool(rd())
        else:
            raise Unsupported('find on a matrix')
        self.m = m
        n = self.n
        self.conc = None
        if isinstance(n, int) and n <= 6:
            self.conc = [i for i in range(n) if ENG.branch(m(i))]
            self.count = len(self.conc)
            return
        # masks that are provably full or empty
        sk = ENG.fresh('fsk', 'i')
        add_probe(sk, n)
        v = m(sk)
        if v is True or (isinstance(v, S) and ENG.entails(core.implies(in_range(sk, n), v), cheap=120)):
            self.ident = True
            self.count = n
            return
        if v is False or (isinstance(v, S) and ENG.entails(core.implies(in_range(sk, n), core.bnot(v)), cheap=120)):
            self.conc = []
            self.count = 0
            return
        nm = ENG.fresh_name('find')
        self.f = z3.Function(nm + '.idx', z3.IntSort(), z3.IntSort())
        self.g = z3.Function(nm + '.pos', z3.IntSort(), z3.IntSort())
        self.count = S('i', z3.Int(nm + '.cnt'))
        ENG.assume(band(compare('>=', self.count, 0), compare('<=', self.count, n)))
        self._seen = set()
        self._kseen = []
        self._alias = {}
        forall(self.pos, n)
        add_probe(self.idx(0), n)

    def idx(self, k):
        if self.conc is not None:
            if isinstance(k, int):
                return self.conc[k] if 0 <= k < len(self.conc) else 0
            r = 0
            for j, c in enumerate(self.conc):
                r = ite(compare('==', k, j), c, r)
            return r
        if self.ident:
            return k
        _, ke = core.lift(k)
        e = self.f(ke)
        v = S('i', e)
        key = ('k', z3.simplify(ke).get_id())
        if key not in self._seen:
            self._seen.add(key)
            self._kseen.append(ke)
            g = in_range(k, self.count)
            ENG.assume(core.implies(g, band(in_range(v, self.n), S('b', self.g(e) == ke))))
            ENG.assume(core.implies(g, self.m(v)))
            for k2 in self._kseen[:-1]:
                ENG.assume_raw(z3.Implies(z3.And(ke >= 0, ke < self.count.e, k2 >= 0, k2 < self.count.e),
                                          z3.And((ke < k2) == (self.f(ke) < self.f(k2)), (ke == k2) == (self.f(ke) == self.f(k2)))))
            self._seen.add(('i', z3.simplify(e).get_id()))
            self._alias[z3.simplify(e).get_id()] = (k, e)
            if not is_bound(ke):
                add_probe(v, self.n)
        return v

    def pos(self, i):
        if self.conc is not None:
            if isinstance(i, int):
                return self.conc.index(i) if i in self.conc else 0
            r = 0
            for j, c in enumerate(self.conc):
                r = ite(compare('==', i, c), j, r)
            return r
        if self.ident:
            return i
        _, ie = core.lift(i)
        p = S('i', self.g(ie))
        al = self._alias.get(z3.simplify(ie).get_id())
        if al is not None:
            return al[0] if isinstance(al[0], S) else S('i', z3.IntVal(al[0]))
        key = ('i', z3.simplify(ie).get_id())
        if key not in self._seen:
            self._seen.add(key)
            self._keep = getattr(self, '_keep', []) + [ie]
            c = band(in_range(i, self.n), self.m(i))
            ENG.assume(core.implies(c, band(in_range(p, self.count), S('b', self.f(self.g(ie)) == ie))))
            if not is_bound(ie):
                add_probe(p, self.count)
        return p

    def inv(self, i):
        return band(in_range(i, self.n), self.m(i)), self.pos(i)

    def array(self):
        return ndarray.make((self.count,), lambda k: self.idx(k), 'i', self.inv)


def find_info(mask):
    if is_scalar(mask):
        mask = asarray0(mask)
    fn = mask.root.fn
    key = (fn.uid, tuple(str(m) for m in mask.rmap), tuple(str(d) for d in mask._dims))
    cache = ENG.registry.setdefault('finds', {})
    if key not in cache:
        cache[key] = (FindInfo(mask), fn)
    return cache[key][0]


def any_one(dims):
    return builtins.any(isinstance(d, int) and d == 1 for d in dims)


def _mask2_read(a, mask):
    if a.ndim != 2 or mask.ndim != 2:
        raise Unsupported('matrix mask')
    _check_same(a._dims, mask._dims)
    mr, ar = mask.snap(), a.snap()
    r, c = a._dims
    if isinstance(c, int) and c == 1:
        fi = find_info(mask)
        return (fi.count,), (lambda k: ar(fi.idx(k), 0)), None
    if isinstance(r, int) and r == 1:
        fi = find_info(mask)
        return (fi.count,), (lambda k: ar(0, fi.idx(k))), None
    const = mask_const(mask)
    if const is False:
        return (0,), (lambda k: 0.0), None
    nm = ENG.fresh_name('find2')
    fr = z3.Function(nm + '.r', z3.IntSort(), z3.IntSort())
    fc = z3.Function(nm + '.c', z3.IntSort(), z3.IntSort())
    cnt = S('i', z3.Int(nm + '.cnt'))
    ENG.assume(compare('>=', cnt, 0))
    ENG.assume(compare('<=', cnt, arith('*', r, c)))
    if const is True:
        # every element is selected
        ENG.assume(core.implies(band(compare('>=', r, 1), compare('>=', c, 1)), band(compare('>=', cnt, r), compare('>=', cnt, c))))

    def rd(k):
        ke = core.lift(k)[1]
        i, j = S('i', fr(ke)), S('i', fc(ke))
        g = in_range(k, cnt)
        ENG.assume(core.implies(g, band(in_range(i, r), in_range(j, c))))
        ENG.assume(core.implies(g, mr(i, j)))
        return ar(i, j)
    return (cnt,), rd, None


def mask_const(mask):
    """True/False when the mask is provably full/empty, else None"""
    ix = []
    for d in mask._dims:
        k = ENG.fresh('msk', 'i')
        add_probe(k, d)
        ix.append(k)
    v = tobool(mask.at(*ix))
    if isinstance(v, bool):
        return v
    g = band(True, *[in_range(i, d) for i, d in zip(ix, mask._dims)])
    if ENG.entails(core.implies(g, core.bnot(v)), cheap=120):
        return False
    if ENG.entails(core.implies(g, v)):
        return True
    return None


def flatnonzero(a):
    a = asarray(a)
    if a.ndim == 2 and not any_one(a._dims) and mask_const(a) is False:
        return arange(0, 0)
    return find_info(asarray(a)).array()


def nonzero(a):
    a = asarray(a)
    if a.ndim == 1:
        return (flatnonzero(a),)
    raise Unsupported('nonzero of a matrix')


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    return ew3(ite, c, x, y)


def ew3(f, a, b, c):
    dims = ()
    for v in (a, b, c):
        if isinstance(v, ndarray):
            dims = _bshape(dims, v._dims)
    ra, rb, rc = (_bcast_reader(v, dims) for v in (a, b, c))
    if not dims:
        return f(ra(), rb(), rc())
    return ndarray.make(dims, lambda *i: f(ra(*i), rb(*i), rc(*i)), _kindof(b, c))


# ------------------------------------------------------------------ creation
def asarray0(v):
    return ndarray(Store(Fn(lambda: v), (), _kindof(v)), (), [])


def array(v=None, dtype=None, ndmin=0, copy=True, **kw):
    if hasattr(v, '_lin_'):
        return v
    if isinstance(v, ndarray):
        return v.__copy__()
    if isinstance(v, SymList):
        return v._array_()
    if is_scalar(v):
        return asarray0(v)
    if isinstance(v, SRange):
        return arange(v.start, v.stop)
    if isinstance(v, range):
        v = list(v)
    if v is None:
        raise Unsupported('array(None)')
    if isinstance(v, (list, tuple)):
        items = list(v)
        if not items:
            return ndarray.make((0,), lambda i: 0.0, 'r')
        if any_py(hasattr(x, '_lin_') for x in items):
            raise Unsupported('array of lin')
        if all_py(is_scalar(x) for x in items):
            return ndarray.make((len(items),), lambda i: _pick(items, i), _kindof(*items))
        subs = [array(x) for x in items]
        nd = subs[0].ndim
        if any_py(s.ndim != nd for s in subs):
            raise ValueError('inhomogeneous shape')
        for s in subs[1:]:
            for x, y in zip(s._dims, subs[0]._dims):
                if not ENG.branch(compare('==', x, y)):
                    raise ValueError('inhomogeneous shape')
        rds = [s.snap() for s in subs]
        return ndarray.make((len(items),) + subs[0]._dims, lambda i, *r: _pick_f(rds, i, r), _kindof(*subs))
    if isinstance(v, str):
        raise Unsupported('array of string')
    # any other python object becomes a 0-d object array
    return asarray0(v) if False else ObjArray(v)


class ObjArray:
    """np.array(obj) of a non-numeric object: only its size is meaningful"""
    size = 1
    shape = ()
    ndim = 0

    def __init__(self, v):
        self.v = v


def _pick(items, i):
    if isinstance(i, int):
        return items[i] if 0 <= i < len(items) else items[0]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = ite(compare('==', i, k), items[k], r)
    return r


def _pick_f(rds, i, r):
    if isinstance(i, int):
        return rds[i](*r) if 0 <= i < len(rds) else rds[0](*r)
    v = rds[-1](*r)
    for k in range(len(rds) - 2, -1, -1):
        v = ite(compare('==', i, k), rds[k](*r), v)
    return v


def asarray(v, *a, **k):
    if isinstance(v, ndarray) or hasattr(v, '_lin_'):
        return v
    return array(v)


def _shape_arg(shape):
    if isinstance(shape, ndarray):
        n = shape._dims[0] if shape.ndim else None
        if shape.ndim == 0:
            return (shape.at(),)
        if not isinstance(n, int):
            raise Unsupported('symbolic shape vector')
        return tuple(shape.at(i) for i in range(n))
    if is_scalar(shape):
        return (shape,)
    return tuple(s._scalar_() if isinstance(s, ndarray) else s for s in shape)


def full_(shape, v):
    shape = _shape_arg(shape)
    for d in shape:
        if isinstance(d, float) or (isinstance(d, S) and d.k == 'r'):
            if isinstance(d, S) and z3.is_to_real(d.e):
                continue
            raise TypeError("'float' object cannot be interpreted as an integer")
        if ENG.branch(compare('<', d, 0)):
            raise ValueError('negative dimensions are not allowed')
    return ndarray.make(shape, lambda *i: v, 'r')


def zeros(shape=None, dtype=None, **k):
    return full_(shape, 0.0)


def ones(shape=None, dtype=None, **k):
    return full_(shape, 1.0)


def empty(shape, *a, **k):
    r = full_(shape, 0.0)
    nm = ENG.fresh_name('empty')
    return havoc_array(nm, r._dims)


def full(shape, v, **k):
    return full_(shape, v)


def zeros_like(a, **k):
    if a is None:
        return asarray0(0)
    a = asarray(a)
    if hasattr(a, '_lin_'):
        return a * 0
    return full_(a._dims, 0.0)


def ones_like(a, **k):
    return full_(asarray(a)._dims, 1.0)


def eye(n, *a, **k):
    if isinstance(n, ndarray):
        n = n._scalar_()
    if ENG.branch(compare('<', n, 0)):
        raise ValueError('negative dimensions')
    return ndarray.make((n, n), lambda i, j: ite(compare('==', i, j), 1.0, 0.0), 'r')


identity = eye


def arange(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if step != 1:
        raise Unsupported('arange step')
    ln = arith('-', b, a)
    if isinstance(ln, int):
        ln = builtins.max(0, ln)
    elif ENG.branch(compare('<', ln, 0)):
        ln = 0
    inv = lambda i: (in_range(arith('-', i, a), ln), arith('-', i, a))
    r = ndarray.make((ln,), lambda i: arith('+', a, i), 'i', inv)
    if not isinstance(ln, int):
        r.span = (a, b, r.root.fn)      # iterating over it (unwritten) is iterating over the range
    return r


def diag(a, k=0):
    if hasattr(a, '_lin_'):
        return a.diag_()
    a = asarray(a)
    rd = a.snap()
    if a.ndim == 1:
        n = a._dims[0]
        return ndarray.make((n, n), lambda i, j: ite(compare('==', i, j), rd(i) if not isinstance(i, int) or not isinstance(n, int) or i < n else 0.0, 0.0), 'r')
    n = a._dims[0]
    if not ENG.entails(compare('==', n, a._dims[1])):
        raise Unsupported('diagonal of a rectangular matrix')
    return ndarray.make((n,), lambda i: rd(i, i), 'r')


def copy(a):
    return asarray(a).__copy__()


def havoc_array(name, dims, kind='r', fact=None):
    """array with arbitrary content; fact(idx, value) -> assumption at each read"""
    sort = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}
    nd = len(dims)
    if kind == 'x':
        fk = z3.Function(name + '.k', *([z3.IntSort()] * nd + [z3.IntSort()]))
        fr = z3.Function(name + '.v', *([z3.IntSort()] * nd + [z3.RealSort()]))

        def rd(*idx):
            ie = [core.lift(i)[1] for i in idx]
            k = fk(*ie)
            ENG.assume_raw(z3.And(k >= -1, k <= 2))
            v = S('x', (k, fr(*ie)))
            if fact:
                ENG.assume(fact(idx, v))
            return v
        return ndarray.make(dims, rd, 'r')
    F = z3.Function(name, *([z3.IntSort()] * nd + [sort[kind]])) if nd else None

    def rd(*idx):
        if nd == 0:
            e = z3.Const(name, sort[kind])
        else:
            e = F(*[core.lift(i)[1] for i in idx])
        v = S(kind, e)
        if fact:
            r = fact(idx, v)
            if r is not None:
                ENG.assume(r)
        return v
    return ndarray.make(dims, rd, kind)


def havoc_content(a, name, fact=None):
    """overwrite the whole storage seen through `a` with arbitrary values"""
    h = havoc_array(ENG.fresh_name(name), a._dims, a.root.kind, fact)
    rd = h.snap()
    a.write_all(rd)


# ------------------------------------------------------------------ joining
def vstack(arrs):
    arrs = [asarray(a) for a in arrs]
    if any_py(hasattr(a, '_lin_') for a in arrs):
        from . import lin
        return lin.vstack(arrs)
    out = []
    for a in arrs:
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            rd = a.snap()
            a = ndarray.make((1, a._dims[0]), (lambda rd: lambda i, j: rd(j))(rd), a.root.kind)
        out.append(a)
    return _join(out, 0)


def hstack(arrs):
    arrs = [asarray(a) for a in arrs]
    if any_py(hasattr(a, '_lin_') for a in arrs):
        from . import lin
        return lin.hstack(arrs)
    arrs = [a.reshape(1) if a.ndim == 0 else a for a in arrs]
    if arrs and arrs[0].ndim == 1:
        return _join(arrs, 0)
    return _join(arrs, 1)


def concatenate(arrs, axis=0):
    arrs = [asarray(a) for a in arrs]
    if any_py(hasattr(a, '_lin_') for a in arrs):
        from . import lin
        return (lin.vstack if axis == 0 else lin.hstack)(arrs)
    return _join(arrs, axis)


def _join(arrs, axis):
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if any_py(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    if axis >= nd:
        raise ValueError('axis out of bounds')
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not ENG.branch(compare('==', a._dims[k], arrs[0]._dims[k])):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    rds = [a.snap() for a in arrs]
    offs = [0]
    for a in arrs:
        offs.append(arith('+', offs[-1], a._dims[axis]))
    dims = list(arrs[0]._dims)
    dims[axis] = offs[-1]

    def rd(*idx):
        i = idx[axis]

        def sub(k):
            j = list(idx)
            j[axis] = arith('-', i, offs[k])
            return rds[k](*j)
        # first matching block
        def go(k):
            if k == len(rds) - 1:
                return sub(k)
            c = compare('<', i, offs[k + 1])
            if c is True:
                return sub(k)
            if c is False:
                return go(k + 1)
            return ite(c, sub(k), go(k + 1))
        return go(0)
    return ndarray.make(tuple(dims), rd, _kindof(*arrs))


def append(a, v, axis=None):
    if axis is not None:
        raise Unsupported('append axis')
    return _join([asarray(a).reshape(-1), asarray(v).reshape(-1) if not is_scalar(v) else array([v])], 0)


def delete(a, idx, axis=None):
    raise Unsupported('delete')


# ------------------------------------------------------------------ reductions
def reduce_any(a):
    if is_scalar(a):
        return tobool(a)
    rd = a.snap()
    if all_py(isinstance(d, int) and d <= 6 for d in a._dims):
        import itertools
        return bor(False, *[tobool(rd(*i)) for i in itertools.product(*[range(d) for d in a._dims])])
    b = ENG.fresh('any', 'b')
    w = [0 if isinstance(d, int) and d == 1 else ENG.fresh('anyw', 'i') for d in a._dims]
    ENG.assume(core.implies(b, band(*[in_range(i, d) for i, d in zip(w, a._dims)])))
    ENG.assume(core.implies(b, rd(*w)))
    if a.ndim == 1:
        forall(lambda i: ENG.assume(core.implies(band(bnot(b), in_range(i, a._dims[0])), bnot(tobool(rd(i))))), a._dims[0])
    elif a.ndim == 2:
        dims = a._dims
        one0, one1 = isinstance(dims[0], int) and dims[0] == 1, isinstance(dims[1], int) and dims[1] == 1
        if one1:
            forall(lambda i: ENG.assume(core.implies(band(bnot(b), in_range(i, dims[0])), bnot(tobool(rd(i, 0))))), dims[0])
        elif one0:
            forall(lambda i: ENG.assume(core.implies(band(bnot(b), in_range(i, dims[1])), bnot(tobool(rd(0, i))))), dims[1])
        else:
            P, Q = [], []

            def fp(p):
                P.append(p)
                for q in list(Q):
                    ENG.assume(core.implies(band(bnot(b), in_range(p, dims[0]), in_range(q, dims[1])), bnot(tobool(rd(p, q)))))

            def fq(q):
                Q.append(q)
                for p in list(P):
                    ENG.assume(core.implies(band(bnot(b), in_range(p, dims[0]), in_range(q, dims[1])), bnot(tobool(rd(p, q)))))
            forall(fp, dims[0])
            forall(fq, dims[1])
    for i, d in zip(w, a._dims):
        add_probe(i, d)
    return b


def any(a, *r):
    return reduce_any(asarray(a))


def all(a, *r):
    return asarray(a).all()


def reduce_max(a, mn, nan_ok=False):
    """(value, flat index) of the maximum (minimum)"""
    a = asarray(a)
    rd0 = a.snap()
    if a.ndim == 0:
        return rd0(), 0
    big = [k for k, d in enumerate(a._dims) if not (isinstance(d, int) and d == 1)]
    if len(big) > 1:
        nd = a.ndim
        if all_py(isinstance(d, int) for d in a._dims):
            a = a.reshape(-1)
            rd0 = a.snap()
            big = [0]
        else:
            # matrix: value only
            sz = a.size
            if ENG.branch(compare('==', sz, 0)):
                raise ValueError('zero-size array to reduction operation')
            m = ENG.fresh('mmax', 'r')
            w = [ENG.fresh('mmaxw', 'i') for _ in a._dims]
            ENG.assume(band(*[in_range(i, d) for i, d in zip(w, a._dims)]))
            ENG.assume(core.same(m, rd0(*w)))
            return m, None
    if big:
        ax = big[0]
        n = a._dims[ax]
        nd = a.ndim
        rd = lambda i: rd0(*[i if k == ax else 0 for k in range(nd)])
    else:
        n = 1
        nd = a.ndim
        rd = lambda i: rd0(*([0] * nd))
    if isinstance(n, int):
        if n == 0:
            raise ValueError('zero-size array to reduction operation has no identity')
        if n <= 4:
            v, p = rd(0), 0
            for i in range(1, n):
                e = rd(i)
                c = compare('<', e, v) if mn else compare('>', e, v)
                v, p = ite(c, e, v), ite(c, i, p)
            return v, p
    if ENG.branch(compare('==', n, 0)):
        raise ValueError('zero-size array to reduction operation has no identity')
    nm = 'min' if mn else 'max'
    kinds = a.root.kind
    w = ENG.fresh(nm + 'w', 'i')
    ENG.assume(in_range(w, n))
    add_probe(w, n)
    m = rd(w)
    op = '>=' if mn else '<='
    forall(lambda i: ENG.assume(core.implies(in_range(i, n), compare(op, rd(i), m))), n)
    strict = '>' if mn else '<'
    # first position attaining the extremum
    forall(lambda i: ENG.assume(core.implies(band(compare('>=', i, 0), compare('<', i, w)), compare(strict, rd(i), m))), n)
    return m, w


def nanmax(a): return reduce_max(a, False)[0]
def nanmin(a): return reduce_max(a, True)[0]
def nanargmax(a): return reduce_max(a, False)[1]
def nanargmin(a): return reduce_max(a, True)[1]
def amax(a, *r): return reduce_max(a, False)[0]
def amin(a, *r): return reduce_max(a, True)[0]
def argmax(a, *r): return reduce_max(a, False)[1]
def argmin(a, *r): return reduce_max(a, True)[1]


KVAR = z3.Int('k!sum')


def is_bound(e):
    """an index term that is (or contains) the bound variable of a sum"""
    return bool(ENG.sumvars) and core.mentions(z3.simplify(e), ENG.sumvars)


def sum_term(n, f):
    """sum_{0<=k<n} f(k) as a scalar; equal summands give equal terms"""
    if isinstance(n, int) and n <= 4:
        r = 0.0 if n == 0 else f(0)
        for k in range(1, n):
            r = arith('+', r, f(k))
        return r
    depth = len(ENG.sumvars)
    kz = KVAR if depth == 0 else z3.Int('k!sum%d' % depth)
    ENG.sumvars.append(kz)
    try:
        body = f(S('i', kz))
    finally:
        ENG.sumvars.pop()
    if is_scalar(body) and not isinstance(body, S) and body == 0:
        return 0.0
    kb, eb = core.lift(body)
    if kb == 'x':
        raise Unsupported('sum of extended reals')
    eb = z3.simplify(core._real(kb, eb), som=True)
    ne = z3.simplify(core._int(*core.lift(n)))
    outer = []
    if depth:
        # a sum inside a sum: a function of the outer bound variables it uses
        outer = [v for v in ENG.sumvars if core.mentions(eb, [v]) or core.mentions(ne, [v])]
        if not outer:
            eb = z3.simplify(z3.substitute(eb, (kz, KVAR)), som=True)
    key = (ne.get_id(), eb.get_id())
    if key in ENG.sums:
        return ENG.sums[key][0]
    r = ENG.fresh('sum', 'r')
    if outer:
        r = S('r', z3.Function('f' + str(r.e), *([z3.IntSort()] * len(outer)), z3.RealSort())(*outer))
        f = None
    ENG.sums[key] = (r, ne, eb, f, n)
    return r


def _goal_names(goal):
    """the constants a goal depends on, and the sums under its square roots"""
    names = core.consts(goal)
    roots = ENG.registry.get('sqrts', {})
    for x in list(names):
        if x in roots:
            names = names | core.consts(roots[x])
    return names


def _sums():
    return [(r, n, f) for r, ne, eb, f, n in ENG.sums.values() if f is not None]


def sum_lemma_applies(goal):
    if len(ENG.sums) < 2:
        return False
    names = _goal_names(goal)
    return any_py(r.e in names for r, n, f in _sums())


def sum_lemma(goal):
    """lemma: sums of as many, pairwise equal, terms are equal, and so are
    their square roots; used for the sums that a goal not yet proved depends
    on.  Gives forms of the goal to be tried."""
    names = _goal_names(goal)
    cand = _sums()
    new, subst = False, {}
    for i in range(len(cand)):
        for j in range(i):
            (r1, n1, f1), (r2, n2, f2) = cand[i], cand[j]
            if not (r1.e in names or r2.e in names):
                continue
            if not ENG.entails(core.same(n1, n2), cheap=1000) or ENG.entails(core.same(r1, r2), cheap=1000):
                continue
            q = ENG.fresh('comp', 'i')
            add_probe(q, n1)
            if ENG.entails(core.implies(in_range(q, n1), core.same(f1(q), f2(q)))):
                ENG.assume(core.same(r1, r2))
                subst.setdefault(r1.e, r2.e)
                new = True
    roots = list(ENG.registry.get('sqrts', {}).items())
    for i in range(len(roots)):
        for j in range(i):
            (x1, e1), (x2, e2) = roots[i], roots[j]
            if (x1 in names or x2 in names) and ENG.entails(e1 == e2, cheap=1000):
                ENG.assume_raw(x1 == x2)
                subst.setdefault(x1, x2)
                new = True
    return (goal, z3.simplify(z3.substitute(goal, *subst.items()))) if new else ()


ENG.lemma, ENG.lemma_applies = sum_lemma, sum_lemma_applies


def sum_(a, axis=None):
    a = asarray(a)
    rd = a.snap()
    if axis is None:
        big = [k for k, d in enumerate(a._dims) if not (isinstance(d, int) and d == 1)]
        if len(big) > 1:
            raise Unsupported('sum over a matrix')
        nd = a.ndim
        if not big:
            return rd(*([0] * nd))
        return sum_term(a._dims[big[0]], lambda k: rd(*[k if j == big[0] else 0 for j in range(nd)]))
    if a.ndim == 1:
        return sum_term(a._dims[0], rd)
    if axis == 0:
        return ndarray.make((a._dims[1],), lambda j: sum_term(a._dims[0], lambda k: rd(k, j)), 'r')
    return ndarray.make((a._dims[0],), lambda i: sum_term(a._dims[1], lambda k: rd(i, k)), 'r')


def sum(a, axis=None, **k):
    return sum_(a, axis)


def dot(a, b):
    if hasattr(a, '_lin_') or hasattr(b, '_lin_'):
        from . import lin
        return lin.dot(a, b)
    if is_scalar(a) or is_scalar(b):
        return a * b
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    ra, rb = a.snap(), b.snap()
    na = a._dims[-1]
    nb = b._dims[0]
    if not ENG.branch(compare('==', na, nb)):
        raise ValueError('shapes not aligned')
    n = na if isinstance(na, int) else nb

    def mul(x, y):
        return arith('*', x, y)
    if a.ndim == 1 and b.ndim == 1:
        return sum_term(n, lambda k: mul(ra(k), rb(k)))
    if a.ndim == 2 and b.ndim == 1:
        return ndarray.make((a._dims[0],), lambda i: sum_term(n, lambda k: mul(ra(i, k), rb(k))), 'r')
    if a.ndim == 1 and b.ndim == 2:
        return ndarray.make((b._dims[1],), lambda j: sum_term(n, lambda k: mul(ra(k), rb(k, j))), 'r')
    return ndarray.make((a._dims[0], b._dims[1]), lambda i, j: sum_term(n, lambda k: mul(ra(i, k), rb(k, j))), 'r')


matmul = dot


def outer(a, b):
    if hasattr(a, '_lin_') or hasattr(b, '_lin_'):
        a, b = a.reshape(-1, 1), b.reshape(1, -1)
        return dot(a, b)
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    ra, rb = a.snap(), b.snap()
    return ndarray.make((a._dims[0], b._dims[0]), lambda i, j: arith('*', ra(i), rb(j)), 'r')


def vdot(a, b):
    return dot(a.reshape(-1), b.reshape(-1))


def inner(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


# ------------------------------------------------------------------ elementwise
def _u1(f, kind=None):
    def g(a, *r, **k):
        if hasattr(a, '_lin_'):
            raise Unsupported('elementwise function of an abstract matrix')
        if isinstance(a, (list, tuple)):
            a = array(a)
        return _map1(f, a, kind)
    return g


def _lin_const(f, v):
    """elementwise test of a matrix whose entries are real numbers"""
    def g(a, *r, **k):
        if hasattr(a, '_lin_'):
            return full_(a.dims, v)
        return f(a)
    return g


isnan = _lin_const(_u1(core.isnan, 'b'), False)
isinf = _lin_const(_u1(core.isinf, 'b'), False)
isreal = _lin_const(_u1(lambda a: True, 'b'), True)
isfinite = _lin_const(_u1(lambda a: bnot(bor(core.isnan(a), core.isinf(a))), 'b'), True)
_sqrt = _u1(core.sqrt)


def _lin_or(f, m):
    def g(a, *r, **k):
        if hasattr(a, '_lin_'):
            return getattr(a, m)()
        return f(a)
    return g


def sqrt(a):
    if hasattr(a, '_lin_'):
        return core.sqrt(a._scalar_())
    return _sqrt(a)


absolute = fabs = abs = _u1(sabs)
sign = _u1(lambda a: ite(compare('>', a, 0), 1.0, ite(compare('<', a, 0), -1.0, 0.0)))
square = _u1(lambda a: arith('*', a, a))


def real(a):
    return a


def imag(a):
    return a * 0


conj = real


def exp(a):
    raise Unsupported('exp')


def _b2(f, kind=None):
    def g(a, b, *r, **k):
        if hasattr(a, '_lin_'):
            a = a._scalar_()
        if hasattr(b, '_lin_'):
            b = b._scalar_()
        return ew(f, a, b, kind)
    return g


fmin = _b2(core.fmin)
fmax = _b2(core.fmax)
minimum = _b2(core.smin)
maximum = _b2(core.smax)
logical_and = _b2(lambda a, b: band(a, b), 'b')
logical_or = _b2(lambda a, b: bor(a, b), 'b')
logical_not = _u1(bnot, 'b')


def nan_to_num(a):
    return _map1(lambda v: ite(core.isnan(v), 0.0, v), asarray(a))


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


def transpose(a):
    return asarray(a).T


def reshape(a, s):
    return asarray(a).reshape(s)


def ndim(a):
    return asarray(a).ndim


class SortInfo:
    """a permutation that puts the values of a vector in ascending order"""
    def __init__(self, a):
        self.n, self.rd = a._dims[0], a.snap()
        nm = ENG.fresh_name('sort')
        self.f = z3.Function(nm + '.perm', z3.IntSort(), z3.IntSort())
        self.g = z3.Function(nm + '.rank', z3.IntSort(), z3.IntSort())
        self.seen, self.ks, self.vals = set(), [], []

    def perm(self, k):
        _, ke = core.lift(k)
        v = S('i', self.f(ke))
        key = ('k', z3.simplify(ke).get_id())
        if key not in self.seen:
            self.seen.add(key)
            self.ks.append(ke)
            ENG.assume(core.implies(in_range(k, self.n), band(in_range(v, self.n), S('b', self.g(v.e) == ke))))
            val = self.rd(v)
            for k2, v2 in self.vals:
                both = band(in_range(k, self.n), in_range(k2, self.n))
                ENG.assume(core.implies(band(both, compare('<=', k, k2)), compare('<=', val, v2)))
                ENG.assume(core.implies(band(both, compare('<=', k2, k)), compare('<=', v2, val)))
            self.vals.append((k, val))
            if not is_bound(ke):
                add_probe(v, self.n)
        return v

    def rank(self, i):
        _, ie = core.lift(i)
        k = S('i', self.g(ie))
        key = ('i', z3.simplify(ie).get_id())
        if key not in self.seen:
            self.seen.add(key)
            self.ks.append(ie)
            ENG.assume(core.implies(in_range(i, self.n), band(in_range(k, self.n), S('b', self.f(k.e) == ie))))
        return k


def _sortinfo(a):
    if a.ndim != 1 or (isinstance(a._dims[0], int) and a._dims[0] == 0) or a.root.kind not in 'ri':
        raise Unsupported('sort')
    fn = a.root.fn
    key = (fn.uid, tuple(str(m) for m in a.rmap), tuple(str(d) for d in a._dims))
    cache = ENG.registry.setdefault('sorts', {})
    if key not in cache:
        cache[key] = (SortInfo(a), fn)
    return cache[key][0]


def sort(a, *r):
    a = asarray(a)
    si = _sortinfo(a)
    return ndarray.make(a._dims, lambda k: si.rd(si.perm(k)), a.root.kind)


def argsort(a, *r):
    a = asarray(a)
    si = _sortinfo(a)
    return ndarray.make(a._dims, si.perm, 'i', lambda i: (in_range(i, si.n), si.rank(i)))


def setdiff1d(a, b):
    a = asarray(a)
    b = asarray(b)
    if isinstance(b.size, int) and b.size == 0:
        return a.reshape(-1).__copy__()
    raise Unsupported('setdiff1d')


def ix_(a, b):
    raise Unsupported('ix_')


def compress(*a, **k):
    raise Unsupported('compress')


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._dims, b._dims):
        if not ENG.branch(compare('==', x, y)):
            return False
    return (a == b).all()


def isscalar(a):
    return is_scalar(a)


def float64(v=0.0):
    return v


class poly1d:
    """roots of a quadratic with real roots"""
    def __init__(self, c):
        c = [x if is_scalar(x) else asarray(x)._scalar_() for x in c]
        if len(c) != 3:
            raise Unsupported('poly1d of this degree')
        self.c = c

    @property
    def r(self):
        a, b, c = self.c
        disc = arith('-', arith('*', b, b), arith('*', 4.0, arith('*', a, c)))
        if not ENG.entails(core.tobool(band(compare('>=', disc, 0), compare('!=', a, 0)))):
            raise Unsupported('poly1d with possibly complex roots')
        q = core.sqrt(disc)
        d = arith('*', 2.0, a)
        r = [arith('/', arith('-', q, b), d), arith('/', arith('-', arith('-', 0.0, q), b), d)]
        return array(r)

    roots = r


def hook(name, *args, **kw):
    h = ENG.registry.get('hooks', {}).get(name)
    if h is None:
        raise Unsupported('numpy function ' + name)
    return h(*args, **kw)


class LinAlgError(ValueError):
    pass


class linalg:
    LinAlgError = LinAlgError

    @staticmethod
    def norm(a, ord=None, axis=None):
        if hasattr(a, '_lin_'):
            return a.norm(ord)
        return norm(a, ord, axis)

    @staticmethod
    def solve(a, b):
        if hasattr(a, '_lin_') or hasattr(b, '_lin_'):
            from . import lin
            return lin.solve(a, b)
        return hook('solve', a, b)

    @staticmethod
    def inv(a):
        if hasattr(a, '_lin_'):
            return a.inv_()
        return hook('inv', a)

    @staticmethod
    def pinv(a):
        if hasattr(a, '_lin_'):
            return a.pinv()
        return hook('pinv', a)

    @staticmethod
    def qr(a, *r):
        if hasattr(a, '_lin_'):
            return a.qr()
        return hook('qr', a)

    @staticmethod
    def svd(a, *r, **k):
        if hasattr(a, '_lin_'):
            return a.svd(*r, **k)
        return hook('svd', a, *r, **k)

    @staticmethod
    def eigh(a):
        if hasattr(a, '_lin_'):
            return a.eigh()
        return hook('eigh', a)

    @staticmethod
    def eigvalsh(a):
        if hasattr(a, '_lin_'):
            return a.eigvalsh()
        return hook('eigvalsh', a)

    @staticmethod
    def eig(a):
        if hasattr(a, '_lin_'):
            return a.eig()
        return hook('eig', a)

    @staticmethod
    def eigvals(a):
        return hook('eigvals', a)

    @staticmethod
    def cholesky(a):
        if hasattr(a, '_lin_'):
            return a.cholesky()
        return hook('cholesky', a)

    @staticmethod
    def cond(a):
        return hook('cond', a)

    @staticmethod
    def lstsq(*a, **k):
        return hook('lstsq', *a, **k)


def norm(a, ord=None, axis=None):
    if axis is not None:
        raise Unsupported('norm axis')
    if is_scalar(a):
        return sabs(a)
    a = asarray(a)
    rd0 = a.snap()
    big = [k for k, d in enumerate(a._dims) if not (isinstance(d, int) and d == 1)]
    if len(big) > 1:
        big = [k for k in big if isinstance(a._dims[k], int) or not ENG.entails(compare('==', a._dims[k], 1))]
    nd = a.ndim
    if len(big) > 1:
        if ord not in (2, None, 'fro', inf):
            raise Unsupported('norm order')
        h = ENG.registry.get('hooks', {}).get('matnorm')
        r = ENG.fresh('matnorm', 'r')
        ENG.assume(compare('>=', r, 0))
        return r
    if not big:
        return sabs(rd0(*([0] * nd)))
    ax = big[0]
    n = a._dims[ax]
    rd = lambda i: rd0(*[i if k == ax else 0 for k in range(nd)])
    if ord in (None, 2, 'fro'):
        s = sum_term(n, lambda k: arith('*', rd(k), rd(k)))
        if isinstance(s, S):
            ENG.assume(compare('>=', s, 0))
        key = ('norm2', str(s.e) if isinstance(s, S) else s)
        if key in ENG.registry:
            return ENG.registry[key]
        r = core.sqrt(s)
        ENG.registry[key] = r
        if isinstance(r, S) and not ENG.registry.get('no norm components'):
            forall(lambda i: ENG.assume(core.implies(in_range(i, n), compare('<=', sabs(rd(i)), r))), n)
        return r
    if ord == inf:
        m, w = reduce_max(ndarray.make((n,), lambda i: sabs(rd(i)), 'r'), False)
        return m
    raise Unsupported('norm order %s' % (ord,))


# ------------------------------------------------------------------ python builtins for the code under test
class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


def py_range(*a):
    a = [x._scalar_() if isinstance(x, ndarray) else x for x in a]
    if all_py(isinstance(x, int) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, float) or (isinstance(x, S) and x.k in 'rxb'):
            raise TypeError('range needs integers')
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    raise Unsupported('symbolic range with step')


def py_len(x):
    if isinstance(x, ndarray):
        if not x._dims:
            raise TypeError('len() of unsized object')
        return x._dims[0]
    if isinstance(x, SRange):
        return smax0(arith('-', x.stop, x.start))
    if hasattr(x, '_lin_'):
        return x.shape[0]
    return builtins.len(x)


def smax0(v):
    return ite(compare('>', v, 0), v, 0)


def py_abs(x):
    return builtins.abs(x)


def py_max(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    if any_py(isinstance(x, S) for x in a) and all_py(is_scalar(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = ite(compare('>', x, r), x, r)
        return r
    return builtins.max(a, **k)


def py_min(*a, **k):
    if len(a) == 1:
        a = tuple(a[0])
    if any_py(isinstance(x, S) for x in a) and all_py(is_scalar(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = ite(compare('<', x, r), x, r)
        return r
    return builtins.min(a, **k)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, S) and x.k == 'i')


class py_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, ndarray):
            x = x._scalar_()
        if isinstance(x, S):
            if x.k == 'i':
                return x
            if x.k == 'b':
                return ite(x, 1, 0)
            if x.k == 'r':
                # truncation toward zero
                e = z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))
                return core.mk('i', e)
            raise Unsupported('int of extended real')
        return builtins.int(x, *a)


class SymList:
    """list(a) of an array of symbolic length: a separate sequence"""
    def __init__(self, a):
        self.a = a.__copy__()

    def _array_(self):
        return self.a.__copy__()

    def __len__(self):
        raise Unsupported('len of a list of symbolic length')

    def length(self):
        return self.a._dims[0]

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymList(self.a[k])
        return self.a[k]

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length')


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, SymList))


class py_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, ndarray) and x.ndim == 1 and not isinstance(x._dims[0], int):
            return SymList(x)
        if isinstance(x, SymList):
            return SymList(x.a)
        return builtins.list(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, S) and x.k in 'rx')


class py_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, ndarray):
            x = x._scalar_()
        if hasattr(x, '_lin_'):
            x = x._scalar_()
        if isinstance(x, S):
            if x.k in 'rx':
                return x
            return core.mk('r', core._real(x.k, x.e))
        return builtins.float(x)


def py_sum(x, start=0):
    if isinstance(x, ndarray):
        return sum_(x)
    return builtins.sum(x, start)


def py_round(x, *a):
    raise Unsupported('round')


def py_str(x=''):
    return builtins.str(x)
