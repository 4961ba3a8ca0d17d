"""Mechanical, meaning-preserving rewrites applied to the source before it is
executed symbolically.

Bools   `a and b` in the test of if/while/assert/conditional/not, when the
        operands cannot have effects, becomes one decision instead of one per
        operand (a later operand that raises is evaluated only on the paths on
        which Python would evaluate it).
Merge   `if c: v = e1 [else: v = e2]` whose branches only assign names to
        effect-free scalar expressions yields one conditional value instead of
        two paths (anything that cannot be merged is executed path by path).
Blocks  a statement under a block contract is verified once and replaced by
        its contract elsewhere."""
import ast
from . import core
from .core import ENG, S, is_scalar, Unsupported


def pure(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return not isinstance(e, ast.Name) or isinstance(e.ctx, ast.Load)
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops) and len(e.ops) == 1 and \
            pure(e.left) and all(pure(c) for c in e.comparators)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and pure(e.left) and pure(e.right)
    if isinstance(e, ast.UnaryOp):
        return pure(e.operand)
    if isinstance(e, ast.BoolOp):
        return all(pure(v) for v in e.values)
    if isinstance(e, ast.Subscript):
        s = e.slice
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub):
            s = s.operand
        return isinstance(s, ast.Constant) and isinstance(s.value, int) and pure(e.value)
    if isinstance(e, ast.Call):
        f = e.func
        return isinstance(f, ast.Name) and (f.id in ('abs', '__bools__', '__thunk__')) and not e.keywords and all(pure(a) or isinstance(a, ast.Lambda) for a in e.args)
    return False


class Bools(ast.NodeTransformer):
    def _test(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=self._test(e.operand)), e)
        if isinstance(e, ast.BoolOp) and all(pure(v) for v in e.values):
            lam = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self._test(v)) for v in e.values]
            return ast.copy_location(ast.Call(func=ast.Name(id='__bools__', ctx=ast.Load()),
                                              args=[ast.Constant('and' if isinstance(e.op, ast.And) else 'or')] + lam, keywords=[]), e)
        if isinstance(e, ast.BoolOp):
            return ast.copy_location(ast.BoolOp(op=e.op, values=[self._test(v) for v in e.values]), e)
        return e

    def visit_ClassDef(self, n):
        return n

    def _v(self, n):
        self.generic_visit(n)
        n.test = self._test(n.test)
        return n
    visit_If = visit_While = visit_Assert = visit_IfExp = _v


def as_bool(v):
    """S/bool for a scalar truth value, None when only bool() can decide"""
    if isinstance(v, S):
        return core.tobool(v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return bool(v)
    if hasattr(v, 'root') and all(isinstance(d, int) and d == 1 for d in v._dims):
        return core.tobool(v.at(*([0] * len(v._dims))))
    return None


def bools(op, *thunks):
    """value of a conjunction / disjunction of effect-free operands"""
    stop = op == 'or'
    acc = []

    def combine():
        return core.bor(*acc) if stop else core.band(*acc)
    for k, t in enumerate(thunks):
        try:
            v = t()
            b = as_bool(v)
            if b is None:
                raise TypeError
        except (Exception, Unsupported):
            if acc:
                c = combine()
                if ENG.branch(c) == stop:
                    return stop
            v = t()
            b = as_bool(v)
            if b is None:
                b = bool(v)
            acc = []
        if isinstance(b, bool):
            if b == stop:
                return stop
            continue
        acc.append(b)
    if not acc:
        return not stop
    return combine()


class SymStr:
    """one of two strings"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _eq(self, o):
        def e(v):
            return v._eq(o) if isinstance(v, SymStr) else (v == o)
        return core.ite(self.c, e(self.a), e(self.b))

    def __eq__(self, o):
        return self._eq(o) if isinstance(o, str) else False

    def __ne__(self, o):
        return core.bnot(self._eq(o)) if isinstance(o, str) else True
    __hash__ = object.__hash__

    def __copy__(self):
        return self

    def __add__(self, o):
        return self

    def __radd__(self, o):
        return self

    def __str__(self):
        return '<string>'

    def resolve(self):
        v = self.a if core.ENG.branch(core.tobool(self.c)) else self.b
        return v.resolve() if isinstance(v, SymStr) else v


def pending(c):
    """is c a condition that both outcomes of are possible on this path"""
    if not isinstance(c, S):
        return False
    b = core.tobool(c)
    if isinstance(b, bool):
        return False
    import z3
    e = z3.simplify(b.e)
    if core.is_true(e) or core.is_false(e) or e.get_id() in ENG.known:
        return False
    for lit, val in ((e, False), (z3.Not(e), True)):
        if ENG.unsat(lit):
            n = z3.simplify(z3.Not(e))
            ENG.known[e.get_id()] = (val, e)
            ENG.known[n.get_id()] = (not val, n)
            return False
    return True


def merge(c, f, g, olds):
    from .loader import Unbound
    n = len(ENG.trace)
    try:
        a, b = f(*olds), g(*olds)
    except (Exception, Unsupported):
        if len(ENG.trace) != n:
            raise
        return None
    out = []
    for x, y in zip(a, b):
        if x is y:
            out.append(x)
        elif isinstance(x, (S, int, float)) and isinstance(y, (S, int, float)):
            bx, by = (isinstance(v, bool) or isinstance(v, S) and v.k == 'b' for v in (x, y))
            if bx != by:
                x, y = (core.ite(v, 1, 0) if isinstance(v, S) and v.k == 'b' else int(v) if isinstance(v, bool) else v for v in (x, y))
            try:
                out.append(core.ite(c, x, y))
            except Unsupported:
                return None
        elif isinstance(x, (str, SymStr)) and isinstance(y, (str, SymStr)):
            out.append(x if isinstance(x, str) and isinstance(y, str) and x == y else SymStr(core.tobool(c), x, y))
        else:
            return None
    return tuple(out)


def scalar_copy(v):
    if isinstance(v, (S, int, float, str, SymStr)):
        return v
    raise Unsupported('copy of a non-scalar in a merge')


class Merge(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def _simple(self, body):
        for st in body:
            if isinstance(st, ast.Pass):
                continue
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
                return False
            v = st.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'copy' and len(v.args) == 1 and not v.keywords:
                v = v.args[0]
            if not pure(v):
                return False
        return len(body) <= 4

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.body or not self._simple(n.body) or not self._simple(n.orelse):
            return n
        names = []
        for st in n.body + n.orelse:
            if isinstance(st, ast.Assign) and st.targets[0].id not in names:
                names.append(st.targets[0].id)
        if not names:
            return n
        u = self.k
        self.k += 1
        tup = '(' + ', '.join(names) + ',)'

        class Cp(ast.NodeTransformer):
            def visit_Call(s, c):
                s.generic_visit(c)
                if isinstance(c.func, ast.Name) and c.func.id == 'copy':
                    c.func = ast.Name(id='__scopy__', ctx=ast.Load())
                return c
        import copy

        def fn(nm, body):
            d = ast.parse('def %s(%s):\n    return %s' % (nm, ', '.join(names), tup)).body[0]
            d.body = [Cp().visit(copy.deepcopy(st)) for st in body if not isinstance(st, ast.Pass)] + d.body
            return d
        pre = ast.parse('_mc%d_ = 0\nif __pending__(_mc%d_):\n    pass\nelse:\n    _mr%d_ = None' % (u, u, u)).body
        pre[0].value = n.test
        pre[1].body = [fn('_mt%d_' % u, n.body), fn('_me%d_' % u, n.orelse)] + \
            ast.parse('_mr%d_ = __merge__(_mc%d_, _mt%d_, _me%d_, __olds__(locals(), %r))' % (u, u, u, u, tuple(names))).body
        post = ast.parse('if _mr%d_ is not None:\n    %s = _mr%d_\nelif _mc%d_:\n    pass' % (u, tup, u, u)).body[0]
        post.orelse[0].body = n.body
        post.orelse[0].orelse = n.orelse
        for o in pre + [post]:
            ast.copy_location(o, n)
        return pre + [post]


def olds(env, names):
    from .loader import Unbound
    return [env[n] if n in env else Unbound(n) for n in names]


BUILTINS = dict(__bools__=bools, __pending__=pending, __merge__=merge, __olds__=olds, __scopy__=scalar_copy)


# ------------------------------------------------------------------ mutation log
def muts():
    return ENG.registry.setdefault('mut', [])


class Marks:
    """positions in the mutation log around the havoc of a cut point"""
    def __init__(self, glob=None):
        self.m0 = len(muts())
        self.s0 = ENG.counters.get('storeno', 0)
        self.g = glob
        self.g0 = dict(glob) if glob is not None else None

    def havocked(self):
        self.m1 = len(muts())
        self.s1 = ENG.counters.get('storeno', 0)
        self.g1 = dict(self.g) if self.g is not None else None
        self.declared = set(k for k, _, _ in muts()[self.m0:self.m1])

    def check(self, what):
        bad = set()
        for key, no, desc in muts()[self.m1:]:
            if no > self.s0 or key in self.declared:
                continue
            bad.add(desc)
        if self.g is not None:
            for k, v in self.g.items():
                if v is not self.g1.get(k) and self.g1.get(k) is self.g0.get(k):
                    bad.add('global ' + k)
        if bad:
            raise Unsupported('%s modifies in place what its specification keeps: %s' % (what, sorted(bad)[:4]))


# ------------------------------------------------------------------ block contracts
class Track(dict):
    """environment that remembers which names were bound"""
    def __init__(self, d):
        dict.__init__(self, d)
        self.set = set()

    def __setitem__(self, k, v):
        self.set.add(k)
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v


class BlockSpec:
    """contract of one statement: locate(function ast) -> statement or None;
    havoc(env): rebind / overwrite what it may change; post(pre_env, env) ->
    [(label, formula)] over the new state"""
    fn = None
    unchanged = ()
    kept = ()
    defined = ()

    @classmethod
    def locate(cls, tree):
        return None

    def setup(self, env):
        pass

    def havoc(self, env):
        pass

    def post(self, env):
        return []

    def pre(self, env):
        return []


BLOCKSPECS = []


def wrap_blocks(fn, assigned):
    """put the located statements of function ast fn under their contracts"""
    done = []
    for spec in BLOCKSPECS:
        if spec.fn != fn.name:
            continue
        st = spec.locate(fn)
        if st is None:
            continue
        sts = st if isinstance(st, list) else [st]      # consecutive statements of one body
        k = len(done)
        st = sts[0]
        names = assigned(sts)
        B = '_B%d_' % k
        new = ast.parse('%s = __block__(%r, %r)\nif %s.enter(locals()):\n    %s.done(locals())' % (B, spec.__name__, names, B, B)).body
        new[1].body[:0] = sts
        if names:
            new += ast.parse('%s = %s.after(locals())' % ('(' + ', '.join(names) + ',)', B)).body
        else:
            new += ast.parse('%s.after(locals())' % B).body
        for o in new:
            if o not in sts:
                ast.copy_location(o, st)

        class R(ast.NodeTransformer):
            hit = False

            def generic_visit(s, n):
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    b = getattr(n, f, None)
                    if isinstance(b, list):
                        for j, x in enumerate(b):
                            if x is st and not s.hit:
                                b[j:j + len(sts)] = new
                                s.hit = True
                                return n
                            if not s.hit:
                                s.visit(x)
                return n
        r = R()
        r.visit(fn)
        done.append(spec)
    return done


class Block:
    def __init__(self, name, names):
        self.spec = [s for s in BLOCKSPECS if s.__name__ == name][0]
        self.names = names

    def enter(self, env):
        from .loader import prove_q
        from . import loader
        self.inst = self.spec()
        self.env0 = dict(env)
        self.inst.setup(env)
        for lbl, g, *d in self.inst.pre(env):
            prove_q('%s requires %s' % (self.spec.__name__, lbl), g, *d)
        self.verify = ENG.choose('block')
        self.glob = loader.globals_dict()
        self.marks = Marks(self.glob)
        self.marks.havocked()
        ENG.notes.append('block ' + self.spec.__name__ + (' verified' if self.verify else ''))
        return self.verify

    def done(self, env):
        from .loader import prove_q
        try:
            for lbl, g, *d in self.inst.post(env):
                prove_q('%s ensures %s' % (self.spec.__name__, lbl), g, *d)
        except (KeyError, AttributeError) as e:
            raise Unsupported('block specification of %s does not match the code (%s)' % (self.spec.__name__, e))
        from .loader import prove_kept
        prove_kept(self.spec.__name__, self.inst, self.env0, env)
        # what the block changed in place must be declared
        touched = [m for m in muts()[self.marks.m0:] if m[1] <= self.marks.s0]
        gch = [k for k, v in self.glob.items() if v is not self.marks.g0.get(k)] if self.glob is not None else []
        m2 = len(muts())
        g2 = dict(self.glob) if self.glob is not None else {}
        self.inst.havoc(dict(self.env0))
        decl = set(k for k, _, _ in muts()[m2:])
        bad = sorted(set(d for k, n, d in touched if k not in decl)) + [k for k in gch if self.glob[k] is g2[k]]
        if bad:
            raise Unsupported('block %s modifies in place what its contract keeps: %s' % (self.spec.__name__, bad[:4]))
        raise core.EndPath()

    def after(self, env):
        from .loader import assume_q, Unbound
        ENG.taint.append('block ' + self.spec.__name__)
        new = Track(env)
        try:
            self.inst.havoc(new)
            for lbl, g, *d in self.inst.post(new):
                assume_q(g, *d)
        except (KeyError, AttributeError) as e:
            raise Unsupported('block specification of %s does not match the code (%s)' % (self.spec.__name__, e))
        return tuple(new[n] if n in new and (n in new.set or n in self.inst.unchanged or n in self.inst.kept or n in self.inst.defined) else Unbound(n) for n in self.names)
