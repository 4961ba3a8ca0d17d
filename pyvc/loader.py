"""Loads the package under verification from its current source into an
isolated namespace in which numpy is the symbolic stand-in, loops are cut at
their invariants and functions under contract are called through contracts.

What the extraction changes, mechanically, on every run:
 * `for`/`while` get the loop-cut protocol (same body, same order, same exits);
 * expression statements that only print (print, disp_, fprintf_, fid writes)
   and `if` statements consisting only of those are dropped;
 * a bare `except:` catches Exception (engine control flow must pass through).
Nothing else of a function's text is altered."""
import ast, builtins, types, os, sys, hashlib
from . import core, snp
from .core import ENG, S, Unsupported, EndPath, is_scalar
from .sigs import SIGS
from . import xform

REPO = os.environ.get('PYVC_REPO', '/repo')
PRINTERS = {'print', 'disp_', 'fprintf_'}


def is_print_stmt(n):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        f = n.value.func
        if isinstance(f, ast.Name) and f.id in PRINTERS:
            return True
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return True
    return isinstance(n, ast.Pass)


def has_call(e):
    return any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(e))


def pure_test(e):
    """calls allowed in the test of a print-only if"""
    for x in ast.walk(e):
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if not (isinstance(f, ast.Name) and f.id in ('isempty_', 'length_', 'len', 'isfield_', 'isinstance', 'sum_', 'norm_', 'abs', 'any_', 'size_')):
                return False
    return True


class Strip(ast.NodeTransformer):
    """drop printing and docstrings"""
    def _body(self, body):
        out = []
        for st in body:
            st = self.visit(st)
            if st is None or is_print_stmt(st):
                continue
            out.append(st)
        return out

    def visit_If(self, n):
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        if not n.body and not n.orelse and pure_test(n.test):
            return None
        n.body = n.body or [ast.Pass()]
        return n

    def _gen(self, n):
        for fld in ('body', 'orelse', 'finalbody'):
            if getattr(n, fld, None):
                b = self._body(getattr(n, fld))
                if not b and fld == 'body':
                    b = [ast.Pass()]
                setattr(n, fld, b)
        for h in getattr(n, 'handlers', []):
            h.body = self._body(h.body) or [ast.Pass()]
            if h.type is None:
                h.type = ast.Name(id='Exception', ctx=ast.Load())
        return n

    visit_For = visit_While = visit_Try = visit_With = visit_FunctionDef = visit_ClassDef = visit_Module = _gen


def assigned(body):
    names = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in names:
                names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    v = V()
    for st in body:
        v.visit(st)
    return names


def stores(body):
    """names whose elements the statements assign"""
    out = []
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id not in out:
                out.append(x.value.id)
    return out


class Loops(ast.NodeTransformer):
    """loop-cut protocol"""
    def __init__(self, qual):
        self.qual = qual
        self.k = 0

    def visit_FunctionDef(self, n):
        return n    # nested functions are left alone

    visit_Lambda = visit_FunctionDef

    def _mk(self, n, it):
        uid = self.k
        self.k += 1
        L = '_L%d_' % uid
        names = assigned(n.body)
        if it is not None:
            for x in assigned([ast.Assign(targets=[n.target], value=ast.Constant(0))]):
                if x not in names:
                    names.append(x)
        body = [x for st in n.body for x in self._lst(self.visit(st))]
        pre = ast.parse('%s = __loop__(%r, %d, %r, None, %r)' % (L, self.qual, uid, names, stores(n.body))).body[0]
        pre.value.args[3] = it if it is not None else ast.Constant(None)
        out = [pre]
        src = '%s = %s.begin(locals())' % (''.join('(' + ', '.join(names) + ',)'), L) if names else '%s.begin(locals())' % L
        out += ast.parse(src).body
        w = ast.parse('while %s.step(locals()):\n    pass' % L).body[0]
        inner = []
        if it is not None:
            inner.append(ast.Assign(targets=[n.target], value=ast.parse('%s.index()' % L).body[0].value))
        else:
            inner.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test),
                                body=ast.parse('%s.leave()' % L).body + [ast.Break()], orelse=[]))
        w.body = inner + body
        w.orelse = [x for st in n.orelse for x in self._lst(self.visit(st))]
        if it is None and n.orelse:
            raise Unsupported('while-else')
        out.append(w)
        for o in out:
            ast.copy_location(o, n)
        return out

    @staticmethod
    def _lst(x):
        return x if isinstance(x, list) else [x]

    def visit_For(self, n):
        return self._mk(n, n.iter)

    def visit_While(self, n):
        return self._mk(n, None)


class Unbound:
    """value of a local that has no value on this path"""
    def __init__(self, name):
        self.__dict__['_n'] = name

    def _bad(self, *a, **k):
        raise Unsupported('use of unassigned or unspecified local %s' % self.__dict__['_n'])
    __getattr__ = __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __getitem__ = __setitem__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __iter__ = __len__ = _bad
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __index__ = _bad
    __hash__ = object.__hash__

    def __copy__(self):
        self._bad()


LOOPSPECS = {}      # (qualname, ordinal) -> LoopSpec class
CONTRACTS = {}      # function name -> stub
ACTIVE = {'target': None, 'depth': 0}
MAX_UNROLL = 64


def prove_q(name, g, dim=None):
    if callable(g) and not isinstance(g, S):
        q = ENG.fresh('q', 'i')
        snp.add_probe(q, dim)
        g = g(q)
    ENG.prove(name, g)


def assume_q(g, dim=None):
    if callable(g) and not isinstance(g, S):
        snp.forall(lambda p: ENG.assume(g(p)), dim)
    else:
        ENG.assume(g)


def prove_kept(nm, inst, e0, e1):
    for n in inst.kept:
        a, b = e0.get(n), e1.get(n)
        if a is b or n not in e1:
            continue
        if isinstance(a, snp.ndarray) and isinstance(b, snp.ndarray):
            if len(a._dims) != len(b._dims):
                ENG.prove('%s keeps %s' % (nm, n), False)
                continue
            ENG.prove('%s keeps %s (shape)' % (nm, n), core.band(True, *[core.compare('==', x, y) for x, y in zip(a._dims, b._dims)]))
            q = [ENG.fresh('q', 'i') for _ in a._dims]
            for x, d in zip(q, a._dims):
                ENG.assume(core.band(core.compare('>=', x, 0), core.compare('<', x, d)))
                snp.add_probe(x, d)
            ENG.prove('%s keeps %s' % (nm, n), core.same(a.snap()(*q), b.snap()(*q)))
        elif core.is_scalar(a) and core.is_scalar(b):
            ENG.prove('%s keeps %s' % (nm, n), core.same(a, b))
        elif isinstance(a, str) and isinstance(b, str):
            ENG.prove('%s keeps %s' % (nm, n), a == b)
        else:
            raise Unsupported('%s: %s is rebound' % (nm, n))
    for n in inst.unchanged:
        a, b = e0.get(n), e1.get(n)
        if a is not b and isinstance(a, snp.ndarray):
            ENG.prove('%s keeps the shape of %s' % (nm, n), isinstance(b, snp.ndarray) and len(a._dims) == len(b._dims)
                      and core.band(True, *[core.compare('==', x, y) for x, y in zip(a._dims, b._dims)]))


class Loop:
    def __init__(self, qual, k, names, it, stores=()):
        self.qual, self.k, self.names, self.stores = qual, k, names, list(stores)
        self.i = None
        self.state = 0
        if isinstance(it, snp.ndarray):
            n = it.shape[0]
            span = getattr(it, 'span', None)
            if not isinstance(n, int) and span is not None and span[2] is it.root.fn:
                it = snp.SRange(span[0], span[1])
            elif not isinstance(n, int):
                raise Unsupported('iterating over a symbolic array')
            else:
                it = [it[j] for j in range(n)]
        if it is None:
            self.kind = 'while'
        elif isinstance(it, snp.SRange):
            self.kind = 'srange'
            self.range = it
        else:
            self.kind = 'conc'
            self.items = list(it)
        key = (qual, k)
        self.spec = LOOPSPECS.get(key)
        if self.spec is None:
            # specifications that fit wherever the loop occurs in the function
            self.spec = next((c for c in LOOPSPECS.get((qual, None), ()) if c.applies(self)), None)
        elif not self.spec.applies(self):
            self.spec = None
        if self.spec is None:
            if self.kind == 'srange':
                a, b = it.start, it.stop
                if core.ENG.entails(core.compare('>=', a, b)):
                    self.kind = 'conc'
                    self.items = []
                else:
                    # an unrolled symbolic range: decide the trip count step by step if bounded
                    self.kind = 'decide'
            elif self.kind == 'conc' and len(self.items) > MAX_UNROLL:
                raise Unsupported('long loop without invariant')

    def begin(self, env):
        ENG.notes.append('loop %s#%d' % (self.qual, self.k))
        self.cur = {}
        if self.spec is None:
            self.i = 0
            return self._vals(env)
        self.inst = self.spec(self, env)
        if self.kind == 'srange':
            self.lo, self.hi = self.range.start, self.range.stop
        elif self.kind == 'conc':
            self.lo, self.hi = 0, len(self.items)
        else:
            self.lo, self.hi = 0, None
        nm = '%s/loop%d' % (self.qual, self.k)
        if self.hi is not None and not ENG.branch(core.compare('<', self.lo, self.hi)):
            # zero iterations: nothing is assigned
            self.state = 9
            return self._vals(env)
        try:
            for lbl, g, *d in self.inst.inv(env, self.lo):
                prove_q('%s init %s' % (nm, lbl), g, *d)
        except (KeyError, AttributeError) as e:
            if os.environ.get('PYVC_TB'): import traceback; traceback.print_exc()
            raise Unsupported('loop specification of %s does not match the code (%s)' % (nm, e))
        ENG.taint.append(nm)
        # either the state on leaving the loop or the state before an arbitrary
        # iteration
        self.exit = False
        if self.hi is not None and ENG.choose('loop exit'):
            self.exit = True
            self.i = self.hi
        else:
            self.i = ENG.fresh('it', 'i')
            ENG.assume(core.compare('>=', self.i, self.lo))
            if self.hi is not None:
                ENG.assume(core.compare('<', self.i, self.hi))
        snp.add_probe(self.i, self.hi)
        new = xform.Track(env)
        self.marks = xform.Marks(globals_dict())
        self.inst.havoc(new, self.i)
        self.marks.havocked()
        for lbl, g, *d in self.inst.inv(new, self.i):
            assume_q(g, *d)
        self.env0 = new
        return tuple(new[n] if n in new and (n in new.set or n in self.inst.defined or n in self.inst.unchanged or n in self.inst.kept)
                     else (self._dead(n, env)) for n in self.names)

    def _dead(self, n, env):
        return Unbound(n)

    def _vals(self, env):
        return tuple(env[n] if n in env else Unbound(n) for n in self.names)

    def step(self, env):
        if self.spec is None:
            if self.kind == 'while':
                self.i += 1
                if self.i > MAX_UNROLL:
                    raise Unsupported('while loop without invariant runs too long (%s#%d)' % (self.qual, self.k))
                return True
            if self.kind == 'decide':
                cur = core.arith('+', self.range.start, self.i)
                if self.i > 3 and not ENG.entails(core.compare('<=', core.arith('-', self.range.stop, self.range.start), 8)):
                    raise Unsupported('symbolic loop without invariant (%s#%d)' % (self.qual, self.k))
                ok = ENG.branch(core.compare('<', cur, self.range.stop))
                self.curi = cur
                self.i += 1
                return ok
            ok = self.i < len(self.items)
            if ok:
                self.curi = self.items[self.i]
            self.i += 1
            return ok
        if self.state == 9:
            return False
        nm = '%s/loop%d' % (self.qual, self.k)
        if self.state == 0:
            self.state = 1
            if self.kind == 'while':
                self._watch(env)
                return True
            if not self.exit:
                self.curi = self.i if self.kind == 'srange' else self.items_at(self.i)
                self._watch(env)
                return True
            return False
        # second arrival: the invariant must hold for the next index
        nxt = core.arith('+', self.i, 1)
        e = {k: v for k, v in env.items()}
        self.inst.ghost(e, self.i)
        for lbl, g, *d in self.inst.inv(e, nxt):
            prove_q('%s preserved %s' % (nm, lbl), g, *d)
        prove_kept(nm, self.inst, self.env0, e)
        self.marks.check(nm)
        raise EndPath()

    def items_at(self, i):
        it = self.items
        if all(type(x) is int for x in it) and it == list(range(it[0], it[0] + len(it))):
            return core.arith('+', it[0], i)
        raise Unsupported('symbolic position in a concrete list')

    def _watch(self, env):
        pass

    def leave(self):
        pass

    def index(self):
        return self.curi


CURRENT = [None]


def globals_dict():
    W = CURRENT[0]
    m = W.mods.get(W.pkg + '.sqpdfo_global_variables') if W else None
    return m.__dict__ if m is not None else None


class LoopSpec:
    """subclass: havoc(env, i) rebinding/mutating, inv(env, i) -> [(label, formula)]"""
    defined = ()        # bound anew by havoc even when the object is the same
    unchanged = ()      # the same object, its content described by inv
    kept = ()           # value not changed by the loop (checked)

    def __init__(self, loop, env):
        self.loop = loop
        self.pre = dict(env)
        self.setup(env)

    @classmethod
    def applies(cls, loop):
        return True

    def setup(self, env):
        pass

    def havoc(self, env, i):
        raise NotImplementedError

    def ghost(self, env, i):
        """update ghost state at the end of iteration i"""

    def inv(self, env, i):
        """[(label, formula or q -> formula)]; a callable is universally
        quantified over the integer q.  Take snapshots of arrays here."""
        return []


class Args(dict):
    """arguments of a call through a contract: by parameter name (a trailing
    underscore is immaterial), by position when a parameter was renamed"""
    def __init__(self, name, fn, a, k):
        code = fn.__code__
        names = code.co_varnames[:code.co_argcount]
        defaults = fn.__defaults__ or ()
        vals = [defaults[len(defaults) - len(names) + j] if j >= len(names) - len(defaults) else None for j in range(len(names))]
        for j, v in enumerate(a):
            if j < len(vals):
                vals[j] = v
        kw = {n: v for n, v in k.items()}
        for j, n in enumerate(names):
            if n in kw:
                vals[j] = kw.pop(n)
        dict.__init__(self, zip((n.rstrip('_') for n in names), vals))
        self.vals, self.name = vals, name

    def __missing__(self, key):
        b = key.rstrip('_')
        if b in self:
            return dict.__getitem__(self, b)
        sig = SIGS.get(self.name, ())
        if b in sig and sig.index(b) < len(self.vals):
            return self.vals[sig.index(b)]
        raise Unsupported('call of %s without parameter %s' % (self.name, b))


class Dispatch:
    """call through the contract unless the function is the one being verified"""
    def __init__(self, name, fn, mod):
        self.name, self.fn, self.mod = name, fn, mod
        self.__name__ = name

    def __call__(self, *a, **k):
        if ACTIVE['target'] == self.name and ACTIVE['depth'] == 0:
            ACTIVE['depth'] += 1
            try:
                return self.fn(*a, **k)
            finally:
                ACTIVE['depth'] -= 1
        stub = ACTIVE.get('stubs', {}).get(self.name) or (CONTRACTS.get(self.name) if self.name not in ACTIVE.get('inline', ()) else None)
        if stub is None:
            return self.fn(*a, **k)
        args = Args(self.name, self.fn, a, k)
        ENG.notes.append('call ' + self.name)
        return stub(args)

    def __copy__(self):
        return self


class FakeNumpy(types.ModuleType):
    pass


def _stub_callable(name):
    def f(*a, **k):
        h = ENG.registry.get('hooks', {}).get(name)
        if h is not None:
            return h(*a, **k)
        raise Unsupported('numpy.' + name)
    f.__name__ = name
    return f


def numpy_module():
    m = FakeNumpy('numpy')
    names = open(os.path.join(os.path.dirname(__file__), 'numpy_all.txt')).read().split()
    import numpy as realnp
    for n in names:
        if hasattr(snp, n) and n not in ('core', 'math', 'builtins', 'z3'):
            m.__dict__[n] = getattr(snp, n)
        else:
            m.__dict__[n] = _stub_callable(n)
    m.__dict__['float64'] = snp.float64
    for n in ('Inf', 'inf', 'infty', 'NaN', 'nan', 'newaxis', 'pi', 'amax', 'amin'):
        m.__dict__[n] = getattr(snp, n)
    for n in ('max', 'min', 'abs', 'round'):
        m.__dict__[n] = {'max': snp.amax, 'min': snp.amin, 'abs': snp.abs, 'round': _stub_callable('round')}[n]
    m.__dict__['matrix'] = type('matrix', (), {})
    m.__all__ = names
    m.linalg = snp.linalg
    m.__dict__['finfo'] = lambda *a: types.SimpleNamespace(eps=2.0 ** -52, tiny=2.0 ** -1022, max=float.fromhex('0x1.fffffffffffffp+1023'))
    m.__dict__['poly1d'] = snp.poly1d
    m.random = types.SimpleNamespace(**{n: _stub_callable('random.' + n) for n in ('rand', 'randn', 'random', 'seed', 'default_rng')})
    return m


class World:
    """one loaded copy of the package"""
    def __init__(self, repo=None, pkg='sqpdfo'):
        self.repo = repo or REPO
        self.pkg = pkg
        self.mods = {}
        CURRENT[0] = self
        self.np = numpy_module()
        self.source_hash = {}
        self.functions = {}
        self.real_import = builtins.__import__

    def builtins_dict(self):
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, range=snp.py_range, len=snp.py_len, max=snp.py_max, min=snp.py_min,
                 int=snp.py_int, float=snp.py_float, list=snp.py_list, sum=snp.py_sum, open=_noopen, print=lambda *a, **k: None)
        b['__loop__'] = Loop
        b['__block__'] = xform.Block
        b['__fn__'] = lambda name: ENG.funcs.add(name)
        b.update(xform.BUILTINS)
        return b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if level and globals:
            base = globals['__name__'].split('.')[:-level] if level else []
            name = '.'.join(base + ([name] if name else []))
            top = name.split('.')[0]
        if top == self.pkg:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except FileNotFoundError:
                            raise ImportError(f)
                return m
            return self.load(top)
        if top == 'numpy':
            if name in ('numpy.linalg',) and fromlist:
                lm = types.ModuleType('numpy.linalg')
                for n in ('norm', 'solve', 'inv', 'pinv', 'qr', 'svd', 'eigh', 'eigvalsh', 'eig', 'cholesky', 'cond', 'lstsq', 'LinAlgError'):
                    setattr(lm, n, getattr(snp.linalg, n))
                return lm
            return self.np
        if top in ('scipy', 'pycutest', 'matplotlib'):
            m = types.ModuleType(top)
            m.__getattr__ = lambda n: _stub_callable(top + '.' + n)
            return m
        return self.real_import(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', '/')
        path = os.path.join(self.repo, rel + '.py')
        ispkg = os.path.isdir(os.path.join(self.repo, rel))
        if ispkg:
            path = os.path.join(self.repo, rel, '__init__.py')
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        m = types.ModuleType(name)
        m.__file__ = path
        if ispkg:
            m.__path__ = []
        self.mods[name] = m
        if '.' in name:
            p, c = name.rsplit('.', 1)
            if p not in self.mods:
                self.mods[p] = types.ModuleType(p)
                self.mods[p].__path__ = []
            setattr(self.mods[p], c, m)
        if ispkg and name == self.pkg:
            return m        # the package __init__ re-exports; not needed here
        src = open(path).read()
        self.source_hash[name] = hashlib.sha256(src.encode()).hexdigest()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
            code = self.instrument(tree, name, path)
            m.__dict__['__builtins__'] = self.builtins_dict()
            exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name and v.__code__.co_filename == path:
                d = Dispatch(k, v, name)
                if k in CONTRACTS or k in WRAP:
                    m.__dict__[k] = d
                self.functions[k] = (name, v)
        return m

    def instrument(self, tree, name, path):
        tree = Strip().visit(tree)
        tree = xform.Bools().visit(tree)

        class F(ast.NodeTransformer):
            def visit_FunctionDef(s, n):
                xform.wrap_blocks(n, assigned)
                lp = Loops(n.name)
                body = []
                for st in n.body:
                    r = lp.visit(st)
                    body.extend(r if isinstance(r, list) else [r])
                n.body = body
                xform.Merge().generic_visit(n)
                n.body[:0] = ast.parse('__fn__(%r)' % (os.path.basename(path)[:-3] + '.' + n.name)).body
                return n

            def visit_ClassDef(s, n):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        s.visit_FunctionDef(f)
                return n
        tree = F().visit(tree)
        self.trees = getattr(self, 'trees', {})
        self.trees[name] = tree
        if name == self.pkg + '.runtime':
            # string rendering of symbolic values is irrelevant
            pass
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', optimize=0)

    def fn(self, module, name):
        m = self.load(self.pkg + '.' + module)
        f = m.__dict__[name]
        if isinstance(f, Dispatch):
            f = f.fn
        return f


class Went:
    """a segment ended without returning"""
    def __init__(self, env):
        self.env = {k: v for k, v in env.items() if not k.startswith('__')}


def segments(world, module, name):
    """the top-level statements of a function as separate callables: each takes
    the local variables and gives Went(locals) or what the function returns"""
    import copy
    mname = world.pkg + '.' + module
    m = world.load(mname)
    fn = [n for n in world.trees[mname].body if isinstance(n, ast.FunctionDef) and n.name == name][0]
    out = []
    for k, st in enumerate(fn.body):
        text = ast.dump(st)

        def run(env, st=st, k=k):
            d = ast.parse('def __seg(%s):\n    pass\n    return __went__(locals())' % ', '.join(env)).body[0]
            d.body[0] = copy.deepcopy(st)
            mod = ast.Module(body=[d], type_ignores=[])
            ast.fix_missing_locations(mod)
            g = m.__dict__
            g['__went__'] = Went
            loc = {}
            exec(compile(mod, m.__file__, 'exec', optimize=0), g, loc)
            return loc['__seg'](**env)
        out.append((text, run))
    return out


WRAP = set()


def _noopen(*a, **k):
    class Fake:
        def write(self, *a): pass
        def read(self, *a): return ''
        def close(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    return Fake()
