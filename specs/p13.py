"""P13: repair of the interpolation set, geometry measure."""
from specs import Unit, REAL, NPSHIM
from specs.lib import *

WRAP.update(['bcdfo_find_new_yj_', 'bcdfo_replace_in_Y_', 'bcdfo_build_QR_of_Y_', 'bcdfo_solve_TR_MS_', 'bcdfo_computeLj_', 'bcdfo_gradP_',
             'bcdfo_hessP_', 'bcdfo_poisedness_Y_'])
G = {}
NEWY = 'bcdfo_find_new_yj_: contract of the callee (a point within (1+eps) times the radius of the base point and the magnitude of the Lagrange polynomial there; proved in unit find_new_yj)'
REPL = 'bcdfo_replace_in_Y_: contract of the callee (only the named column changes, new factorization; proved in P12)'


def num(v):
    return v if core.is_scalar(v) else v._scalar_()


def delta_of(Y, c):
    """the vector from the base point to column c"""
    return lambda r: arith('-', Y(r, c), Y(r, 0))


def dist(Y, c):
    return norm_of(delta_of(Y, c), G['n'])


def limit(delta):
    return arith('*', arith('+', 1, G['eps']), delta)


def find_new_yj(a):
    Y, j = a['Y'], a['j']
    n, p1 = Y._dims
    ENG.prove('find_new_yj called for a position that is not the base point', band(compare('>=', j, 1), compare('<', j, p1)))
    ENG.prove('find_new_yj called with the radius not negative', compare('>=', a['Delta'], 0))
    prove_factor_of('find_new_yj uses the factorization of the current set', a['QZ'], a['RZ'], a['xbase'], a['scale'], Y, None)
    y = arr('ynew', (n, 1))
    imp = real('improvement', 0)
    y0, Y0 = y.snap(), Y.snap()
    ENG.assume(compare('<=', norm_of(lambda r: arith('-', y0(r, 0), Y0(r, 0)), n), limit(a['Delta'])))
    G['calls'].append((j, imp, y0, a['Delta']))
    return y, imp, ''


def replace(a):
    """contract of bcdfo_replace_in_Y_ (P12)"""
    Y, j, y = a['Y_'], num(a['j']), a['ynew']
    n, p1 = Y._dims
    ENG.prove('replaced position is not the base point', band(compare('>=', j, 1), compare('<', j, p1)))
    prove_shape('new point', y, (n, 1))
    Y0, y0 = Y.snap(), y.snap()
    Y2 = snp.ndarray.make((n, p1), lambda r, c: ite(compare('==', c, j), y0(r, 0), Y0(r, c)), 'r')
    t, r, xb, sc = qr_stub(dict(Y_=Y2, whichmodel=a['whichmodel'], shift_Y=a['shift_Y'], Delta=a['Delta'], normgx=a['normgx'], kappa_ill=a['kappa_ill']))
    return t, r, Y2, xb, sc


def newset(env, content):
    """arbitrary set with this content together with its factorization"""
    Y = snp.ndarray.make((G['n'], G['p1']), content, 'r')
    t, r, xb, sc = qr_stub(dict(Y_=Y, whichmodel=G['model'], shift_Y=G['shift'], Delta=G['delta'], normgx=G['normgx'], kappa_ill=G['kappa']))
    env['Y'], env['QZ'], env['RZ'], env['xbase'], env['scale'] = Y, t, r, xb, sc
    return Y


def token_ok(env):
    t = env['QZ']
    return isinstance(t, Token) and t.name == 'QZ' and env['RZ'] is t.RZ and env['xbase'] is t.xbase and env['scale'] is t.scale


def token_inv(env):
    ok = token_ok(env)
    out = [('one factorization', bool(ok))]
    if ok:
        r, c = idx((G['n'], G['p1']))
        out.append(('factorization of the current set', implies(within((r, c), (G['n'], G['p1'])), same(env['Y'].snap()(r, c), env['QZ'].Y(r, c)))))
    return out


class Distances(LoopSpec):
    """d[c] is the distance of point c for the columns done, zero else"""
    unchanged = ('d',)
    last = None

    def havoc(self, env, i):
        Y = G['Y0']
        h = ENG.fresh_name('d')
        import z3
        f = z3.Function(h, z3.IntSort(), z3.RealSort())
        env['d'].write_all(lambda c, z=0: S('r', f(core.lift(c)[1])))

    def ghost(self, env, i):
        self.last = i

    def inv(self, env, i):
        d, Y = env['d'].snap(), G['Y0']

        def at(c):
            if self.last is not None:
                same_norm(compare('==', c, self.last), delta_of(Y, c), delta_of(Y, self.last), G['n'])
            return implies(snp.in_range(c, G['p1']), same(d(c, 0), ite(band(compare('>=', c, 1), compare('<', c, i)), dist(Y, c), 0.0)))
        return [('distances', at, G['p1'])]


def positions_of(rep):
    """entry k of the list, as an integer"""
    import z3
    R = rep.snap()

    def at(k):
        v = R(k)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, S) and v.k == 'r':
            return S('i', z3.simplify(z3.ToInt(v.e)))
        return v
    return at


def base_state(env):
    """the invariant of both repair loops, for membership predicate mem"""
    rep, Y, d, mem = env['replaced'], env['Y'].snap(), env['d'].snap(), G['mem']
    n, p1, Y0 = G['n'], G['p1'], G['Y0']
    L, R = rep._dims[0], positions_of(rep)
    step = G.get('step')

    def hint(c):
        if step is not None:
            j, y, old = step
            same_norm(compare('!=', c, j), delta_of(Y, c), delta_of(old, c), n)
            yb = lambda r: arith('-', y(r, 0), Y(r, 0))
            same_norm(compare('==', c, j), delta_of(Y, c), yb, n)
            same_norm(True, yb, lambda r: arith('-', y(r, 0), old(r, 0)), n)

    def at(c):
        return snp.in_range(c, p1)

    def near(c):
        hint(c)
        return implies(band(at(c), mem(c)), compare('<=', dist(Y, c), limit(G['delta'])))

    def true(c):
        hint(c)
        return implies(at(c), same(d(c, 0), ite(compare('>=', c, 1), dist(Y, c), 0.0)))
    out = [('inserted points lie within the radius', near, p1), ('distances are the true ones', true, p1)]
    return out + token_inv(env)


def list_goals(env):
    """the list of replaced positions names exactly the members, once each,
    never position zero; the other columns are those of the input"""
    rep, Y, mem = env['replaced'], env['Y'].snap(), G['mem']
    n, p1, Y0 = G['n'], G['p1'], G['Y0']
    L, R = rep._dims[0], positions_of(rep)
    last = arith('-', L, 1)

    def positions(k):
        return implies(snp.in_range(k, L), band(compare('>=', R(k), 1), compare('<', R(k), p1), mem(R(k))))

    def distinct(k):
        k2 = ENG.fresh('k2', 'i')
        for q in (k, k2):
            snp.add_probe(q)
        return implies(band(snp.in_range(k, L), snp.in_range(k2, L), compare('<', k, k2)), compare('!=', R(k), R(k2)))

    def listed(c):
        t = [band(snp.in_range(k, L), same(R(k), c)) for k in [last] + [w(c) for w in G['wit']]]
        return implies(band(snp.in_range(c, p1), mem(c)), bor(*t))

    def kept(c):
        r = ENG.fresh('row', 'i')
        snp.add_probe(r, n)
        return implies(band(snp.in_range(c, p1), snp.in_range(r, n), bnot(mem(c))), same(Y(r, c), Y0(r, c)))
    return [('the list names replaced positions, never the base point', positions, L), ('no position named twice', distinct, L),
            ('every replaced position is named', listed, p1), ('columns that are not named are unchanged', kept, p1)]


class Far(LoopSpec):
    """the i farthest points were replaced, in this order"""
    defined = ('replaced', 'Y', 'QZ', 'RZ', 'xbase', 'scale')
    unchanged = ('d',)
    assuming = False

    def setup(self, env):
        si = [s for s, _ in ENG.registry.get('sorts', {}).values()]
        if len(si) != 1:
            raise Unsupported('distances sorted in another way')
        self.si = si[0]
        self.js = env['jsorted'].snap()
        self.d0 = env['d'].snap()

    def rank(self, c):
        return arith('-', arith('-', G['p1'], 1), self.si.rank(c))

    def mem(self, i):
        return lambda c: compare('<', self.rank(c), i)

    def havoc(self, env, i):
        import z3
        Z, Y0 = arr('Yrep', (G['n'], G['p1'])).snap(), G['Y0']
        m = self.mem(i)
        newset(env, lambda r, c: ite(m(c), Z(r, c), Y0(r, c)))

        def named(k):
            v = self.js(k)
            ENG.assume(implies(snp.in_range(k, i), compare('>=', v, 1)))      # part of the invariant
            return v
        env['replaced'] = snp.ndarray.make((i,), named, 'r', lambda c: (m(c), self.rank(c)))
        f = z3.Function(ENG.fresh_name('d'), z3.IntSort(), z3.RealSort())
        d0 = self.d0
        env['d'].write_all(lambda c, z=0: ite(m(c), S('r', f(core.lift(c)[1])), d0(c, 0)))
        G['step'] = None
        G['wit'] = [self.rank]
        self.assuming = True

    def ghost(self, env, i):
        self.assuming = False

    def inv(self, env, i):
        G['mem'] = self.mem(i)
        out = base_state(env)
        L, R = env['replaced']._dims[0], positions_of(env['replaced'])
        out.append(('number replaced', same(L, i)))
        if not self.assuming:
            out.append(('replaced in the order of distance', lambda k: implies(snp.in_range(k, i), band(same(R(k), self.js(k)), compare('>=', self.js(k), 1))), i))
            out += list_goals(env)
        self.assuming = False
        return out


class Improve(LoopSpec):
    """any list of distinct non-base positions was replaced"""
    defined = ('replaced', 'Y', 'QZ', 'RZ', 'xbase', 'scale', 'maximprove')
    unchanged = ('d',)
    assuming = False

    def havoc(self, env, i):
        import z3
        n, p1 = G['n'], G['p1']
        L = ENG.fresh('nrep', 'i')
        ENG.assume(compare('>=', L, 0))
        nm = ENG.fresh_name('rep')
        Rf, Pf = z3.Function(nm + '.at', z3.IntSort(), z3.IntSort()), z3.Function(nm + '.pos', z3.IntSort(), z3.IntSort())
        ex = lambda v: core.lift(v)[1]

        def at(k):
            v = S('i', Rf(ex(k)))
            ENG.assume(implies(snp.in_range(k, L), band(compare('>=', v, 1), compare('<', v, p1), same(S('i', Pf(v.e)), k))))
            return v

        def pos(c):
            return S('i', Pf(ex(c)))

        def mem(c):
            k = pos(c)
            return band(snp.in_range(k, L), same(at(k), c))
        env['replaced'] = snp.ndarray.make((L,), at, 'r', lambda c: (mem(c), pos(c)))
        Z, Y0 = arr('Yrep', (n, p1)).snap(), G['Y0']
        newset(env, lambda r, c: ite(mem(c), Z(r, c), Y0(r, c)))
        f = z3.Function(ENG.fresh_name('d'), z3.IntSort(), z3.RealSort())
        env['d'].write_all(lambda c, z=0: S('r', f(ex(c))))
        env['maximprove'] = real('maximprove', 0)
        G['step'] = None
        G['wit'] = [pos]
        G['mem'] = mem
        self.assuming = True

    def ghost(self, env, i):
        self.assuming = False
        old, j = G['mem'], (G['step'] or (None,))[0]
        if j is not None:
            G['mem'] = lambda c: bor(old(c), compare('==', c, j))

    def inv(self, env, i):
        out = base_state(env)
        if not self.assuming:
            out += list_goals(env)
        self.assuming = False
        return out


class Best(LoopSpec):
    """the largest improvement found so far with its position and point"""
    defined = ('maximprove',)

    def havoc(self, env, i):
        if ENG.choose('an improvement was found'):
            env['maximprove'] = real('maximprove')
            j = ENG.fresh('jmax', 'i')
            snp.add_probe(j, G['p1'])
            env['jmax'] = j
            env['ymax'] = arr('ymax', (G['n'], 1))
            ENG.assume(compare('>', env['maximprove'], 0))
        else:
            env['maximprove'] = 0

    def inv(self, env, i):
        m = num(env['maximprove'])
        out = [('largest improvement not negative', compare('>=', m, 0))]
        if core.is_scalar(m) and not isinstance(m, S) and m == 0:
            return out
        j, y = num(env['jmax']), env['ymax']
        y0, Y = y.snap(), env['Y'].snap()
        out.append(('its position is not the base point', band(compare('>=', j, 1), compare('<', j, G['p1']))))
        out.append(('its point lies within the radius', compare('<=', norm_of(lambda r: arith('-', y0(r, 0), Y(r, 0)), G['n']), limit(G['delta']))))
        return out


LOOPSPECS[('bcdfo_repair_Y_', 0)] = Distances
LOOPSPECS[('bcdfo_repair_Y_', 1)] = Far
LOOPSPECS[('bcdfo_repair_Y_', 2)] = Improve
LOOPSPECS[('bcdfo_repair_Y_', 3)] = Best


def repair(W, cover):
    f = W.fn('bcdfo_repair_Y', 'bcdfo_repair_Y_')
    n, p1 = integer('n', 1), integer('p1', 1)
    Y = arr('Y', (n, p1))
    snp.add_probe(0)
    ENG.registry['no norm components'] = True
    delta, farfact, farthr, closethr, eps = real('Delta'), real('farfact'), real('farthr'), real('closethr'), real('eps_L', 0)
    for v in (delta, farfact, closethr):
        ENG.assume(compare('>', v, 0))
    G.clear()
    G.update(n=n, p1=p1, eps=eps, delta=delta, model=integer('whichmodel', 0, 4), shift=integer('shift_Y', 0, 2), normgx=real('normgx'),
             kappa=real('kappa_ill'), calls=[], step=None, wit=[], mem=lambda c: False, Y0=Y.snap())
    Q, R, xb, sc = qr_stub(dict(Y_=Y, whichmodel=G['model'], shift_Y=G['shift'], Delta=real('Delta0'), normgx=G['normgx'], kappa_ill=G['kappa']))

    def rep(a):
        old, y = a['Y_'].snap(), a['ynew'].snap()
        G['step'] = (num(a['j']), y, old)
        ENG.prove('replacement works on the options of the call', same_args((a['whichmodel'], a['shift_Y'], a['Delta'], a['normgx'], a['kappa_ill']),
                                                                          (G['model'], G['shift'], delta, G['normgx'], G['kappa'])))
        return replace(a)
    ACTIVE['stubs'] = {'bcdfo_find_new_yj_': find_new_yj, 'bcdfo_replace_in_Y_': rep}
    cover()
    fr = Frame(Y=Y, xbase=xb, scale=sc)
    hc, e = 0, empty()
    q2, r2, Y2, replaced, mi, rad, xb2, sc2 = f(Q, R, Y, delta, farfact, farthr, closethr, eps, xb, 1, G['model'], hc, e, e, e, 0, sc, G['shift'], G['normgx'], G['kappa'])
    fr.check('repair_Y')
    prove_shape('set of the same size', Y2, (n, p1))
    prove_same('base point not moved', snp.ndarray.make((n,), lambda r: Y2.at(r, 0), 'r'), lambda r: G['Y0'](r, 0), (n,))
    env = dict(Y=Y2, QZ=q2, RZ=r2, xbase=xb2, scale=sc2, replaced=replaced)
    Y2s = Y2.snap()
    for lbl, g, *d in list_goals(env) + token_inv(env):
        prove_q(lbl, g, *d)
    prove_q('every inserted point lies within the radius', lambda c: implies(band(snp.in_range(c, p1), G['mem'](c)), compare('<=', dist(Y2s, c), limit(delta))), p1)
    rad = num(rad)
    prove_q('reported radius: no point is farther', lambda c: implies(band(compare('>=', c, 1), compare('<', c, p1)), compare('>=', rad, dist(Y2s, c))), p1)
    B = real('bound', 0)
    snp.forall(lambda c: ENG.assume(implies(band(compare('>=', c, 1), compare('<', c, p1)), compare('<=', dist(Y2s, c), B))), p1)
    ENG.prove('reported radius: attained', compare('<=', rad, B))


# ------------------------------------------------------------------ one new point
def new_point(shift):
    def body(W, cover):
        from pyvc import lin
        f = W.fn('bcdfo_find_new_yj', 'bcdfo_find_new_yj_')
        n, p1 = integer('n', 1), integer('p1', 1)
        j = integer('j', 1, p1)
        q = integer('q', 1)
        ENG.assume(compare('>', q, n))
        Y = arr('Y', (n, p1))
        scale, xbase = arr('scale', (q, 1)), arr('xbase', (n, 1))
        delta, eps = real('Delta'), real('eps', 0)
        ENG.assume(compare('>', delta, 0))
        sc = scale.at(1, 0) if shift else 1.0
        if shift:
            ENG.assume(compare('>', sc, 0))
        model = integer('whichmodel', 0, 4)
        Q, R = Token('QZ'), Token('RZ')
        L, g, H = lin.vec('Lj', q).T, lin.vec('g', n), lin.sym('H', n)
        T = []

        def computeLj(a):
            ENG.prove('the Lagrange polynomial is that of the position', band(same(a['j'], j), bool(a['QZ'] is Q and a['RZ'] is R and a['Y'] is Y and a['scale'] is scale)))
            return L

        def at_base(a):
            ENG.prove('derivatives of that Lagrange polynomial', bool(a['P'] is L))
            ENG.prove('derivatives in the scaled variables', bnot(core.tobool(a['shift_Y'])))
            prove_same('derivatives at the base point', a['x'], (lambda r, z: 0.0) if shift else (lambda r, z: Y.at(r, 0)), (n, 1))

        def gradP(a):
            at_base(a)
            return g

        def hessP(a):
            at_base(a)
            return H

        def solve(a):
            """contract of bcdfo_solve_TR_MS_ (P14)"""
            d = num(a['Delta'])
            ENG.prove('radius positive', compare('>', d, 0))
            s = lin.vec('s', n)
            v = ENG.fresh('value', 'r')
            ENG.assume(same(v, arith('+', lin.dotval(a['g'], s), arith('*', 0.5, lin.quad(s, a['H'])))))
            ENG.assume(compare('<=', v, 0))
            up = arith('*', arith('+', 1.0, num(a['eps_D'])), d)
            ENG.assume(compare('<=', lin.dotval(s, s), arith('*', up, up)))
            T.append((a['g'], a['H'], d, v))
            return s, real('lambda'), real('norms'), v, lin.vec('gplus', n), 1, 0, '', False
        ACTIVE['stubs'] = {'bcdfo_computeLj_': computeLj, 'bcdfo_gradP_': gradP, 'bcdfo_hessP_': hessP, 'bcdfo_solve_TR_MS_': solve}
        cover()
        fr = Frame(Y=Y, scale=scale, xbase=xbase)
        y, imp, msg = f(Q, R, Y, j, delta, eps, xbase, 1, model, scale, 1 if shift else 0)
        fr.check('find_new_yj')
        y = lin.is_lin('new point', y, n, 1)
        d = y - Y[:, 0].reshape(-1, 1)
        up = arith('*', arith('+', 1.0, eps), delta)
        ENG.prove('the new point lies within (1 + tolerance) times the radius of the base point', compare('<=', lin.dotval(d, d), arith('*', up, up)))
        t = d * sc
        imp = num(imp)
        ENG.prove('the improvement is the magnitude of the polynomial at the new point',
                  same(imp, core.sabs(arith('+', lin.dotval(g, t), arith('*', 0.5, lin.quad(t, H))))))
        both = any(not (a - g).norm_() and not (h - H).norm_() for a, h, _, _ in T) and any(not (a + g).norm_() and not (h + H).norm_() for a, h, _, _ in T)
        ENG.prove('the polynomial and its opposite are minimised', both)
        for a, h, r, v in T:
            ENG.prove('both in the whole region', same(r, arith('*', delta, sc)))
            ENG.prove('the larger magnitude is taken', compare('>=', imp, core.sabs(v)))
    return body


# ------------------------------------------------------------------ geometry measure
class Radius(LoopSpec):
    """largest distance of the points so far, attained"""
    def havoc(self, env, i):
        env['Y_radius'] = ENG.fresh('Y_radius', 'r')
        w = ENG.fresh('w', 'i')
        snp.add_probe(w, G['p1'])
        self.wits = [w]
        self.last = None

    wits, last = (), None

    def ghost(self, env, i):
        self.wits = self.wits + [i]
        self.last = i

    def inv(self, env, i):
        r, Y = num(env['Y_radius']), G['Y0']
        seen = i if self.last is None else self.last
        out = [('no point seen is farther', lambda c: implies(band(compare('>=', c, 1), compare('<', c, seen)), compare('>=', r, dist(Y, c))), G['p1']),
               ('not negative', compare('>=', r, 0)),
               ('zero at the start', implies(compare('==', i, 1), same(r, 0.0)))]
        if self.last is not None:
            out.append(('no point seen is farther (this one)', compare('>=', r, dist(Y, self.last))))
        if self.wits:
            G['farthest'] = self.wits[0]
            out.append(('attained', implies(compare('>', i, 1), bor(*[band(compare('>=', w, 1), compare('<', w, i), same(r, dist(Y, w))) for w in self.wits]))))
        return out


class Measure(LoopSpec):
    """largest improvement of the positions so far, attained"""
    wits, last = (), None

    def havoc(self, env, i):
        env['_lambda'] = ENG.fresh('lambda', 'r')
        w = ENG.fresh('w', 'i')
        snp.add_probe(w, G['p1'])
        self.wits = [w]
        self.last = None

    def ghost(self, env, i):
        self.wits = self.wits + [i]
        self.last = i

    def inv(self, env, i):
        v, imp = num(env['_lambda']), G['imp']
        seen = i if self.last is None else self.last
        out = [('no position seen has a larger magnitude', lambda c: implies(band(compare('>=', c, 1), compare('<', c, seen)), compare('>=', v, imp(c))), G['p1']),
               ('not negative', compare('>=', v, 0)),
               ('zero at the start', implies(compare('==', i, 1), same(v, 0.0)))]
        if self.last is not None:
            out.append(('no position seen has a larger magnitude (this one)', compare('>=', v, imp(self.last))))
        if self.wits:
            G['largest'] = self.wits[0]
            out.append(('attained', implies(compare('>', i, 1), bor(*[band(compare('>=', w, 1), compare('<', w, i), same(v, imp(w))) for w in self.wits]))))
        return out


LOOPSPECS[('bcdfo_poisedness_Y_', 0)] = Radius
LOOPSPECS[('bcdfo_poisedness_Y_', 1)] = Measure


def poisedness(W, cover):
    import z3
    f = W.fn('bcdfo_poisedness_Y', 'bcdfo_poisedness_Y_')
    n, p1 = integer('n', 1), integer('p1', 1)
    Y = arr('Y', (n, p1))
    eps = real('eps_L', 0)
    G.clear()
    ENG.registry['no norm components'] = True
    F = z3.Function('improvement_at', z3.IntSort(), z3.RealSort())

    def imp(c):
        v = S('r', F(core.lift(c)[1]))
        ENG.assume(compare('>=', v, 0))
        return v
    G.update(n=n, p1=p1, eps=eps, Y0=Y.snap(), imp=imp, model=integer('whichmodel', 0, 4), shift=integer('shift_Y', 0, 2), delta=real('D'), normgx=real('normgx'), kappa=real('kappa'))
    Q, R, xb, sc = qr_stub(dict(Y_=Y, whichmodel=G['model'], shift_Y=G['shift'], Delta=G['delta'], normgx=G['normgx'], kappa_ill=G['kappa']))
    rads = []

    def stub(a):
        j = a['j']
        ENG.prove('measured at the positions that are not the base point', band(compare('>=', j, 1), compare('<', j, p1)))
        ENG.prove('measured on the set and its factorization', bool(a['Y'] is Y and a['QZ'] is Q and a['RZ'] is R and a['xbase'] is xb and a['scale'] is sc))
        rads.append(num(a['Delta']))
        prove_q('measured in the ball that contains the set', lambda c: implies(band(compare('>=', c, 1), compare('<', c, p1)), compare('>=', rads[-1], dist(G['Y0'], c))), p1)
        return arr('y', (n, 1)), imp(j), ''
    ACTIVE['stubs'] = {'bcdfo_find_new_yj_': stub}
    cover()
    fr = Frame(Y=Y, xbase=xb, scale=sc)
    e = empty()
    lam, rad = f(Q, R, Y, eps, xb, 1, G['model'], 0, e, e, e, 0, sc, G['shift'])
    fr.check('poisedness_Y')
    lam, rad = num(lam), num(rad)
    alone = compare('==', p1, 1)
    prove_q('reported radius: no point is farther', lambda c: implies(band(compare('>=', c, 1), compare('<', c, p1)), compare('>=', rad, dist(G['Y0'], c))), p1)
    prove_q('geometry measure: no magnitude is larger', lambda c: implies(band(compare('>=', c, 1), compare('<', c, p1)), compare('>=', lam, imp(c))), p1)
    if ENG.branch(alone):
        ENG.prove('a single point has measure and radius zero', band(same(lam, 0.0), same(rad, 0.0)))
    else:
        w, v = G.get('farthest', 0), G.get('largest', 0)
        ENG.prove('reported radius: attained', band(compare('>=', w, 1), compare('<', w, p1), same(rad, dist(G['Y0'], w))))
        ENG.prove('geometry measure: attained', band(compare('>=', v, 1), compare('<', v, p1), same(lam, imp(v))))


from specs.p18 import LINALG
TR = 'bcdfo_solve_TR_MS_: contract of the callee (P14); derivatives and Lagrange coefficients: contracts of the callees (P10, P11)'
UNITS = [Unit('repair', repair, 'bcdfo_repair_Y_', assumes=[REAL, NPSHIM, NEWY, REPL], budget=300),
         Unit('find_new_yj/shift', new_point(True), 'bcdfo_find_new_yj_', assumes=[REAL, LINALG, TR]),
         Unit('find_new_yj', new_point(False), 'bcdfo_find_new_yj_', assumes=[REAL, LINALG, TR]),
         Unit('poisedness', poisedness, 'bcdfo_poisedness_Y_', assumes=[REAL, NPSHIM, NEWY])]
