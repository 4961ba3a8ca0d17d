BUGS = []


def bug(id, p, file, edits, needs, breaks, demo, count=1):
    BUGS.append(dict(id=id, p=p, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))


CHECK_XF = '''
def reported(r):
    """None, or what is wrong with the reported point"""
    fx = {}
    for x, v in r.f:
        if v is not None:
            fx.setdefault(x, v)
    x = tuple(float(v) for v in vec(r.x))
    if x not in fx:
        return 'returned x was never evaluated'
    if abs(float(r.info.f) - fx[x]) > 1e-12 * max(1, abs(fx[x])):
        return 'reported f %r, f(x) = %r' % (float(r.info.f), fx[x])
    for y, v in r.c:
        if y == x and vec(r.info.ce).size == v.size and np.max(np.abs(vec(r.info.ce) - v)) > 1e-12 * max(1, np.max(np.abs(v))):
            return 'reported ce %r, c(x) = %r' % (vec(r.info.ce), v)
    return None
'''

bug('b01_large_ce', 'P01', 'sqpdfo_main.py', [("ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])", "ceX[ceX>=1e10] = 10*max_(ceX[ceX<1e10])")],
    'constraint values above 1e10', 'large but valid constraint values are replaced by made-up ones',
    CHECK_XF + """
rng = np.random.default_rng(1)
for k in range(60):
    n, f, x0, lb, ub, me, mi, c = problem(rng, cons=True)
    K = 10.0 ** rng.integers(9, 13)
    try:
        r = solve(f, x0, lb, ub, me, mi, lambda x: K * c(x), miter=int(rng.integers(1, 6)), msimul=300)
    except Exception:
        continue
    if len(r.f) > n + 1 and r.info.flag != 1 and reported(r):
        print(k, reported(r)); sys.exit(1)
""")



MODEL = '''
def watch(r, seen):
    """record the data every model of sqpdfo_main is built from"""
    import sqpdfo.sqpdfo_main as M
    g = M.bcdfo_computeP_

    def h(QZ, RZ, Y, fY, *a, **k):
        seen.append((np.array(Y), np.array(fY)))
        return g(QZ, RZ, Y, fY, *a, **k)
    M.bcdfo_computeP_ = h
    return lambda: setattr(M, 'bcdfo_computeP_', g)


def detached(r, seen, me_):
    f = {x: v for x, v in r.f}
    c = {x: v for x, v in r.c}
    for Y, F in seen:
        for j in range(Y.shape[1]):
            x = tuple(float(v) for v in Y[:, j])
            if x not in f or f[x] is None:
                return 'model point %r never evaluated' % (x,)
            if abs(F[0, j] - f[x]) > 1e-10 * max(1, abs(f[x])):
                return 'model value %r at %r, f = %r' % (F[0, j], x, f[x])
            if x in c and F.shape[0] == 1 + c[x].size and np.max(np.abs(F[1:, j] - c[x])) > 1e-10 * max(1, np.max(np.abs(c[x]))):
                return 'model constraint values %r at %r, c = %r' % (F[1:, j], x, c[x])
    return None


def scan(seed, N, **kw):
    rng = np.random.default_rng(seed)
    for k in range(N):
        n, f, x0, lb, ub, me, mi, c = problem(rng, **kw)
        seen, runs = [], []
        undo = watch(None, seen)
        try:
            o = dict(miter=60, msimul=150)
            if rng.random() < .7:
                o['final_degree'] = ['linear', 'diagonal', 'quadratic'][rng.integers(3)]
            r = solve(f, x0, lb, ub, me, mi, c, **o)
        except Exception:
            continue
        finally:
            undo()
        d = detached(r, seen, me)
        if d:
            print(k, d); sys.exit(1)
'''

bug('b03_augment_ce', 'P02', 'sqpdfo_main.py', [("                            ceY=concatenate_([ceY, ceplus],axis=1)", "                            ceY=concatenate_([ceY, info.ce],axis=1)")],
    'a constrained problem where a rejected trial point is added to a set that is not complete yet',
    'the constraint values of the current point are stored for the added point', MODEL + 'scan(3, 400, cons=True)\n')

bug('b04_close_point_f', 'P02', 'sqpdfo_main.py', [('\n                                fY[pos]=copy(fxplus)', '\n                                fY[pos]=copy(fx)')],
    'a rejected trial point that replaces a close interpolation point',
    'the objective value of the best point is stored for a replaced close point', MODEL + 'scan(4, 300)\n')

bug('b05_count_after', 'P03', 'sqpdfo_augmX_evalf.py',
    [("        info.nsimul[1]=info.nsimul[1] + 1\n        msg,fvalue,ci,ce=f(2,y)\n        info.f=fvalue\n", "        msg,fvalue,ci,ce=f(2,y)\n        info.f=fvalue\n"),
     ("    neval=neval + 1\n", "    neval=neval + 1\n    info.nsimul[1]=info.nsimul[1] + 1\n")],
    'an evaluation that fails (exception, NaN or infinite value)',
    'failing evaluations are not counted', '''
f = lambda x: float(np.sum(x ** 2) + x[0])
for at in range(2, 9):
    cnt = [0]
    def g(x):
        cnt[0] += 1
        if cnt[0] == at:
            return float('nan')
        return f(x)
    r = solve(g, np.array([[1.0, -2.0, 0.5]]))
    if int(r.info.nsimul[1]) != len(r.f):
        print('calls', len(r.f), 'reported', r.info.nsimul[1]); sys.exit(1)
''')

bug('b06_msimul_strict', 'P03', 'sqpdfo_main.py', [("if info.nsimul[1] >= options.msimul:", "if info.nsimul[1] > options.msimul:")],
    'an evaluation limit that is met exactly when an iteration starts',
    'one more iteration is started although the evaluation limit is reached', '''
rng = np.random.default_rng(5)
for k in range(40):
    n, f, x0, lb, ub, me, mi, c = problem(rng, cons=False)
    try:
        r = solve(f, x0, lb, ub, me, mi, c, msimul=n + 1, miter=50)
    except Exception:
        continue
    if len(r.f) > n + 1:
        print('limit', n + 1, 'calls', len(r.f)); sys.exit(1)
''')

bug('b07_feas_after_improve', 'P04', 'sqpdfo_main.py', [('                and (info.feasn / factor_CV <= options.tol_feas)\\\n', '')],
    'a constrained problem where the Lagrangian gradient is small after a set improvement while the point is infeasible',
    'the second convergence exit does not test the constraint violation', '''
rng = np.random.default_rng(6)
for k in range(600):
    n, f, x0, lb, ub, me, mi, c = problem(rng, cons=True, bounds=bool(k % 2))
    tg, tf = 10 ** rng.uniform(-5, -2), 10 ** rng.uniform(-6, -3)
    try:
        r = solve(f, x0, lb, ub, me, mi, c, msimul=200, miter=80, tol_grad=tg, tol_feas=tf)
    except Exception:
        continue
    if r.info.flag == 0 and (r.info.feasn > 100 * tf * (1 + 1e-9) or r.info.glagn > 100 * tg * (1 + 1e-9)):
        print(k, 'success with feasn', r.info.feasn, 'tol', tf, 'glagn', r.info.glagn, tg); sys.exit(1)
''')

bug('b08_nan_all', 'P05', 'sqpdfo_augmX_evalf.py', [("if isnan(ce).any():", "if isnan(ce).all() and ce.size:")],
    'two or more constraints of which only some are NaN at a call',
    'a partly NaN constraint vector is accepted as a good evaluation', '''
for at in range(1, 14):
    cnt = [0]
    def c(x):
        cnt[0] += 1
        v = np.array([x[0] + x[1] - 1, x[0] - 2 * x[1]])
        if cnt[0] == at:
            v[at % 2] = float('nan')
        return v
    try:
        r = solve(lambda x: float(np.sum((x - 2) ** 2) + x[0] ** 4), np.array([[1.0, -2.0, 0.5]]), None, None, 2, 0, c)
    except Exception as e:
        print('raised', e); sys.exit(1)
    if len(r.c) >= at and (r.info.flag != 3 or len(r.f) > at):
        print('failed call', at, 'flag', r.info.flag, 'calls', len(r.f)); sys.exit(1)
''')

bug('b09_neg_inf', 'P05', 'sqpdfo_augmX_evalf.py', [("if isinf(fvalue):", "if fvalue >= float('inf'):")],
    'an objective value of minus infinity',
    'minus infinity is taken for a good value', '''
for at in range(2, 12):
    cnt = [0]
    def g(x):
        cnt[0] += 1
        if cnt[0] == at:
            return -float('inf')
        return float(np.sum((x - 2) ** 2) + x[0] ** 4)
    try:
        r = solve(g, np.array([[1.0, -2.0, 0.5]]))
    except Exception as e:
        print('raised', e); sys.exit(1)
    if len(r.f) >= at and (r.info.flag != 3 or len(r.f) > at):
        print('failed call', at, 'flag', r.info.flag, 'calls', len(r.f)); sys.exit(1)
''')

bug('b10_x0_alias', 'P06', 'sqpdfo_prelim.py', [('x0=copy(x0_)', 'x0=x0_')],
    'a start given as a column array close to one of its bounds, so that it is moved inside',
    'the caller\'s start array is modified', '''
x0 = np.array([[0.2], [3.0]])
k = x0.copy()
lb, ub = np.array([[0.0], [-5.0]]), np.array([[6.0], [5.0]])
f = lambda x: float(np.sum((x - 2) ** 2))
a = solve(f, x0, lb, ub)
if not np.array_equal(x0, k):
    print('x0 is now', x0.ravel()); sys.exit(1)
''')

bug('b11_miter_zero', 'P07', 'sqpdfo_options.py', [("if options.msimul <= 0:", "if options.msimul < 0:")],
    'an evaluation limit of exactly zero', 'a zero evaluation limit is accepted and the objective is called', '''
r = solve(lambda x: float(np.sum(x ** 2)), np.array([[1.0, 2.0]]), msimul=0)
if r.info.flag == 0 or len(r.f):
    print('flag', r.info.flag, 'calls', len(r.f)); sys.exit(1)
''')

bug('b12_start_near_lower', 'P08', 'sqpdfo_prelim.py', [("if (templ >= - Delta0):", "if (templ >= - 0.5 * Delta0):")],
    'a start between half and one initial radius above a lower bound',
    'a point of the starting set lies below the bound', '''
lb, ub = np.array([[0.0], [-5.0]]), np.array([[6.0], [5.0]])
for v in np.linspace(0.05, 1.5, 20):
    r = solve(lambda x: float(np.sum((x - 2) ** 2)), np.array([[v], [3.0]]), lb, ub, msimul=3)
    for x, _ in r.f[:3]:
        if np.any(np.array(x) < lb.ravel() - 1e-9) or np.any(np.array(x) > ub.ravel() + 1e-9):
            print('start set point', x, 'for start', v); sys.exit(1)
''')

bug('b13_merit_slack', 'P09', 'sqpdfo_main.py', [("concatenate((zeros((len(ceplus)-nbr_slacks,1)),slplus**2)))", "concatenate((zeros((len(ceplus)-nbr_slacks,1)),sl**2)))")],
    'inequality constraints and a step that changes the slack variables',
    'the merit of the trial point is computed with the old slack variables, so steps are accepted whose merit is not smaller', """
import sqpdfo.sqpdfo_main as M
rng = np.random.default_rng(9)
for k in range(300):
    n, f, x0, lb, ub, me, mi, c = problem(rng, cons=True)
    if mi == 0:
        continue
    log = []
    swp = M.sqpdfo_swap_in_Y_

    def swap(i, j, *a, **kw):
        L = sys._getframe(1).f_locals
        if L.get('pos', -1) >= 0 and 'rho' in L and L['rho'] >= L['eta1']:
            e, m = np.array(L['ceplus']).ravel(), len(L['slplus'])
            e[-m:] -= np.array(L['slplus']).ravel() ** 2
            log.append((float(np.ravel(L['fxplus'])[0]), float(np.linalg.norm(e)), float(np.ravel(L['sigma'])[0]),
                        float(np.ravel(L['f0'])[0]), float(np.linalg.norm(L['ce0']))))
        return swp(i, j, *a, **kw)
    M.sqpdfo_swap_in_Y_ = swap
    try:
        r = solve(f, x0, lb, ub, me, mi, c, msimul=150, miter=60)
    except KeyError:
        sys.exit(0)
    except Exception:
        continue
    finally:
        M.sqpdfo_swap_in_Y_ = swp
    for f1, c1, s, f0, c0 in log:
        if f1 + s * c1 >= f0 + s * c0 + 1e-9 * max(1, abs(f0) + s * c0):
            print(k, 'accepted: merit', f1 + s * c1, 'old', f0 + s * c0); sys.exit(1)
""")

bug('b14_grad_partial', 'P10', 'bcdfo_gradP.py',
    [("g[0:nsd]=g[0:nsd] + P[k :k + nsd] * (x[i + 1:i + nsd+1])", "g[0:nsd]=g[0:nsd] + P[k :k + nsd] * (x[n - nsd:n])")],
    'a quadratic basis with a mixed-product diagonal that is only partly present (n >= 3)',
    'the gradient of a partial quadratic model is wrong', '''
from sqpdfo.bcdfo_gradP import bcdfo_gradP_
from sqpdfo.bcdfo_evalP import bcdfo_evalP_
rng = np.random.default_rng(10)
for k in range(300):
    n = int(rng.integers(1, 6))
    q = (n + 1) * (n + 2) // 2
    p = int(rng.integers(n + 1, q + 1))
    P, x, xb, sc = rng.normal(size=(1, p)), rng.normal(size=(n, 1)), np.zeros((n, 1)), np.ones((q, 1))
    g = quiet(bcdfo_gradP_, P, x, xb, sc[:p], 0).ravel()
    for i in range(n):
        e = np.zeros((n, 1)); e[i] = 1e-5
        d = (bcdfo_evalP_(P, x + e, xb, sc, 0) - bcdfo_evalP_(P, x - e, xb, sc, 0)).item() / 2e-5
        if abs(d - g[i]) > 1e-5:
            print('n', n, 'terms', p, 'component', i, g[i], d); sys.exit(1)
''')

bug('b15_regression_full', 'P11', 'bcdfo_computeP.py', [("if (whichmodel == 3 and p1 < q):", "if (whichmodel == 3 and p1 <= q):")],
    'a regression model with exactly the full quadratic number of points',
    'the factorization is used as if it were the one of the transposed matrix, so the model misses the data', '''
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_computeP import bcdfo_computeP_
from sqpdfo.bcdfo_evalP import bcdfo_evalP_
rng = np.random.default_rng(11)
for k in range(60):
    n = int(rng.integers(1, 4))
    q = (n + 1) * (n + 2) // 2
    for p in {n + 1, q}:
        Y, F = rng.normal(size=(n, p)), rng.normal(size=(1, p))
        QZ, RZ, xb, sc = quiet(bcdfo_build_QR_of_Y_, Y, 3, 1, 1.0, 1.0, 1e15)
        P = quiet(bcdfo_computeP_, QZ, RZ, Y, F, 3, np.zeros((1, q)), np.arange(p), 0, 0, np.zeros((n, 1)), sc, 1, 1.0)
        v = np.array([bcdfo_evalP_(P, Y[:, [j]], xb, sc, 1).item() for j in range(p)])
        if np.linalg.cond(RZ) < 1e5 and np.max(np.abs(v - F)) > 1e-6:
            print('n', n, 'points', p, v, F); sys.exit(1)
''')

bug('b16_weighted_choice', 'P12', 'bcdfo_include_in_Y.py', [("cv=norm_(Y[:,j] - x) ** 2 * abs(Lvals[j])", "cv=norm_(Y[:,j] - x) ** 2 * abs(Lvals[i])")],
    'the weighted criterion after a successful step with candidates that are not a prefix of the set',
    'the weight of another point is used, so the replaced point does not maximise the criterion', '''
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
from sqpdfo.bcdfo_evalL import bcdfo_evalL_
rng = np.random.default_rng(12)
for k in range(200):
    n = int(rng.integers(2, 4))
    p = int(rng.integers(n + 1, (n + 1) * (n + 2) // 2 + 1))
    Y, x = rng.normal(size=(n, p)), rng.normal(size=(n, 1)) * 2
    QZ, RZ, xb, sc = quiet(bcdfo_build_QR_of_Y_, Y, 0, 1, 1.0, 1.0, 1e15)
    cs = np.sort(rng.choice(np.arange(1, p), size=min(p - 1, 3), replace=False))
    L = np.abs(quiet(bcdfo_evalL_, QZ, RZ, Y, cs, x, xb, 0, sc, 1)).ravel()
    pos = quiet(bcdfo_include_in_Y_, x, QZ, RZ, Y, cs, 1e-10, 'weighted', xb, 0, 1, sc, 1, 1.0, 1.0, 1e15)[3]
    # the code measures distances by the norm of the outer difference Y[:,j]-x; accept any monotone distance: compare both readings
    best = []
    for dist in (lambda j: np.linalg.norm(Y[:, [j]] - x), lambda j: np.linalg.norm(Y[:, j] - x), lambda j: np.linalg.norm(np.ravel(Y[:, j] - x))):
        w = {j: dist(j) ** 2 * L[j] for j in cs if L[j] > 1e-10}
        best.append(max(w, key=w.get))
    if pos not in best:
        print('replaced', pos, 'best', best); sys.exit(1)
''')

bug('b17_radius_after_repair', 'P13', 'bcdfo_repair_Y.py', [("        d[jmax]=norm_(ymax - Y[:,[0]])\n", "        d[jmax]=max_(d[jmax],norm_(ymax - Y[:,[0]]))\n")],
    'an improvement pass that replaces the point farthest from the base by a closer one',
    'the reported set radius is not the radius of the repaired set', '''
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
from sqpdfo.bcdfo_repair_Y import bcdfo_repair_Y_
rng = np.random.default_rng(13)
for k in range(150):
    n = int(rng.integers(1, 4))
    p = int(rng.integers(n + 1, (n + 1) * (n + 2) // 2 + 1))
    Y = rng.normal(size=(n, p))
    if rng.random() < .5:
        Y[:, -1] = Y[:, 1] + 1e-6 * rng.normal(size=n)
    QZ, RZ, xb, sc = quiet(bcdfo_build_QR_of_Y_, Y, 0, 1, 1.0, 1.0, 1e15)
    try:
        o = quiet(bcdfo_repair_Y_, QZ, RZ, Y, 0.5, 10, 1e-10, 1.2, 1e-3, xb, 1, 0, 0, None, None, np.arange(n), 1, sc, 1, 1.0, 1e15)
    except Exception:
        continue
    Z = o[2]
    rad = max(np.linalg.norm(Z[:, j] - Z[:, 0]) for j in range(1, p))
    if abs(float(np.ravel(o[5])[0]) - rad) > 1e-9 * max(1, rad):
        print('reported radius', o[5], 'true', rad); sys.exit(1)
''')

bug('b18_zero_curvature', 'P16', 'sqpdfo_truncated_cg.py', [("if dAd <= 0: # negative", "if dAd < 0: # negative")],
    'a singular matrix and a search direction of exactly zero curvature',
    'the step is not ended on the boundary of the region along the zero-curvature direction', '''
from sqpdfo.sqpdfo_truncated_cg import sqpdfo_truncated_cg_
import sqpdfo.sqpdfo_global_variables as G
for A, b in ((np.zeros((2, 2)), np.array([[1.0], [2.0]])), (np.diag([1.0, 0.0]), np.array([[0.0], [1.0]])), (np.diag([2.0, 0.0, 0.0]), np.array([[0.0], [3.0], [1.0]]))):
    x, info = quiet(sqpdfo_truncated_cg_, A, b, 0.7, 20, 1e-8)
    if not np.all(np.isfinite(x)) or abs(np.linalg.norm(x) - 0.7) > 1e-9 or info.flag not in (1, 2):
        print('x', x.ravel(), 'flag', info.flag); sys.exit(1)
''')

bug('b19_norm_sign', 'P17', 'bcdfo_projgrad.py', [("gnorm=max_(gnorm,abs(gn[i,0]))", "gnorm=max_(gnorm,abs(gi) if gn[i,0] == 0 and gi > 0 else abs(gn[i,0]))")],
    'a variable exactly at its lower bound with a positive gradient component',
    'the reported norm is not zero at a critical point on a lower bound', '''
from sqpdfo.bcdfo_projgrad import bcdfo_projgrad_
x, bl, bu = np.array([[0.0], [1.0]]), np.array([[0.0], [0.0]]), np.array([[3.0], [3.0]])
g = np.array([[5.0], [0.5]])
nrm, gn = quiet(bcdfo_projgrad_, 2, x, g, bl, bu)
if abs(nrm - np.max(np.abs(gn))) > 1e-12:
    print(nrm, gn.ravel()); sys.exit(1)
''')

bug('b20_bfgs_damping', 'P18', 'sqpdfo_bfgs_update.py', [('if (ys < eta * sHs):', 'if (ys < 0.5 * eta * sHs):')],
    'a curvature between 10 and 20 percent of the old one',
    'the damping is skipped although the curvature is below one fifth of the old one', '''
from sqpdfo.sqpdfo_bfgs_update import sqpdfo_bfgs_update_
class I: pass
import sqpdfo.sqpdfo_values as V
v = V.sqpdfoValues()
for t in np.linspace(-1, 1, 41):
    H, s = np.diag([2.0, 1.0]), np.array([[1.0], [0.5]])
    sHs = (s.T @ H @ s).item()
    y = t * H @ s
    Hn = quiet(sqpdfo_bfgs_update_, H, y, s, 0, I(), Opt(), v)[0]
    ys = (s.T @ Hn @ s).item()
    if ys < 0.2 * sHs * (1 - 1e-9):
        print('t', t, 'curvature', ys, 'old', sHs); sys.exit(1)
''')

bug('b21_zero_eigenvalue', 'P19', 'sqpdfo_check_convex.py', [("d[d < ZERO]=EPS", "d[d < 0]=EPS")],
    'a matrix with a negative and an exactly vanishing eigenvalue',
    'the vanishing eigenvalue is left alone, so the result is singular', '''
from sqpdfo.sqpdfo_check_convex import sqpdfo_check_convex_
A = np.diag([-1.0, 0.0, 2.0])
B = quiet(sqpdfo_check_convex_, A, Opt())
if np.linalg.eigvalsh(B).min() <= 0:
    print(np.linalg.eigvalsh(B)); sys.exit(1)
''')

bug('b22_slack_square', 'P21', 'sqpdfo_find_smallf.py', [("concatenate((zeros((me-nbr_slacks,1)),sl**2)).T[0])", "concatenate((zeros((me-nbr_slacks,1)),sl)).T[0])")],
    'inequality constraints with slack variables different from 0 and 1', 'the merit of the candidates uses the slack instead of its square, so a wrong point is selected', '''
from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
from sqpdfo.bcdfo_build_QR_of_Y import bcdfo_build_QR_of_Y_
import sqpdfo.sqpdfo_global_variables as G
class C: pass
rng = np.random.default_rng(22)
for k in range(200):
    n = int(rng.integers(1, 4)); p = n + 2 if n > 1 else 3
    Y, fY, ceY = rng.normal(size=(n, p)), rng.normal(size=p) * .1, rng.normal(size=(2, p))
    sl = rng.uniform(0, 2, size=(1, 1)); G.set_nbr_slacks(1); G.set_slacks(sl)
    lb, ub = -9 * np.ones((n, 1)), 9 * np.ones((n, 1))
    QZ, RZ, xb, sc = quiet(bcdfo_build_QR_of_Y_, Y, 0, 1, 1.0, 1.0, 1e15)
    c, info = C(), C(); c.dummy = 1; info.f = 0; info.ce = ceY[:, [0]]; info.ci = np.array([])
    o = quiet(sqpdfo_find_smallf_, c, QZ, RZ, Y, fY, np.array([]), ceY, np.arange(p), 0, p, np.arange(n), Y[:, [0]], lb, ub, fY[0], np.zeros(p), 0, sc, 1, 1.0, 1.0, 1e15, 1.0, info)
    m = fY + np.hypot(ceY[0], ceY[1] - sl.item() ** 2)
    if abs(float(np.ravel(o[1])[0]) - fY[np.argmin(m)]) > 1e-12:
        print('selected f', o[1], 'best', fY[np.argmin(m)]); sys.exit(1)
''')

bug('b23_loose_radius', 'P14', 'bcdfo_solve_TR_MS.py', [("    Dlower=(1 - eps_D) * Delta\n", "    Dlower=(1 - 2 * eps_D) * Delta\n")],
    'a boundary solution whose iterate first enters the wider norm window from below',
    'a step clearly inside the region is returned although it is no interior critical point', """
from sqpdfo.bcdfo_solve_TR_MS import bcdfo_solve_TR_MS_
rng = np.random.default_rng(23)
for k in range(6000):
    n = int(rng.integers(1, 5))
    H = rng.normal(size=(n, n)); H = H + H.T
    g = rng.normal(size=(n, 1)) * 10 ** rng.uniform(-2, 2)
    D, eps = 10 ** rng.uniform(-2, 1), 10 ** rng.uniform(-4, -1)
    try:
        s, lam, ns, v, gp, a, b, msg, hc = quiet(bcdfo_solve_TR_MS_, g, H, D, eps)
    except Exception:
        continue
    if 'interior' in msg and not hc and np.linalg.norm(s) < (1 - eps) * D * (1 - 1e-9) and np.linalg.norm(g + H @ s) > 1e-5 * (1 + np.linalg.norm(g) + np.linalg.norm(H) * D):
        print('interior, gradient', np.linalg.norm(g + H @ s), 'norm', np.linalg.norm(s), 'radius', D, 'eps', eps); sys.exit(1)
""")

bug('b24_value_later_pass', 'P15', 'bcdfo_solve_TR_MS_bc.py',
    [("            value=0.5 * s.T.dot( H .dot( s )) + s.T .dot( g0 )\n            if (verbose > 1):\n                disp_('bcdfo_solve_TR_MS_bc: exit!')\n            return", "            value=0.5 * s.T.dot( H .dot( s )) + s.T .dot( g )\n            if (verbose > 1):\n                disp_('bcdfo_solve_TR_MS_bc: exit!')\n            return")],
    'a step that needs a second pass after a bound became active',
    'the reported model value uses the gradient at an intermediate point', """
from sqpdfo.bcdfo_solve_TR_MS_bc import bcdfo_solve_TR_MS_bc_
rng = np.random.default_rng(24)
for k in range(3000):
    n = int(rng.integers(2, 5))
    H = rng.normal(size=(n, n)); H = H @ H.T + .1 * np.eye(n)
    g = rng.normal(size=(n, 1))
    lb, ub = -rng.uniform(0.05, 2, size=(n, 1)), rng.uniform(0.05, 2, size=(n, 1))
    try:
        o = quiet(bcdfo_solve_TR_MS_bc_, g, H, lb, ub, 10 ** rng.uniform(-1, 1), 1e-7, 1, Opt())
    except Exception:
        continue
    s, v = o[0], float(np.ravel(o[3])[0])
    if 'rror' in o[7] or 'limit' in o[7]:
        continue
    t = (g.T @ s + .5 * s.T @ H @ s).item()
    if abs(v - t) > 1e-8 * max(1, abs(t)):
        print('reported', v, 'true', t); sys.exit(1)
""")

bug('b25_blls_upper', 'P20', 'blls.py', [("lnatb=length_(natlb) + length_(natub)", "lnatb=length_(natlb)")],
    'a subspace solution that violates upper bounds only',
    'the bounded least-squares solver may return a point above an upper bound', """
from sqpdfo.blls import blls_
rng = np.random.default_rng(25)
for k in range(2000):
    n = int(rng.integers(1, 6))
    A, b = rng.normal(size=(n, n)), rng.normal(size=(n, 1)) * 3
    lb, ub = -rng.uniform(0, 1, size=(n, 1)), rng.uniform(0, 1, size=(n, 1))
    try:
        s, rn, opt, ex = quiet(blls_, A, b, lb, ub)
    except Exception:
        continue
    if np.any(s > ub + 1e-9) or np.any(s < lb - 1e-9):
        print('s', s.ravel(), 'ub', ub.ravel()); sys.exit(1)
""")
