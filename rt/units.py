"""Function-level contracts P10..P21, checked on the real functions for randomly
generated arguments (the bounded companion of the deductive obligations)."""
import math
import numpy as np
from common import *

CHECKS = {}


def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d


def rdim(rng, lo=1, hi=6):
    return int(rng.choice(np.arange(lo, hi + 1)))


def rvec(rng, n, scale=None):
    """random column with occasional structure"""
    s = 10 ** rng.uniform(-2, 2) if scale is None else scale
    v = rng.normal(size=(n, 1)) * s
    t = rng.random()
    if t < 0.15:
        v = np.round(v)
    elif t < 0.25:
        v[rng.random((n, 1)) < 0.5] = 0.0
    elif t < 0.30 and n > 1:
        v[:] = v[0]
    return v


def rsym(rng, n, kind=None):
    kind = kind if kind is not None else int(rng.integers(0, 7))
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    s = 10 ** rng.uniform(-2, 2)
    if kind == 0:
        ev = rng.uniform(0.1, 5, n)
    elif kind == 1:
        ev = rng.normal(size=n) * 3
    elif kind == 2:
        ev = rng.uniform(0.1, 5, n); ev[0] = 0
    elif kind == 3:
        ev = -rng.uniform(0.1, 5, n)
    elif kind == 4:
        ev = np.round(rng.normal(size=n) * 2)
        Q = np.eye(n)
    elif kind == 5:
        ev = np.full(n, rng.normal())
    else:
        ev = 10 ** rng.uniform(-5, 4, n)
    H = Q @ np.diag(ev * s) @ Q.T
    return 0.5 * (H + H.T)


# ---------------------------------------------------------------- basis oracle
def basis(x, q):
    """1, x_i, x_i^2/2, x_{i}x_{i+1}, x_i x_{i+2}, ... truncated to q entries"""
    n = len(x)
    z = [1.0] + [float(v) for v in x] + [0.5 * float(v) ** 2 for v in x]
    for k in range(1, n):
        for j in range(0, n - k):
            z.append(float(x[j]) * float(x[j + k]))
    return z[:q]


def qfull(n):
    return (n + 1) * (n + 2) // 2


def rq(rng, n):
    t = rng.random()
    if t < 0.15:
        return int(rng.choice([1, n + 1, 2 * n + 1, qfull(n)]))
    return int(rng.integers(1, qfull(n) + 1))


@check('P10')
def p10(rng, k, info):
    evalZ, evalP = imp('bcdfo_evalZ'), imp('bcdfo_evalP')
    gradP, hessP = imp('bcdfo_gradP'), imp('bcdfo_hessP')
    n = rdim(rng, 1, 7)
    q = rq(rng, n)
    m = int(rng.integers(1, 5))
    X = np.hstack([rvec(rng, n, 1.5) for _ in range(m)])
    P = rvec(rng, q, 2.0).reshape(1, -1)
    info.update(kind='n=%d' % n, n=n, q=q, X=X.tolist(), P=P.tolist())
    fr = Frozen(X=X, P=P)
    Z = call(evalZ, X, q)
    ref = np.array([basis(X[:, j], q) for j in range(m)]).T
    need(np.shape(Z) == (q, m), 'evalZ returns shape %s for q=%d, m=%d', np.shape(Z), q, m)
    need(close(Z, ref, 1e-12, 1e-12), 'evalZ differs from the documented basis at n=%d q=%d: %s instead of %s', n, q, show(Z[:, 0]), show(ref[:, 0]))
    x = X[:, [0]]
    shift = int(rng.integers(0, 2))
    xbase = rvec(rng, n, 1.0)
    s = 10 ** rng.uniform(-1, 1)
    scale = np.concatenate([[1.0], np.full(min(n, q - 1), s), np.full(max(0, q - n - 1), s * s)]).reshape(-1, 1)
    info.update(shift=shift, xbase=xbase.tolist(), scale=scale.tolist())
    if shift and q == 1:
        scale = np.array([[1.0], [s]])     # evalP reads the linear scale factor
    def val(xx):
        d = (xx - xbase) * s if shift else xx
        return float(P @ np.array(basis(d[:, 0], q)).reshape(-1, 1))
    v = np.asarray(call(evalP, P, x, xbase, scale, shift))
    need(v.size == 1, 'evalP returns %s values for one point', v.size)
    need(close(v.reshape(()), val(x), 1e-11, 1e-11), 'evalP returns %.17g, the model value is %.17g', float(v.reshape(())), val(x))
    if q == 1:
        return
    sc = scale
    g = np.asarray(call(gradP, P, x, xbase, sc, shift))
    # exact derivative of the quadratic by central differences of step one
    gref = np.zeros((n, 1))
    Href = np.zeros((n, n))
    h = 1.0
    E = np.eye(n)
    for i in range(n):
        e = E[:, [i]]
        gref[i] = (val(x + h * e) - val(x - h * e)) / (2 * h)
        for j in range(n):
            f = E[:, [j]]
            Href[i, j] = (val(x + e + f) - val(x + e - f) - val(x - e + f) + val(x - e - f)) / 4
    need(g.shape == (n, 1), 'gradP returns shape %s', g.shape)
    tol = 1e-9 * (1 + s * s) * (1 + np.max(np.abs(X)) + np.max(np.abs(xbase))) ** 2 * (1 + np.max(np.abs(P)))
    need(close(g, gref, 1e-8, tol), 'gradP returns %s, the derivative is %s', show(g.T), show(gref.T))
    H = np.asarray(call(hessP, P, x, xbase, sc, shift))
    need(H.shape == (n, n), 'hessP returns shape %s', H.shape)
    need(close(H, Href, 1e-8, tol), 'hessP returns %s, the second derivative is %s', show(H), show(Href))
    fr.check('model evaluation')


# ---------------------------------------------------------------- sets
def rset(rng, n, p1, shift, radius=None):
    """well spread points; rejects badly conditioned basis matrices"""
    radius = 10 ** rng.uniform(-2, 1) if radius is None else radius
    for _ in range(30):
        base = rvec(rng, n, 2.0)
        Y = base + radius * rng.uniform(-1, 1, size=(n, p1))
        Y[:, [0]] = base
        t = rng.random()
        if p1 >= n + 1 and t < 0.3:
            Y[:, 1:n + 1] = base - radius * np.eye(n)
            if p1 >= 2 * n + 1:
                Y[:, n + 1:2 * n + 1] = base + radius * np.eye(n)
        if shift and p1 > 1:
            D = Y - Y[:, [0]]
            r = max(np.linalg.norm(D[:, j]) for j in range(p1))
            D = D / r
        else:
            D = Y
        Z = np.array([basis(D[:, j], qfull(n)) for j in range(p1)]).T
        yield Y, Z


def poised(rng, n, p1, shift, whichmodel, kmax=1e5, radius=None):
    for Y, Z in rset(rng, n, p1, shift, radius):
        q = p1 if whichmodel == 0 else qfull(n)
        if np.linalg.cond(Z[:q, :]) < kmax:
            return Y
    raise Skip()


def rmodel(rng, n):
    """(whichmodel, p1)"""
    qf = qfull(n)
    wm = int(rng.choice([0, 0, 0, 2, 3]))
    if wm == 0:
        p1 = int(rng.choice([n + 1, qf, int(rng.integers(max(2, n + 1), qf + 1)), int(rng.integers(2, n + 2))]))
    elif wm == 2:
        p1 = int(rng.integers(n + 1, qf + 1))
    else:
        p1 = int(rng.integers(n + 1, qf + qf // 2 + 1))
    return wm, p1


@check('P11')
def p11(rng, k, info):
    build, computeP, computeLj, evalL, evalP = (imp('bcdfo_build_QR_of_Y'), imp('bcdfo_computeP'), imp('bcdfo_computeLj'),
                                                imp('bcdfo_evalL'), imp('bcdfo_evalP'))
    n = rdim(rng, 1, 5)
    wm, p1 = rmodel(rng, n)
    shift = int(rng.random() < 0.8)
    if p1 < n + 1:
        shift = 0          # the statement covers sets from the linear size on
    qf = qfull(n)
    Y = poised(rng, n, p1, shift, wm if not (wm == 3 and p1 < qf) else 2, radius=None if shift else 1.0)
    info.update(kind='model%d' % wm, n=n, p1=p1, whichmodel=wm, shift=shift, Y=Y.tolist())
    Delta, normgx, kappa = 1.0, 1.0, 1e15
    fr = Frozen(Y=Y)
    QZ, RZ, xbase, scale = call(build, Y, wm, shift, Delta, normgx, kappa)
    fr.check('build_QR')
    r = max([np.linalg.norm(Y[:, j] - Y[:, 0]) for j in range(p1)])
    xb = Y[:, [0]] if shift and p1 > 1 else np.zeros((n, 1))
    need(close(xbase, xb, 0, 0), 'the base point is %s instead of %s', show(xbase.T), show(xb.T))
    q = p1 if wm == 0 else qf
    s = 1 / r if shift and p1 > 1 else 1.0
    sref = np.concatenate([[1.0], np.full(min(n, q - 1), s), np.full(max(0, q - n - 1), s * s)]).reshape(-1, 1)
    need(close(np.asarray(scale), sref, 1e-12, 0), 'scale is %s instead of %s', show(np.asarray(scale).T), show(sref.T))
    # factorization of the basis matrix of the current set
    D = (Y - xb) * s
    Z = np.array([basis(D[:, j], q) for j in range(p1)]).T
    F = Z.T if wm == 3 and p1 >= qf else Z
    need(np.shape(QZ)[1] == np.shape(RZ)[0], 'factor shapes %s %s', np.shape(QZ), np.shape(RZ))
    need(close(QZ @ RZ, F, 1e-9, 1e-10), 'QZ*RZ is not the basis matrix of the set')
    need(close(QZ.T @ QZ, np.eye(QZ.shape[1]), 0, 1e-10), 'QZ has no orthonormal columns')
    need(close(np.tril(RZ, -1), np.zeros_like(RZ), 0, 1e-12), 'RZ is not upper triangular')
    nr = int(rng.integers(1, 4))
    fY = rng.normal(size=(nr, p1)) * 10 ** rng.uniform(-2, 3)
    info.update(fY=fY.tolist())
    ind_Y = np.arange(p1)
    init = np.zeros((1, qf))
    P = np.asarray(call(computeP, QZ, RZ, Y, fY, wm, init, ind_Y, 0, 0, np.zeros((n, 1)), scale, shift, Delta))
    need(P.shape == (nr, q), 'computeP returns shape %s instead of %s', P.shape, (nr, q))
    tolv = 1e-6 * (1 + np.max(np.abs(fY)))
    if not (wm == 3 and p1 > qf):
        for j in range(p1):
            v = np.asarray(call(evalP, P, Y[:, [j]], xbase, scale, shift)).reshape(-1)
            need(np.all(np.abs(v - fY[:, j]) <= tolv), 'the model takes the values %s at point %d instead of %s', show(v), j, show(fY[:, j]))
    else:
        # regression: least squares fit
        ref = np.linalg.lstsq(Z.T, fY.T, rcond=None)[0].T
        need(close(P, ref, 1e-5, 1e-6 * (1 + np.max(np.abs(ref)))), 'regression coefficients %s are not the least squares ones %s', show(P), show(ref))
    if wm == 2 and p1 < qf:
        ref = np.linalg.pinv(Z.T) @ fY.T
        need(close(P, ref.T, 1e-5, 1e-6 * (1 + np.max(np.abs(ref)))), 'the minimum-norm model has not minimal norm')
    allv = np.asarray(call(evalL, QZ, RZ, Y, np.arange(p1), Y[:, [0]], xbase, wm, scale, shift))
    need(allv.shape == (p1, 1), 'evalL returns shape %s', allv.shape)
    xt = Y[:, [0]] + r * rng.uniform(-1, 1, size=(n, 1))
    Lt = np.asarray(call(evalL, QZ, RZ, Y, np.arange(p1), xt, xbase, wm, scale, shift))
    for j in range(p1):
        Lj = np.asarray(call(computeLj, QZ, RZ, j, Y, wm, scale, shift))
        need(Lj.shape == (1, q), 'computeLj returns shape %s', Lj.shape)
        vt = float(np.asarray(call(evalP, Lj, xt, xbase, scale, shift)).reshape(()))
        need(abs(vt - Lt[j, 0]) <= 1e-6 * (1 + abs(vt)), 'Lagrange polynomial %d is %.10g by evalL and %.10g by computeLj at %s', j, Lt[j, 0], vt, show(xt.T))
        if wm == 3 and p1 > qf:
            continue
        for i in range(p1):
            v = float(np.asarray(call(evalP, Lj, Y[:, [i]], xbase, scale, shift)).reshape(()))
            need(abs(v - (1.0 if i == j else 0.0)) <= 1e-6, 'Lagrange polynomial %d is %.10g at point %d', j, v, i)
    # a subset of the polynomials
    sub = np.sort(rng.permutation(p1)[:int(rng.integers(1, p1 + 1))]).reshape(-1, 1)
    Ls = np.asarray(call(evalL, QZ, RZ, Y, sub, xt, xbase, wm, scale, shift))
    for j in range(p1):
        ref = Lt[j, 0] if j in sub else 0.0
        need(abs(Ls[j, 0] - ref) <= 1e-8 * (1 + abs(ref)), 'evalL on the subset %s gives %.10g for polynomial %d instead of %.10g', sub.ravel().tolist(), Ls[j, 0], j, ref)
    fr.check('interpolation')


@check('P12')
def p12(rng, k, info):
    which = ['swap', 'replace', 'augment', 'include'][k % 4]
    n = rdim(rng, 1, 4)
    shift = int(rng.random() < 0.8)
    qf = qfull(n)
    wm = int(rng.choice([0, 0, 2, 3]))
    p1 = int(rng.integers(n + 1, qf + 1))
    Y = poised(rng, n, p1, shift, wm if wm != 3 or p1 >= qf else 2, radius=None if shift else 1.0)
    build = imp('bcdfo_build_QR_of_Y')
    QZ, RZ, xbase, scale = call(build, Y.copy(), wm, shift, 1.0, 1.0, 1e15)
    info.update(kind=which, n=n, p1=p1, shift=shift, whichmodel=wm, Y=Y.tolist())

    def factors(Yn, QZn, RZn, xb, sc, msg):
        a = call(build, Yn.copy(), wm, shift, 1.0, 1.0, 1e15)
        need(np.shape(QZn) == np.shape(a[0]) and np.shape(RZn) == np.shape(a[1]) and close(QZn @ RZn, a[0] @ a[1], 1e-9, 1e-10), '%s: the factorization does not belong to the new set', msg)
        need(close(np.asarray(xb), np.asarray(a[2]), 0, 0), '%s: wrong base point', msg)
        need(close(np.asarray(sc), np.asarray(a[3]), 1e-12, 0), '%s: wrong scaling', msg)
    if which == 'swap':
        f = imp('sqpdfo_swap_in_Y')
        i, j = int(rng.integers(0, p1)), int(rng.integers(0, p1))
        fY = rng.normal(size=p1)
        ind = rng.permutation(3 * p1)[:p1]
        mc = int(rng.integers(0, 4))
        me = int(rng.integers(0, 4))
        ci = rng.normal(size=(mc, p1)) if mc else np.array([])
        ce = rng.normal(size=(me, p1)) if me else np.array([])
        info.update(i=i, j=j, ci=mc, ce=me)
        fr = Frozen(Y=Y, ind=ind, fY=fY, ci=ci, ce=ce, QZ=QZ, RZ=RZ)
        q2, r2, Y2, ind2, fY2, ci2, ce2, xb2, sc2 = call(f, i, j, QZ, RZ, Y, ind, fY, ci, ce, xbase, wm, scale, shift, 1.0, 1.0, 1e15)
        fr.check('swap')
        pm = np.arange(p1)
        pm[i], pm[j] = j, i
        need(same(Y2, Y[:, pm]), 'swap(%d,%d): the points are not the exchanged ones', i, j)
        need(same(ind2, ind[pm]), 'swap(%d,%d): indices %s instead of %s', i, j, show(ind2), show(ind[pm]))
        need(same(fY2, fY[pm]), 'swap(%d,%d): objective values are not exchanged with their points', i, j)
        need(same(ce2, ce[:, pm] if me else ce), 'swap(%d,%d): equality values are not exchanged with their points', i, j)
        need(same(ci2, ci[:, pm] if mc else ci), 'swap(%d,%d): inequality values are not exchanged with their points', i, j)
        factors(Y2, q2, r2, xb2, sc2, 'swap')
    elif which == 'replace':
        f = imp('bcdfo_replace_in_Y')
        j = int(rng.integers(0, p1))
        y = rvec(rng, n, 3.0)
        E = Y.copy()
        E[:, j] = y.reshape(-1)
        if shift and not np.max(np.abs(E - E[:, [0]])) > 1e-8:
            raise Skip()        # all points coincide: no set
        if rng.random() < 0.3:
            y = y.reshape(-1)
        info.update(j=j, y=y.tolist())
        fr = Frozen(Y=Y, y=y, QZ=QZ, RZ=RZ)
        q2, r2, Y2, xb2, sc2 = call(f, QZ, RZ, y, Y, j, xbase, wm, scale, shift, 1.0, 1.0, 1e15)
        fr.check('replace')
        E = Y.copy()
        E[:, j] = y.reshape(-1)
        need(same(Y2, E), 'replace(%d): the set is not the old one with this column replaced', j)
        factors(Y2, q2, r2, xb2, sc2, 'replace')
    elif which == 'augment':
        f = imp('bcdfo_augment_Y')
        if rng.random() < 0.3 and wm != 3:
            p1 = qf
            Y = poised(rng, n, p1, shift, wm, radius=None if shift else 1.0)
        m = 1 if rng.random() < 0.7 else int(rng.integers(1, 3))
        if wm == 0 and p1 < qf:
            m = min(m, qf - p1)
        new = rng.normal(size=(n, m)) + Y[:, [0]]
        info.update(p1=p1, new=new.tolist(), Y=Y.tolist())
        fr = Frozen(Y=Y, new=new)
        p2, q2, r2, Y2, xb2, sc2 = call(f, new, Y, wm, shift, 1.0, 1.0, 1e15)
        fr.check('augment')
        if p1 >= qf and wm != 3:
            need(int(p2) == p1 and same(Y2, Y), 'augmenting a full quadratic set is not ignored')
        else:
            need(int(p2) == p1 + m and same(Y2, np.hstack([Y, new])), 'augment: the set is not the old one followed by the new points')
        factors(Y2, q2, r2, xb2, sc2, 'augment')
    else:
        f = imp('bcdfo_include_in_Y')
        evalL = imp('bcdfo_evalL')
        x = Y[:, [0]] + rng.normal(size=(n, 1)) * 10 ** rng.uniform(-1, 0.5)
        if rng.random() < 0.2:
            x = Y[:, [int(rng.integers(0, p1))]] + 1e-3 * rng.normal(size=(n, 1))
        cs = np.sort(rng.permutation(p1)[:int(rng.integers(0, p1 + 1))])
        csa = cs.reshape(-1, 1) if rng.random() < 0.5 else cs
        if len(cs) == 0:
            csa = []
        thr = float(rng.choice([1e-10, 0.5, 1.0, 1.2, 10 ** rng.uniform(-3, 1)]))
        crit = ['weighted', 'standard', 'distance'][int(rng.integers(0, 3))]
        succ = int(rng.integers(0, 2))
        if shift == 0 and rng.random() < .5:
            shift = 0
        info.update(x=x.tolist(), choice=cs.tolist(), thr=thr, crit=crit, succ=succ)
        fr = Frozen(Y=Y, x=x, QZ=QZ, RZ=RZ)
        q2, r2, Y2, pos, xb2, sc2 = call(f, x, QZ, RZ, Y, csa, thr, crit, xbase, wm, succ, scale, shift, 1.0, 1.0, 1e15)
        fr.check('include')
        pos = int(pos)
        L = np.abs(np.asarray(call(evalL, QZ, RZ, Y, np.arange(p1), x, xbase, wm, scale, shift)).reshape(-1))
        ref = x if succ == 1 else Y[:, [0]]
        d = np.array([np.linalg.norm(Y[:, [j]] - ref) for j in range(p1)])
        cv = {'weighted': d ** 2 * L, 'standard': L, 'distance': d}[crit]
        adm = [j for j in cs if L[j] > thr * (1 + 1e-9) and cv[j] > 1e-12]
        maybe = [j for j in cs if L[j] > thr * (1 - 1e-9) - 1e-14]
        if pos == -1:
            need(not adm, 'include replaced nothing although point %s qualifies (threshold %g, |L|=%s)', adm[:3], thr, show(L))
            need(same(Y2, Y), 'include reports no replacement but changed the set')
        else:
            need(pos in maybe, 'include replaced point %d, which is not a candidate above the threshold', pos)
            best = max([cv[j] for j in adm], default=0.0)
            need(cv[pos] >= best * (1 - 1e-9) - 1e-12, 'include replaced point %d with criterion %.10g although %.10g is available', pos, cv[pos], best)
            E = Y.copy()
            E[:, [pos]] = x
            need(same(Y2, E), 'include changed more than column %d', pos)
            factors(Y2, q2, r2, xb2, sc2, 'include')


def _Lj(Y, j, shift):
    """independent Lagrange polynomial (subbasis) in original coordinates: g, H at the base point"""
    n, p1 = Y.shape
    D = Y - Y[:, [0]]
    r = max(np.linalg.norm(D[:, i]) for i in range(p1)) if shift else 1.0
    base = Y[:, [0]] if shift else np.zeros((n, 1))
    Z = np.array([basis(((Y[:, i:i + 1] - base) / r)[:, 0], p1) for i in range(p1)]).T
    c = np.linalg.solve(Z.T, np.eye(p1)[:, j])

    def val(x):
        return float(np.dot(c, basis(((x - base) / r)[:, 0], p1)))
    return val


@check('P13')
def p13(rng, k, info):
    repair, poisedY, build = imp('bcdfo_repair_Y'), imp('bcdfo_poisedness_Y'), imp('bcdfo_build_QR_of_Y')
    n = rdim(rng, 1, 4)
    p1 = int(rng.integers(n + 1, qfull(n) + 1)) if rng.random() < 0.8 else n + 1
    shift = 1
    Y = poised(rng, n, p1, shift, 0, kmax=1e4)
    r0 = max(np.linalg.norm(Y[:, j] - Y[:, 0]) for j in range(p1))
    # some points far away, some nearly degenerate
    t = rng.random()
    Y = Y.copy()
    if t < 0.6:
        for j in range(1, p1):
            if rng.random() < 0.4:
                Y[:, j] = Y[:, 0] + (Y[:, j] - Y[:, 0]) * rng.uniform(2, 40)
    if t > 0.4 and p1 > 2 and rng.random() < 0.5:
        i, j = rng.permutation(np.arange(1, p1))[:2]
        Y[:, i] = Y[:, j] + 1e-2 * r0 * rng.normal(size=n)
    if p1 > 2 and rng.random() < 0.1:
        Y[:, 1] = Y[:, 0] + 3 * r0 * (Y[:, 2] - Y[:, 0]) / max(np.linalg.norm(Y[:, 2] - Y[:, 0]), 1e-300)
    D = Y - Y[:, [0]]
    D = D / max(np.linalg.norm(D[:, j]) for j in range(1, p1))
    if not np.linalg.cond(np.array([basis(D[:, j], p1) for j in range(p1)]).T) < 1e7:
        raise Skip()       # not a poised set
    QZ, RZ, xbase, scale = call(build, Y.copy(), 0, shift, 1.0, 1.0, 1e15)
    eps_L = 1e-3
    Delta = r0 * 10 ** rng.uniform(-1.5, 1)
    far = float(rng.choice([1, 10]))
    farthr, closethr = 1e-10, float(rng.choice([1.2, 2.0, 100.0]))
    info.update(kind='p1=n+1' if p1 == n + 1 else 'p1>n+1', n=n, p1=p1, Delta=Delta, far=far, closethr=closethr, Y=Y.tolist())
    lb, ub = -1e20 * np.ones((n, 1)), 1e20 * np.ones((n, 1))
    fr = Frozen(Y=Y, QZ=QZ, RZ=RZ)
    # geometry measure
    lam, rad = call(poisedY, QZ, RZ, Y, eps_L, xbase, 1, 0, 0, lb, ub, np.arange(n), 1, scale, shift)
    fr.check('poisedness')
    R = max(np.linalg.norm(Y[:, j] - Y[:, 0]) for j in range(1, p1))
    need(close(rad, R, 1e-12, 0), 'poisedness reports the set radius %.17g instead of %.17g', float(rad), R)
    lam = float(np.asarray(lam).reshape(-1)[0])
    lo, hi = 0.0, 0.0
    for j in range(1, p1):
        L = _Lj(Y, j, shift)
        y0 = Y[:, [0]]
        E = np.eye(n)
        h = R
        g = np.array([(L(y0 + h * E[:, [i]]) - L(y0 - h * E[:, [i]])) / (2 * h) for i in range(n)])
        H = np.array([[(L(y0 + h * (E[:, [a]] + E[:, [b]])) - L(y0 + h * (E[:, [a]] - E[:, [b]])) - L(y0 - h * (E[:, [a]] - E[:, [b]])) + L(y0 - h * (E[:, [a]] + E[:, [b]]))) / (4 * h * h) for b in range(n)] for a in range(n)])
        hi = max(hi, np.linalg.norm(g) * R * (1 + 2e-3) + 0.5 * np.linalg.norm(H, 2) * R * R * (1 + 2e-3) ** 2)
        if np.linalg.norm(g) * R > 1e-4:
            for _ in range(12):
                u = rng.normal(size=(n, 1))
                u *= R / np.linalg.norm(u) * (1.0 if rng.random() < .7 else rng.random())
                lo = max(lo, abs(L(y0 + u)))
            u = (g * R / np.linalg.norm(g)).reshape(-1, 1)
            lo = max(lo, abs(L(y0 + u)), abs(L(y0 - u)))
    need(lam <= hi * (1 + 1e-6) + 1e-9, 'poisedness reports %.10g, above the largest possible Lagrange value %.10g', lam, hi)
    need(lam >= lo * (1 - 2e-2) - 1e-6, 'poisedness reports %.10g although a non-base Lagrange polynomial reaches %.10g in the ball', lam, lo)
    # repair
    Q2, R2, Y2, replaced, mi, Yr, xb2, sc2 = call(repair, QZ, RZ, Y, Delta, far, farthr, closethr, eps_L, xbase, 1, 0, 0, lb, ub, np.arange(n), 1, scale, shift, 1.0, 1e15)
    fr.check('repair')
    need(np.shape(Y2) == np.shape(Y), 'repair changed the shape of the set')
    need(same(Y2[:, 0], Y[:, 0]), 'repair moved the base point')
    rep = [int(v) for v in np.asarray(replaced).reshape(-1)]
    need(len(set(rep)) == len(rep), 'repair lists a position twice: %s', rep)
    need(all(0 < v < p1 for v in rep), 'repair lists the positions %s of a set of %d points', rep, p1)
    changed = [j for j in range(p1) if not same(Y2[:, j], Y[:, j])]
    need(set(changed) <= set(rep), 'repair changed the columns %s but reports %s', changed, rep)
    need(set(rep) <= set(changed), 'repair reports %s but changed only %s', rep, changed)
    for j in changed:
        d = np.linalg.norm(Y2[:, j] - Y2[:, 0])
        need(d <= (1 + eps_L) * Delta * (1 + 1e-6) + 1e-12, 'repair inserted a point at distance %.10g of the base point with radius %.10g', d, Delta)
    a = call(build, Y2.copy(), 0, shift, Delta, 1.0, 1e15)
    need(np.shape(Q2 @ R2) == np.shape(a[0] @ a[1]) and close(Q2 @ R2, a[0] @ a[1], 1e-8, 1e-9), 'repair returns a factorization of another set')
    d = [np.linalg.norm(Y2[:, j] - Y2[:, 0]) for j in range(p1)]
    need(close(float(np.asarray(Yr).reshape(-1)[0]), max(d), 1e-9, 0), 'repair reports the radius %.17g, the farthest point is at distance %.17g', float(np.asarray(Yr).reshape(-1)[0]), max(d))


def trdata(rng, n):
    H = rsym(rng, n)
    g = rvec(rng, n)
    t = rng.random()
    if t < 0.08:
        g = np.zeros((n, 1))
    elif t < 0.25:
        # hard case: gradient orthogonal to the leftmost eigenvector
        w, V = np.linalg.eigh(H)
        g = g - V[:, [0]] * float(V[:, 0] @ g)
        if rng.random() < 0.5:
            Hk = np.diag(np.sort(np.round(rng.normal(size=n) * 3)))
            H = Hk
            g = rvec(rng, n)
            g[0] = 0.0
    Delta = 10 ** rng.uniform(-3, 2)
    return H, g, Delta


@check('P14')
def p14(rng, k, info):
    f = imp('bcdfo_solve_TR_MS')
    n = rdim(rng, 1, 6)
    H, g, Delta = trdata(rng, n)
    eps = float(rng.choice([1e-3, 1e-7, 1e-5]))
    info.update(n=n, H=H.tolist(), g=g.tolist(), Delta=Delta, eps=eps)
    fr = Frozen(H=H, g=g)
    s, lam, norms, value, gplus, nfact, neigd, msg, hard = call(f, g, H, Delta, eps)
    fr.check('solve_TR_MS')
    info['kind'] = msg.split('(')[0].strip() + (' hard' if hard else '')
    if 'error' in msg.lower() or 'zero -' in msg:
        return
    s = np.asarray(s)
    need(s.shape == (n, 1), 'the step has shape %s', s.shape)
    need(np.all(np.isfinite(s)), 'the step is %s (%s)', show(s.T), msg)
    ns = np.linalg.norm(s)
    sc = np.linalg.norm(g) * Delta + np.linalg.norm(H, 2) * Delta ** 2
    need(ns <= (1 + eps) * Delta * (1 + 1e-8), 'step of norm %.12g with radius %.12g (%s)', ns, Delta, msg)
    m = float((g.T @ s + 0.5 * s.T @ H @ s).reshape(()))
    need(m <= 1e-10 * (sc + 1e-300) + 1e-14, 'the step increases the model by %.6g (%s)', m, msg)
    if abs(float(np.asarray(value).reshape(()))) > 1e-12:
        need(abs(float(np.asarray(norms).reshape(())) - ns) <= 1e-9 * (Delta + ns), 'reported norm %.12g of a step of norm %.12g (%s)', float(np.asarray(norms).reshape(())), ns, msg)
    need(abs(float(np.asarray(value).reshape(())) - m) <= 1e-8 * sc + 1e-12, 'reported value %.12g of a step with value %.12g (%s)', float(np.asarray(value).reshape(())), m, msg)
    if np.linalg.norm(s) > 0 or not hard:
        need(np.linalg.norm(np.asarray(gplus) - (g + H @ s)) <= 1e-8 * (np.linalg.norm(g) + np.linalg.norm(H, 2) * Delta) + 1e-12, 'reported gradient is not the one of the step (%s)', msg)
    if msg.startswith('interior') and not hard:
        r = np.linalg.norm(g + H @ s)
        need(r <= 1e-6 * (np.linalg.norm(g) + np.linalg.norm(H, 2) * Delta), 'step reported as interior has model gradient %.6g', r)
    if msg.startswith('boundary') and abs(float(np.asarray(value).reshape(()))) > 1e-12:
        need(ns >= (1 - eps) * Delta * (1 - 1e-8), 'step reported on the boundary has norm %.12g, radius %.12g', ns, Delta)
    # not worse than the Cauchy step
    gn = np.linalg.norm(g)
    if gn ** 2 >= 1e-12 and msg != 'zero gradient':
        c = float((g.T @ H @ g).reshape(()))
        t = Delta / gn if c <= 0 else min(Delta / gn, gn ** 2 / c)
        mc = -t * gn ** 2 + 0.5 * t * t * c
        need(m <= 0.5 * mc + 1e-8 * sc, 'the step decreases the model by %.6g only, the Cauchy step by %.6g (%s)', -m, -mc, msg)


@check('P15')
def p15(rng, k, info):
    f = imp('bcdfo_solve_TR_MS_bc')
    n = rdim(rng, 1, 5)
    H, g, Delta = trdata(rng, n)
    w = 10 ** rng.uniform(-2, 2)
    lb = -w * rng.random((n, 1)) * Delta
    ub = w * rng.random((n, 1)) * Delta
    for i in range(n):
        t = rng.random()
        if t < 0.15: lb[i] = 0.0
        elif t < 0.3: lb[i] = -1e20
        t = rng.random()
        if t < 0.15: ub[i] = 0.0
        elif t < 0.3: ub[i] = 1e20
        if lb[i] == 0 and ub[i] == 0:
            ub[i] = Delta * 0.5
    eps = float(rng.choice([1e-3, 1e-7]))
    info.update(n=n, H=H.tolist(), g=g.tolist(), Delta=Delta, eps=eps, lb=lb.tolist(), ub=ub.tolist())
    fr = Frozen(H=H, g=g, lb=lb, ub=ub)
    s, lam, norms, value, gplus, nfact, neigd, msg = call(f, g, H, lb, ub, Delta, eps, 1, opts(verbose=0))
    fr.check('solve_TR_MS_bc')
    info['kind'] = msg.split('(')[0].strip() or '(partly) interior'
    if 'error' in msg.lower() or 'limit' in msg or 'zero -' in msg:
        return
    s = np.asarray(s)
    need(s.shape == (n, 1) and np.all(np.isfinite(s)), 'the step is %s (%s)', show(s.T), msg)
    need(np.all(s >= lb - 1e-5 - 1e-9) and np.all(s <= ub + 1e-5 + 1e-9), 'step %s leaves the box [%s, %s] (%s)', show(s.T), show(lb.T), show(ub.T), msg)
    ns = np.linalg.norm(s)
    need(ns <= (1 + eps) * Delta * (1 + 1e-8) + 1e-5 * np.sqrt(n), 'step of norm %.12g with radius %.12g (%s)', ns, Delta, msg)
    need(abs(float(np.asarray(norms).reshape(())) - ns) <= 1e-8 * (Delta + ns), 'reported norm %.12g of a step of norm %.12g (%s)', float(np.asarray(norms).reshape(())), ns, msg)
    m = float((g.T @ s + 0.5 * s.T @ H @ s).reshape(()))
    sc = np.linalg.norm(g) * Delta + np.linalg.norm(H, 2) * Delta ** 2
    need(abs(float(np.asarray(value).reshape(())) - m) <= 1e-8 * sc + 1e-12, 'reported value %.12g of a step with value %.12g (%s)', float(np.asarray(value).reshape(())), m, msg)
    need(m <= 1e-8 * sc + 2e-5 * (np.linalg.norm(g) + np.linalg.norm(H, 2) * Delta) * n, 'the step increases the model by %.6g (%s)', m, msg)


@check('P16')
def p16(rng, k, info):
    f = imp('sqpdfo_truncated_cg')
    n = rdim(rng, 1, 7)
    A = rsym(rng, n)
    b = rvec(rng, n)
    t = rng.random()
    if t < 0.06:
        b = np.zeros((n, 1))
    elif t < 0.15:
        w, V = np.linalg.eigh(A)
        b = V[:, [int(rng.integers(0, n))]] * 3.0
    delta = 10 ** rng.uniform(-3, 3)
    itmax = int(rng.choice([1, 2, 20 * n, 20 * n]))
    tol = 10 ** rng.uniform(-10, -3)
    info.update(n=n, A=A.tolist(), b=b.tolist(), delta=delta, max_iter=itmax, tol=tol)
    fr = Frozen(A=A, b=b)
    x, inf = call(f, A, b, delta, itmax, tol)
    fr.check('truncated_cg')
    x = np.asarray(x)
    need(x.shape == (n, 1) and np.all(np.isfinite(x)), 'truncated_cg returns %s', show(x.T))
    nx = np.linalg.norm(x)
    info['kind'] = 'flag %s' % inf.flag
    sc = np.linalg.norm(b) * delta + np.linalg.norm(A, 2) * delta ** 2
    need(nx <= delta * (1 + 1e-8), 'the point has norm %.12g, the radius is %.12g (flag %s)', nx, delta, inf.flag)
    m = float((0.5 * x.T @ A @ x - b.T @ x).reshape(()))
    need(m <= 1e-10 * sc, 'the point has model value %.6g > 0 (flag %s)', m, inf.flag)
    r = np.linalg.norm(A @ x - b)
    if inf.flag == 0:
        need(r <= tol * (1 + 1e-6) + 1e-9 * (np.linalg.norm(b) + np.linalg.norm(A, 2) * nx), 'converged with residual %.6g > %.6g', r, tol)
    elif inf.flag in (1, 2):
        need(nx >= delta * (1 - 1e-8), 'flag %s but the norm is %.12g, the radius %.12g', inf.flag, nx, delta)
        if inf.flag == 2 and inf.iter == 1:
            need(float((b.T @ A @ b).reshape(())) <= 1e-9 * np.linalg.norm(A, 2) * np.linalg.norm(b) ** 2, 'negative curvature reported along a direction of positive curvature')
    elif inf.flag == -1:
        need(inf.iter >= itmax, 'iteration limit %d reported after %s iterations', itmax, inf.iter)
    else:
        raise Bad('unknown flag %s' % inf.flag)
    if inf.flag != 0 and np.linalg.norm(b) > 0:
        # at least the Cauchy decrease
        c = float((b.T @ A @ b).reshape(()))
        gn = np.linalg.norm(b)
        t = delta / gn if c <= 0 else min(delta / gn, gn ** 2 / c)
        mc = -t * gn ** 2 + 0.5 * t * t * c
        need(m <= mc + 1e-8 * sc, 'less decrease (%.6g) than the first conjugate-gradient step (%.6g), flag %s', m, mc, inf.flag)
    if inf.flag == 2 or inf.flag == 1:
        pass
    need(abs(float(np.asarray(inf.prec).reshape(())) - r) <= 1e-6 * (np.linalg.norm(b) + np.linalg.norm(A, 2) * delta) or inf.flag in (1, 2), 'reported residual %.6g, true residual %.6g', float(np.asarray(inf.prec).reshape(())), r)


@check('P17')
def p17(rng, k, info):
    f = imp('bcdfo_projgrad')
    n = rdim(rng, 1, 8)
    x = rvec(rng, n, 2.0)
    g = rvec(rng, n, 2.0)
    bl = x - np.abs(rvec(rng, n, 1.0))
    bu = x + np.abs(rvec(rng, n, 1.0))
    for i in range(n):
        t = rng.random()
        if t < 0.15: bl[i] = -np.inf
        elif t < 0.3: bl[i] = -1e20
        elif t < 0.5: bl[i] = x[i]
        t = rng.random()
        if t < 0.15: bu[i] = np.inf
        elif t < 0.3: bu[i] = 1e20
        elif t < 0.5: bu[i] = x[i]
        if rng.random() < 0.1: g[i] = 0.0
    info.update(kind='n=%d' % n, n=n, x=x.tolist(), g=g.tolist(), bl=bl.tolist(), bu=bu.tolist())
    fr = Frozen(x=x, g=g, bl=bl, bu=bu)
    gn, v = call(f, n, x, g, bl, bu)
    fr.check('projgrad')
    v = np.asarray(v)
    need(v.shape == (n, 1), 'projgrad returns shape %s', v.shape)
    ref = x - np.minimum(np.maximum(x - g, bl), bu)
    need(close(v, ref, 1e-10, 1e-12 * (1 + np.max(np.abs(x)))), 'projected gradient %s instead of x - P(x-g) = %s', show(v.T), show(ref.T))
    need(close(gn, np.max(np.abs(v)), 0, 0), 'norm %.12g of the projected gradient %s', float(gn), show(v.T))
    m = int(rng.integers(n, n + 3))
    gn2, v2 = call(f, m, x, g, bl, bu)
    need(same(v2, v) and float(gn2) == float(gn), 'a larger dimension argument changes the projected gradient')


@check('P18')
def p18(rng, k, info):
    f = imp('sqpdfo_bfgs_update')
    n = rdim(rng, 1, 6)
    t = rng.random()
    B = rsym(rng, n, 0) if t < 0.8 else (np.eye(n) if t < 0.9 else rsym(rng, n, 1))
    s = rvec(rng, n, 10 ** rng.uniform(-3, 2))
    Hs = B @ s
    u = rng.random()
    if u < 0.35:
        A = rsym(rng, n, 0)
        y = A @ s
    elif u < 0.7:
        y = rvec(rng, n, float(np.linalg.norm(Hs)) + 1e-12)
    elif u < 0.8:
        y = 0.2 * Hs
    elif u < 0.9:
        y = -Hs * rng.random()
    else:
        y = np.zeros((n, 1))
    if rng.random() < 0.06:
        s = np.zeros((n, 1))
    first = int(rng.random() < 0.3)
    info.update(n=n, H=B.tolist(), y=y.tolist(), s=s.tolist(), first=first)
    v = vals()
    i0 = Obj(flag=0, niter=2)
    fr = Frozen(H=B, y=y, s=s)
    M, pc, inf, _ = call(f, B, y, s, first, i0, opts(verbose=0), v)
    fr.check('bfgs_update')
    need(i0.flag == 0, 'the information passed in was modified')
    M = np.asarray(M)
    Hs = B @ s
    sHs = float((s.T @ Hs).reshape(()))
    ys = float((y.T @ s).reshape(()))
    info['kind'] = 'flag %d damped %d first %d' % (inf.flag, ys < 0.2 * sHs, first)
    if np.linalg.norm(s) == 0 or sHs <= 0:
        need(inf.flag != 0, 'no failure reported for a null step or a non-positive curvature')
        need(same(M, B), 'failure reported but the matrix changed')
        return
    w = np.linalg.eigvalsh(B)
    if w[0] <= 1e-8 * w[-1]:
        return        # the matrix given was not safely positive definite
    need(inf.flag == 0, 'failure reported for a positive definite matrix and a nonzero step')
    marg = abs(ys - 0.2 * sHs) <= 1e-9 * sHs
    if marg:
        return
    if ys >= 0.2 * sHs:
        need(float(np.asarray(pc).reshape(())) == 1.0, 'damping is active (%.6g) although the curvature is sufficient', float(np.asarray(pc).reshape(())))
        yd = y
    else:
        th = 0.8 * sHs / (sHs - ys)
        need(close(np.asarray(pc).reshape(()), th, 1e-9, 0), 'damping factor %.10g instead of %.10g', float(np.asarray(pc).reshape(())), th)
        yd = th * y + (1 - th) * Hs
    yds = float((yd.T @ s).reshape(()))
    need(M.shape == (n, n), 'shape %s', M.shape)
    tol = 1e-7 * (np.linalg.norm(yd) + np.linalg.norm(Hs)) + 1e-9 * np.linalg.norm(M, 2) * np.linalg.norm(s)
    need(np.linalg.norm(M @ s - yd) <= tol, 'the new matrix maps the step to %s instead of %s', show((M @ s).T), show(yd.T))
    need(np.max(np.abs(M - M.T)) <= 1e-9 * np.max(np.abs(M)), 'the new matrix is not symmetric')
    base = float((yd.T @ yd).reshape(())) / yds * np.eye(n) if first else B
    bs = base @ s
    ref = base - bs @ bs.T / float((s.T @ bs).reshape(())) + yd @ yd.T / yds
    need(close(M, ref, 1e-6, 1e-8 * np.linalg.norm(base, 2) + 1e-8 * np.linalg.norm(yd) ** 2 / yds), 'not the BFGS update of the (scaled) matrix')
    if np.linalg.cond(ref) < 1e10:
        need(np.linalg.eigvalsh(0.5 * (M + M.T))[0] > 0, 'the new matrix is not positive definite')


@check('P19')
def p19(rng, k, info):
    n = rdim(rng, 1, 6)
    A = rsym(rng, n)
    if k % 2 == 0:
        f = imp('sqpdfo_check_convex')
        if rng.random() < 0.2:
            A = np.diag(rng.choice([-1.0, 0.0, 1e-11, 2.0, 3.5, -1e-12], size=n))
        elif rng.random() < 0.2:
            B = rng.normal(size=(n, n))
            A = B.T @ B
        info.update(kind='convex', A=A.tolist())
        fr = Frozen(A=A)
        R = np.asarray(call(f, A, opts(verbose=0)))
        fr.check('check_convex')
        w, V = np.linalg.eigh(A)
        nrm = max(1e-300, np.max(np.abs(w)))
        if np.linalg.eigvalsh(A)[0] >= 0:
            need(same(R, A), 'a positive semidefinite matrix was changed')
            return
        need(np.max(np.abs(R - R.T)) <= 1e-9 * nrm, 'the result is not symmetric')
        wr = np.linalg.eigvalsh(0.5 * (R + R.T))
        need(wr[0] >= 1e-9 - 1e-12 * nrm, 'smallest eigenvalue %.6g of the convexified matrix', wr[0])
        w2 = np.where(w < 1e-10, 1e-9, w)
        if np.min(np.abs(w - 1e-10)) > 1e-12 * nrm + 1e-13:
            need(np.linalg.norm(R - V @ np.diag(w2) @ V.T, 2) <= 1e-10 * nrm + 1e-12, 'other than the negative or vanishing eigenvalues were changed: %s -> %s', show(w), show(wr))
    else:
        f = imp('sqpdfo_check_cond')
        thr = 10 ** rng.uniform(0.5, 17)
        if rng.random() < 0.4:
            Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
            ev = 10 ** rng.uniform(-12, 2, n) * rng.choice([-1, 1], n)
            A = Q @ np.diag(ev) @ Q.T
            A = 0.5 * (A + A.T)
        elif rng.random() < 0.2:
            A = np.zeros((n, n)); A[0, 0] = 1.0
        info.update(kind='cond', A=A.tolist(), thr=thr)
        fr = Frozen(A=A)
        R, bad = call(f, A, thr, opts(verbose=0))
        fr.check('check_cond')
        R = np.asarray(R)
        sv = np.linalg.svd(A, compute_uv=False)
        c = np.inf if sv[-1] == 0 else sv[0] / sv[-1]
        if c < thr * (1 - 1e-6):
            need(bad == 0 and same(R, A), 'a matrix of condition %.6g below the threshold %.6g was changed or reported', c, thr)
        elif c > thr * (1 + 1e-6):
            if c > 1e13 and np.isfinite(c) and thr > 1e13:
                return
            need(bad == 1, 'condition %.6g above the threshold %.6g not reported', c, thr)
            need(R.shape == (n, n) and np.max(np.abs(R - R.T)) <= 1e-12 * max(1, sv[0]), 'the result is not symmetric')
            s2 = np.linalg.svd(R, compute_uv=False)
            need(s2[-1] >= 1e-7 - 1e-12 * sv[0] - 1e-13, 'singular value %.6g below the floor', s2[-1])
            ref = np.maximum(sv, 1e-7)
            need(np.linalg.norm(np.sort(s2) - np.sort(ref)) <= 1e-9 * max(sv[0], 1e-7), 'singular values %s instead of %s', show(s2), show(ref))
            U, S, Vt = np.linalg.svd(A)
            need(np.linalg.norm(R - U @ np.diag(np.maximum(S, 1e-7)) @ Vt, 2) <= 1e-9 * max(1, sv[0]) or np.linalg.norm(R - 0.5 * (U @ np.diag(np.maximum(S, 1e-7)) @ Vt + (U @ np.diag(np.maximum(S, 1e-7)) @ Vt).T), 2) <= 1e-9 * max(1, sv[0]) or np.sum(S < 1e-7) > 1,
                 'the result is not the matrix with its small singular values raised')


@check('P20')
def p20(rng, k, info):
    if k % 2 == 0:
        f = imp('blls')
        n = rdim(rng, 1, 6)
        m = n + int(rng.integers(0, 4))
        A = rng.normal(size=(m, n))
        t = rng.random()
        if t < 0.3:
            A = np.diag(rng.uniform(0.3, 3, n)); m = n
        elif t < 0.5:
            B = rng.normal(size=(n, n)); A = B @ B.T; m = n
        b = rvec(rng, m, 3.0)
        lb, ub = -np.abs(rvec(rng, n, 1.0)) - 1e-3, np.abs(rvec(rng, n, 1.0)) + 1e-3
        for i in range(n):
            t = rng.random()
            if t < 0.2: lb[i] = -np.inf
            elif t < 0.4: lb[i] = 0.0
            t = rng.random()
            if t < 0.2: ub[i] = np.inf
            elif t < 0.4: ub[i] = 0.0
            if lb[i] == ub[i]:
                ub[i] = 1.0
            if rng.random() < 0.2:
                sh = rng.normal()
                lb[i] += sh; ub[i] += sh
        if np.linalg.matrix_rank(A) < n or np.linalg.cond(A) > 1e4:
            raise Skip()
        info.update(A=A.tolist(), b=b.tolist(), lb=lb.tolist(), ub=ub.tolist())
        fr = Frozen(A=A, b=b, lb=lb, ub=ub)
        s, resn, opt, ex = call(f, A, b, lb, ub)
        fr.check('blls')
        info['kind'] = 'blls exit %s' % ex
        s = np.asarray(s)
        need(s.shape == (n, 1) and np.all(np.isfinite(s)), 'blls returns %s', show(s.T))
        need(np.all(s >= lb - 1e-9) and np.all(s <= ub + 1e-9), 'blls returns %s outside [%s, %s]', show(s.T), show(lb.T), show(ub.T))
        r = A @ s - b
        if ex == 0:
            need(abs(float(np.asarray(resn).reshape(())) - np.linalg.norm(r)) <= 1e-7 * (1 + np.linalg.norm(b)), 'reported residual %.10g, true residual %.10g', float(np.asarray(resn).reshape(())), np.linalg.norm(r))
            pg = np.minimum(np.maximum(s - A.T @ r, lb), ub) - s
            need(np.linalg.norm(pg) <= 1e-6 * (1 + np.linalg.norm(b)) * max(1, np.linalg.norm(A, 2) ** 2) or np.linalg.norm(r) <= 1e-9, 'success reported with projected gradient %.6g', np.linalg.norm(pg))
        return
    f = imp('sqpdfo_compute_multiplier')
    G = glob()
    n = rdim(rng, 1, 5)
    me = int(rng.integers(0, min(n, 3) + 1))
    ns = int(rng.integers(0, me + 1)) if rng.random() < 0.3 else 0
    x = rvec(rng, n, 2.0)
    g = rvec(rng, n, 2.0)
    ae = rng.normal(size=(me, n)) if me else np.array([])
    o = opts(verbose=0, inf=np.inf, dxmin=1e-6)
    # as the main loop passes them: infinite except for (almost) active bounds
    lbv, ubv = -np.inf * np.ones((n, 1)), np.inf * np.ones((n, 1))
    act = rng.integers(0, 4, size=n)
    for i in range(n):
        if act[i] == 1: lbv[i] = x[i]
        elif act[i] == 2: ubv[i] = x[i]
    full = (k % 4 == 1)
    sl = np.abs(rng.normal(size=(ns, 1))) if ns else None
    if ns and rng.random() < .3:
        sl[0] = 0.0
    inf = Obj(g=g, ae=ae, ai=np.array([]), ce=rng.normal(size=(me, 1)) if me else np.array([]), ci=np.array([]), flag=0)
    info.update(kind='multiplier', n=n, me=me, ns=ns, x=x.tolist(), g=g.tolist(), ae=np.asarray(ae).tolist(), act=act.tolist(), sl=None if sl is None else sl.tolist())
    G.set_nbr_slacks(ns)
    G.set_slacks(sl)
    try:
        fr = Frozen(x=x, g=g, ae=ae, lb=lbv, ub=ubv)
        exits = []
        ns_ = getattr(f, '__globals__', {})
        solver = ns_.get('blls_')
        if solver is not None:
            def spy(*a, **kw):
                r = solver(*a, **kw)
                exits.append(r[3])
                return r
            ns_['blls_'] = spy
        lm, inf2 = call(f, x, lbv, ubv, inf, o, vals())
        fr.check('compute_multiplier')
    finally:
        if solver is not None:
            ns_['blls_'] = solver
        G.set_nbr_slacks(0)
        G.set_slacks(None)
    lm = np.asarray(lm)
    need(inf2.flag == 0, 'the multiplier estimate failed with flag %s', inf2.flag)
    need(lm.shape == (n + me, 1), 'the estimate has shape %s for %d variables and %d constraints', lm.shape, n, me)
    need(np.all(np.isfinite(lm)), 'the estimate is %s', show(lm.T))
    for i in range(n):
        v = lm[i, 0]
        if act[i] == 1:
            need(v <= 1e-9, 'multiplier %.6g of an active lower bound', v)
        elif act[i] == 2:
            need(v >= -1e-9, 'multiplier %.6g of an active upper bound', v)
        else:
            need(v == 0, 'multiplier %.6g of an inactive bound', v)
    # least squares of g + lm_b + A' lm_e (slack rows: -2 diag(sl) lm)
    if me:
        J = np.hstack([ae, np.zeros((me, ns))])
        if ns:
            J[me - ns:, n:] = -2 * np.diag(sl[:, 0])
    else:
        J = np.zeros((0, n))
    gl = np.vstack([g, np.zeros((ns, 1))])
    A = np.vstack([np.hstack([np.eye(n), np.zeros((n, ns))]), J])
    free = [i for i in range(n) if act[i] in (1, 2)] + list(range(n, n + me))
    if not free:
        return
    Af = A[free, :]
    if np.linalg.matrix_rank(Af) < len(free) or np.linalg.cond(Af) > 1e3:
        return
    res = gl + A.T @ lm
    grad = A @ res
    lo = np.full(n + me, -np.inf)
    up = np.full(n + me, np.inf)
    for i in range(n):
        if act[i] == 1: up[i] = 0
        elif act[i] == 2: lo[i] = 0
    if exits and exits[-1] != 0:
        return      # the solver reported its iteration limit
    # the solver minimises ||A(A'lm + g)||: its gradient is A A' (A res)
    z = lm[free, 0]
    AA = Af @ Af.T
    q = AA @ (AA @ z + (Af @ gl)[:, 0])
    pg = np.clip(z - q, lo[free], up[free]) - z
    need(np.linalg.norm(pg) <= 1e-5 * (1 + np.linalg.norm(gl)) * max(1, np.linalg.norm(AA, 2) ** 2), 'the estimate is not stationary: projected gradient %s', show(pg))
    # optimality measure
    fo = imp('sqpdfo_optimality')
    lbv2, ubv2 = np.where(np.isinf(lbv), x - 5.0, lbv), np.where(np.isinf(ubv), x + 5.0, ubv)
    G.set_nbr_slacks(ns)
    G.set_slacks(sl)
    try:
        feas, comp, inf3 = call(fo, x, lm, lbv2, ubv2, inf2, o)
    finally:
        G.set_nbr_slacks(0)
        G.set_slacks(None)
    need(close(np.asarray(inf3.glag), res[:n], 1e-8, 1e-9 * (1 + np.linalg.norm(lm) * np.linalg.norm(A))), 'Lagrangian gradient %s instead of %s', show(np.asarray(inf3.glag).T), show(res[:n].T))
    if me:
        fref = inf.ce - (np.vstack([np.zeros((me - ns, 1)), sl ** 2]) if ns else 0)
        need(close(np.asarray(feas), fref, 1e-12, 1e-12), 'feasibility vector %s instead of %s', show(np.asarray(feas).T), show(fref.T))


@check('P21')
def p21(rng, k, info):
    f = imp('sqpdfo_find_smallf')
    G = glob()
    n = rdim(rng, 1, 4)
    p1 = int(rng.integers(max(2, n + 1), qfull(n) + 1))
    Y = poised(rng, n, p1, 1, 0)
    me = int(rng.integers(0, 4))
    ns = int(rng.integers(0, me + 1)) if rng.random() < 0.4 else 0
    fY = rng.normal(size=p1) * 3
    ceY = rng.normal(size=(me, p1)) if me else np.array([])
    if rng.random() < 0.3:
        fY = np.round(fY)
        ceY = np.round(ceY)
    ind = rng.permutation(3 * p1)[:p1]
    sigma = float(rng.choice([1.0, 0.5, 10 ** rng.uniform(-2, 3)]))
    sg = sigma if rng.random() < 0.5 else np.array([[sigma]])
    if rng.random() < 0.3 and sigma == 1.0:
        sg = 1
    d = Y - Y[:, [0]]
    lo = Y[:, [0]] - np.abs(rng.normal(size=(n, 1))) * np.max(np.abs(d)) * 1.5
    hi = Y[:, [0]] + np.abs(rng.normal(size=(n, 1))) * np.max(np.abs(d)) * 1.5
    if rng.random() < 0.3:
        lo[:], hi[:] = -1e20, 1e20
    if rng.random() < 0.2:
        j = int(rng.integers(0, p1))
        i = int(rng.integers(0, n))
        if Y[i, j] >= Y[i, 0]:
            hi[i] = Y[i, j]
        else:
            lo[i] = Y[i, j]
    sl = np.abs(rng.normal(size=(ns, 1))) if ns else None
    if ns:
        lo = np.vstack([lo, np.zeros((ns, 1))])
        hi = np.vstack([hi, 1e20 * np.ones((ns, 1))])
    build = imp('bcdfo_build_QR_of_Y')
    QZ, RZ, xbase, scale = call(build, Y.copy(), 0, 1, 1.0, 1.0, 1e15)
    inf = Obj(f=fY[0], ce=ceY[:, [0]] if me else np.array([]), ci=np.array([]), flag=0)
    c = Obj(dummy=1)
    dstatus = np.zeros(3 * p1)
    info.update(kind='me%d ns%d' % (me, ns), n=n, p1=p1, Y=Y.tolist(), fY=fY.tolist(), ceY=np.asarray(ceY).tolist(), lo=lo.tolist(), hi=hi.tolist(), sigma=sigma, ns=ns, sl=None if sl is None else sl.tolist())
    G.set_nbr_slacks(ns)
    G.set_slacks(sl)
    ci = np.array([])
    try:
        fr = Frozen(Y=Y, fY=fY, ceY=ceY, ind=ind, lo=lo, hi=hi)
        x, fx, Q2, R2, Y2, fY2, ci2, ce2, ind2, ib, sc2, inf2 = call(f, c, QZ, RZ, Y, fY, ci, ceY, ind, ind[0], p1, np.arange(n), Y[:, [0]].copy(), lo, hi, fY[0], dstatus, 0, scale, 1, 1.0, 1.0, 1e15, sg, inf)
        fr.check('find_smallf')
    finally:
        G.set_nbr_slacks(0)
        G.set_slacks(None)
    inside = [bool(np.all(Y[:, [j]] >= lo[:n]) and np.all(Y[:, [j]] <= hi[:n])) for j in range(p1)]
    adj = np.vstack([np.zeros((me - ns, 1)), sl ** 2]) if ns else 0.0
    mer = np.array([fY[j] + sigma * (np.linalg.norm(ceY[:, [j]] - adj) if me else 0.0) for j in range(p1)])
    if me and not np.any(ceY):
        return
    cand = [j for j in range(p1) if inside[j] or j == 0]
    best = min(mer[j] for j in cand)
    sel = [j for j in range(p1) if same(Y2[:, 0], Y[:, j])]
    need(len(sel) >= 1, 'the first point of the set is not a point of the set any more')
    j = sel[0] if 0 not in sel else 0
    need(j == 0 or inside[j], 'the selected point %d is outside the bounds', j)
    need(mer[j] <= best + 1e-12 * (1 + abs(best)), 'selected point %d with merit %.12g although %.12g is available inside the bounds', j, mer[j], best)
    if mer[0] <= best and (not me or same(ceY[:, j], ceY[:, 0])):
        # (otherwise the rounding of the norm decides between equal merits)
        need(j == 0, 'the current best point was replaced by point %d although no point is strictly better', j)
    pm = np.arange(p1)
    pm[0], pm[j] = j, 0
    need(same(Y2, Y[:, pm]) and same(fY2, fY[pm]) and same(ind2, ind[pm]) and (not me or same(ce2, ceY[:, pm])), 'points, indices and values do not stay together when point %d is selected', j)
    need(float(fx) == fY[j] and int(ib) == ind[j] and float(inf2.f) == fY[j], 'objective value or index reported is not the one of the selected point')
    need(same(np.asarray(x), Y[:, [j]]), 'the current point is not the selected one')
    if me:
        need(same(np.asarray(inf2.ce), ceY[:, [j]]), 'constraint values reported are not those of the selected point')
    a = call(build, Y2.copy(), 0, 1, 1.0, 1.0, 1e15)
    need(close(Q2 @ R2, a[0] @ a[1], 1e-9, 1e-10), 'the factorization does not belong to the set')
