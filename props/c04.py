"""C04: reflecting boundaries."""
import itertools

from symx.run import Case
from props import large
from props import ref

BOUNDS = "up to 130 data or 550 points with all but some weights fixed; otherwise 1-4 dimensions, 1-2 data points, one or two evaluation points, all kernels; data, weights, points and boundaries symbolic"
OUTSIDE = "larger data sets, symbolic covariance in D>=2, images in the corners of several reflecting dimensions, rounding"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]],
       4: [[1.0, 0.0, 0.0, 0.0], [0.0, 4.0, 0.0, 0.0], [0.0, 0.0, 0.25, 0.0], [0.0, 0.0, 0.0, 16.0]]}


def _reflected(env, kernel, rows, pts, M, w, bounds):
    """sum of the kernels at the data points and at their mirror images, zero beyond the boundaries"""
    D, n = len(rows), len(rows[0])
    tot = ref.density(env, kernel, rows, pts, M, w)
    for d in range(D):
        for b in bounds[d]:
            if b is None:
                continue
            im = [list(r) for r in rows]
            im[d] = [2 * b - x for x in im[d]]
            tot = [a + c for a, c in zip(tot, ref.density(env, kernel, im, pts, M, w))]
    out = []
    for p in range(len(pts[0])):
        ok = []
        for d in range(D):
            lo, hi = bounds[d]
            if lo is not None:
                ok.append(lo <= pts[d][p])
            if hi is not None:
                ok.append(pts[d][p] <= hi)
        out.append(env.ite(env.And(*ok), tot[p], 0) if ok else tot[p])
    return out


def _mk(env, D, n, kernel, sides, weighted):
    data = env.vec('d', n) if D == 1 else env.mat('d', D, n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    bounds = []
    for d in range(D):
        lo = env.real('lo%d' % d) if 'l' in sides[d] else None
        hi = env.real('hi%d' % d) if 'h' in sides[d] else None
        if lo is not None and hi is not None:
            env.assume(lo < hi)
        bounds.append([lo, hi])
    M = [[env.num(COV[D][i][j] * 0.5 * 0.5) for j in range(D)] for i in range(D)]
    return data, w, bounds, M


def h(env, kernel, D, n, sides, weighted, where='init', npts=1, pdf=False):
    env.merge()
    data, w, bounds, M = _mk(env, D, n, kernel, sides, weighted)
    pts = env.vec('x', npts) if D == 1 else env.mat('x', D, npts)
    arg = [None if b == [None, None] else list(b) for b in bounds]
    if D == 1:
        arg = arg[0]
    kw = dict(bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[D]))
    if where == 'init':
        kde = env.kale.KDE(data, reflect=arg, **kw)
        fn = (kde.pdf if pdf else kde.density)
        p, v = fn(pts)
    elif where == 'call':
        p, v = env.kale.KDE(data, **kw).density(pts, reflect=arg)
    elif where == 'override':
        other = [[env.num(-50.0), env.num(70.0)]] * D
        p, v = env.kale.KDE(data, reflect=other, **kw).density(pts, reflect=arg)
    elif where == 'function':
        p, v = env.kale.density(data, pts, reflect=arg, **kw)
    elif where == 'function-pdf':
        p, v = env.kale.pdf(data, pts, reflect=arg, **kw)
        pdf = True
    elif where == 'grid':
        kde = env.kale.KDE(data, reflect=arg, **kw)
        p, v = kde.density([pts[d] for d in range(D)], grid=True)
    rows = [list(data)] if D == 1 else ref.rows(data)
    prow = [list(pts)] if D == 1 else ref.rows(pts)
    exp = _reflected(env, kernel, rows, prow, M, None if w is None else list(w), bounds)
    if pdf:
        t = n if w is None else ref.tot(list(w))
        exp = [e / t for e in exp]
    env.eq('density', env.np.reshape(v, (-1,)), env.np.array(exp))


def h_off(env, kernel):
    """False turns the reflection off"""
    env.merge()
    data, w, bounds, M = _mk(env, 1, 2, kernel, ['lh'], True)
    pts = env.vec('x', 1)
    kde = env.kale.KDE(data, reflect=list(bounds[0]), bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[1]))
    plain = env.kale.KDE(data, bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[1]))
    env.eq('off', kde.density(pts, reflect=False)[1], plain.density(pts)[1])
    none = env.kale.KDE(data, reflect=False, bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[1]))
    env.eq('never', none.density(pts)[1], plain.density(pts)[1])


def h_auto(env, kernel, D, partial=None, weighted=False):
    """True puts the boundaries at the extremes of the data (enclosing all of it)"""
    n = 2
    data = env.vec('d', n) if D == 1 else env.mat('d', D, n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    pts = env.vec('x', 1) if D == 1 else env.mat('x', D, 1)
    rows = [list(data)] if D == 1 else ref.rows(data)
    for r in rows:
        env.assume(r[0] < r[1], r[0] > -10, r[1] < 10)
    kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D]), weights=w)
    arg = {None: True, 'dim': [None, True], 'lo': [True, None], 'hi': [None, True]}[partial]
    if D == 1 and partial is not None:
        arg = [arg]
    kde = env.kale.KDE(data, reflect=arg, **kw)
    got = kde.reflect
    env.check('dimensions', len(got) == D)
    for d in range(D):
        if partial == 'dim' and d == 0:
            env.check('none-stays', got[0] is None)
            continue
        for s in (0, 1):
            if (partial, s) in (('lo', 1), ('hi', 0)):
                env.check('none-stays', got[d][s] is None)
                continue
            e, b = rows[d][s], got[d][s]
            if s == 0:
                env.check('encloses', b <= e)
                env.check('close', e - b <= env.num(1e-6) * 10)
            else:
                env.check('encloses', b >= e)
                env.check('close', b - e <= env.num(1e-6) * 10)
    expl = [None if g is None else list(g) for g in got]
    plain = env.kale.KDE(data, **kw)
    a = env.np.reshape(kde.density(pts)[1], (-1,))
    env.eq('density', a, plain.density(pts, reflect=expl[0] if D == 1 else expl)[1].reshape(-1))
    env.eq('density-call', env.np.reshape(plain.density(pts, reflect=arg)[1], (-1,)), a)


def h_edge(env, kernel):
    """a boundary doubles the density there, and closes it for the other side"""
    env.merge()
    data = env.vec('d', 2)
    b = env.real('b')
    kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[1]))
    side = env.choice('side', [0, 1])
    arg = [b, None] if side == 0 else [None, b]
    kde = env.kale.KDE(data, reflect=arg, **kw)
    plain = env.kale.KDE(data, **kw)
    pb = env.np.array([b])
    env.eq('doubled', env.np.reshape(kde.density(pb)[1], (-1,)), 2 * env.np.reshape(plain.density(pb)[1], (-1,)))
    t = env.pos('t')
    x = env.np.array([b - t, b + t])
    v = kde.density(x)[1]
    u = plain.density(x)[1]
    env.eq('closed', v[side], env.num(0.0))
    env.eq('folded', v[1 - side], u[0] + u[1])


def h_bad(env):
    env.merge()
    d1, d2 = env.arr([0.0, 1.0, 3.0]), env.arr([[0.0, 1.0, 3.0], [2.0, 0.5, 1.0]])
    lo = env.real('lo')
    hi = env.real('hi')
    env.assume(lo >= hi)
    K = env.kale.KDE
    kw = dict(bandwidth=env.num(0.5), covariance=env.arr(COV[1]))
    kw2 = dict(bandwidth=env.num(0.5), covariance=env.arr(COV[2]))
    env.raises('order', lambda: K(d1, reflect=[lo, hi], **kw), (ValueError,))
    env.raises('order-2d', lambda: K(d2, reflect=[None, [lo, hi]], **kw2), (ValueError,))
    env.raises('order-2d-first', lambda: K(d2, reflect=[[lo, hi], None], **kw2), (ValueError,))
    env.raises('length', lambda: K(d2, reflect=[[env.num(0.0), env.num(1.0)]], **kw2), (ValueError,))
    env.raises('length-3', lambda: K(d2, reflect=[None, None, [env.num(0.0), env.num(1.0)]], **kw2), (ValueError,))
    env.raises('scalar', lambda: K(d2, reflect=[1.0, 2.0], **kw2), (ValueError,))
    env.raises('triple', lambda: K(d2, reflect=[None, [0.0, 1.0, 2.0]], **kw2), (ValueError,))
    k2 = K(d2, **kw2)
    env.raises('call-length', lambda: k2.density(d2, reflect=[[0.0, 1.0]]), (ValueError,))
    env.raises('call-order', lambda: k2.density(d2, reflect=[None, [lo, hi]]), (ValueError,))
    k1 = K(d1, **kw)
    env.raises('call-order-1d', lambda: k1.density(d1, reflect=[lo, hi]), (ValueError,))


def h_large(env, kernel, n, npts):
    """many data or points: all fixed, except for some weights"""
    env.merge()
    data, pts = large.vec(env, 'd', n, -1, 2, free=[]), large.vec(env, 'x', npts, -2, 3, free=[], a=0.7548776662)
    w = large.vec(env, 'w', n, 0.1, 3)
    kde = env.kale.KDE(env.arr(data), bandwidth=0.5, weights=env.arr(w), kernel=kernel, covariance=env.arr([[2.0]]), reflect=[-1.25, 2.25])
    v = kde.density(env.arr(pts))[1]
    env.check('number', tuple(env.np.shape(v)) == (npts,))
    env.eq('density', v, _reflected(env, kernel, [data], [pts], [[env.num(0.5)]], w, [[env.num(-1.25), env.num(2.25)]]))


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for k in ref.KERNELS:
        for s in ('l', 'h', 'lh'):
            for wt in (False, True):
                out.append(Case('1d-%s-%s%s' % (k, s, '-w' if wt else ''), h,
                                dict(kernel=k, D=1, n=1 if (k, s) == ('triweight', 'lh') else 2, sides=[s], weighted=wt,
                                     npts=1 if k == 'triweight' else 2), weight=3))
            out.append(Case('1d-call-%s-%s' % (k, s), h, dict(kernel=k, D=1, n=1, sides=[s], weighted=False, where='call')))
        for wh in ('override', 'function', 'function-pdf', 'grid'):
            if wh != 'grid':
                out.append(Case('1d-%s-%s' % (wh, k), h, dict(kernel=k, D=1, n=1, sides=['lh'], weighted=True, where=wh)))
        for s in (['lh', ''], ['', 'l'], ['h', 'l'], ['lh', 'lh']):
            if q and k == 'triweight' and s == ['lh', 'lh']:
                continue
            out.append(Case('2d-%s-%s' % (k, '_'.join(x or 'n' for x in s)), h, dict(kernel=k, D=2, n=1, sides=s, weighted=True), weight=5))
        out.append(Case('2d-grid-%s' % k, h, dict(kernel=k, D=2, n=1, sides=['', 'lh'], weighted=False, where='grid'), weight=3))
        out.append(Case('2d-call-%s' % k, h, dict(kernel=k, D=2, n=1, sides=['lh', ''], weighted=False, where='call', pdf=False), weight=3))
        if k != 'triweight' or not q:
            out.append(Case('3d-%s' % k, h, dict(kernel=k, D=3, n=1, sides=['', 'h', 'l'], weighted=False), weight=6))
        if k in ('gaussian', 'box') or not q:
            for s in (['l', '', 'h'], ['', '', 'lh'], ['h', 'l', '']):
                out.append(Case('3d-%s-%s' % (k, '_'.join(x or 'n' for x in s)), h, dict(kernel=k, D=3, n=1, sides=s, weighted=True), weight=6))
        if k in ('gaussian', 'box'):
            for s in (['', '', '', 'h'], ['', '', '', 'l'], ['lh', '', 'h', '']):
                out.append(Case('4d-%s-%s' % (k, '_'.join(x or 'n' for x in s)), h, dict(kernel=k, D=4, n=1, sides=s, weighted=False), weight=7))
        out.append(Case('off-%s' % k, h_off, dict(kernel=k)))
        out.append(Case('edge-%s' % k, h_edge, dict(kernel=k)))
        if k != 'gaussian' and q:
            continue
        out.append(Case('auto-1d-%s' % k, h_auto, dict(kernel=k, D=1, weighted=True)))
        for p in ('lo', 'hi'):
            out.append(Case('auto-1d-%s-%s' % (p, k), h_auto, dict(kernel=k, D=1, partial=p)))
        if k != 'gaussian':
            continue
        out.append(Case('auto-2d-%s' % k, h_auto, dict(kernel=k, D=2), weight=3))
        out.append(Case('auto-2d-dim-%s' % k, h_auto, dict(kernel=k, D=2, partial='dim'), weight=3))
    for k in ref.KERNELS:
        for n, m in ((2, 550), (130, 3)):
            out.append(Case('large-%s-%d-%d' % (k, n, m), h_large, dict(kernel=k, n=n, npts=m), opts=dict(fold_sqrt=True)))
    return out
