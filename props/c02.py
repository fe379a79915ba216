"""C02: densities are linear in the weights; probability densities are divided by the total weight."""
from symx.run import Case
from props import large
from props import ref

BOUNDS = "up to 130 data or 550 points with all but some weights fixed; otherwise D<=3, up to 4 data points and 2 evaluation points, all kernels; data, weights, scale factors and points symbolic"
OUTSIDE = "larger data sets, rounding, symbolic covariance in D>=2"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def _data(env, D, n, name='d'):
    return env.vec(name, n) if D == 1 else env.mat(name, D, n)


def _pts(env, D, p=1):
    return env.vec('x', p) if D == 1 else env.mat('x', D, p)


def _kde(env, D, data, kernel, w=None, bw=0.75, **kw):
    return env.kale.KDE(data, bandwidth=env.num(bw), weights=w, kernel=kernel, covariance=env.arr(COV[D]), **kw)


def _cols(env, D, data, idx):
    return data[idx] if D == 1 else data[:, idx]


def h_pdf(env, kernel, D, n, weighted, form='method'):
    """pdf = density / total weight, in every way of asking for it"""
    env.merge()
    data, pts = _data(env, D, n), _pts(env, D)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    kde = _kde(env, D, data, kernel, w)
    tot = ref.tot(list(w)) if weighted else env.num(n)
    dens = env.np.reshape(kde.density(pts)[1], (-1,))
    kw = dict(bandwidth=env.num(0.75), kernel=kernel, covariance=env.arr(COV[D]))
    if form == 'method':
        r = kde.pdf(pts)
    elif form == 'flag':
        r = kde.density(pts, probability=True)
    elif form == 'function':
        r = env.kale.pdf(data, pts, weights=w, **kw)
    elif form == 'function-flag':
        r = env.kale.density(data, pts, weights=w, probability=True, **kw)
    elif form == 'function-density':
        r = env.kale.density(data, pts, weights=w, **kw)
        env.eq('density-function', env.np.reshape(r[1], (-1,)), dens)
        return
    elif form == 'grid':
        e = [pts] if D == 1 else [pts[i] for i in range(D)]
        g, v = kde.pdf(e, grid=True)
        g, u = kde.density(e, grid=True)
        env.check('shape', tuple(env.np.shape(v)) == (1,) * D)
        env.eq('pdf-grid', env.np.reshape(v, (-1,)) * tot, env.np.reshape(u, (-1,)))
        env.eq('pdf-grid', env.np.reshape(u, (-1,)), dens)
        return
    elif form == 'params':
        p = [D - 1]
        q = pts[D - 1:D]
        v = env.np.reshape(kde.pdf(q, params=p)[1], (-1,))
        u = env.np.reshape(kde.density(q, params=p)[1], (-1,))
        env.eq('pdf-params', v * tot, u)
        return
    env.eq('points', r[0], pts)
    env.eq('pdf', env.np.reshape(r[1], (-1,)) * tot, dens)
    env.check('pdf-not-negative', [env.num(0.0) <= x for x in env.np.reshape(r[1], (-1,))])


def h_scale(env, kernel, D, n, default):
    """scaling all weights scales the density and leaves the pdf; equal weights are no weights"""
    env.merge()
    data, pts = _data(env, D, n), _pts(env, D)
    s = env.pos('s')
    if default:
        # equal weights: same covariance, bandwidth and pdf as without weights
        a = env.kale.KDE(data, kernel=kernel)
        b = env.kale.KDE(data, kernel=kernel, weights=env.np.array([s] * n))
        env.eq('covariance', b.covariance, a.covariance)
        env.eq('bandwidth', b.bandwidth, a.bandwidth)
        env.eq('neff', b.neff, a.neff)
        return
    w = env.vec('w', n, 0, lo_strict=True)
    a, b = _kde(env, D, data, kernel, w), _kde(env, D, data, kernel, w * s)
    da, db = a.density(pts)[1], b.density(pts)[1]
    env.eq('density-scales', env.np.reshape(db, (-1,)), env.np.reshape(da, (-1,)) * s)
    env.eq('pdf-unchanged', b.pdf(pts)[1], a.pdf(pts)[1])
    c, d = _kde(env, D, data, kernel, env.np.array([s] * n)), _kde(env, D, data, kernel)
    env.eq('equal-weights', c.pdf(pts)[1], d.pdf(pts)[1])


def h_scale_cov(env, n):
    """the covariance and the effective number do not depend on the scale of the weights"""
    data = env.vec('d', n)
    w = env.vec('w', n, 0, lo_strict=True)
    s = env.pos('s')
    a = env.kale.KDE(data, weights=w)
    b = env.kale.KDE(data, weights=w * s)
    env.eq('neff', b.neff, a.neff)
    env.eq('bandwidth', b.bandwidth, a.bandwidth)
    # numpy's `aweights` normalisation is scale free as well
    env.eq('covariance', b.covariance, a.covariance)


def h_zero(env, kernel, D, n, given):
    """a data point of zero weight is as good as none"""
    env.merge()
    data, pts = _data(env, D, n), _pts(env, D)
    w = env.vec('w', n - 1, 0, lo_strict=True)
    k = env.choice('k', list(range(n)))
    ws = list(w)
    ws.insert(k, env.num(0.0))
    idx = [i for i in range(n) if i != k]
    if given:
        a = _kde(env, D, data, kernel, env.np.array(ws))
        b = _kde(env, D, _cols(env, D, data, idx), kernel, w)
        env.eq('density', a.density(pts)[1], b.density(pts)[1])
        env.eq('pdf', a.pdf(pts)[1], b.pdf(pts)[1])
    else:
        a = env.kale.KDE(data, weights=env.np.array(ws), kernel=kernel)
        b = env.kale.KDE(_cols(env, D, data, idx), weights=w, kernel=kernel)
        env.eq('covariance', a.covariance, b.covariance)
        env.eq('bandwidth', a.bandwidth, b.bandwidth)


def h_rep(env, kernel, D):
    """an integer weight is a repetition; densities of joined data sets add up"""
    env.merge()
    data, pts = _data(env, D, 2), _pts(env, D)
    a = _kde(env, D, data, kernel, env.arr([2.0, 1.0]))
    b = _kde(env, D, _cols(env, D, data, [0, 1, 0]), kernel)
    env.eq('repeated', a.density(pts)[1], b.density(pts)[1])
    env.eq('repeated-pdf', a.pdf(pts)[1], b.pdf(pts)[1])
    c, d = _kde(env, D, _cols(env, D, data, [0, 0]), kernel), _kde(env, D, _cols(env, D, data, [1]), kernel)
    env.eq('sum', env.np.reshape(c.density(pts)[1], (-1,)) + env.np.reshape(d.density(pts)[1], (-1,)),
           env.np.reshape(b.density(pts)[1], (-1,)))


def h_reflect(env, kernel):
    """the same with reflecting boundaries"""
    env.merge()
    data = env.vec('d', 2)
    w = env.vec('w', 2, 0, lo_strict=True)
    x = env.vec('x', 1)
    for d in data:
        env.assume(d > 0, d < 3)
    kde = _kde(env, 1, data, kernel, w, reflect=[env.num(0.0), env.num(3.0)])
    env.eq('pdf', env.np.reshape(kde.pdf(x)[1], (-1,)) * (w[0] + w[1]), env.np.reshape(kde.density(x)[1], (-1,)))


def h_large(env, kernel, n, npts):
    """many data or points: all fixed, except for some weights"""
    env.merge()
    data, pts = large.vec(env, 'd', n, -1, 2, free=[]), large.vec(env, 'x', npts, -2, 3, free=[], a=0.7548776662)
    w = large.vec(env, 'w', n, 0.1, 3)
    kde = env.kale.KDE(env.arr(data), bandwidth=0.5, weights=env.arr(w), kernel=kernel, covariance=env.arr([[2.0]]))
    v = kde.density(env.arr(pts))[1]
    q = kde.pdf(env.arr(pts))[1]
    t = ref.tot(w)
    for a, b in zip(v, q):
        env.eq('pdf', b * t, a)
    env.eq('function', env.kale.pdf(env.arr(data), points=env.arr(pts), bandwidth=0.5, weights=env.arr(w), kernel=kernel, covariance=env.arr([[2.0]]))[1], q)


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in ref.KERNELS:
        for D in (1, 2, 3):
            if D == 3 and k == 'triweight' and q:
                continue
            for f in ('method', 'flag', 'function', 'function-flag', 'function-density', 'grid', 'params'):
                if f == 'params' and D == 1:
                    continue
                for wt in (False, True):
                    if q and k in ('parabola', 'triweight') and D > 1 and not wt:
                        continue
                    out.append(Case('%s-%dd-%s%s' % (f, D, k, '-w' if wt else ''), h_pdf,
                                    dict(kernel=k, D=D, n=2 if D < 3 else 1, weighted=wt, form=f), weight=D))
            if D < 3 or not q:
                out.append(Case('scale-%dd-%s' % (D, k), h_scale, dict(kernel=k, D=D, n=2, default=False), weight=2 * D))
                if not (D == 2 and k == 'triweight' and q):
                    out.append(Case('zero-%dd-%s' % (D, k), h_zero, dict(kernel=k, D=D, n=3 if D == 1 else 2, given=True), weight=2 * D))
                    out.append(Case('rep-%dd-%s' % (D, k), h_rep, dict(kernel=k, D=D), weight=2 * D))
        out.append(Case('reflect-%s' % k, h_reflect, dict(kernel=k), weight=3))
    for D in (1, 2):
        for n in (2, 3):
            out.append(Case('equal-default-%dd-n%d' % (D, n), h_scale, dict(kernel='gaussian', D=D, n=n, default=True)))
    out.append(Case('scale-default-n3', h_scale_cov, dict(n=3)))
    out.append(Case('zero-default-1d', h_zero, dict(kernel='gaussian', D=1, n=4, given=False)))
    out.append(Case('zero-default-2d', h_zero, dict(kernel='box', D=2, n=4, given=False)))
    for k in ref.KERNELS:
        for n, m in ((2, 550), (130, 3)):
            out.append(Case('large-%s-%d-%d' % (k, n, m), h_large, dict(kernel=k, n=n, npts=m), opts=dict(fold_sqrt=True)))
    return out
