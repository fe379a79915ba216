"""C01: the density at a point is the weighted sum of normalised kernels centred on the data points."""
from symx.run import Case
from props import ref, large

BOUNDS = "D<=3, N<=3 data points, <=2 evaluation points, all four kernels; data, weights, bandwidth, points symbolic " \
         "(and up to 260 data, or 1050 points, with all but a few of their values fixed; covariance symbolic in 1-D, concrete positive definite matrices in 2-D/3-D)"
OUTSIDE = "larger N/D, symbolic covariance in D>=2, floating point rounding"


def h1(env, kernel, n, npts, weighted, covariance):
    env.merge()
    data = env.vec('d', n)
    pts = env.vec('x', npts)
    bw = env.pos('bw')
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    kw = {}
    if covariance == 'given':
        c = env.pos('cov')
        kw['covariance'] = [[c]]
    else:
        c = ref.cov([data], None if w is None else list(w))[0][0]
        env.assume(c > 0)
    kde = env.kale.KDE(data, bandwidth=bw, weights=w, kernel=kernel, **kw)
    p, v = kde.density(pts)
    env.eq('points', p, pts)
    M = [[c * bw * bw]]
    exp = ref.density(env, kernel, [list(data)], [list(pts)], M, None if w is None else list(w))
    env.eq('density', env.np.reshape(v, (-1,)), exp)


MAT = {2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def hN(env, kernel, D, n, npts, weighted, bwkind='scalar'):
    env.merge()
    data = env.mat('d', D, n)
    pts = env.mat('x', D, npts)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    C = MAT[D]
    if bwkind == 'scalar':
        bw = env.num(0.5)
        B = [[0.25] * D for _ in range(D)]
    elif bwkind == 'sym':
        bw = env.pos('bw')
        B = [[bw * bw] * D for _ in range(D)]
    elif bwkind == 'diag':
        bw = [0.5, 0.75, 1.25][:D]
        B = [[(bw[i] * bw[i] if i == j else 0) for j in range(D)] for i in range(D)]
    kde = env.kale.KDE(data, bandwidth=bw, weights=w, kernel=kernel, covariance=env.arr(C))
    p, v = kde.density(pts)
    M = [[env.num(C[i][j]) * env.num(B[i][j]) for j in range(D)] for i in range(D)]
    exp = ref.density(env, kernel, ref.rows(data), ref.rows(pts), M, None if w is None else list(w))
    env.eq('density', env.np.reshape(v, (-1,)), exp)


def h_large(env, kernel, D, n, npts, weighted):
    """many points, or many data: fixed values except some"""
    env.merge()
    data = [large.vec(env, 'd%d_' % i, n, -2, 2, free=[], a=0.6180339887 + 0.1 * i) for i in range(D)]
    pts = [large.vec(env, 'x%d_' % i, npts, -2, 2, free=[], a=0.7548776662 + 0.1 * i) for i in range(D)]
    w = large.vec(env, 'w', n, 0.1, 3) if weighted else None
    C = [[1.0, 0.5], [0.5, 0.5]] if D > 1 else [[2.0]]
    kde = env.kale.KDE(env.arr(data if D > 1 else data[0]), bandwidth=0.5, weights=None if w is None else env.arr(w), kernel=kernel, covariance=env.arr(C))
    p, v = kde.density(env.arr(pts if D > 1 else pts[0]))
    exp = ref.density(env, kernel, data, pts, [[env.num(c) * env.num(0.25) for c in r] for r in C], w)
    v = env.np.reshape(v, (-1,))
    env.check('number', len(v) == npts)
    env.eq('density', v, exp)


def cases(tier):
    out = []
    for k in ref.KERNELS:
        for n in (1, 2, 3):
            for weighted in (False, True):
                out.append(Case('1d-%s-n%d%s-covgiven' % (k, n, '-w' if weighted else ''), h1,
                                dict(kernel=k, n=n, npts=2 if n < 3 else 1, weighted=weighted, covariance='given')))
                if n == 2:
                    out.append(Case('1d-%s-n%d%s-cov' % (k, n, '-w' if weighted else ''), h1,
                                    dict(kernel=k, n=n, npts=1, weighted=weighted, covariance='data')))
        for D in (2, 3):
            for b in ('scalar', 'diag', 'sym')[:2 if (D, k) == (3, 'triweight') else 3]:
                out.append(Case('%dd-%s-%s' % (D, k, b), hN, dict(kernel=k, D=D, n=2 if D == 2 else 1, npts=1, weighted=True, bwkind=b)))
        for D in (1, 2):
            for n, npts in ((2, 1050), (260, 2)) if D == 1 else ((2, 150), (120, 2)):
                if D == 1 or k in ('gaussian', 'parabola'):
                    out.append(Case('large-%dd-%s-%d-%d' % (D, k, n, npts), h_large, dict(kernel=k, D=D, n=n, npts=npts, weighted=True), opts=dict(fold_sqrt=True)))
    return out
