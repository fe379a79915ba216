"""C07: shifting, scaling and reordering the data."""
import itertools

from symx.run import Case
from props import ref

BOUNDS = "1-3 dimensions, 1-3 data points, all kernels; data, weights, points, shifts and scales symbolic, bandwidth from the data (1-D) or given"
OUTSIDE = "larger data sets, symbolic covariance in D>=2, rounding"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def _data(env, D, n):
    return env.vec('d', n) if D == 1 else env.mat('d', D, n)


def flat(env, v):
    return env.np.reshape(v, (-1,))


def h_affine(env, kernel, n, weighted):
    """1-D, everything from the data: the density moves and stretches with them"""
    env.merge()
    d = env.vec('d', n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    x = env.vec('x', 1)
    s, a = env.real('s'), (env.pos('a') if kernel == 'gaussian' else env.num(env.choice('a', [2.0, 0.25, 3.0])))
    sg = env.choice('sign', [1, -1])
    c1 = c2 = None
    if kernel == 'gaussian':
        env.assume(ref.cov([list(d)], None if w is None else list(w))[0][0] > 0)
    else:
        c1, c2 = env.arr([[0.75]]), env.arr([[0.75]]) * a * a
    k1 = env.kale.KDE(d, weights=w, kernel=kernel, covariance=c1)
    k2 = env.kale.KDE(d * a * sg + s, weights=w, kernel=kernel, covariance=c2)
    env.eq('bandwidth', k2.bandwidth, k1.bandwidth)
    env.eq('covariance', k2.covariance, k1.covariance * a * a)
    v1 = k1.density(x)[1]
    v2 = k2.density(x * a * sg + s)[1]
    env.eq('density', flat(env, v2) * a, flat(env, v1))
    env.eq('pdf', flat(env, k2.pdf(x * a * sg + s)[1]) * a, flat(env, k1.pdf(x)[1]))


def h_shift(env, kernel, D):
    """given covariance: shift of each dimension"""
    env.merge()
    d = _data(env, D, 2 if D == 2 else 1)
    n = d.shape[-1]
    w = env.vec('w', n, 0, lo_strict=True)
    x = env.mat('x', D, 1)
    s = env.mat('s', D, 1)
    kw = dict(bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[D]))
    a = env.kale.KDE(d, **kw).density(x)[1]
    b = env.kale.KDE(d + s, **kw).density(x + s)[1]
    env.eq('density', b, a)


def h_scaled(env, kernel, D):
    """stretching each dimension by its own factor, with the covariance"""
    env.merge()
    n = 1
    d = _data(env, D, n)
    x = env.mat('x', D, 1)
    f = [0.5, 4.0, 0.25][:D]
    M = [[COV[D][i][j] * f[i] * f[j] for j in range(D)] for i in range(D)]
    F = env.arr([[t] for t in f])
    a = env.kale.KDE(d, bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D])).density(x)[1]
    b = env.kale.KDE(d * F, bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(M)).density(x * F)[1]
    j = 1.0
    for t in f:
        j *= t
    env.eq('density', b * env.num(j), a)


def h_perm(env, kernel, D, n, own):
    """the order of the data points does not matter"""
    env.merge()
    d = _data(env, D, n)
    w = env.vec('w', n, 0, lo_strict=True)
    x = env.vec('x', 1) if D == 1 else env.mat('x', D, 1)
    p = list(env.choice('perm', list(itertools.permutations(range(n)))[1:]))
    if own:
        env.assume(ref.cov([list(d)], list(w))[0][0] > 0)
        kw = dict(kernel=kernel)
    else:
        kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D]))
    k1 = env.kale.KDE(d, weights=w, **kw)
    k2 = env.kale.KDE(d[p] if D == 1 else d[:, p], weights=w[p], **kw)
    env.eq('matrix', k2.kernel.matrix, k1.kernel.matrix)
    env.eq('density', flat(env, k2.density(x)[1]), flat(env, k1.density(x)[1]))


def h_dims(env, kernel, D):
    """the order of the dimensions does not matter"""
    env.merge()
    n = 1
    d = env.mat('d', D, n)
    x = env.mat('x', D, 1)
    w = env.vec('w', n, 0, lo_strict=True)
    p = list(env.choice('perm', list(itertools.permutations(range(D)))[1:]))
    bw = [0.5, 0.75, 1.25][:D]
    diag = env.choice('bandwidth', [False, True])
    b1 = bw if diag else env.num(0.5)
    b2 = [bw[i] for i in p] if diag else env.num(0.5)
    C2 = [[COV[D][i][j] for j in p] for i in p]
    k1 = env.kale.KDE(d, bandwidth=b1, weights=w, kernel=kernel, covariance=env.arr(COV[D]))
    k2 = env.kale.KDE(d[p], bandwidth=b2, weights=w, kernel=kernel, covariance=env.arr(C2))
    env.eq('density', flat(env, k2.density(x[p])[1]), flat(env, k1.density(x)[1]))


def h_points(env, kernel, D):
    """each point has its own value, whatever the others are"""
    env.merge()
    d = _data(env, D, 1)
    x = env.mat('x', D, 3)
    k = env.kale.KDE(d, bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D]))
    v = k.density(x)[1]
    u = k.density(x[:, [2, 0, 1]])[1]
    env.eq('reordered', u, v[[2, 0, 1]])
    for i in range(3):
        env.eq('alone', flat(env, k.density(x[:, [i]])[1])[0], v[i])


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in ref.KERNELS:
        for wt in (False, True):
            if k == 'triweight' and wt and q:
                continue
            out.append(Case('affine-%s%s' % (k, '-w' if wt else ''), h_affine, dict(kernel=k, n=1 if k in ('parabola', 'triweight')[0 if wt else 1:] and q else 2, weighted=wt), weight=5))
        for D in (2, 3):
            if k == 'triweight' and D == 3 and q:
                continue
            out.append(Case('shift-%dd-%s' % (D, k), h_shift, dict(kernel=k, D=D), weight=4))
            out.append(Case('scaled-%dd-%s' % (D, k), h_scaled, dict(kernel=k, D=D), weight=4))
            out.append(Case('dims-%dd-%s' % (D, k), h_dims, dict(kernel=k, D=D), weight=4))
            out.append(Case('points-%dd-%s' % (D, k), h_points, dict(kernel=k, D=D), weight=4))
        out.append(Case('points-1d-%s' % k, h_points, dict(kernel=k, D=1)))
        out.append(Case('perm-1d-%s' % k, h_perm, dict(kernel=k, D=1, n=3, own=False), weight=4))
        out.append(Case('perm-2d-%s' % k, h_perm, dict(kernel=k, D=2, n=2, own=False), weight=4))
        if k != 'triweight':
            out.append(Case('perm-own-1d-%s' % k, h_perm, dict(kernel=k, D=1, n=2, own=True), weight=4))
    return out
