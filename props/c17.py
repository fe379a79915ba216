"""C17: the cumulative distribution is a proper one: in [0, 1], non-decreasing, and the integral of the density."""
import itertools

from symx.run import Case
from props import ref

BOUNDS = "1-D: 2-4 data points at two layouts with all weights symbolic or one data point at a symbolic place, " \
         "grids of 3-4 points, symbolic query; " \
         "2-D and 3-D: weights symbolic, 3x2(x2) grids, queries along a symbolic coordinate"
OUTSIDE = "larger data sets and grids, dimensions above 2, automatic grids of the default size, rounding"


LAYOUT = {1: [[-2.5, 0.25, 1.5, 0.75], [0.5, 0.5, -1.0, 3.75]],
          2: [[[-2.5, 0.25, 1.5, 2.25], [0.5, -1.25, 0.75, -2.0]], [[0.5, 0.25, 2.0, -3.0], [0.5, 0.75, -0.5, 1.0]]],
          3: [[[0.0, 0.5, 1.0], [0.25, 1.0, -0.5], [1.0, 0.0, 0.5]]]}
COV = {1: [[1.0]], 2: [[1.0, 0.25], [0.25, 0.5]], 3: [[1.0, 0.25, 0.0], [0.25, 0.5, 0.0], [0.0, 0.0, 2.0]]}


def _kde(env, D, n, kernel, mode, grid):
    """mode 'w': data at chosen places, all weights symbolic;  'x': data symbolic"""
    if mode == 'w':
        lay = env.choice('layout', LAYOUT[D])
        data = env.arr(lay[:n] if D == 1 else [r[:n] for r in lay])
        w = env.vec('w', n, 0, 10, lo_strict=True)
    else:
        data = env.vec('d', n, -2, 2) if D == 1 else env.mat('d', D, n, -2, 2)
        w = None
    bw = env.num(0.75)
    cov = env.arr(COV[D])
    pts = grid[0] if D == 1 else grid
    kde = env.kale.KDE(data, bandwidth=bw, weights=w, kernel=kernel, covariance=cov, points=pts)
    M = [[env.num(x) * bw * bw for x in r] for r in COV[D]]
    return kde, data, w, M


G1 = [-3.0, -1.0, 0.5, 4.0]
G2 = [[-3.0, 0.0, 2.5], [-2.5, 1.0]]
G3 = [[-1.0, 0.5, 2.0], [-0.5, 1.0], [0.0, 1.5]]


def _grid(D, npts):
    return [G1[:npts]] if D == 1 else (G2 if D == 2 else G3)


def _mass(env, kernel, D, data, w, M, grid):
    rows = [[x for x in data]] if D == 1 else ref.rows(data)
    pts = list(itertools.product(*grid))
    dens = ref.density(env, kernel, rows, [[env.num(p[d]) for p in pts] for d in range(D)], M,
                       None if w is None else list(w))
    return dict(zip(itertools.product(*[range(len(g)) for g in grid]), dens))


def _setup(env, D, n, kernel, mode, npts):
    grid = _grid(D, npts)
    kde, data, w, M = _kde(env, D, n, kernel, mode, [env.arr(g) for g in grid])
    dens = _mass(env, kernel, D, data, w, M, grid)
    tot = env.num(0.0)
    for v in dens.values():
        tot = tot + v
    env.assume(tot > env.num(0.001))
    m = {}
    for idx in itertools.product(*[range(len(g) - 1) for g in grid]):
        s = env.num(0.0)
        for k in itertools.product(*[(0, 1)] * D):
            s = s + dens[tuple(i + j for i, j in zip(idx, k))]
        for d in range(D):
            s = s * env.num((grid[d][idx[d] + 1] - grid[d][idx[d]]) / 2)
        m[idx] = s
    return grid, kde, m


def h_bounds(env, D, n, kernel, mode, npts=4):
    grid, kde, m = _setup(env, D, n, kernel, mode, npts)
    lo, hi = [g[0] for g in grid], [g[-1] for g in grid]
    x = env.real('x', -6, 6)
    y = env.real('y', -6, 6)
    env.assume(x <= y)
    if D == 1:
        c = env.np.reshape(kde.cdf(env.np.array([x, y, lo[0], hi[0]])), (-1,))
    else:
        d = env.choice('dim', list(range(D)))
        o = env.choice('other', [-9.0, 0.25, 9.0])
        a, b = [o] * D, [o] * D
        a[d], b[d] = x, y
        c = env.np.reshape(kde.cdf(env.np.array([[a[i], b[i], lo[i], hi[i]] for i in range(D)])), (-1,))
    env.check('length', len(c) == 4)
    env.le('monotone', c[0], c[1])
    env.le('not-below-zero', env.num(0.0), c)
    env.le('not-above-one', c, env.num(1.0))
    env.eq('zero-at-the-lower-end', c[2], env.num(0.0))
    env.eq('one-at-the-upper-end', c[3], env.num(1.0))


def h_value(env, D, n, kernel, mode, npts=4, again=False):
    """at the grid points: the fraction of the trapezoid integral of the density"""
    grid, kde, m = _setup(env, D, n, kernel, mode, npts)
    if again:
        # other uses of the estimate in between do not matter
        kde.pdf(env.np.array([0.1, 0.2]))
        kde.cdf(env.np.array([0.3]))
    nodes = list(itertools.product(*[range(len(g)) for g in grid]))
    q = [[grid[d][i[d]] for i in nodes] for d in range(D)]
    c = env.np.reshape(kde.cdf(env.arr(q[0] if D == 1 else q)), (-1,))
    all_ = env.num(0.0)
    for v in m.values():
        all_ = all_ + v
    for k, i in enumerate(nodes):
        s = env.num(0.0)
        for j, v in m.items():
            if all(b < a for a, b in zip(i, j)):
                s = s + v
        env.eq('value', c[k] * all_, s)


def h_between(env, n, kernel):
    """1-D, anywhere: linear between the grid points"""
    grid, kde, m = _setup(env, 1, n, kernel, 'w', 4)
    g = grid[0]
    x = env.real('x', -6, 6)
    c = env.np.reshape(kde.cdf(env.np.array([x])), (-1,))[0]
    acc, res = env.num(0.0), env.num(0.0)
    for i in range(3):
        t = env.max(env.num(0.0), env.min(env.num(1.0), (x - env.num(g[i])) / env.num(g[i + 1] - g[i])))
        res = res + t * m[(i,)]
        acc = acc + m[(i,)]
    env.eq('value', c * acc, res)


def cases(tier):
    q = tier == 'quick'
    out = []
    for k in ref.KERNELS:
        for n in (2, 4) if q else (1, 2, 3, 4):
            out.append(Case('bounds-1d-%s-n%d' % (k, n), h_bounds, dict(D=1, n=n, kernel=k, mode='w'), weight=5))
            out.append(Case('value-1d-%s-n%d' % (k, n), h_value, dict(D=1, n=n, kernel=k, mode='w'), weight=3))
            out.append(Case('value-2d-%s-n%d' % (k, n), h_value, dict(D=2, n=n, kernel=k, mode='w'), weight=4))
        out.append(Case('between-%s' % k, h_between, dict(n=3, kernel=k), weight=4))
        out.append(Case('value-3d-%s' % k, h_value, dict(D=3, n=3, kernel=k, mode='w'), weight=4))
        out.append(Case('bounds-2d-%s' % k, h_bounds, dict(D=2, n=3, kernel=k, mode='w'), weight=8))
        out.append(Case('again-1d-%s' % k, h_value, dict(D=1, n=3, kernel=k, mode='w', again=True), weight=2))
        out.append(Case('value-1d-x-%s' % k, h_value, dict(D=1, n=1, kernel=k, mode='x', npts=3 if k == 'triweight' else 4), weight=4))
        if k != 'triweight' or not q:
            out.append(Case('bounds-1d-x-%s' % k, h_bounds, dict(D=1, n=1, kernel=k, mode='x', npts=3), weight=4))
    if not q:
        out.append(Case('bounds-3d-gaussian', h_bounds, dict(D=3, n=3, kernel='gaussian', mode='w'), weight=8))
    for c in out:
        c.opts['fold_sqrt'] = True
    return out
