"""C18: cell centroids are the centres of mass of the density interpolated linearly between the corners."""
import itertools

from symx.run import Case
from props import large

BOUNDS = "grids of up to 130 points with all but some densities fixed; otherwise 1-3 dimensions, 2-4 edges per dimension; densities (>= 0) symbolic, edges symbolic in 1-D/2-D, fixed in 3-D"
OUTSIDE = "larger grids, rounding; the position reported for a cell with no mass is only required to be in the cell"


def h(env, shape, sym=True, form='list', zero=False, down=False):
    ed = [env.sorted_vec('e%d_' % d, n) if sym else
          env.arr([[0.0, 1.0, 3.0, 4.0], [-1.0, 0.5, 1.0, 2.0], [2.0, 3.0, 7.0, 8.0]][d][:n]) for d, n in enumerate(shape)]
    if down:
        ed = [e[::-1] for e in ed]
    nd = len(shape)
    size = 1
    for n in shape:
        size *= n
    if zero:
        vals = env.np.reshape(env.arr([0.0] * size), shape)
    else:
        vals = env.np.reshape(env.vec('p', size, 0), shape)
    arg = ed[0] if form == 'flat' else ed
    data = vals.tolist() if form == 'lists' else vals
    snap = env.snapshot(vals)
    c = env.utils.centroids(arg, data)
    env.check('shape', tuple(env.np.shape(c)) == tuple([nd] + [n - 1 for n in shape]))
    for idx in itertools.product(*[range(n - 1) for n in shape]):
        for d in range(nd):
            lo, hi = ed[d][idx[d]], ed[d][idx[d] + 1]
            y = [0, 0]
            for k in itertools.product(*[(0, 1)] * nd):
                y[k[d]] = y[k[d]] + vals[tuple(i + j for i, j in zip(idx, k))]
            got = c[(d,) + idx]
            env.le('above-lower-edge', hi if down else lo, got)
            env.le('below-upper-edge', got, lo if down else hi)
            if not zero:
                # centre of mass of a linear profile: position * mass = first moment
                m0 = y[0] + y[1]
                if bool(m0 > 0):
                    env.reach('mass')
                    env.eq('moment', got * m0 * 3, lo * (2 * y[0] + y[1]) + hi * (y[0] + 2 * y[1]), atol=1e-12)
    env.eq('input-unchanged', env.np.reshape(vals, (-1,)), snap)


def h_uniform(env, shape):
    """equal corner densities: the middle of the cell"""
    p = env.pos('p')
    ed = [env.sorted_vec('e%d_' % d, n) for d, n in enumerate(shape)]
    vals = env.np.ones(shape) * p
    c = env.utils.centroids(ed, vals)
    for idx in itertools.product(*[range(n - 1) for n in shape]):
        for d in range(len(shape)):
            env.eq('middle', c[(d,) + idx] * 2, ed[d][idx[d]] + ed[d][idx[d] + 1], atol=1e-12)


def h_large(env, shape):
    """many cells: all but some densities fixed"""
    ed = [[round(i + 0.3 * (i % 3) - 0.1 * (i % 2), 3) for i in range(n)] for n in shape]
    size = 1
    for n in shape:
        size *= n
    vals = env.np.reshape(env.arr(large.vec(env, 'p', size, 0.1, 5, free=[size // 2])), shape)
    c = env.utils.centroids([env.arr(e) for e in ed], vals)
    nd = len(shape)
    env.check('shape', tuple(env.np.shape(c)) == tuple([nd] + [n - 1 for n in shape]))
    for idx in itertools.product(*[range(n - 1) for n in shape]):
        for d in range(nd):
            lo, hi = env.num(ed[d][idx[d]]), env.num(ed[d][idx[d] + 1])
            y = [0, 0]
            for k in itertools.product(*[(0, 1)] * nd):
                y[k[d]] = y[k[d]] + vals[tuple(i + j for i, j in zip(idx, k))]
            env.eq('moment', c[(d,) + idx] * (y[0] + y[1]) * 3, lo * (2 * y[0] + y[1]) + hi * (y[0] + 2 * y[1]))


def cases(tier):
    q = tier == 'quick'
    out = [Case('1d-2', h, dict(shape=(2,))), Case('1d-3', h, dict(shape=(3,))),
           Case('1d-flat', h, dict(shape=(3,), form='flat')), Case('1d-lists', h, dict(shape=(3,), form='lists')),
           Case('2d-2x2', h, dict(shape=(2, 2))), Case('2d-2x3', h, dict(shape=(2, 3), sym=False)),
           Case('2d-3x2', h, dict(shape=(3, 2), sym=False)),
           Case('1d-down', h, dict(shape=(3,), down=True)), Case('2d-down', h, dict(shape=(2, 2), sym=False, down=True)),
           Case('3d-2x2x2', h, dict(shape=(2, 2, 2), sym=False)),
           Case('zero-1d', h, dict(shape=(3,), zero=True)), Case('zero-2d', h, dict(shape=(3, 2), zero=True)),
           Case('uniform-2d', h_uniform, dict(shape=(3, 3))), Case('uniform-3d', h_uniform, dict(shape=(2, 3, 2)))]
    if not q:
        out += [Case('1d-4', h, dict(shape=(4,))), Case('2d-3x3', h, dict(shape=(3, 3), sym=False)),
                Case('2d-2x4', h, dict(shape=(2, 4), sym=False)), Case('3d-2x3x2', h, dict(shape=(2, 3, 2), sym=False))]
    for sh in ((120,), (13, 10)):
        out.append(Case('large-%s' % (sh,), h_large, dict(shape=sh)))
    return out
