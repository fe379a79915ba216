"""C06: evaluation on grids, and the default points of an estimate."""
import itertools

from symx.run import Case
from props import large
from props import ref

BOUNDS = "grids of up to 1200 points with all but the weights fixed; otherwise 1-3 dimensions, 1-2 data points, grids of 1-3 points per dimension, all kernels; data, weights and grid points symbolic; " \
         "default points: data of 2-3 values with symbolic extrema or boundaries"
OUTSIDE = "larger data sets and grids, rounding"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}
SH = {1: [3], 2: [2, 3], 3: [2, 1, 3]}


def _data(env, D, n):
    return env.vec('d', n) if D == 1 else env.mat('d', D, n)


def _kde(env, D, n, kernel, weighted=True, **kw):
    data = _data(env, D, n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    M = [[env.num(COV[D][i][j] * 0.25) for j in range(D)] for i in range(D)]
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[D]), **kw)
    rows = [list(data)] if D == 1 else ref.rows(data)
    return kde, rows, M, (None if w is None else list(w))


def h_grid(env, kernel, D, form, prob=False):
    env.merge()
    kde, rows, M, w = _kde(env, D, 1, kernel)
    e = [env.vec('e%d_' % d, SH[D][d]) for d in range(D)]
    arg = e
    if form == 'lists':
        arg = [x.tolist() for x in e]
    elif form == 'tuple':
        arg = tuple(e)
    snaps = [env.snapshot(x) for x in e]
    p, v = kde.density(arg, grid=True, probability=prob)
    env.check('shape', tuple(env.np.shape(v)) == tuple(SH[D]))
    env.check('number-of-grids', len(p) == D)
    for a, b, s in zip(p, e, snaps):
        env.eq('grids-returned', a, s)
        env.eq('grids-unchanged', b, s)
    combos = list(itertools.product(*[list(x) for x in e]))
    exp = ref.density(env, kernel, rows, [[c[d] for c in combos] for d in range(D)], M, w)
    if prob:
        exp = [x / w[0] for x in exp]
    for idx, x in zip(itertools.product(*[range(k) for k in SH[D]]), exp):
        env.eq('value', v[idx], x)


def h_own(env, kernel, D, how):
    """without points: on the estimate's own grid"""
    env.merge()
    e = [env.sorted_vec('e%d_' % d, SH[D][d]) for d in range(D)]
    kde, rows, M, w = _kde(env, D, 1, kernel, points=e if D > 1 or how == 'nested' else e[0])
    p, v = kde.density()
    env.check('shape', tuple(env.np.shape(v)) == tuple(SH[D]))
    got = [p] if D == 1 else list(p)
    for a, b in zip(got, e):
        env.eq('grid', env.np.reshape(a, (-1,)), b)
    combos = list(itertools.product(*[list(x) for x in e]))
    exp = ref.density(env, kernel, rows, [[c[d] for c in combos] for d in range(D)], M, w)
    env.eq('values', env.np.reshape(v, (-1,)), env.np.array(exp))
    p2, v2 = kde.density()
    env.eq('again', env.np.reshape(v2, (-1,)), env.np.reshape(v, (-1,)))


def h_own_params(env, kernel, D, params):
    """some of the parameters, in any order: on their own grids"""
    env.merge()
    e = [env.sorted_vec('e%d_' % d, SH[D][d]) for d in range(D)]
    kde, rows, M, w = _kde(env, D, 1, kernel, points=e)
    ps = [params] if isinstance(params, int) else list(params)
    p, v = kde.density(params=params, probability=True)
    got = [p] if isinstance(params, int) else list(p)
    env.check('grids', len(got) == len(ps))
    for a, d in zip(got, ps):
        env.eq('grid', env.np.reshape(a, (-1,)), e[d])
    sh = tuple(SH[D][d] for d in ps)
    env.check('shape', tuple(env.np.shape(v)) in (sh, tuple(k for k in sh if k != 1)) or isinstance(params, int))
    combos = list(itertools.product(*[list(e[d]) for d in ps]))
    sub = [[M[i][j] for j in ps] for i in ps]
    exp = ref.density(env, kernel, [rows[d] for d in ps], [[c[k] for c in combos] for k in range(len(ps))], sub, w)
    exp = [x / w[0] for x in exp]
    env.eq('values', env.np.reshape(v, (-1,)), env.np.array(exp))


def h_forms(env, kernel):
    """1-D points in every form"""
    env.merge()
    kde, rows, M, w = _kde(env, 1, 2, kernel)
    x = env.vec('x', 2)
    exp = env.np.array(ref.density(env, kernel, rows, [list(x)], M, w))
    for nm, arg, sh in (('flat', x, (2,)), ('list', x.tolist(), (2,)), ('tuple', tuple(x.tolist()), (2,)),
                        ('row', env.np.reshape(x, (1, 2)), None), ('nested', [x.tolist()], None)):
        p, v = kde.density(arg)
        env.eq(nm, env.np.reshape(v, (-1,)), exp)
        env.eq(nm + '-points', env.np.reshape(p, (-1,)), x)
        if sh:
            env.check(nm + '-shape', tuple(env.np.shape(v)) == sh and tuple(env.np.shape(p)) == sh)


def h_forms2(env, kernel):
    env.merge()
    kde, rows, M, w = _kde(env, 2, 1, kernel)
    x = env.mat('x', 2, 2)
    exp = env.np.array(ref.density(env, kernel, rows, ref.rows(x), M, w))
    for nm, arg in (('array', x), ('lists', x.tolist()), ('arrays', [x[0], x[1]]), ('tuple', tuple(x.tolist()))):
        p, v = kde.density(arg)
        env.check(nm + '-shape', tuple(env.np.shape(v)) == (2,))
        env.eq(nm, v, exp)
        env.eq(nm + '-points', env.np.array([list(r) for r in p]), x)


def h_int(env, kernel, where):
    """integers are numbers too: data, points, weights"""
    env.merge()
    d = env.ivec('d', 2, -4, 4)
    x = env.ivec('x', 2, -4, 4)
    w = env.ivec('w', 2, 1, 5)
    M = [[env.num(0.75 * 0.25)]]
    D = d if 'd' in where else d * env.num(1.0)
    X = x if 'x' in where else x * env.num(1.0)
    W = w if 'w' in where else w * env.num(1.0)
    kde = env.kale.KDE(D, bandwidth=env.num(0.5), weights=W, kernel=kernel, covariance=env.arr([[0.75]]))
    p, v = kde.density(X)
    exp = ref.density(env, kernel, [list(d * env.num(1.0))], [list(x * env.num(1.0))], M, list(w * env.num(1.0)))
    env.eq('density', v, env.np.array(exp))
    t = (w[0] + w[1]) * env.num(1.0)
    env.eq('pdf', kde.pdf(X)[1] * t, env.np.array(exp))


def h_mismatch(env):
    env.merge()
    k1 = env.kale.KDE(env.arr([0.0, 1.0, 3.0]))
    k2 = env.kale.KDE(env.arr([[0.0, 1.0, 3.0], [0.5, -1.0, 2.0]]))
    x = env.mat('x', 2, 2)
    y = env.vec('y', 2)
    z = env.mat('z', 3, 2)
    env.raises('2-for-1', lambda: k1.density(x), (ValueError,))
    env.raises('1-for-2', lambda: k2.density(y), (ValueError,))
    env.raises('3-for-2', lambda: k2.density(z), (ValueError,))


DATA = [0.0, 1.0, 3.0]


def h_extent(env, kernel, how, num):
    """the default grid: `num` bins from the lower to the upper end of the distribution"""
    data = env.arr(DATA)
    kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr([[1.0]]))
    lo, hi = env.real('lo', -0.25, 0), env.real('hi', 3, 3.25)
    given = {'extrema': [lo, hi], 'extrema-lo': [lo, None], 'extrema-hi': [None, hi], 'none': None, 'reflect': None,
             'reflect-lo': None, 'both': [lo, hi]}[how]
    refl = {'reflect': [lo, hi], 'reflect-lo': [lo, None], 'both': [env.num(-9.0), env.num(9.0)]}.get(how)
    kde = env.kale.KDE(data, extrema=given, reflect=refl, points=num, **kw)
    p = kde.points
    env.check('increasing', [p[i] < p[i + 1] for i in range(len(p) - 1)])
    if num is not None:
        env.check('number', len(p) == num + 1)
    else:
        env.check('number', 4 <= len(p) <= 201)
    a, b = p[0], p[-1]
    reach = env.num(0.5) if kernel != 'gaussian' else env.num(0.2)
    if how in ('extrema', 'both', 'reflect', 'extrema-lo', 'reflect-lo'):
        env.eq('lower-end', a, lo)
    else:
        env.le('covers-lower', a, env.num(0.0) - reach)
        env.le('not-far-below', env.num(-3.0), a)
    if how in ('extrema', 'both', 'reflect', 'extrema-hi'):
        env.eq('upper-end', b, hi)
    else:
        env.le('covers-upper', env.num(3.0) + reach, b)
        env.le('not-far-above', b, env.num(6.0))
    env.eq('even', p[1] - p[0], p[-1] - p[-2], atol=1e-9)
    if refl is not None:
        return
    x, v = kde.density()
    env.eq('used', x, p)
    env.check('one-value-each', tuple(env.np.shape(v)) == (len(p),))


def h_few(env, kernel, how):
    """the default grid covers the data however few points there are, or however one of them dominates"""
    x0 = env.real('x0', -2, 2)
    if how == 'one':
        data, w = [x0], None
    elif how == 'two':
        data, w = [x0, x0 + env.num(1.0)], None
    elif how == 'three':
        data, w = [x0, x0 + env.num(1.0), x0 + env.num(3.0)], None
    elif how == 'first':
        data, w = [x0, x0 + env.num(1.0), x0 + env.num(3.0)], env.arr([100.0, 1.0, 1.0])
    elif how == 'last':
        data, w = [x0, x0 + env.num(1.0), x0 + env.num(3.0)], env.arr([1.0, 1.0, 1000.0])
    elif how == 'half':
        data, w = [x0, x0 + env.num(1.0), x0 + env.num(3.0)], env.arr([10.0, 10.0, 1.0])
    reach = env.num(0.5) if kernel != 'gaussian' else env.num(0.1)
    kde = env.kale.KDE(env.np.array(data), weights=w, bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr([[1.0]]))
    p = kde.points
    env.check('increasing', [p[i] < p[i + 1] for i in range(len(p) - 1)])
    env.le('covers-lower', p[0], data[0] - reach)
    env.le('covers-upper', data[-1] + reach, p[-1])
    env.le('not-far-below', data[0] - env.num(3.0), p[0])
    env.le('not-far-above', p[-1], data[-1] + env.num(3.0))
    env.check('some', 3 <= len(p) <= 2001)


def h_large(env, kernel, sh):
    """a grid of many points: all fixed, except for the weights"""
    env.merge()
    D = len(sh)
    data = [large.vec(env, 'd', 2, -1, 1, free=[], a=0.618 + 0.1 * d) for d in range(D)]
    w = large.vec(env, 'w', 2, 0.1, 3)
    e = [[env.num(-2 + 4.0 * i / n + 0.5 / n * (i % 3)) for i in range(n)] for n in sh]
    C = [[2.0, 0.0], [0.0, 0.5]] if D == 2 else [[2.0]]
    kde = env.kale.KDE(env.arr(data), bandwidth=0.5, weights=env.arr(w), kernel=kernel, covariance=env.arr(C))
    v = kde.density([env.arr(x) for x in e], grid=True)[1]
    env.check('shape', tuple(env.np.shape(v)) == tuple(sh))
    pts = list(itertools.product(*e))
    exp = ref.density(env, kernel, data, [[x[d] for x in pts] for d in range(D)], [[env.num(c) * env.num(0.25) for c in r] for r in C], w)
    env.eq('values', env.np.reshape(v, (-1,)), exp)


def cases(tier):
    q = tier == 'quick'
    out = [Case('mismatch', h_mismatch)]
    for k in ref.KERNELS:
        for D in (1, 2, 3):
            if D == 3 and k == 'triweight' and q:
                continue
            for f in ('arrays', 'lists', 'tuple'):
                if f != 'arrays' and D == 3 and q:
                    continue
                out.append(Case('grid-%dd-%s-%s' % (D, k, f), h_grid, dict(kernel=k, D=D, form=f, prob=f == 'lists'), weight=D))
            out.append(Case('own-%dd-%s' % (D, k), h_own, dict(kernel=k, D=D, how='flat'), weight=D))
        out.append(Case('own-nested-%s' % k, h_own, dict(kernel=k, D=1, how='nested')))
        for D, ps in ((2, 0), (2, 1), (2, [1]), (2, [1, 0]), (3, [2, 0]), (3, [0, 2]), (3, [2, 0, 1])):
            if q and D == 3 and k not in ('gaussian', 'box') or D == 3 and len(ps) == 3 and q:
                continue
            out.append(Case('own-params-%dd-%s-%s' % (D, k, str(ps).replace(' ', '')), h_own_params, dict(kernel=k, D=D, params=ps), weight=D))
        out.append(Case('forms-%s' % k, h_forms, dict(kernel=k)))
        out.append(Case('forms2-%s' % k, h_forms2, dict(kernel=k)))
        for wh in ('dxw', 'd', 'x', 'w'):
            if q and k == 'triweight':
                continue
            out.append(Case('int-%s-%s' % (wh, k), h_int, dict(kernel=k, where=wh)))
    for k in ref.KERNELS:
        for how in ('one', 'two', 'three', 'first', 'last', 'half'):
            if q and k == 'triweight':
                continue
            out.append(Case('few-%s-%s' % (how, k), h_few, dict(kernel=k, how=how), weight=2))
    for k in ('gaussian', 'box'):
        for how in ('extrema', 'extrema-lo', 'extrema-hi', 'none', 'reflect', 'reflect-lo', 'both'):
            for num in (3, None):
                out.append(Case('extent-%s-%s-%s' % (k, how, num), h_extent, dict(kernel=k, how=how, num=num), weight=2))
    for k in ('gaussian', 'parabola'):
        for sh in ((40, 30), (500,)):
            out.append(Case('large-%s-%s' % (k, sh), h_large, dict(kernel=k, sh=sh), opts=dict(fold_sqrt=True)))
    return out
