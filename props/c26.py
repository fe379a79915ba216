"""C26: an estimate is built of exactly what is given, and only of valid data and weights."""
import math

from symx.run import Case

BOUNDS = "1-3 dimensions, 1-4 data points; weights symbolic (of any sign, zero, or at one place infinite or not a number), data symbolic"
OUTSIDE = "larger data sets, data that is not finite, rounding (weights below the smallest representable number)"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}
X = [[0.5, 1.5, -0.25, 2.75], [0.125, -0.25, 1.25, 1.875], [3.0, 2.25, 2.5, 3.75]]


def _data(env, D, n, form='array'):
    if form == 'symbolic':
        return env.vec('d', n, -50, 50) if D == 1 else env.mat('d', D, n, -50, 50)
    rows = [r[:n] for r in X[:D]]
    rows = rows[0] if D == 1 else rows
    return rows if form == 'list' else env.arr(rows)


HOW = {
    'KDE': lambda env, d, w, D, **kw: env.kale.KDE(d, weights=w, bandwidth=0.5, covariance=env.arr(COV[D]), **kw),
    'density': lambda env, d, w, D, **kw: env.kale.density(d, points=env.arr([[0.5]] * D), weights=w, bandwidth=0.5, covariance=env.arr(COV[D]), **kw),
    'pdf': lambda env, d, w, D, **kw: env.kale.pdf(d, points=env.arr([[0.5]] * D), weights=w, bandwidth=0.5, covariance=env.arr(COV[D]), **kw),
    'resample': lambda env, d, w, D, **kw: env.kale.resample(d, size=1, weights=w, bandwidth=0.5, covariance=env.arr(COV[D]), **kw),
    'own-covariance': lambda env, d, w, D, **kw: env.kale.KDE(d, weights=w, bandwidth=0.5, **kw),
    'rule': lambda env, d, w, D, **kw: env.kale.KDE(d, weights=w, covariance=env.arr(COV[D]), **kw),
}


def h_weights(env, how, D, n, form='array', kernel='box', lo=-10):
    """accepted if and only if all are non-negative and not all zero"""
    env.merge()
    w = env.vec('w', n, lo, 10)
    if how == 'resample':
        # draws need probabilities well away from rounding
        env.assume(*[env.Or(x <= -0.1, x >= 0.1, x == 0) for x in w])
    ws = list(w)
    d = _data(env, D, n)
    arg = ws if form == 'list' else (tuple(ws) if form == 'tuple' else w)
    r, err = env.attempt(lambda: HOW[how](env, d, arg, D, kernel=kernel), (ValueError,))
    valid = env.And(env.And(*[x >= 0 for x in ws]), env.Or(*[x > 0 for x in ws]))
    if err is not None:
        env.check('valid-weights-accepted', env.Not(valid))
        return
    env.check('invalid-weights-refused', valid)
    if how in ('KDE', 'own-covariance', 'rule'):
        env.check('kept-shape', tuple(env.np.shape(r.weights)) == (n,))
        for a, b in zip(r.weights, ws):
            env.eq('kept', a, b)
        for a, b in zip(w, ws):
            env.eq('not-modified', a, b)


def h_int(env, n):
    w = env.ivec('w', n, -2, 3)
    ws = list(w)
    r, err = env.attempt(lambda: HOW['KDE'](env, _data(env, 1, n), w, 1), (ValueError,))
    valid = env.And(env.And(*[x >= 0 for x in ws]), env.Or(*[x > 0 for x in ws]))
    env.check('accepted-iff-valid', env.Not(valid) if err is not None else valid)
    if err is None:
        for a, b in zip(r.weights, ws):
            env.eq('kept', a, b)


def h_nonfinite(env, how, D, n, at, bad):
    """a single weight that is not finite is refused, whatever the others"""
    w = env.vec('w', n, 0.1, 10)
    v = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}[bad]
    arg = env.np.array([env.num(v) if i == at else w[i] for i in range(n)])
    env.raises('refused', lambda: HOW[how](env, _data(env, D, n), arg, D, kernel='box'), (ValueError,))


def h_number(env, how, D, n):
    """any other number, or shape, of weights"""
    d = _data(env, D, n)
    for k in sorted({0, 1, n - 1, n + 1, D, D * n} - {n}):
        w = env.vec('w%d' % k, k, 0.1, 10)
        env.raises('number', lambda: HOW[how](env, d, w, D, kernel='box'), (ValueError,))
        env.raises('number', lambda: HOW[how](env, d, list(w), D, kernel='box'), (ValueError,))
    w = env.mat('m', 1, n, 0.1, 10)
    env.raises('row', lambda: HOW[how](env, d, w, D, kernel='box'), (ValueError,))
    env.raises('column', lambda: HOW[how](env, d, w.T, D, kernel='box'), (ValueError,))
    env.raises('scalar', lambda: HOW[how](env, d, env.pos('s'), D, kernel='box'), (ValueError,))


def h_kept(env, D, n, form, kernel):
    """the estimate is of the data given"""
    env.merge()
    if form == 'list-symbolic':
        d = _data(env, D, n, 'symbolic')
        arg = d.tolist()
    else:
        d = _data(env, D, n, form)
        arg = d
    want = [[d[i] for i in range(n)]] if D == 1 else [[d[j][i] for i in range(n)] for j in range(D)]
    kde = env.kale.KDE(arg, bandwidth=0.5, covariance=env.arr(COV[D]), kernel=kernel)
    env.check('shape', tuple(env.np.shape(kde.dataset)) == (D, n))
    env.check('ndim', kde.ndim == D)
    env.check('ndata', kde.ndata == n)
    env.check('no-weights', kde.weights is None)
    env.eq('neff', kde.neff, n)
    for j in range(D):
        for i in range(n):
            env.eq('data', kde.dataset[j, i], want[j][i])
    for i in range(D):
        for j in range(D):
            env.eq('covariance', kde.covariance[i, j], COV[D][i][j])
            env.eq('bandwidth', kde.bandwidth[i, j], 0.5)
            env.eq('matrix', kde.kernel.matrix[i, j], COV[D][i][j] * 0.25)


def h_intdata(env, D, n):
    d = env.ivec('d', n, -9, 9) if D == 1 else env.np.array([env.ivec('d%d' % j, n, -9, 9) for j in range(D)])
    want = [[d[i] for i in range(n)]] if D == 1 else [[d[j][i] for i in range(n)] for j in range(D)]
    kde = env.kale.KDE(d, bandwidth=0.5, covariance=env.arr(COV[D]), kernel='box')
    for j in range(D):
        for i in range(n):
            env.eq('data', kde.dataset[j, i], want[j][i])


def h_empty(env):
    kw = dict(bandwidth=0.5)
    for nm, d in (('1d', env.np.zeros(0)), ('row', env.np.zeros((1, 0))), ('2d', env.np.zeros((2, 0))), ('list', []), ('lists', [[], []])):
        for k in ('gaussian', 'box'):
            env.raises('empty-' + nm, lambda: env.kale.KDE(d, kernel=k, **kw), (ValueError,))
        env.raises('empty-density-' + nm, lambda: env.kale.density(d, points=env.arr([[0.0]]), **kw), (ValueError,))
        env.raises('empty-resample-' + nm, lambda: env.kale.resample(d, size=2, **kw), (ValueError,))
    env.raises('3d', lambda: env.kale.KDE(env.np.zeros((2, 2, 2)), **kw), (ValueError,))


def h_requests(env, D):
    """what cannot be answered is refused"""
    n = 3
    kde = HOW['KDE'](env, _data(env, D, n), None, D)
    E = (ValueError, IndexError)
    for k in range(1, 5):
        x = env.mat('x%d' % k, k, 2, -5, 5)
        for f in ('density', 'pdf'):
            if k != D:
                env.raises('%s-dimensions' % f, lambda: getattr(kde, f)(x), E)
                for refl in ([[None, 4.0]] + [None] * (D - 1),):
                    env.raises('%s-dimensions-reflect' % f, lambda: getattr(kde, f)(x, reflect=refl), E)
            else:
                v = getattr(kde, f)(x)[1]
                env.check('%s-answered' % f, tuple(env.np.shape(v)) == (2,))
            if D > 1:
                for p in ([0], [1, 0], [0, D - 1]):
                    if len(p) != k:
                        env.raises('%s-params' % f, lambda: getattr(kde, f)(x, params=p), E)
        if k != D:
            env.raises('function', lambda: env.kale.density(_data(env, D, n), points=x, bandwidth=0.5), E)
    x = env.vec('y', 2, -5, 5)
    env.raises('unknown-param', lambda: kde.density(x, params=D), E)
    env.raises('unknown-param', lambda: kde.pdf(x, params=[D + 1]), E)
    env.raises('unknown-param', lambda: kde.density(params=D), E)
    z = env.vec('z', D, 0, 1)
    env.raises('cdf-params', lambda: kde.cdf(z, params=0), (NotImplementedError,))
    env.raises('cdf-reflect', lambda: kde.cdf(z, reflect=[[0.0, None]] * D), (NotImplementedError,))


def h_kernel_weights(env, D, n):
    """also when the kernel is used directly"""
    kde = HOW['KDE'](env, _data(env, D, n), None, D)
    d = kde.dataset
    x = env.mat('x', D, 1, -5, 5)
    for k in sorted({1, n - 1, n + 1} - {n}):
        w = env.vec('w%d' % k, k, 0.1, 10)
        env.raises('number', lambda: kde.kernel.density(x, d, w), (ValueError,))
        env.raises('number', lambda: kde.kernel.density(x, d, weights=w, reflect=[[None, 4.0]] + [None] * (D - 1)), (ValueError,))
    y = env.mat('y', D + 1, 1, -5, 5)
    env.raises('points', lambda: kde.kernel.density(y, d), (ValueError,))
    env.raises('points', lambda: kde.kernel.density(y, d, reflect=[[None, 4.0]] + [None] * (D - 1)), (ValueError,))


def cases(tier):
    out = [Case('empty', h_empty)]
    full = tier != 'quick'
    for how in HOW:
        for D in (1, 2, 3):
            for n in ((1, 2, 3, 4) if full else (1, 2, 3)):
                if how == 'own-covariance' and (n <= D or (n, D) != (2, 1) and not full):
                    continue
                if how == 'rule' and (n > 2 or D > 1) and not full:
                    continue
                if how not in ('KDE', 'rule', 'own-covariance') and D == 3 and not full:
                    continue
                for form in ('array', 'list', 'tuple') if how == 'KDE' and n == 2 else ('array',):
                    out.append(Case('weights-%s-%d-%d-%s' % (how, D, n, form), h_weights, dict(how=how, D=D, n=n, form=form)))
        if how in ('own-covariance', 'rule'):
            continue
        for D, n in ((1, 2), (2, 3), (3, 2)):
            out.append(Case('number-%s-%d' % (how, D), h_number, dict(how=how, D=D, n=n)))
            for at in (range(n) if full or how == 'KDE' else (n - 1,)):
                for bad in ('nan', 'inf', '-inf'):
                    out.append(Case('nonfinite-%s-%d-%d-%s' % (how, D, at, bad), h_nonfinite, dict(how=how, D=D, n=n, at=at, bad=bad)))
    for n in (1, 2, 3):
        out.append(Case('int-%d' % n, h_int, dict(n=n)))
    for k in ('gaussian', 'box', 'parabola', 'triweight'):
        for D in (1, 2, 3):
            for form in ('array', 'list', 'symbolic', 'list-symbolic'):
                for n in (1, 3):
                    if n == 1 and k == 'gaussian':
                        continue
                    out.append(Case('kept-%s-%d-%s-%d' % (k, D, form, n), h_kept, dict(D=D, n=n, form=form, kernel=k)))
    for D in (1, 2):
        out.append(Case('intdata-%d' % D, h_intdata, dict(D=D, n=3)))
    for D in (1, 2, 3):
        out.append(Case('requests-%d' % D, h_requests, dict(D=D)))
        out.append(Case('kernel-%d' % D, h_kernel_weights, dict(D=D, n=3)))
    return out
