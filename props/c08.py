"""C08: bandwidths and the kernel matrix."""
from symx.run import Case
from props import large
from props import ref

BOUNDS = "up to 300 data points with all but some weights fixed; otherwise 1-4 dimensions, 3-4 data points, every kind of bandwidth; data (1-D), weights, bandwidths and covariances symbolic"
OUTSIDE = "larger data sets, rounding"

DATA = [[0.0, 1.0, 3.0, -2.0], [0.5, -1.0, 2.0, 0.25], [4.0, 5.0, 4.5, 2.0], [1.0, 0.0, -1.0, 0.5]]
COVS = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def _rule(env, name, neff, D):
    if name == 'scott':
        return env.pow(neff, -1.0 / (D + 4))
    return env.pow(neff * (D + 2.0) / 4.0, -1.0 / (D + 4))


def h_rule(env, D, name, how, rescale=False):
    """scott and silverman: powers of the effective number of data points"""
    env.merge()
    n = 4
    data = env.arr(DATA[0] if D == 1 else DATA[:D])
    w, kw = None, {}
    if how == 'weights':
        w = env.vec('w', n, 0, lo_strict=True)
        kw['weights'] = w
    elif how == 'neff':
        neff = env.real('neff', 2, 50)
        kw['neff'] = neff
    elif how == 'both':
        kw['weights'] = env.vec('w', n, 0, lo_strict=True)
        neff = env.real('neff', 2, 50)
        kw['neff'] = neff
    if w is not None:
        s = ref.tot(list(w))
        neff = s * s / ref.tot([x * x for x in w])
    elif how == 'plain':
        neff = env.num(n)
    if name is not None:
        kw['bandwidth'] = name
    f = env.num(1.0)
    if rescale:
        f = env.pos('f', 10)
        kw['bw_rescale'] = f
    kde = env.kale.KDE(data, covariance=env.arr([[2.0 if i == j else 0.25 for i in range(D)] for j in range(D)]), **kw)
    env.eq('neff', kde.neff, neff)
    bw = _rule(env, name or 'scott', neff, D) * f
    B = kde.bandwidth
    env.check('shape', tuple(env.np.shape(B)) == (D, D))
    for i in range(D):
        for j in range(D):
            env.eq('bandwidth', B[i, j], bw)
            env.eq('matrix', kde.kernel.matrix[i, j], bw * bw * env.num(2.0 if i == j else 0.25))


def h_given(env, D, how, rescale=False):
    """numbers: for all, per dimension, or per pair of dimensions"""
    env.merge()
    data = env.arr(DATA[0] if D == 1 else DATA[:D])
    cov = env.arr([[2.0 if i == j else 0.25 for i in range(D)] for j in range(D)])
    kw = {}
    names = ('scott', 'silverman')
    r = {nm: _rule(env, nm, env.num(4), D) for nm in names}
    if how in ('scalar', 'list1', 'array1', 'nested1'):
        b = env.pos('b', 5)
        bw = {'scalar': b, 'list1': [b], 'array1': env.np.array([b]), 'nested1': [[b]]}[how]
        E = [[b] * D for _ in range(D)]
    elif how == 'name1':
        bw = ['silverman']
        E = [[r['silverman']] * D for _ in range(D)]
    elif how == 'diagonal-flag':
        b = env.pos('b', 5)
        bw = b
        kw['diagonal'] = True
        E = [[b if i == j else 0 for j in range(D)] for i in range(D)]
    elif how in ('vector', 'list'):
        v = env.vec('b', D, 0, 5, lo_strict=True)
        bw = v if how == 'vector' else v.tolist()
        E = [[v[i] if i == j else 0 for j in range(D)] for i in range(D)]
    elif how == 'mixed':
        v = [env.pos('b0', 5), 'scott', 'silverman'][:D]
        bw = v
        E = [[(r[v[i]] if isinstance(v[i], str) else v[i]) if i == j else 0 for j in range(D)] for i in range(D)]
    elif how == 'names':
        v = ['silverman', 'scott', 'scott'][:D]
        bw = v
        E = [[r[v[i]] if i == j else 0 for j in range(D)] for i in range(D)]
    elif how in ('matrix', 'matrix-lists'):
        m = [[env.real('b%d%d' % (i, j), 0.5, 0.75) if i == j else None for j in range(D)] for i in range(D)]
        for i in range(D):
            for j in range(i):
                m[i][j] = m[j][i] = env.real('c%d%d' % (i, j), 0.125, 0.25)
        bw = env.np.array(m) if how == 'matrix' else m
        E = m
    elif how == 'asymmetric':
        m = [[env.real('b%d%d' % (i, j), 0.25, 0.5) for j in range(D)] for i in range(D)]
        bw = env.np.array(m)
        E = m
    if rescale:
        f = env.pos('f', 10)
        kw['bw_rescale'] = f
        E = [[x * f for x in row] for row in E]
    kde = env.kale.KDE(data, covariance=cov, bandwidth=bw, **kw)
    E = [[x if not isinstance(x, int) else env.num(x) for x in row] for row in E]
    env.eq('bandwidth', kde.bandwidth, env.np.array(E))
    M = [[E[i][j] * E[i][j] * env.num(2.0 if i == j else 0.25) for j in range(D)] for i in range(D)]
    env.eq('matrix', kde.kernel.matrix, env.np.array(M))
    env.eq('covariance', kde.covariance, cov)
    env.eq('kernel-bandwidth', kde.kernel.bandwidth, env.np.array(E))
    if how not in ('matrix', 'matrix-lists', 'asymmetric') or D < 3:
        env.eq('norm', kde.kernel.norm * kde.kernel.norm, env.abs(ref.det(M)))


def h_cov(env, D, n, weighted, form='array', kernel='gaussian'):
    """the covariance is that of the (weighted) data unless given"""
    if D == 1:
        data = env.vec('d', n)
        rows = [list(data)]
    else:
        data = env.mat('d', D, n)
        rows = ref.rows(data)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    C = ref.cov(rows, None if w is None else list(w))
    env.assume(C[0][0] > 0)
    kde = env.kale.KDE(data.tolist() if form == 'list' else data, weights=(w.tolist() if form == 'list' and weighted else w),
                       bandwidth=env.num(0.5), kernel=kernel)
    env.eq('covariance', kde.covariance, env.np.array(C))
    env.eq('matrix', kde.kernel.matrix, env.np.array([[x / 4 for x in r] for r in C]))


def h_covgiven(env, D):
    env.merge()
    data = env.arr(DATA[0] if D == 1 else DATA[:D])
    c = [[None] * D for _ in range(D)]
    for i in range(D):
        for j in range(i + 1):
            c[i][j] = c[j][i] = env.real('c%d%d' % (i, j), 2, 3) if i == j else env.real('c%d%d' % (i, j), -0.5, 0.5)
    b = env.pos('b', 5)
    w = env.vec('w', 4, 0, lo_strict=True)
    for kw in (dict(), dict(weights=w)):
        kde = env.kale.KDE(data, covariance=env.np.array(c), bandwidth=b, **kw)
        env.eq('covariance', kde.covariance, env.np.array(c))
        env.eq('matrix', kde.kernel.matrix, env.np.array([[x * b * b for x in r] for r in c]))
        if D < 3:
            inv = kde.kernel.matrix_inv
            I = [[ref.tot([inv[i, k] * c[k][j] * b * b for k in range(D)]) for j in range(D)] for i in range(D)]
            env.eq('inverse', env.np.array(I), env.arr([[1.0 if i == j else 0.0 for j in range(D)] for i in range(D)]), atol=1e-9)


def h_attrs(env, D):
    """what the estimate says about itself"""
    env.merge()
    n = 4
    data = env.vec('d', n) if D == 1 else env.mat('d', D, n)
    w = env.vec('w', n, 0, lo_strict=True)
    kde = env.kale.KDE(data, weights=w, covariance=env.arr(COVS[D]), bandwidth=env.num(0.5))
    env.check('ndim', kde.ndim == D)
    env.check('ndata', kde.ndata == n)
    env.eq('dataset', env.np.reshape(kde.dataset, (-1,)), env.np.reshape(data, (-1,)))
    env.check('dataset-shape', tuple(env.np.shape(kde.dataset)) == (D, n))
    env.eq('weights', kde.weights, w)
    env.check('no-weights', env.kale.KDE(data, covariance=env.arr(COVS[D])).weights is None)


def h_bad(env):
    env.merge()
    d1, d2 = env.arr(DATA[0]), env.arr(DATA[:2])
    K = env.kale.KDE
    b = env.pos('b', 5)
    for nm, bw in (('name', 'other'), ('three-for-two', [b, b, b]), ('shape', [[b, b, b], [b, b, b]]), ('nested', [[b], [b]])):
        env.raises('bad-' + nm, lambda: K(d2, bandwidth=bw), (ValueError,))
    env.raises('bad-name-1d', lambda: K(d1, bandwidth='other'), (ValueError,))
    env.raises('bad-two-for-one', lambda: K(d1, bandwidth=[b, b]), (ValueError,))
    env.raises('bad-name-in-list', lambda: K(d2, bandwidth=[b, 'other']), (ValueError,))


def h_large(env, n, name):
    """many data points: all fixed, except for some weights"""
    env.merge()
    w = large.vec(env, 'w', n, 0.5, 2) if name else None
    kde = env.kale.KDE(env.arr(large.vec(env, 'd', n, -1, 2, free=[])), weights=None if w is None else env.arr(w), covariance=env.arr([[2.0]]), bandwidth=name or 'scott')
    env.check('number', int(kde.ndata) == n)
    if w is None:
        neff = env.num(n)
    else:
        s = ref.tot(w)
        neff = s * s / ref.tot([x * x for x in w])
    env.eq('neff', kde.neff, neff)
    env.eq('bandwidth', kde.bandwidth[0, 0], _rule(env, name or 'scott', neff, 1))


def cases(tier):
    out = [Case('bad', h_bad)]
    for D in (1, 2, 3, 4):
        for nm in ('scott', 'silverman', None):
            for how in ('plain', 'weights', 'neff', 'both'):
                if how == 'both' and nm is None:
                    continue
                out.append(Case('rule-%dd-%s-%s' % (D, nm, how), h_rule, dict(D=D, name=nm, how=how)))
        out.append(Case('rule-%dd-rescale' % D, h_rule, dict(D=D, name='silverman', how='weights', rescale=True)))
    for D in (1, 2, 3):
        for how in ('scalar', 'diagonal-flag', 'vector', 'list', 'mixed', 'names', 'matrix', 'matrix-lists', 'asymmetric', 'list1', 'array1', 'nested1', 'name1'):
            if D == 1 and how in ('mixed', 'names', 'matrix', 'matrix-lists', 'asymmetric'):
                continue
            if how == 'diagonal-flag' and D == 1:
                continue
            if how == 'asymmetric' and D == 3:
                continue
            for r in (False, True):
                out.append(Case('given-%dd-%s%s' % (D, how, '-rescale' if r else ''), h_given, dict(D=D, how=how, rescale=r)))
        out.append(Case('covgiven-%dd' % D, h_covgiven, dict(D=D)))
        out.append(Case('attrs-%dd' % D, h_attrs, dict(D=D)))
    for n in (2, 3, 4):
        for wt in (False, True):
            out.append(Case('cov-1d-n%d%s' % (n, '-w' if wt else ''), h_cov, dict(D=1, n=n, weighted=wt)))
    out.append(Case('cov-1d-list-w', h_cov, dict(D=1, n=3, weighted=True, form='list')))
    out.append(Case('cov-2d', h_cov, dict(D=2, n=3, weighted=False), weight=4))
    out.append(Case('cov-2d-w', h_cov, dict(D=2, n=3, weighted=True), weight=4))
    for nm in (None, 'scott', 'silverman'):
        for n in (60, 300):
            out.append(Case('large-%d-%s' % (n, nm), h_large, dict(n=n, name=nm)))
    return out
