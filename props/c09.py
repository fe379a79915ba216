"""C09: resampling draws data points by weight and adds kernel noise."""
from symx.run import Case
from props import large
from props import ref

BOUNDS = "up to 1050 samples or 200 data points with fixed draws; otherwise 1-3 dimensions, 2-3 data points, 1-3 samples, all kernels; data, weights, matrices (given) and all random draws symbolic"
OUTSIDE = "larger data sets and sample sizes, quality of numpy's generators, symbolic covariance in D>=2"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def _data(env, D, n):
    return env.vec('d', n) if D == 1 else env.mat('d', D, n)


def _kde(env, D, n, kernel, weighted, form='float', **kw):
    data = _data(env, D, n) if form == 'float' else env.np.reshape(env.ivec('d', D * n, -20, 20), (n,) if D == 1 else (D, n))
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[D]), **kw)
    rows = [list(data)] if D == 1 else ref.rows(data)
    M = [[COV[D][i][j] * 0.25 for j in range(D)] for i in range(D)]
    return kde, rows, w, M


def cols(env, s, D):
    """the samples, as a list of columns"""
    s = env.np.reshape(s, (D, -1))
    return [[s[d, j] for d in range(D)] for j in range(s.shape[1])]


def h_shape(env, kernel, D, weighted):
    env.merge()
    n = 2
    kde, rows, w, M = _kde(env, D, n, kernel, weighted)
    env.set_rng(i=lambda k: k, z=lambda k: env.num(0.25), u=lambda k: env.num(0.5), b=lambda k: env.num(0.5))
    sh = tuple(env.np.shape(kde.resample()))
    env.check('default-size', sh == ((n,) if D == 1 else (D, n)))
    for size in (3, env.num(3.0), 2.0):
        m = int(size) if not hasattr(size, 'n') else 3
        sh = tuple(env.np.shape(kde.resample(size)))
        env.check('given-size', sh == ((m,) if D == 1 else (D, m)))
        sh = tuple(env.np.shape(kde.resample(size=size, squeeze=False)))
        env.check('not-squeezed', sh == (D, m))
    env.check('one', env.np.reshape(kde.resample(1, squeeze=False), (-1,)).shape == (D,))
    sh = tuple(env.np.shape(env.kale.resample(kde.dataset, size=3, weights=w, kernel=kernel, covariance=env.arr(COV[D]))))
    env.check('function-size', sh == ((3,) if D == 1 else (D, 3)))


def h_source(env, kernel, D, weighted, size=2, function=False, form='float'):
    """with all variables kept the samples are data points, chosen with probability given by their weights"""
    env.merge()
    n = 3
    kde, rows, w, M = _kde(env, D, n, kernel, weighted, form=form)
    keep = env.choice('keep', [True, list(range(D))] + ([0] if D == 1 else []))
    if function:
        kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D]))
        s = env.kale.resample(kde.dataset, size=size, weights=w, keep=keep, **kw)
    else:
        s = kde.resample(size, keep=keep)
    c = cols(env, s, D)
    env.check('number', len(c) == size)
    for d in range(1):
        env.assume(rows[d][0] != rows[d][1], rows[d][1] != rows[d][2], rows[d][0] != rows[d][2])
    share = [env.num(1.0) / n] * n if w is None else [x / ref.tot(list(w)) for x in w]
    idx = env.draws('i')
    for j in range(size):
        same = [env.And(*[c[j][d] == rows[d][k] for d in range(D)]) for k in range(n)]
        env.check('a-data-point', env.Or(*same))
        if len(idx) != size:
            env.reach('other-selection')
            continue
        k = int(idx[j])
        env.check('the-chosen-one', same[k])
    ev = env.events.get('choice_p', [])
    if len(idx) == size:
        if size > 1:
            # each is drawn from all of the data points
            env.check('independent', all(env.events.get('choice_replace', [])))
        if ev:
            p = ev[-1]
            for k in range(n):
                env.eq('by-weight', p[k], share[k])
        else:
            env.check('by-weight', w is None)


def h_noise(env, D, kept, weighted, size=1):
    """Gaussian: the noise is a linear map of independent normal draws with the covariance of the kernel matrix,
    zero for the kept variables"""
    env.merge()
    n = 2
    kde, rows, w, M = _kde(env, D, n, 'gaussian', weighted)
    keep = {'none': None, 'false': False, 'empty': [], 'first': 0, 'last': [D - 1]}[kept]
    kd = {'first': [0], 'last': [D - 1]}.get(kept, [])
    one, zero = env.num(1.0), env.num(0.0)
    env.set_rng(i=lambda k: 1)

    def noise():
        i0 = len(env.draws('i'))
        c = cols(env, kde.resample(size, keep=keep, squeeze=False), D)
        i = env.draws('i')[i0:]
        return [[c[j][d] - rows[d][int(i[j])] for d in range(D)] for j in range(size)]
    z0 = len(env.draws('z'))
    env.set_rng(z=lambda k: env.real('z%d' % (k - z0), -50, 50))
    v = noise()
    z = env.draws('z')[z0:]
    if not z:
        env.reach('no-normal-draws')
        return
    A = []
    for m in range(len(z)):
        zb = len(env.draws('z'))
        env.set_rng(z=lambda k: one if k - zb == m else zero)
        A.append(noise())
    for j in range(size):
        for d in range(D):
            env.eq('linear', v[j][d], ref.tot([A[m][j][d] * z[m] for m in range(len(z))]), atol=1e-9)
    for j in range(size):
        for d in range(D):
            for j2 in range(size):
                for e in range(D):
                    want = M[d][e] if j == j2 and d not in kd and e not in kd else 0.0
                    env.eq('covariance', ref.tot([A[m][j][d] * A[m][j2][e] for m in range(len(z))]), env.num(want), atol=1e-9)


def h_support(env, kernel, D, weighted, size=1):
    """finite kernels: samples are within the support of the kernel around the chosen data point"""
    n = 2
    env.merge()
    kde, rows, w, M = _kde(env, D, n, kernel, weighted)
    env.set_rng(i=lambda k: k)
    s = cols(env, kde.resample(size, squeeze=False), D)
    i = env.draws('i')
    if len(i) != size:
        env.reach('other-selection')
        return
    inv = ref.inv([[env.num(x) for x in r] for r in M])
    for j in range(size):
        y = [s[j][d] - rows[d][int(i[j])] for d in range(D)]
        q = ref.tot([y[a] * inv[a][b] * y[b] for a in range(D) for b in range(D)])
        env.le('within-support', q, env.num(1.0))


def h_same(env, kernel, D, weighted):
    """finite kernels: the noise is the kernel's own sample, mapped by a root of the kernel matrix"""
    env.merge()
    n = 2
    kde, rows, w, M = _kde(env, D, n, kernel, weighted)
    env.set_rng(i=lambda k: 0)
    base = {k: len(env.draws(k)) for k in 'zub'}
    y = cols(env, kde.kernel.distribution.sample(1, ndim=D, squeeze=False), D)[0]
    rec = {k: env.draws(k)[base[k]:] for k in 'zub'}
    b2 = {k: len(env.draws(k)) for k in 'zub'}
    env.set_rng(**{k: (lambda m, k=k: rec[k][m - b2[k]] if m - b2[k] < len(rec[k]) else None) for k in 'zub'})
    s = cols(env, kde.resample(1, squeeze=False), D)[0]
    v = [s[d] - rows[d][0] for d in range(D)]
    if len(env.draws('z')) - b2['z'] != len(rec['z']) or len(env.draws('u')) - b2['u'] != len(rec['u']):
        env.reach('other-draws')
        return
    inv = ref.inv([[env.num(x) for x in r] for r in M])
    q = ref.tot([v[a] * inv[a][b] * v[b] for a in range(D) for b in range(D)])
    env.eq('same-radius', q, ref.tot([t * t for t in y]))


def h_bad(env):
    env.merge()
    kde = env.kale.KDE(env.arr([[0.0, 1.0, 3.0], [0.5, -1.0, 2.0]]))
    env.raises('keep-out-of-range', lambda: kde.resample(2, keep=2), (IndexError, ValueError))
    env.raises('keep-out-of-range', lambda: kde.resample(2, keep=[0, 5]), (IndexError, ValueError))


def h_large(env, kernel, size, n):
    """many samples: each is around the data point drawn for it, by a noise of its own"""
    env.merge()
    d = env.vec('d', 3) if n == 3 else env.arr(large.vec(env, 'd', n, 0, 100 * n))
    kde = env.kale.KDE(d, bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr([[4.0]]))
    env.set_rng(i=lambda k: (7 * k + k // 11) % n, z=lambda k: env.num(large.val(k, -2, 2)), u=lambda k: env.num(large.val(k, 0, 1)), b=lambda k: env.num(large.val(k, 0, 1)))
    s = kde.resample(size, keep=False)
    env.check('number', tuple(env.np.shape(s)) == (size,))
    i = env.draws('i')
    if len(i) != size:
        env.reach('other-draws')
        return
    v = [s[j] - d[int(i[j])] for j in range(size)]
    z = env.draws('z')
    if kernel == 'gaussian' and len(z) == size:
        for a, b in zip(v, z):
            env.eq('noise', env.abs(a), env.abs(b), atol=1e-9)
    for a in v:
        env.le('noise', env.abs(a), env.num(50.0) if kernel == 'gaussian' else env.num(1.0 + 1e-9))


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for k in ref.KERNELS:
        for D in (1, 2, 3):
            for wt in (False, True):
                t = '-w' if wt else ''
                if not (q and wt):
                    out.append(Case('shape-%dd-%s%s' % (D, k, t), h_shape, dict(kernel=k, D=D, weighted=wt)))
                if k in ('gaussian', 'box') or D == 2 or not q:
                    out.append(Case('source-%dd-%s%s' % (D, k, t), h_source, dict(kernel=k, D=D, weighted=wt, size=2 if D < 3 else 1), weight=3))
            if k != 'gaussian':
                if not (k == 'triweight' and D == 1):
                    out.append(Case('support-%dd-%s' % (D, k), h_support, dict(kernel=k, D=D, weighted=False, size=1), weight=2))
                    out.append(Case('same-%dd-%s' % (D, k), h_same, dict(kernel=k, D=D, weighted=True), weight=2))
        for D in (1, 2):
            out.append(Case('source-int-%dd-%s' % (D, k), h_source, dict(kernel=k, D=D, weighted=D == 1, size=2, form='int'), weight=3))
        out.append(Case('function-%s' % k, h_source, dict(kernel=k, D=1, weighted=True, size=2, function=True)))
    for D in (1, 2, 3):
        for kept in ('none', 'false', 'empty', 'first', 'last'):
            for size in (1, 2):
                if D == 3 and size == 2 and q:
                    continue
                out.append(Case('noise-%dd-%s-%d' % (D, kept, size), h_noise, dict(D=D, kept=kept, weighted=size == 2, size=size)))
    for k in ref.KERNELS:
        for n, size in ((3, 1050), (200, 40)):
            out.append(Case('large-%s-%d-%d' % (k, n, size), h_large, dict(kernel=k, size=size, n=n)))
    return out
