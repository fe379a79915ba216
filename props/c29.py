"""C29: covariance helpers: correlating, whitening, fixing parameters, inverting."""
from symx.run import Case
from props import ref

BOUNDS = "1-3 dimensions, 2-4 data points; data symbolic, covariances symbolic in 1-D and 2-D (positive definite), fixed in 3-D"
OUTSIDE = "more dimensions, rounding, covariances that are (nearly) singular"

C3 = [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]


def _cov(env, D, form):
    if form == 'fixed':
        return env.arr([r[:D] for r in C3[:D]])
    if D == 1:
        return env.np.array([[env.real('c', 0.1, 10)]])
    a, b = env.real('a', 0.1, 10), env.real('b', 0.1, 10)
    c = env.real('c', -5, 5)
    env.assume(c * c < a * b * 0.99)
    return env.np.array([[a, c], [c, b]])


def h_add(env, D, n, form):
    """a linear map of each point, whose square is the covariance"""
    env.merge()
    C = _cov(env, D, form)
    x = env.mat('x', D, n, -50, 50)
    xs = [[x[i, k] for k in range(n)] for i in range(D)]
    y = env.utils.add_cov(x, C)
    env.check('shape', tuple(env.np.shape(y)) == (D, n))
    A = env.utils.add_cov(env.arr([[1.0 if i == j else 0.0 for j in range(D)] for i in range(D)]), C)
    for i in range(D):
        for j in range(D):
            env.eq('square-is-covariance', ref.tot([A[i, k] * A[j, k] for k in range(D)]), C[i, j], rtol=1e-7, atol=1e-9)
        for k in range(n):
            env.eq('linear', y[i, k], ref.tot([A[i, j] * xs[j][k] for j in range(D)]), rtol=1e-7, atol=1e-7)
            env.eq('not-modified', x[i, k], xs[i][k])


def h_rem(env, D, n, form):
    """the inverse of adding the same covariance"""
    C = _cov(env, D, form)
    x = env.mat('x', D, n, -50, 50)
    xs = [[x[i, k] for k in range(n)] for i in range(D)]
    y = env.utils.rem_cov(env.utils.add_cov(x, C), C)
    z = env.utils.add_cov(env.utils.rem_cov(x, C), C)
    for i in range(D):
        for k in range(n):
            env.eq('inverse', y[i, k], xs[i][k], rtol=1e-6, atol=1e-6)
            env.eq('inverse', z[i, k], xs[i][k], rtol=1e-6, atol=1e-6)
            env.eq('not-modified', x[i, k], xs[i][k])


def h_own(env, D, n, form='array'):
    """without a covariance that of the data is removed: unit variance, no correlations"""
    if D == 1:
        x = env.vec('x', n, -50, 50)
        env.assume(x[0] + 0.5 < x[1])
        arg = env.np.reshape(x, (1, n))
    else:
        base = [[0.0, 1.0, 3.0, -2.0], [1.0, -1.0, 0.5, 2.0], [0.25, 0.5, -1.0, 1.5]]
        s = env.real('s', 0.5, 4)
        t = env.real('t', -2, 2)
        arg = env.np.array([[env.num(v) * s + t for v in base[0][:n]]] + [[env.num(v) for v in r[:n]] for r in base[1:D]])
    y = env.utils.rem_cov(arg)
    y = env.np.reshape(y, (D, n))
    m = [ref.tot([y[i, k] for k in range(n)]) / n for i in range(D)]
    for i in range(D):
        for j in range(D):
            c = ref.tot([(y[i, k] - m[i]) * (y[j, k] - m[j]) for k in range(n)]) / (n - 1)
            env.eq('identity-covariance', c, 1.0 if i == j else 0.0, rtol=1e-6, atol=1e-6)


def h_keep(env, D, keep, form='array', reflect=None):
    """rows and columns of kept parameters are zero, all others as given"""
    m = env.mat('m', D, D, -10, 10)
    ms = [[m[i, j] for j in range(D)] for i in range(D)]
    arg = m.tolist() if form == 'list' else m
    kw = {}
    if reflect is not None:
        kw['reflect'] = reflect
    if keep is None or keep is False:
        ks = []
    elif keep is True:
        ks = list(range(D))
    else:
        ks = list(keep) if isinstance(keep, (list, tuple)) else [keep]
    if reflect is not None and any(reflect[k] is not None for k in ks):
        env.raises('keep-and-reflect', lambda: env.utils.cov_keep_vars(arg, keep, **kw), (ValueError,))
        return
    r = env.utils.cov_keep_vars(arg, keep, **kw)
    env.check('shape', tuple(env.np.shape(r)) == (D, D))
    ks = [k % D for k in ks]
    for i in range(D):
        for j in range(D):
            env.eq('kept', r[i, j], 0.0 if i in ks or j in ks else ms[i][j])
            env.eq('not-modified', m[i, j], ms[i][j])


def h_inverse(env, D, form):
    C = _cov(env, D, form)
    for r in [env.utils.matrix_invert(C), env.utils.matrix_invert(C, helper=False)]:
        for i in range(D):
            for j in range(D):
                env.eq('inverse', ref.tot([C[i, k] * r[k, j] for k in range(D)]), 1.0 if i == j else 0.0, rtol=1e-6, atol=1e-6)


def h_general(env):
    """any non-singular matrix"""
    m = env.mat('m', 2, 2, -10, 10)
    d = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    env.assume(env.abs(d) > 0.1)
    r = env.utils.matrix_invert(m)
    for i in range(2):
        for j in range(2):
            env.eq('inverse', ref.tot([m[i, k] * r[k, j] for k in range(2)]), 1.0 if i == j else 0.0, rtol=1e-6, atol=1e-6)


def h_scales(env, D, corr):
    """parameters of very different scales"""
    s = [env.real('s%d' % i, lo, hi) for i, (lo, hi) in enumerate([(1.0, 2.0), (1e-7, 1e-5), (1e3, 1e5)][:D])]
    c = env.real('c', -0.9, 0.9) if corr else 0.0
    m = env.arr([[s[i] * s[j] * (1.0 if i == j else c if i + j == 1 else 0.0) for j in range(D)] for i in range(D)])
    for r in [env.utils.matrix_invert(m), env.utils.matrix_invert(m, helper=False)]:
        for i in range(D):
            for j in range(D):
                # (element of m r) * s_j / s_i
                v = ref.tot([m[i, k] * r[k, j] for k in range(D)])
                env.eq('inverse', v * s[j] / s[i], 1.0 if i == j else 0.0, rtol=1e-6, atol=1e-6)


def h_singular(env):
    """singular matrices have a pseudo-inverse"""
    for rows in ([[1.0, 0.0], [0.0, 0.0]], [[1.0, 1.0], [1.0, 1.0]], [[0.0, 0.0], [0.0, 0.0]], [[2.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.5]]):
        m = env.arr(rows)
        r = env.utils.matrix_invert(m, helper=False)
        D = len(rows)
        mm = [[ref.tot([m[i, a] * r[a, b] for a in range(D)]) for b in range(D)] for i in range(D)]
        for i in range(D):
            for j in range(D):
                env.eq('m-r-m', ref.tot([mm[i][k] * m[k, j] for k in range(D)]), rows[i][j], rtol=1e-6, atol=1e-6)
                rm = ref.tot([r[i, k] * mm[k][j] for k in range(D)])
                env.eq('r-m-r', rm, r[i, j], rtol=1e-6, atol=1e-6)
                env.eq('symmetric', mm[i][j], mm[j][i], rtol=1e-6, atol=1e-6)


def h_bad(env):
    env.raises('indefinite', lambda: env.utils.add_cov(env.arr([[1.0, 2.0], [3.0, 4.0]]), env.arr([[1.0, 2.0], [2.0, 1.0]])), (Exception,))


def cases(tier):
    out = [Case('bad', h_bad), Case('singular', h_singular), Case('general', h_general)]
    out += [Case('scales-%d-%s' % (D, c), h_scales, dict(D=D, corr=c)) for D in (2, 3) for c in (False, True)]
    for D in (1, 2, 3):
        for f in ('fixed', 'symbolic'):
            if D == 3 and f == 'symbolic':
                continue
            for n in (1, 2, 3):
                out.append(Case('add-%d-%s-%d' % (D, f, n), h_add, dict(D=D, n=n, form=f)))
                if n < 3:
                    out.append(Case('rem-%d-%s-%d' % (D, f, n), h_rem, dict(D=D, n=n, form=f)))
            out.append(Case('inverse-%d-%s' % (D, f), h_inverse, dict(D=D, form=f)))
        for k in [None, True, False] + list(range(D)) + [[0], [-1]] + ([[0, D - 1], [1]] if D > 1 else []):
            for f in ('array', 'list'):
                out.append(Case('keep-%d-%s-%s' % (D, k, f), h_keep, dict(D=D, keep=k, form=f)))
            for r in ([None] * D, [[0.0, None]] + [None] * (D - 1)):
                out.append(Case('keep-%d-%s-%s' % (D, k, r), h_keep, dict(D=D, keep=k, reflect=r)))
    for D, n in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4)):
        out.append(Case('own-%d-%d' % (D, n), h_own, dict(D=D, n=n)))
    return out
