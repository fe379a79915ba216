"""C24: estimates from histograms."""
import itertools

from symx.run import Case
from props import ref
from props.c12 import _prod

BOUNDS = "1-3 dimensions of 1-3 bins; counts, given bandwidths, and points symbolic, edges symbolic with given covariance"
OUTSIDE = "larger histograms, rounding, overall scale of the weights"

E3 = [[0.0, 1.0, 3.0, 3.5], [-1.0, 0.5, 1.0], [2.0, 3.0, 7.0]]


def h(env, D, sh, kernel='gaussian', bw=None, edges='array', counts='float', cov=True, reflect=None, points=1):
    env.merge()
    n = _prod(sh)
    if edges == 'symbolic':
        e = [env.sorted_vec('e%d_' % d, sh[d] + 1, gap=env.num(0.0)) for d in range(D)]
    else:
        e = [env.arr(E3[d][:sh[d] + 1]) for d in range(D)]
    hist = env.ivec('h', n, 0, 5) if counts == 'int' else env.vec('h', n, 0, 50)
    hs = list(hist)
    env.assume(ref.tot(hs) > 0)
    hist = env.np.reshape(hist, sh)
    kw = dict(kernel=kernel)
    C = None
    if cov:
        C = [[2.0 if i == j else 0.25 for j in range(D)] for i in range(D)]
        kw['covariance'] = env.arr(C)
    if reflect:
        kw['reflect'] = [-2.0, None] if D == 1 else [[-2.0, None]] + [None] * (D - 1)
    wid = [(e[d][-1] - e[d][0]) / sh[d] for d in range(D)]
    B = wid
    if bw == 'number':
        b = env.real('b', 0.1, 4.0)
        kw['bandwidth'] = b
        B = None
    elif bw == 'array':
        b = env.real('b', 0.1, 4.0)
        B = [b + d for d in range(D)]
        kw['bandwidth'] = env.np.array(B)
    elif bw == 'default':
        kw['bandwidth'] = 'bin width'
    arg = e if D > 1 else e[0]
    if edges == 'list':
        arg = [x.tolist() for x in e] if D > 1 else e[0].tolist()
    kde = env.kale.KDE.from_hist(arg, hist, **kw)
    cen = [[(e[d][i] + e[d][i + 1]) / 2 for i in range(sh[d])] for d in range(D)]
    idx = list(itertools.product(*[range(s) for s in sh]))
    rows = [[cen[d][i[d]] for i in idx] for d in range(D)]
    ds = env.np.reshape(kde.dataset, (D, -1))
    env.check('one-point-per-bin', tuple(ds.shape) == (D, n))
    for d in range(D):
        for k in range(n):
            env.eq('centers', ds[d, k], rows[d][k], atol=1e-9)
    w = kde.weights
    env.check('weights', tuple(env.np.shape(w)) == (n,))
    tot = ref.tot([x + env.num(0.0) for x in hs])
    wt = ref.tot(list(w))
    env.check('weights-positive', wt > 0)
    for k in range(n):
        env.eq('weights-by-count', w[k] * tot, hs[k] * wt, rtol=1e-7, atol=1e-9)
    bwm = kde.bandwidth
    for i in range(D):
        for j in range(D):
            if D == 1 or B is None:
                env.eq('bandwidth', bwm[i, j], b if bw == 'number' else B[0], rtol=1e-9, atol=1e-9)
            else:
                env.eq('bandwidth', bwm[i, j], B[i] if i == j else env.num(0.0), rtol=1e-9, atol=1e-9)
    for a, x in zip(env.np.reshape(hist, (-1,)), hs):
        env.eq('not-modified', a, x)


def h_pdf(env, D, sh, kernel, bw=None, reflect=None):
    """the probability density is the mean of the kernels at the bin centers, by the counts"""
    n = _prod(sh)
    e = [env.arr(E3[d][:sh[d] + 1]) for d in range(D)]
    hist = env.np.reshape(env.vec('h', n, 0, 50), sh)
    hs = list(env.np.reshape(hist, (-1,)))
    env.assume(ref.tot(hs) > 0)
    C = [[2.0 if i == j else 0.25 for j in range(D)] for i in range(D)]
    wid = [(E3[d][sh[d]] - E3[d][0]) / sh[d] for d in range(D)]
    M = [[C[i][j] * (wid[i] ** 2 if i == j else 0.0) for j in range(D)] for i in range(D)] if D > 1 else [[C[0][0] * wid[0] ** 2]]
    kw = dict(kernel=kernel, covariance=env.arr(C))
    kde = env.kale.KDE.from_hist(e if D > 1 else e[0], hist, **kw)
    cen = [[(E3[d][i] + E3[d][i + 1]) / 2 for i in range(sh[d])] for d in range(D)]
    idx = list(itertools.product(*[range(s) for s in sh]))
    rows = [[env.num(cen[d][i[d]]) for i in idx] for d in range(D)]
    pts = [[env.num(0.25 + d), env.num(1.75 - d)] for d in range(D)]
    got = kde.pdf(env.np.array(pts) if D > 1 else env.np.array(pts[0]))[1]
    want = ref.density(env, kernel, rows, pts, [[env.num(x) for x in r] for r in M], hs)
    tot = ref.tot(hs)
    for g, x in zip(got, want):
        env.eq('pdf', g * tot, x, rtol=1e-7, atol=1e-9)


def h_bad(env):
    f = env.kale.KDE.from_hist
    env.raises('empty', lambda: f(env.arr([0.0, 1.0, 2.0]), env.arr([0.0, 0.0]), bandwidth=1.0), (ValueError, ZeroDivisionError))
    env.raises('number', lambda: f(env.arr([0.0, 1.0, 2.0]), env.arr([1.0, 2.0, 3.0])), (ValueError,))
    env.raises('rule', lambda: f(env.arr([0.0, 1.0, 2.0]), env.arr([1.0, 2.0]), bandwidth='bins'), (ValueError,))


def cases(tier):
    out = [Case('bad', h_bad)]
    SH = {1: [(3,), (2,)], 2: [(2, 2), (3, 1), (1, 2)], 3: [(2, 1, 2), (1, 2, 2)]}
    for D in (1, 2, 3):
        for sh in SH[D]:
            for ed in ('array', 'list', 'symbolic'):
                out.append(Case('centers-%s-%s' % (sh, ed), h, dict(D=D, sh=sh, edges=ed)))
            for bw in ('number', 'array', 'default'):
                if D == 1 and bw == 'array':
                    continue
                out.append(Case('bandwidth-%s-%s' % (sh, bw), h, dict(D=D, sh=sh, bw=bw)))
            out.append(Case('int-%s' % (sh,), h, dict(D=D, sh=sh, counts='int')))
            for k in ref.KERNELS:
                out.append(Case('pdf-%s-%s' % (sh, k), h_pdf, dict(D=D, sh=sh, kernel=k), opts=dict(fold_sqrt=True)))
        out.append(Case('reflect-%d' % D, h, dict(D=D, sh=SH[D][0], reflect=True)))
        out.append(Case('box-%d' % D, h, dict(D=D, sh=SH[D][0], kernel='box')))
    out.append(Case('cov-1d', h, dict(D=1, sh=(3,), cov=False)))
    return out
