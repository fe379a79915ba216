"""C34: results depend on the values given, not on how they are stored or handed over."""
from symx.run import Case
from props.c27 import Draws, _flat, _draw
from props.axes import Axes

BOUNDS = "1-3 dimensions, 2-4 data points, 2-4 cells; values and random draws symbolic; C and Fortran order, reversed and strided views, read-only arrays, (nested) lists and tuples, integers, and the same array given in several roles"
OUTSIDE = "data frames, structured and masked arrays, single precision, other byte orders, rounding"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]]}
X = [[0.5, 1.5, -0.25, 2.0], [0.125, -0.25, 1.25, 0.75]]
E = [[0.0, 1.0, 1.5, 3.5], [-1.0, 0.5, 1.0], [2.0, 3.0, 7.0]]
V = [2.0, 1.0, 3.0, 0.5, 1.5, 2.5, 0.25, 4.0, 1.25, 0.75, 3.5, 2.25, 1.0, 0.5, 2.0, 1.75, 0.25, 3.0]
LAYOUTS = ('F', 'reversed', 'strided', 'readonly', 'list', 'tuple')
M2 = ('readonly', 'F', 'reversed', 'strided')


def _same(env, ops, names, layouts, held=()):
    """every function, of the same values stored in another way"""
    d = Draws(env, 2)
    name = env.choice('of', names)
    how = env.choice('stored', layouts)
    d.reset()
    x = _flat(env, ops[name](lambda a: env.layout(a, 'C')))
    d.reset()
    y = _flat(env, ops[name](lambda a: env.layout(a, how)))
    env.check('same-size', len(x) == len(y) and len(x) > 0)
    if len(x) == len(y):
        for p, q in zip(x, y):
            env.eq('same-result', p, q, atol=1e-12)


def _values(env, name, sh, k=2, lo=0.25, hi=0.5, seq=V):
    """array of given shape, of which the first k values are symbolic"""
    n = 1
    for s in sh:
        n *= s
    v = [env.num(seq[i % len(seq)]) + (env.real('%s%d' % (name, i), lo, hi) if i < k else env.num(0.0)) for i in range(n)]
    return env.np.reshape(env.np.array(v), sh)


def h_kde(env, D, kernel, only=None, layouts=LAYOUTS):
    env.merge()
    n = 2
    s = env.real('s', -0.5, 0.5)
    rows = [[env.num(v) + s for v in r[:n]] for r in X[:D]]
    data = env.np.array(rows[0] if D == 1 else rows)
    w = env.arr([0.75, 1.5])
    wi = env.arr([3, 1])
    cov = env.arr(COV[D])
    x = env.real('x', -2, 3)
    pts = env.np.array([x, env.num(0.75)] if D == 1 else [[x, env.num(0.75)], [env.num(0.25), env.num(-0.5)]])
    grid = [env.np.array([x, env.num(4.0)]), env.arr([0.25, 1.25])]
    own = [env.arr([-1.0, 0.25, 1.0, 2.5]), env.arr([-1.0, 0.5, 2.0])][:D]
    r = [[-3.0, None]] + [[None, 4.0]] * (D - 1)
    K, kw = env.kale, dict(kernel=kernel)

    def kde(L, **k):
        g = [L(o) for o in own]
        return K.KDE(L(data), weights=L(w), covariance=L(cov), bandwidth=env.num(0.5), points=g if D > 1 else g[0], **dict(kw, **k))
    f = dict(kw, bandwidth=env.num(0.5))
    g = lambda L: [L(a) for a in grid[:D]]
    ops = {
        'density': lambda L: kde(L).density(L(pts)),
        'pdf-reflect': lambda L: kde(L, reflect=r).pdf(L(pts)),
        'integer-weights': lambda L: K.KDE(L(data), weights=L(wi), covariance=L(cov), **f).pdf(L(pts)),
        'default': lambda L: kde(L).pdf(),
        'grid': lambda L: kde(L).density(g(L), grid=True),
        'cdf': lambda L: kde(L).cdf(L(env.arr([0.3, 1.25] if D == 1 else [[0.3, 1.25], [-0.25, 0.75]]))),
        'resample': lambda L: kde(L).resample(2),
        'resample-keep': lambda L: kde(L).resample(2, keep=0),
        'resample-all': lambda L: kde(L).resample(2, keep=True, squeeze=False),
        'functions': lambda L: [K.density(L(data), L(pts), weights=L(w), covariance=L(cov), **f), K.pdf(L(data), g(L), weights=L(w), grid=True, covariance=L(cov), **f)],
        'draws': lambda L: K.resample(L(data), size=2, weights=L(w), covariance=L(cov), **f),
        'kernel': lambda L: kde(L).kernel.density(env.np.atleast_2d(L(pts)), env.np.atleast_2d(L(data)), weights=L(w), reflect=r),
        'plot': lambda L: _dist1d(env, kde(L), L),
        'properties': lambda L: [getattr(kde(L), a) for a in ('dataset', 'weights', 'covariance', 'bandwidth', 'neff', 'ndata', 'ndim', 'extrema', 'points')],
    }
    if D == 2:
        ops['param'] = lambda L: kde(L).density(g(L)[1], params=1)
        ops['swapped'] = lambda L: kde(L).density(L(pts), params=[1, 0])
        ops['own-covariance'] = lambda L: K.KDE(L(env.arr([X[0][:3], X[1][:3]])), **f).density(L(pts))
    else:
        ops['own-covariance'] = lambda L: K.KDE(L(env.arr(X[0][:3])), **f).density(L(pts))
    _same(env, ops, sorted(ops) if only is None else [only], layouts)


def _calls(env, axes):
    out = []
    for ax in axes:
        for c in ax.calls:
            for v in list(c.args) + [c.kw[k] for k in ('levels', 'ymin', 'ymax', 'weights') if k in c.kw]:
                m = getattr(v, 'mask', None)
                if m is not None and hasattr(m, 'shape') and tuple(m.shape) != ():
                    for x, h in zip(env.np.reshape(v.data, (-1,)), env.np.reshape(m, (-1,))):
                        out += [env.num(0.5) if bool(h) else x]
                elif v is not None and not isinstance(v, (str, bool, dict)):
                    v = v.data if m is not None else v
                    v = env.np.asarray(v)
                    out += [x for x in env.np.reshape(v, (-1,)) if not bool(env.isnan(x))]
            out.append(len(c.args) + 0.0)
    return out


def _dist1d(env, k, L):
    ax = Axes()
    env.kale.plot.dist1d(k, ax=ax, edges=L(env.arr([-1.0, 0.0, 1.0, 3.0])), color='k', confidence=False, carpet=False)
    return _calls(env, [ax])


def h_grid(env, D, only=None, layouts=LAYOUTS):
    """sampling from grids"""
    sh = (4, 2, 2)[:D] if D != 2 else (3, 3)
    bins = tuple(a - 1 for a in sh)
    dens = _values(env, 'p', sh, k=2 if D < 2 else 1)
    sc = _values(env, 'c', sh, k=1, seq=V[3:])
    mass = _values(env, 'm', bins, k=1, seq=V[1:])
    ints = env.np.reshape(env.arr([2, 1, 3, 5, 1, 2, 4, 1, 2, 3, 1, 1, 2, 5, 3, 1][:_n(sh)]), sh)
    e = [env.arr(E[d][:a]) for d, a in enumerate(sh)]
    K = env.kale
    G = lambda L: [L(x) for x in e] if D > 1 else L(e[0])
    out = lambda L, a: L(a) if not isinstance(L(a), (list, tuple)) else a
    ops = {
        'class': lambda L: K.sample.Sample_Grid(G(L), L(dens)).sample(2),
        'flat': lambda L: K.sample.Sample_Grid(G(L), L(dens)).sample(2, interpolate=False),
        'mass': lambda L: K.sample.sample_grid(G(L), L(dens), 2, mass=L(mass)),
        'scalar': lambda L: K.sample.sample_grid(G(L), L(dens), 2, scalar_dens=L(sc)),
        'scalar-mass': lambda L: K.sample.sample_grid(G(L), L(dens), 2, scalar_mass=L(mass)),
        'scalar-both': lambda L: K.sample.sample_grid(G(L), L(dens), 2, scalar_dens=L(sc), scalar_mass=L(mass)),
        'portion': lambda L: K.sample.sample_grid_proportional(G(L), out(L, dens), out(L, sc), 2),
        'outliers': lambda L: K.sample.sample_outliers(G(L), L(dens), 2.0, mass=L(mass)),
        'integer-outliers': lambda L: K.sample.sample_outliers(G(L), L(ints), 2.0, mass=L(mass)),
        'integer': lambda L: K.sample.sample_grid(G(L), L(ints), 2),
        'grid': lambda L: K.sample.Sample_Grid(G(L), L(dens)).grid,
    }
    _same(env, ops, sorted(ops) if only is None else [only], layouts)


def _n(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def h_utils(env, D, only=None, layouts=LAYOUTS):
    """helper functions"""
    sh = (4, 2, 2)[:D] if D != 2 else (3, 3)
    bins = tuple(a - 1 for a in sh)
    v = _values(env, 'p', sh)
    e = [env.arr(E[d][:a]) for d, a in enumerate(sh)]
    U, K = env.utils, env.kale
    G = lambda L: [L(x) for x in e] if D > 1 else L(e[0])
    w = _values(env, 'w', sh, k=1, seq=V[5:])
    h = _values(env, 'h', bins, k=1, seq=V[4:])
    pts = _values(env, 'x', (D, 3), k=2, seq=X[0] + X[1])
    if D == 1:
        pts = env.np.reshape(pts, (3,))
    cov = env.arr([[2.0 if i == j else 0.5 for j in range(D)] for i in range(D)])
    lims = [[0.25, None], [None, 1.0], [-1.0, 1.0]][:D]
    wt = env.arr([0.5, 2.0, 1.25])
    ops = {
        'masses': lambda L: U.trapz_dens_to_mass(L(v), G(L)),
        'masses-last': lambda L: U.trapz_dens_to_mass(L(v), G(L), axis=-1) if D > 1 else U.trapz_dens_to_mass(L(v), G(L), axis=0),
        'integral': lambda L: U.trapz_nd(L(v), G(L)),
        'centroids': lambda L: U.centroids(G(L), L(v)),
        'quantiles': lambda L: U.quantiles(L(v), [0.3, 0.75], weights=L(w), axis=None if D == 1 else 0),
        'all-quantiles': lambda L: U.quantiles(L(v), L(env.arr([0.3, 0.75])), weights=L(w)),
        'cumsum': lambda L: [U.cumsum(L(v)), U.cumsum(L(v), axis=-1)],
        'cumtrapz': lambda L: U.cumtrapz(L(v), G(L)),
        'bounds': lambda L: U.bound_indices(L(pts), L(env.arr([[0.25, 2.0]] * D)) if D > 1 else L(env.arr([0.25, 2.0]))),
        'outside': lambda L: U.bound_indices(L(pts), lims if D > 1 else lims[0], outside=True),
        'minmax': lambda L: [U.minmax(L(v)), U.minmax(L(v), prev=[1.0, 2.0], positive=True, stretch=0.5)],
        'midpoints': lambda L: [U.midpoints(L(v)), U.midpoints(L(v), axis=0, log=True), U.midpoints(L(v), axis=None)],
        'bins': lambda L: U.bins(0.0, 4.0, 3),
        'subdivide': lambda L: U.subdivide(L(e[0]), 2),
        'spacing': lambda L: U.spacing(L(v), scale='lin', num=4),
        'histogram': lambda L: U.histogram(L(pts if D == 1 else pts[0]), L(e[0]), weights=L(wt), density=True),
        'edges': lambda L: U.parse_edges(L(pts), 3, weights=L(wt)),
        'own-edges': lambda L: U.parse_edges(L(pts), G(L)),
        'iqr': lambda L: U.iqrange(L(pts if D == 1 else pts[0]), weights=L(wt)),
        'from_hist': lambda L: K.KDE.from_hist(G(L), L(h), covariance=L(cov), bandwidth=0.5).pdf(env.arr([0.5, 1.5] if D == 1 else [[0.5, 1.5]] * D)),
        'add-cov': lambda L: U.add_cov(env.np.atleast_2d(L(pts)), L(cov)),
        'rem-cov': lambda L: U.rem_cov(env.np.atleast_2d(L(pts)), L(cov)),
        'keep': lambda L: U.cov_keep_vars(L(cov), 0),
        'inverse': lambda L: U.matrix_invert(L(cov)),
        'meshgrid': lambda L: U.meshgrid(*[L(x) for x in e]),
    }
    _same(env, ops, sorted(ops) if only is None else [only], layouts)


def h_plot(env, only=None, layouts=LAYOUTS):
    """what is drawn"""
    env.merge()
    P = env.kale.plot
    x = _values(env, 'x', (2, 3), k=2, seq=X[0] + X[1])
    w = env.arr([0.5, 2.0, 1.25])
    h = _values(env, 'h', (3, 2), k=1, seq=V[4:])
    h1 = _values(env, 'g', (3,), k=1, seq=V[4:])
    e = [env.arr(E[0]), env.arr(E[1])]
    G = lambda L: [L(a) for a in e]

    def draw(f):
        def g(L):
            ax = Axes()
            f(ax, L)
            return _calls(env, [ax])
        return g

    def corner(f):
        def g(L):
            a = env.np.empty((2, 2), dtype=object)
            for i in range(2):
                for j in range(2):
                    a[i, j] = Axes()
            f(P.Corner(2, axes=a), L)
            return _calls(env, [a[0, 0], a[1, 0], a[1, 1]])
        return g
    out = lambda L, a: L(a) if not isinstance(L(a), (list, tuple)) else a
    d2 = dict(contour=False, median=True, mask_dense=False, mask_below=False)
    ops = {
        'outline': draw(lambda ax, L: P.draw_hist1d(ax, L(e[0]), L(h1))),
        'hist1d': draw(lambda ax, L: P.hist1d(L(x[0]), L(e[0]), ax=ax, weights=L(w))),
        'hist2d': draw(lambda ax, L: P.hist2d(L(x), G(L), ax=ax, weights=L(w))),
        'image': draw(lambda ax, L: P.draw_hist2d(ax, G(L), out(L, h), cmap='viridis')),
        'contour': draw(lambda ax, L: P.draw_contour2d(ax, G(L), out(L, h), levels=[0.5, 1.0, 2.0], pad=True)),
        'quantile-contour': draw(lambda ax, L: P.draw_contour2d(ax, G(L), out(L, h), quantiles=[0.5, 0.8], pad=False)),
        'confidence': draw(lambda ax, L: P.confidence(L(x[0]), ax=ax, weights=L(w), quantiles=[0.5])),
        'dist1d': draw(lambda ax, L: P.dist1d(L(x[0]), ax=ax, edges=L(e[0]), weights=L(w), color='k', density=False, confidence=False, carpet=False)),
        'dist2d': draw(lambda ax, L: P.dist2d(L(x), ax=ax, edges=G(L), weights=L(w), color='k', **d2)),
        'corner': corner(lambda c, L: c.plot_data(L(x), edges=G(L), weights=L(w), color='k', dist1d=dict(confidence=False, carpet=False, density=False), dist2d=dict(d2))),
        'targets': corner(lambda c, L: c.target(L(env.arr([0.5, 1.0])))),
    }
    _same(env, ops, sorted(ops) if only is None else [only], layouts)


def h_ints(env, D, only=None):
    """integers are the numbers which they are"""
    sh = (3, 2, 2)[:D]
    n = _n(sh)
    a = [env.int('i%d' % k, 1, 4) if k < 2 else [2, 1, 3, 5, 4, 1, 2][k % 7] for k in range(n)]
    I = env.np.reshape(env.np.array(a), sh)
    e = [[0, 1, 3, 4], [-1, 1, 2], [2, 3, 7]]
    bins = tuple(s - 1 for s in sh)
    h = env.np.reshape(env.np.array(a[:_n(bins)]), bins)
    d = env.np.reshape(env.arr([2, 5, 1, 1, 3, 6, 0, 2, -1][:3 * D]), (D, 3)) if D > 1 else env.arr([2, 5, 1])
    q = [env.int('q%d' % k, 0, 3) for k in range(2)]
    pts = env.np.array(q if D == 1 else [q] * D)
    U, K = env.utils, env.kale
    N = env.num
    up = lambda a: a + N(0.0)

    def edges(L, sh=sh):
        g = [L(env.arr(e[k][:s])) for k, s in enumerate(sh)]
        return g if D > 1 else g[0]
    lists = lambda L, sh=sh: [L(env.arr(e[k][:s])).tolist() for k, s in enumerate(sh)] if D > 1 else L(env.arr(e[0][:sh[0]])).tolist()
    b = dict(bandwidth=0.5)
    cov = env.arr([[2 if i == j else 1 for j in range(D)] for i in range(D)])
    ops = {
        'density': lambda L: K.KDE(L(d), covariance=L(cov), **b).density(L(pts)),
        'pdf-reflect': lambda L: K.KDE(L(d), covariance=L(cov), reflect=[[-2, 9]] * D if D > 1 else [-2, 9], **b).pdf(L(pts)),
        'weights': lambda L: K.KDE(L(d), weights=L(env.arr([3, 1, 2])), covariance=L(cov), **b).pdf(L(pts)),
        'own': lambda L: K.KDE(L(d), weights=L(env.arr([3, 1, 2]))).bandwidth,
        'number': lambda L: K.KDE(L(d), bandwidth=2).covariance,
        'resample': lambda L: K.KDE(L(d), covariance=L(cov), **b).resample(2),
        'resample-keep': lambda L: K.KDE(L(d), covariance=L(cov), **b).resample(2, keep=[0]),
        'resample-reflect': lambda L: K.KDE(L(d), covariance=L(cov), reflect=[[-9, 19]] * D if D > 1 else [-9, 19], **b).resample(1),
        'edges': lambda L: U.parse_edges(L(d), 3),
        'own-edges': lambda L: U.parse_edges(L(d), lists(L)),
        'minmax': lambda L: [U.minmax(L(d)), U.minmax(L(d), stretch=0.25), U.minmax(L(I), prev=[2, 3]), U.minmax(L(I), log_stretch=0.1), U.minmax(L(d), limit=[1.5, None])],
        'midpoints': lambda L: [U.midpoints(L(I)), U.midpoints(L(I), axis=0), U.midpoints(L(I), axis=None)],
        'log-midpoints': lambda L: U.midpoints(L(I), log=True),
        'subdivide': lambda L: [U.subdivide(L(env.arr(e[0])), 2), U.subdivide(L(env.arr([1, 2, 5])), 1, log=True)],
        'bins': lambda L: U.bins(L(env.arr(0)), L(env.arr(4)), 4),
        'spacing': lambda L: [U.spacing(L(I), scale='lin', num=3), U.spacing(L(env.arr([1, 2, 40])), scale='log', num=3)],
        'masses': lambda L: U.trapz_dens_to_mass(L(I), edges(L)),
        'masses-axis': lambda L: U.trapz_dens_to_mass(L(I), lists(L), axis=0),
        'integral': lambda L: U.trapz_nd(L(I), edges(L)),
        'centroids': lambda L: U.centroids(lists(L), L(I)),
        'cumsum': lambda L: [U.cumsum(L(I)), U.cumsum(L(I), axis=0)],
        'cumtrapz': lambda L: U.cumtrapz(L(I), edges(L)),
        'quantiles': lambda L: U.quantiles(L(env.arr([2, 7, 1, 4])), [0.25, 0.6], weights=L(env.arr([2, 1, 1, 3]))),
        'iqr': lambda L: U.iqrange(L(env.arr([2, 7, 1, 4]))),
        'add-cov': lambda L: U.add_cov(L(env.np.atleast_2d(d)), L(cov)),
        'rem-cov': lambda L: U.rem_cov(L(env.np.atleast_2d(d)), L(cov)),
        'keep-cov': lambda L: U.cov_keep_vars(L(cov), 0),
        'inverse': lambda L: U.matrix_invert(L(cov)),
        'histogram': lambda L: [U.histogram(L(env.arr([2, 3, 1, 1])), L(env.arr([0, 1, 2, 4])), weights=L(env.arr([1, 2, 1, 3])), probability=p, density=q)
                                for p in (False, True) for q in (False, True)],
        'from_hist': lambda L: K.KDE.from_hist(lists(L), L(h), covariance=L(cov), **b).pdf(L(pts)) if _n(bins) > 1 else [1.0],
        'from_hist-default': lambda L: [x for k in [K.KDE.from_hist(edges(L), L(h), covariance=L(cov))] for x in (k.dataset, k.bandwidth, k.weights)],
        'sample': lambda L: K.sample.sample_grid(edges(L), L(I), 2),
        'sample-lists': lambda L: K.sample.sample_grid(lists(L), L(I), 2, interpolate=False),
        'sample-mass': lambda L: K.sample.sample_grid(edges(L), L(I), 2, mass=L(h)),
        'sample-scalar': lambda L: K.sample.sample_grid(edges(L), L(I), 2, scalar_dens=L(I)),
        'sample-scalar-mass': lambda L: K.sample.sample_grid(edges(L), L(I), 2, scalar_dens=L(I), scalar_mass=L(h)),
        'sample-portion': lambda L: K.sample.sample_grid_proportional(edges(L), L(I), L(I), 2),
        'sample-outliers': lambda L: K.sample.sample_outliers(edges(L), L(I), 3.5 if D < 3 else 7.5, mass=L(h)),
        'contour': lambda L: _contour(env, L, I, e) if D == 2 else [1.0],
        'outline': lambda L: _outline(env, L, e, h) if D == 1 else [1.0],
    }
    dr = Draws(env, 2)
    name = env.choice('of', sorted(ops)) if only is None else only
    dr.reset()
    x = _flat(env, ops[name](lambda a: a))
    dr.reset()
    y = _flat(env, ops[name](up))
    env.check('same-size', len(x) == len(y) and len(x) > 0)
    if len(x) == len(y):
        for p, r in zip(x, y):
            env.eq('same-as-reals', p, r, atol=1e-12)


def _contour(env, L, I, e):
    ax = Axes()
    env.kale.plot.draw_contour2d(ax, [L(env.arr(e[0][:4])), L(env.arr(e[1][:3]))], L(I), levels=[0.5, 1.5], pad=True)
    return _calls(env, [ax])


def _outline(env, L, e, h):
    ax = Axes()
    env.kale.plot.draw_hist1d(ax, L(env.arr(e[0][:3])), L(h))
    return _calls(env, [ax])


def h_alias(env, D, kernel, only=None):
    """the same array in two roles is as good as a copy of it"""
    env.merge()
    n = 3
    s = env.real('s', 0.0, 0.5)
    rows = [[env.num(abs(v)) + s for v in r[:n]] for r in X[:D]]
    data = env.np.array(rows[0] if D == 1 else rows)
    first = data if D == 1 else data[0]
    copy = lambda a: env.layout(a, 'C')
    cov = env.arr(COV[D])
    b = dict(bandwidth=env.num(0.5), covariance=cov, kernel=kernel)
    K, U = env.kale, env.utils
    w = env.arr([0.5, 2.0, 1.25])
    e = env.arr([0.0, 0.75, 3.0])
    V = env.np.reshape(env.np.array([env.num(v) + s for v in (2.0, 1.0, 3.0, 0.5, 1.5, 2.5, 0.25, 4.0, 1.25)]), (3, 3))
    edges = (lambda f: [f(e), f(e)]) if D == 2 else (lambda f: f(e))
    v = V if D == 2 else V[0]
    m = env.arr([[1.0, 2.0], [0.5, 1.5]]) if D == 2 else env.arr([1.0, 2.0])
    ops = {
        'points': lambda f: K.KDE(data, **b).density(f(data)),
        'weights': lambda f: K.KDE(data, weights=f(first), **b).pdf(f(data)),
        'resample-weights': lambda f: K.KDE(data, weights=f(first), **b).resample(2, keep=0),
        'functions': lambda f: [K.density(data, f(data), weights=f(first), **b), K.pdf(data, f(data), weights=f(first), **b)],
        'grid': lambda f: K.KDE(data, **b).density([f(first)] * D, grid=True),
        'own-data': lambda f: [k.density(f(k.dataset)) for k in [K.KDE(data, **b)]],
        'own-points': lambda f: [k.density(f(k.points) if D == 1 else [f(p) for p in k.points], grid=D > 1) for k in [K.KDE(data, points=f(e) if D == 1 else [f(e), f(e)], **b)]],
        'scalar': lambda f: K.sample.sample_grid(edges(f), v, 2, scalar_dens=f(v)),
        'portion': lambda f: K.sample.sample_grid_proportional(edges(f), v, f(v), 2),
        'scalar-mass': lambda f: K.sample.sample_grid(edges(f), v, 2, mass=m, scalar_mass=f(m)),
        'outliers': lambda f: K.sample.sample_outliers(edges(f), v, 1.75, mass=m),
        'centroids': lambda f: U.centroids(edges(f), v),
        'masses': lambda f: U.trapz_dens_to_mass(v, edges(f)),
        'integral': lambda f: U.trapz_nd(v, edges(f)),
        'from_hist': lambda f: K.KDE.from_hist(edges(f), m, covariance=cov).dataset,
        'quantiles': lambda f: U.quantiles(env.arr([0.5, 2.0, 1.25]), [0.3, 0.75], weights=f(env.arr([0.5, 2.0, 1.25]))),
        'same-quantiles': lambda f: (lambda a: U.quantiles(a, [0.3, 0.75], weights=f(a)))(env.arr([0.5, 2.0, 1.25])),
        'histogram': lambda f: (lambda a: U.histogram(a, f(e), weights=f(a)))(env.arr([0.5, 2.0, 1.25])),
        'cov': lambda f: U.add_cov(env.np.atleast_2d(cov), f(cov)),
        'uncov': lambda f: U.rem_cov(env.np.atleast_2d(cov), f(cov)),
    }
    d = Draws(env, n)
    name = env.choice('of', sorted(ops)) if only is None else only
    d.reset()
    y = _flat(env, ops[name](copy))
    d.reset()
    x = _flat(env, ops[name](lambda a: a))
    env.check('same-size', len(x) == len(y) and len(x) > 0)
    if len(x) == len(y):
        for p, q in zip(x, y):
            env.eq('same-as-a-copy', p, q, atol=1e-12)


SAMPLING = ['class', 'flat', 'mass', 'scalar', 'scalar-mass', 'scalar-both', 'portion', 'outliers', 'integer-outliers', 'integer', 'grid']
INTEGERS = ['density', 'pdf-reflect', 'weights', 'own', 'number', 'resample', 'resample-keep', 'resample-reflect', 'edges', 'own-edges', 'minmax', 'midpoints', 'log-midpoints', 'subdivide', 'bins', 'spacing', 'masses', 'masses-axis', 'integral', 'centroids', 'cumsum', 'cumtrapz', 'quantiles', 'iqr', 'add-cov', 'rem-cov', 'keep-cov', 'inverse', 'histogram', 'from_hist', 'from_hist-default', 'sample', 'sample-lists', 'sample-mass', 'sample-scalar', 'sample-scalar-mass', 'sample-portion', 'sample-outliers', 'contour', 'outline']


def cases(tier):
    q = tier == 'quick'
    out = []
    KS = ('gaussian', 'box') if q else ('gaussian', 'box', 'parabola', 'triweight')
    for k in KS:
        for D in (1, 2):
            for a in LAYOUTS:
                out.append(Case('estimate-%s-%d-%s' % (k, D, a), h_kde, dict(D=D, kernel=k, layouts=(a,)), opts=dict(fold_sqrt=True)))
            out.append(Case('alias-%s-%d' % (k, D), h_alias, dict(D=D, kernel=k), opts=dict(fold_sqrt=True)))
    for D in (1, 2, 3):
        for a in LAYOUTS:
            out.append(Case('helpers-%d-%s' % (D, a), h_utils, dict(D=D, layouts=(a,))))
        for a in SAMPLING:
            out.append(Case('sampling-%d-%s' % (D, a), h_grid, dict(D=D, only=a)))
        for a in INTEGERS:
            if (a == 'contour' and D != 2) or (a == 'outline' and D != 1):
                continue
            out.append(Case('integers-%d-%s' % (D, a), h_ints, dict(D=D, only=a), opts=dict(fold_sqrt=True)))
    for a in LAYOUTS:
        out.append(Case('plots-%s' % a, h_plot, dict(layouts=(a,)), opts=dict(fold_sqrt=True)))
    return out
