"""C27: asking does not change: every answer is the same whatever was asked before."""
from symx.run import Case
from props.axes import Axes

BOUNDS = "1-2 dimensions, 2-3 data points, histories of up to 2 (thorough: 3) requests of every kind before the one compared; data or weights, points, and the random draws symbolic"
OUTSIDE = "longer histories, modifying the returned or given arrays afterwards, rounding"

COV = {1: [[0.75]], 2: [[2.0, 0.5], [0.5, 1.0]]}
X = [[0.5, 1.5, -0.25], [0.125, -0.25, 1.25]]
P = [[-1.0, 0.25, 1.0, 2.5], [-1.0, 0.5, 2.0]]
REFL = {1: [[-1.5, None]], 2: [[-1.5, None], [-2.0, 2.5]]}


class Draws:
    """the same draws for each request"""

    def __init__(self, env, n):
        self.at = {}
        self.seen = {}
        z = [env.real('z%d' % i, 0.25, 3) for i in range(4)]
        u = [env.real('u%d' % i, 0.05 + 0.24 * i, 0.2 + 0.24 * i) for i in range(4)]
        b = [env.real('b%d' % i, 0.05, 0.95) for i in range(4)]
        env.set_rng(z=self.f('z', z), u=self.f('u', u), b=self.f('b', b), i=self.f('i', [0, n - 1, 0]), p=self.f('p', [2, 0, 1]))

    def f(self, kind, vals):
        def g(k):
            self.seen[kind] = k
            return vals[(k - self.at.get(kind, 0)) % len(vals)]
        return g

    def reset(self):
        self.at = {k: v + 1 for k, v in self.seen.items()}


def _flat(env, r):
    """nested results, as a list of scalars"""
    if isinstance(r, (list, tuple)):
        out = []
        for x in r:
            out += _flat(env, x)
        return out
    if r is None:
        return []
    return list(env.np.reshape(env.np.asarray(r), (-1,)))


class Args:
    def __init__(self, env, D, n, mode, kernel, reflect, points):
        self.env, self.D, self.n, self.kernel, self.reflect = env, D, n, kernel, reflect
        rows = [r[:n] for r in X[:D]]
        if mode == 'data':
            s = env.real('s', -0.5, 0.5)
            rows = [[env.num(v) + s for v in r] for r in rows]
            self.data = env.np.array(rows[0] if D == 1 else rows)
        else:
            self.data = env.arr(rows[0] if D == 1 else rows)
        self.w = None
        if mode == 'weights':
            self.w = env.np.array([env.real('w0', 0.5, 2.0)] + [env.num(v) for v in (1.5, 0.75)[:n - 1]])
        self.cov = env.arr(COV[D])
        self.pts = None
        if points:
            self.pts = env.arr(P[0]) if D == 1 else [env.arr(p) for p in P]
        x = [env.real('x%d' % i, -2, 3) for i in range(D)]
        self.x = env.np.array([x[0], env.num(0.75)] if D == 1 else [[x[0], env.num(0.75)], [x[1], env.num(-0.5)]])
        self.grid = [env.np.array([x[i], env.num(4.0)]) for i in range(D)]
        self.z = env.arr([0.3, 1.25] if D == 1 else [[0.3, 1.25], [-0.25, 0.75]])
        self.r2 = [[-3.0, 3.5]] + [None] * (D - 1)
        self.far = [[-20.0, 30.0]] + [None] * (D - 1)
        self.bins = [env.arr([-1.0, 0.0, 1.0, 3.0])] * D
        self.held = [self.data, self.w, self.cov, self.x, self.z] + self.grid + (self.pts if isinstance(self.pts, list) else [self.pts]) + self.bins
        self.snap = [None if h is None else env.snapshot(h) for h in self.held]

    def kde(self, **kw):
        k = dict(bandwidth=self.env.num(0.5), weights=self.w, covariance=self.cov, kernel=self.kernel, reflect=self.reflect, points=self.pts)
        k.update(kw)
        return self.env.kale.KDE(self.data, **k)

    def unchanged(self):
        for h, s in zip(self.held, self.snap):
            if h is not None:
                self.env.eq('given-not-modified', self.env.np.reshape(h, (-1,)), s)
        self.env.check('given-not-modified', self.r2 == [[-3.0, 3.5]] + [None] * (self.D - 1))
        self.env.check('given-not-modified', self.reflect is None or self.reflect == REFL[self.D])


def _ops(env, a):
    D = a.D
    ops = {
        'density': lambda k: k.density(a.x),
        'pdf': lambda k: k.pdf(a.x),
        'default': lambda k: k.pdf(),
        'grid': lambda k: k.density(a.grid, grid=True),
        'reflected': lambda k: k.density(a.x, reflect=a.r2),
        'not-reflected': lambda k: k.density(a.x, reflect=False),
        'auto-reflected': lambda k: k.density(a.x, reflect=True),
        'cdf': lambda k: k.cdf(a.z),
        'points': lambda k: k.points,
        'resample': lambda k: k.resample(2, reflect=False),
        'resample-keep': lambda k: k.resample(2, keep=0, reflect=False),
        'resample-all': lambda k: k.resample(3, keep=True, reflect=False, squeeze=False),
        'kernel': lambda k: k.kernel.density(env.np.atleast_2d(a.x), k.dataset, weights=a.w, reflect=a.r2),
        'kernel-resample': lambda k: k.kernel.resample(k.dataset, weights=a.w, size=2, keep=[0]),
        'histogram': lambda k: _draw(env, k, a, hist=True, density=False),
        'curve': lambda k: _draw(env, k, a, hist=False, density=True),
        'other': lambda k: _other(env, a),
        'scribble': lambda k: _scribble(k, a),
    }
    if D == 2:
        ops['param'] = lambda k: k.density(a.grid[1], params=1)
        ops['param-pdf'] = lambda k: k.pdf(a.grid[0], params=[0], reflect=[[-3.0, 3.5]])
        ops['swapped'] = lambda k: k.density(a.x, params=[1, 0])
        ops['param-default'] = lambda k: k.density(params=1)
        ops['curve'] = lambda k: _draw(env, k, a, hist=False, density=True, param=1)
        ops['resample-keep-reflect'] = lambda k: k.resample(1, keep=1, reflect=a.far)
    return ops


def _draw(env, k, a, **kw):
    ax = Axes()
    env.kale.plot.dist1d(k, ax=ax, edges=a.bins[0], color='k', confidence=False, carpet=False, **kw)
    out = []
    for c in ax.of('plot'):
        for v in c.args[:2]:
            v = v.data if hasattr(v, 'mask') else v
            out += [x for x in env.np.reshape(v, (-1,)) if not bool(env.isnan(x))]
    return out


def _scribble(k, a):
    """results belong to the caller"""
    k.density(a.x)[1][...] = 7.0
    k.pdf(a.x, reflect=a.r2)[1][...] = 7.0
    k.cdf(a.z)[...] = 7.0
    k.resample(2, keep=True, reflect=False)[...] = 7.0


def _other(env, a):
    """another estimate, of other data, kernel and boundaries"""
    d = env.arr([4.0, 5.5, 7.0] if a.D == 1 else [[4.0, 5.5, 7.0], [1.0, -2.0, 0.5]])
    k = env.kale.KDE(d, kernel='box' if a.kernel == 'gaussian' else 'gaussian', reflect=[[None, 9.0]] + [None] * (a.D - 1), bandwidth=1.5,
                     weights=env.arr([1.0, 2.0, 0.5]), points=env.arr([3.0, 5.0, 8.0]) if a.D == 1 else [env.arr([3.0, 5.0, 8.0]), env.arr([-3.0, 0.0, 2.0])])
    return [k.density(a.x), k.pdf(), k.cdf(a.z), k.points, k.extrema]


def _state(env, k):
    return [k.dataset, k.weights, k.covariance, k.bandwidth, k.kernel.matrix, k.kernel.matrix_inv, k.kernel.norm, k.neff, k.ndata, k.ndim,
            [[v for v in e] for e in k.extrema], k.points, [] if k.reflect is None else [[0.5 if v is None else v for v in ([None, None] if e is None else e)] for e in k.reflect]]


def h_history(env, D, n, first, mode, kernel, reflect=False, depth=1, points=True):
    env.merge()
    a = Args(env, D, n, mode, kernel, [list(r) for r in REFL[D]] if reflect else None, points)
    ops = _ops(env, a)
    d = Draws(env, n)
    old, new = a.kde(), a.kde()
    names = sorted(ops)
    hist = [first] + [env.choice('op%d' % i, names) for i in range(depth - 1)]
    for h in hist:
        d.reset()
        ops[h](old)
    last = env.choice('last', names)
    d.reset()
    x = _flat(env, ops[last](old))
    d.reset()
    y = _flat(env, ops[last](new))
    env.check('same-size', len(x) == len(y))
    if len(x) != len(y):
        return
    for p, q in zip(x, y):
        env.eq('same-answer', p, q)
    for label, p, q in zip(('dataset', 'weights', 'covariance', 'bandwidth', 'matrix', 'matrix-inverse', 'norm', 'neff', 'ndata', 'ndim', 'extrema', 'points', 'reflect'),
                           _state(env, old), _state(env, a.kde())):
        p, q = _flat(env, p), _flat(env, q)
        env.check(label + '-kept', len(p) == len(q))
        for u, v in zip(p, q):
            env.eq(label + '-kept', u, v)
    a.unchanged()


def h_function(env, D, n, mode, kernel):
    """the functions do not depend on what was asked before either"""
    env.merge()
    a = Args(env, D, n, mode, kernel, None, True)
    d = Draws(env, n)
    kw = dict(bandwidth=env.num(0.5), covariance=a.cov, kernel=kernel)
    ops = {
        'density': lambda: env.kale.density(a.data, a.x, weights=a.w, **kw),
        'reflected': lambda: env.kale.density(a.data, a.x, weights=a.w, reflect=[list(r) for r in REFL[D]], **kw),
        'pdf': lambda: env.kale.pdf(a.data, a.x, weights=a.w, **kw),
        'grid': lambda: env.kale.pdf(a.data, a.grid, weights=a.w, grid=True, **kw),
        'resample': lambda: env.kale.resample(a.data, size=2, weights=a.w, **kw),
        'keep': lambda: env.kale.resample(a.data, size=2, weights=a.w, keep=True, **kw),
    }
    names = sorted(ops)
    last = env.choice('last', names)
    d.reset()
    y = _flat(env, ops[last]())
    d.reset()
    ops[env.choice('before', names)]()
    d.reset()
    x = _flat(env, ops[last]())
    env.check('same-size', len(x) == len(y))
    for p, q in zip(x, y):
        env.eq('same-answer', p, q)
    a.unchanged()


def h_sampler(env, D, cls, first, scalar=False, depth=1):
    """samplers on a grid can be drawn from any number of times"""
    sh = (4,) if D == 1 else (3, 2)
    e = [env.arr([0.0, 1.0, 1.5, 3.5]), ] if D == 1 else [env.arr([0.0, 1.0, 3.0]), env.arr([-1.0, 0.5])]
    V = [2.0, 1.0, 3.0, 0.5] if D == 1 else [[2.0, 1.0], [3.0, 0.5], [1.5, 2.5]]
    t = env.real('t', 1.0, 1.25)
    dens = env.arr(V)
    mass = env.arr([2.0, 1.0, 4.0] if D == 1 else [[2.0], [4.0]])
    sc = env.np.array([env.num(v) + t for v in V] if D == 1 else [[env.num(v) + t for v in r] for r in V])
    held = e + [dens, mass, sc]
    snap = [env.snapshot(h) for h in held]
    kw = dict(mass=mass)
    if scalar:
        kw['scalar_dens'] = sc
    if cls == 'Sample_Outliers':
        kw['threshold'] = 3.0
    d = Draws(env, 3)

    def make():
        return getattr(env.sample, cls)(e if D > 1 else e[0], dens, **kw)
    if cls == 'Sample_Outliers':
        ops = {'plain': lambda s: s.sample(), 'flat': lambda s: s.sample(interpolate=False), 'inside': lambda s: s.sample(poisson_inside=True)}
    else:
        ops = {'two': lambda s: s.sample(2), 'flat': lambda s: s.sample(2, interpolate=False), 'default': lambda s: s.sample(), 'one': lambda s: s.sample(1)}
        if scalar:
            ops['without-scalar'] = lambda s: s.sample(2, return_scalar=False)
            ops['flat-without-scalar'] = lambda s: s.sample(3, interpolate=False, return_scalar=False)
    ops['grid'] = lambda s: s.grid
    names = sorted(ops)
    if first not in ops:
        first = names[0]
    old, new = make(), make()
    for h in [first] + [env.choice('op%d' % i, names) for i in range(depth - 1)]:
        d.reset()
        ops[h](old)
    last = env.choice('last', names)
    d.reset()
    x = _flat(env, ops[last](old))
    d.reset()
    y = _flat(env, ops[last](new))
    env.check('same-size', len(x) == len(y))
    for p, q in zip(x, y):
        env.eq('same-answer', p, q)
    for h, s in zip(held, snap):
        env.eq('given-not-modified', env.np.reshape(h, (-1,)), s)


def _panel(env, c):
    out = []
    for ax in c:
        for k in ax.calls:
            for v in k.args:
                if hasattr(v, 'shape'):
                    v = v.data if hasattr(v, 'mask') else v
                    out += [x for x in env.np.reshape(v, (-1,)) if not bool(env.isnan(x))]
            out.append(len(k.args) + 0.0)
        out.append(len(ax.calls) + 0.0)
    return out


CORNER = {
    'plot': lambda c, k, e, d1, d2: c.plot(k, edges=e, color='k', dist1d=d1, dist2d=d2),
    'plot_kde': lambda c, k, e, d1, d2: c.plot_kde(k, edges=e, color='k', dist1d=d1, dist2d=d2),
    'plot_data': lambda c, k, e, d1, d2: c.plot_data(k, edges=e, color='k', dist1d=d1, dist2d=d2),
    'hist': lambda c, k, e, d1, d2: c.hist(k, edges=e, color='k', dist1d=d1, dist2d=d2),
    'clean': lambda c, k, e, d1, d2: c.clean(k, edges=e, color='k', dist2d=dict(d2)),
    'plot-other': lambda c, k, e, d1, d2: c.plot(k, edges=[x + 0.5 for x in e], color='b', dist1d=dict(d1, hist=False), dist2d=dict(d2, scatter=False)),
}


def h_corner(env, D, first):
    """settings of one plot are not carried over to the next, and the given ones not modified"""
    from props.c30 import _axes, _kde, E
    env.merge()
    kde, w, ws = _kde(env, D, 3, False)
    t = env.real('t', 0.01, 0.05)
    e = [env.np.array([env.num(x) + t for x in v]) for v in E[:D]]
    d1 = dict(confidence=False, carpet=False, density=False)
    d2 = dict(contour=False, median=False, mask_dense=False, mask_below=False)
    o1, o2 = dict(d1), dict(d2)
    last = env.choice('last', sorted(CORNER))
    a, b, c = _axes(env, D), _axes(env, D), _axes(env, D)
    P = env.kale.plot
    CORNER[last](P.Corner(kde, axes=b), kde, e, dict(d1), dict(d2))
    CORNER[first](P.Corner(kde, axes=a), kde, e, d1, d2)
    env.check('settings-not-modified', d1 == o1 and d2 == o2)
    CORNER[last](P.Corner(kde, axes=c), kde, e, d1, d2)
    x, y = _panel(env, c.ravel()), _panel(env, b.ravel())
    env.check('same-number-of-calls', len(x) == len(y))
    if len(x) == len(y):
        for p, q in zip(x, y):
            env.eq('same-drawn', p, q)


def cases(tier):
    q = tier == 'quick'
    out = []
    N1 = ['density', 'pdf', 'default', 'grid', 'reflected', 'not-reflected', 'auto-reflected', 'cdf', 'points', 'resample', 'resample-keep', 'resample-all',
          'kernel', 'kernel-resample', 'histogram', 'curve', 'other', 'scribble']
    N2 = N1 + ['param', 'param-pdf', 'swapped', 'param-default', 'resample-keep-reflect']
    QUICK = [('gaussian', 1, 'weights', False), ('gaussian', 1, 'data', True), ('gaussian', 2, 'weights', True), ('gaussian', 2, 'data', False),
             ('box', 1, 'data', False), ('box', 2, 'weights', False)]
    for k in ('gaussian', 'box', 'parabola', 'triweight'):
        for D, names in ((1, N1), (2, N2)):
            for mode in ('weights', 'data'):
                for refl in (False, True):
                    if q and (k, D, mode, refl) not in QUICK:
                        continue
                    for f in names:
                        out.append(Case('history-%s-%d-%s-%s-%s' % (k, D, mode, refl, f), h_history, dict(D=D, n=2, first=f, mode=mode, kernel=k, reflect=refl), opts=dict(fold_sqrt=True)))
                        if not q and k in ('gaussian', 'box'):
                            out.append(Case('history2-%s-%d-%s-%s-%s' % (k, D, mode, refl, f), h_history, dict(D=D, n=2, first=f, mode=mode, kernel=k, reflect=refl, depth=2), opts=dict(fold_sqrt=True), weight=4))
    # the automatic evaluation points
    for D, names in ((1, ['points', 'default', 'cdf', 'reflected', 'auto-reflected', 'density']), (2, ['points', 'default', 'param-default', 'reflected'])):
        for refl in (False, True):
            if D == 2 and q:
                continue
            for f in names:
                out.append(Case('automatic-%d-%s-%s' % (D, refl, f), h_history, dict(D=D, n=3, first=f, mode='fixed', kernel='gaussian', reflect=refl, points=False), opts=dict(fold_sqrt=True)))
    for k in ('gaussian', 'box'):
        for D in (1, 2):
            for mode in ('weights', 'data'):
                out.append(Case('function-%s-%d-%s' % (k, D, mode), h_function, dict(D=D, n=2, mode=mode, kernel=k), opts=dict(fold_sqrt=True), weight=2))
    for D in (1, 2):
        for f in ('two', 'flat', 'default', 'one', 'grid'):
            out.append(Case('grid-%d-%s' % (D, f), h_sampler, dict(D=D, cls='Sample_Grid', first=f, depth=1 if q else 2)))
        for f in ('two', 'flat', 'default', 'one', 'grid', 'without-scalar', 'flat-without-scalar'):
            out.append(Case('grid-scalar-%d-%s' % (D, f), h_sampler, dict(D=D, cls='Sample_Grid', first=f, scalar=True, depth=1 if q else 2)))
        for f in ('plain', 'flat', 'inside', 'grid'):
            out.append(Case('outliers-%d-%s' % (D, f), h_sampler, dict(D=D, cls='Sample_Outliers', first=f, depth=1 if q else 2)))
    for D in (2, 3):
        for f in sorted(CORNER):
            out.append(Case('corner-%d-%s' % (D, f), h_corner, dict(D=D, first=f), opts=dict(fold_sqrt=True), weight=2))
    return out
