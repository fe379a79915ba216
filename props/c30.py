"""C30: two-dimensional and corner plots: which parameter is drawn where, of what data and weights."""
import itertools

from symx.run import Case
from props import ref
from props.axes import Axes, masked

BOUNDS = "2-3 parameters, 3-4 data points (at fixed places in or out of the cells of given edges), 2x2 cells; weights, targets, limits symbolic; the calls made to the axes are observed"
OUTSIDE = "larger data sets, colours and styles, layout of the panels, masking of dense regions, rounding"

X = [[0.5, 1.5, 0.25, 1.75], [0.125, 0.25, 1.25, 1.875], [3.0, 2.25, 2.5, 3.75]]
E = [[0.0, 1.0, 2.0], [0.0, 1.0, 2.0], [2.0, 2.75, 4.0]]


def _cells(ws, a, b, pa, pb, n):
    """weighted density of a pair of parameters, in the cells of their edges"""
    tot = ref.tot(ws)
    ea, eb = E[pa], E[pb]
    out = {}
    for i in range(2):
        for j in range(2):
            s = [ws[k] for k in range(n) if ea[i] <= a[k] and (a[k] < ea[i + 1] or i == 1 and a[k] == ea[2])
                 and eb[j] <= b[k] and (b[k] < eb[j + 1] or j == 1 and b[k] == eb[2])]
            out[i, j] = (ref.tot(s) if s else 0.0) / tot / ((ea[i + 1] - ea[i]) * (eb[j + 1] - eb[j]))
    return out


def _median(env, x, ws, weighted):
    """weighted median as in C19: each value at the middle of its weight, linear in between"""
    n = len(x)
    o = sorted(range(n), key=lambda i: x[i])
    s = [x[i] for i in o]
    if not weighted:
        return env.num((s[(n - 1) // 2] + s[n // 2]) / 2)
    tot = ref.tot(ws)
    c, t = [], env.num(0.0)
    for i in o:
        c.append(t + ws[i] / 2)
        t = t + ws[i]
    f = tot / 2
    r = env.num(s[0])
    for i in range(n - 1):
        r = r + env.ite(f <= c[i], env.num(0.0), env.ite(f >= c[i + 1], env.num(s[i + 1] - s[i]), (f - c[i]) / (c[i + 1] - c[i]) * (s[i + 1] - s[i])))
    return r


def _mesh(env, call, want, pa, pb, label='hist', mask=None):
    """pcolormesh(x edges, y edges, values with the rows along y)"""
    ex, ey, H = call.args[:3]
    env.eq(label + '-edges-x', ex, env.arr(E[pa]))
    env.eq(label + '-edges-y', ey, env.arr(E[pb]))
    v, m = masked(env, H)
    env.check(label + '-shape', tuple(H.shape) == (2, 2))
    for i in range(2):
        for j in range(2):
            w = want[i, j]
            k = j * 2 + i
            if bool(m[k]):
                env.check(label + '-masked', mask is not None)
                if mask is not None:
                    env.le(label + '-masked', w, mask + 1e-9)
            else:
                env.eq(label, v[k], w, rtol=1e-7, atol=1e-9)
                if mask is not None:
                    env.le(label + '-shown', mask - 1e-9, w)


def _kde(env, D, n, weighted, order=None, kernel='gaussian', bandwidth=0.5):
    w = None
    if weighted == 'one':
        w = env.np.array([env.real('w', 0.95, 1.05), env.num(2.5), env.num(0.5), env.num(1.5)][:n])
    elif weighted:
        w = env.vec('w', n, 0.1, 10)
    rows = [X[i][:n] for i in (order or range(D))]
    cov = [[1.0 if i == j else 0.25 for j in range(D)] for i in range(D)]
    k = dict(weights=w) if weighted else {}
    return env.kale.KDE(env.arr(rows), bandwidth=bandwidth, covariance=env.arr(cov), kernel=kernel, **k), w, ([env.num(1.0)] * n if w is None else list(w))


def h_dist(env, n, source, params, weighted, hist=True, scatter=True, median=True, mask=False, edges='array'):
    """the elements asked for, of the parameters asked for in their order, with the weights"""
    env.merge()
    D = 3 if source == 'kde3' else 2
    kde, w, ws = _kde(env, D, n, weighted)
    p = params or [0, 1]
    a, b = X[p[0]][:n], X[p[1]][:n]
    kw = dict(hist=hist, scatter=scatter, median=median, contour=False, mask_dense=False, mask_below=False, outline=False)
    if params is not None:
        kw['params'] = params
    if mask:
        kw['mask_below'] = env.pos('m', hi=2) if mask == 'sym' else mask
    ax = Axes()
    arg = kde
    if source == 'data':
        arg = env.arr([a, b])
        kw.pop('params', None)
        if weighted:
            kw['weights'] = w
    ed = [E[p[0]], E[p[1]]]
    ed = [env.arr(v) for v in ed] if edges == 'array' else ed
    env.kale.plot.dist2d(arg, ax=ax, edges=ed, color='k', **kw)
    s = ax.of('scatter')
    env.check('scatter', len(s) == (1 if scatter else 0))
    if s:
        xs, ys = [list(env.np.reshape(v, (-1,))) for v in s[0].args[:2]]
        k = n if scatter is True or scatter >= n else scatter
        env.check('scatter-number', len(xs) == len(ys) == k)
        if k == n:
            env.eq('scatter-x', env.np.array(xs), env.arr(a))
            env.eq('scatter-y', env.np.array(ys), env.arr(b))
        else:
            pairs = [(float(u), float(v)) for u, v in zip(xs, ys)]
            env.check('scatter-points', len(set(pairs)) == k and all(q in list(zip(a, b)) for q in pairs))
    for name, v in (('axvline', a), ('axhline', b)):
        c = ax.of(name)
        env.check(name, len(c) == (1 if median else 0))
        if c:
            env.eq(name, c[0].args[0], _median(env, v, ws, weighted), rtol=1e-7, atol=1e-7)
    m = ax.of('pcolormesh')
    env.check('mesh', len(m) == (1 if hist else 0))
    if m:
        _mesh(env, m[0], _cells(ws, a, b, p[0], p[1], n), p[0], p[1], mask=kw['mask_below'] or None)
    env.check('nothing-else', len([q for q in ax.calls if q.name != 'grid']) == len(s) + len(m) + (2 if median else 0))


def h_hist2d(env, n, weighted, edges='array'):
    env.merge()
    w = env.vec('w', n, 0.1, 10) if weighted else None
    ws = [env.num(1.0)] * n if w is None else list(w)
    ax = Axes()
    kw = {} if w is None else dict(weights=w)
    ed = [env.arr(v) for v in E[:2]] if edges == 'array' else E[:2]
    e, h, _ = env.kale.plot.hist2d(env.arr([X[0][:n], X[1][:n]]), edges=ed, ax=ax, **kw)
    want = _cells(ws, X[0][:n], X[1][:n], 0, 1, n)
    m = ax.of('pcolormesh')
    env.check('mesh', len(m) == 1 and len(ax.calls) == 1)
    _mesh(env, m[0], want, 0, 1)
    for i in range(2):
        env.eq('edges', e[i], env.arr(E[i]))
        for j in range(2):
            env.eq('values', h[i, j], want[i, j], rtol=1e-7, atol=1e-9)


def h_mask(env, n, weighted, scale, mask=True):
    """cells with less than the average weight of a point (without weights: empty ones) are left out, whatever their size"""
    env.merge()
    w = env.vec('w', n, 0.1, 10) if weighted else None
    ws = [env.num(1.0)] * n if w is None else list(w)
    s = env.num(scale)
    ax = Axes()
    kw = {} if w is None else dict(weights=w)
    e = [env.np.array([v * s for v in env.arr(E[d])]) for d in range(2)]
    x = [env.np.array([v * s for v in env.arr(X[d][:n])]) for d in range(2)]
    ave = ref.tot(ws) / n
    want = _cells(ws, X[0][:n], X[1][:n], 0, 1, n)
    if w is not None:
        for k, v in want.items():
            # not within the margin of the average weight, or about zero
            m = v * ref.tot(ws)
            env.assume(env.Or(m <= ave * 0.8, m >= ave * 1.05))
    m = mask if mask is True else env.num(mask)
    env.kale.plot.hist2d(env.np.array(x), edges=e, ax=ax, mask_below=m, **kw)
    c = ax.of('pcolormesh')
    env.check('mesh', len(c) == 1 and len(ax.calls) == 1)
    v, o = masked(env, c[0].args[2])
    for i in range(2):
        for j in range(2):
            k = j * 2 + i
            d = want[i, j]
            if mask is True:
                low = d * ref.tot(ws) < ave * 0.9
            else:
                low = d / (s * s) <= m
            env.check('left-out' if bool(o[k]) else 'shown', low if bool(o[k]) else env.Not(low))
            if not bool(o[k]):
                env.eq('value', v[k], d / (s * s), rtol=1e-7, atol=1e-12)


def h_contour(env, source, params, weighted, pad=False):
    """contours are those of the density of the estimate in these parameters, on its own points"""
    D = 3 if source == 'kde3' else 2
    n = 3
    s = env.real('s', 0.5, 2)
    w = env.np.array([s * v for v in (1.0, 2.5, 0.5)]) if weighted else None
    cov = env.arr([[1.0 if i == j else 0.25 for j in range(D)] for i in range(D)])
    k = dict(weights=w) if weighted else {}
    kde = env.kale.KDE(env.arr([X[i][:n] for i in range(D)]), bandwidth=2.0, covariance=cov, kernel='box', **k)
    p = params or [0, 1]
    kw = dict(params=params) if params is not None else {}
    ax = Axes()
    env.kale.plot.dist2d(kde, ax=ax, color='k', quantiles=[0.4], hist=False, scatter=True, median=False, mask_dense=False, contour=True, outline=False, pad=pad, **kw)
    c = ax.of('contour')
    env.check('one-contour', len(c) == 1)
    pts, dens = kde.density(params=p)
    A, B, Z = c[0].args[:3]
    sh = tuple(int(env.np.size(q)) for q in pts)
    env.check('shape', tuple(env.np.shape(A)) == tuple(env.np.shape(B)) == tuple(env.np.shape(Z)) == sh)
    if tuple(env.np.shape(Z)) != sh:
        return
    for i in range(sh[0]):
        for j in range(sh[1]):
            env.eq('position', A[i, j], pts[0][i])
            env.eq('position', B[i, j], pts[1][j])
            env.eq('density', Z[i, j], dens[i, j], rtol=1e-7, atol=1e-9)
    env.check('level', int(env.np.size(c[0].kw['levels'])) == 1)


def _axes(env, D):
    import numpy
    r = numpy.empty((D, D), dtype=object)
    for i in range(D):
        for j in range(D):
            r[i, j] = Axes('%d%d' % (i, j))
    return r


def h_corner(env, D, n, how, weighted, rotate=True, source='kde', origin=None, twice=False):
    """each diagonal panel shows its own parameter, the one in row i and column j parameter j along x and i along y"""
    env.merge()
    kde, w, ws = _kde(env, D, n, weighted)
    ax = _axes(env, D)
    kw = dict(axes=ax, rotate=rotate)
    wk = {}
    arg = kde
    if source == 'data':
        arg = env.arr([X[i][:n] for i in range(D)])
        if weighted:
            wk['weights'] = w
    if source == 'later':
        c = env.kale.plot.Corner(D, **kw)
    else:
        c = env.kale.plot.Corner(arg, **kw, **wk)
        wk = {}
    ed = [env.arr(v) for v in E[:D]]
    d1 = dict(carpet=True, hist=True, density=False, confidence=False)
    d2 = dict(hist=True, scatter=True, median=True, contour=False, mask_dense=False, mask_below=False, outline=False)
    k = dict(edges=ed, color='k', dist1d=d1, dist2d=d2, quantiles=[0.4])
    h1, h2 = dict(d1), dict(d2)
    a = (arg,) if source == 'later' else ()
    if how == 'hist':
        d1 = k['dist1d'] = dict(carpet=True)
        d2 = k['dist2d'] = dict(scatter=True, outline=False)
        h1, h2 = dict(d1), dict(d2)
    getattr(c, how)(*a, **k)
    env.check('settings-not-modified', d1 == h1 and d2 == h2)
    tot = ref.tot(ws)
    for i in range(D):
        for j in range(D):
            x = ax[i, j]
            env.check('upper-hidden', x.visible == (j <= i))
            if j > i:
                env.check('upper-empty', not x.calls)
                continue
            if how == 'hist':
                env.check('only-histograms', not x.of('axvspan', 'axhspan', 'fill_between', 'fill_betweenx', 'contour', 'contourf'))
            if i == j:
                rot = rotate and i == D - 1
                p = x.of('plot')
                env.check('outline', len(p) == 1)
                s = x.of('scatter')
                env.check('carpet', len(s) == 1)
                env.eq('carpet', s[0].args[1 if rot else 0], env.arr(X[i][:n]))
                u, v = p[0].args[:2]
                if rot:
                    u, v = v, u
                u, _ = masked(env, u)
                v, _ = masked(env, v)
                env.check('outline-points', len(u) == len(v) == 4)
                for q in range(2):
                    t = [ws[m] for m in range(n) if E[i][q] <= X[i][m] < E[i][q + 1]]
                    for z in range(2):
                        env.eq('outline-edge', u[2 * q + z], E[i][q + z])
                        env.eq('outline-height', v[2 * q + z], (ref.tot(t) if t else env.num(0.0)) / tot / (E[i][q + 1] - E[i][q]), rtol=1e-7, atol=1e-9)
            else:
                s = x.of('scatter')
                env.check('scatter', len(s) == 1)
                env.eq('scatter-x', s[0].args[0], env.arr(X[j][:n]))
                env.eq('scatter-y', s[0].args[1], env.arr(X[i][:n]))
                m = x.of('pcolormesh')
                env.check('mesh', len(m) == 1)
                _mesh(env, m[0], _cells(ws, X[j][:n], X[i][:n], j, i, n), j, i)
                for name, q in (('axvline', j), ('axhline', i)):
                    l = x.of(name)
                    env.check(name, len(l) == 1)
                    env.eq(name, l[0].args[0], _median(env, X[q][:n], ws, weighted), rtol=1e-7, atol=1e-7)


def h_density(env, D, n, weighted, how, rotate=True):
    """diagonal panels show the probability density of their own parameter"""
    env.merge()
    kde, w, ws = _kde(env, D, n, weighted)
    ax = _axes(env, D)
    c = env.kale.plot.Corner(kde, axes=ax, rotate=rotate)
    ed = [env.arr(v) for v in E[:D]]
    k = dict(edges=ed, color='k')
    if how == 'plot_kde':
        k.update(dist1d=dict(confidence=False), dist2d=dict(contour=False, median=False, scatter=True))
    elif how == 'plot':
        k.update(dist1d=dict(confidence=False, carpet=False), dist2d=dict(contour=False, median=False, mask_dense=False, mask_below=False))
    else:
        k.update(dist2d=dict(contour=False, median=False))
    getattr(c, how)(**k)
    for i in range(D):
        p = ax[i, i].of('plot')
        env.check('line', len(p) == 1)
        a, b = p[0].args[:2]
        if rotate and i == D - 1:
            a, b = b, a
        M = [[env.num(0.25)]]
        want = ref.density(env, 'gaussian', [[env.num(v) for v in X[i][:n]]], [[env.num(v) for v in E[i]]], M, ws)
        env.eq('points', a, env.arr(E[i]))
        for q in range(3):
            env.eq('density', b[q] * ref.tot(ws), want[q], rtol=1e-7, atol=1e-9)


def h_quantiles(env, D, n, how, q, weighted, what):
    """the fractions asked for are those of the panels: what is drawn in each is the same as drawn of its parameters alone with these fractions"""
    env.merge()
    kde, w, ws = _kde(env, D, n, weighted, kernel='box', bandwidth=2.0 if what == 'contour' else 0.5)
    if what == 'confidence':
        d1 = dict(hist=False, carpet=False, density=False, confidence=True)
        d2 = dict(hist=False, scatter=True, median=False, contour=False, mask_dense=False)
    else:
        d1 = dict(hist=True, carpet=False, density=False, confidence=False)
        d2 = dict(hist=what == 'hist', scatter=True, median=False, contour=what == 'contour', mask_dense=False, mask_below=True, outline=False)
    ax = _axes(env, D)
    c = env.kale.plot.Corner(kde, axes=ax, rotate=False)
    ed = [env.arr(v) for v in E[:D]]
    getattr(c, how)(edges=ed, color='k', quantiles=list(q), dist1d=dict(d1), dist2d=dict(d2))
    name, alone = dict(hist=('pcolormesh', 2), contour=('contour', 2), confidence=('axvspan', 1))[what]
    for i in range(D):
        for j in range(i + 1):
            if (alone == 1) != (i == j):
                continue
            x = Axes()
            if alone == 1:
                env.kale.plot.dist1d(kde, ax=x, edges=ed[i], color='k', param=i, quantiles=list(q), **d1)
            else:
                env.kale.plot.dist2d(kde, ax=x, edges=[ed[j], ed[i]], color='k', params=[j, i], quantiles=list(q), **d2)
            a, b = ax[i, j].of(name), x.of(name)
            env.check('same-number', len(a) == len(b) and len(a) > 0)
            for u, v in zip(a, b):
                if what == 'contour':
                    env.eq('levels', env.np.reshape(u.kw['levels'], (-1,)), env.np.reshape(v.kw['levels'], (-1,)))
                elif what == 'hist':
                    (p, m), (r, o) = masked(env, u.args[2]), masked(env, v.args[2])
                    env.check('masked', [bool(t) for t in m] == [bool(t) for t in o])
                    for t, z, k in zip(p, r, o):
                        if not bool(k):
                            env.eq('values', t, z)
                else:
                    for t, z in zip(u.args[:2], v.args[:2]):
                        env.eq('interval', t, z)


def h_target(env, D, rotate=True, none=()):
    """lines at the targets and the allowed ranges shaded, in every panel along the axis of its parameter"""
    env.merge()
    ax = _axes(env, D)
    lim = [[env.real('l%d' % i, -5, -1), env.real('h%d' % i, 1, 5)] for i in range(D)]
    c = env.kale.plot.Corner(D, axes=ax, rotate=rotate, limits=lim)
    t = [None if ('t', i) in none else env.real('t%d' % i, -1, 1) for i in range(D)]
    u = [None if ('u', i) in none else env.real('u%d' % i, -1, 1) for i in range(D)]
    b = [None if ('b', i) in none else env.real('b%d' % i, -1, 1) for i in range(D)]
    kw = {}
    if any(v is not None for v in u):
        kw['upper_limits'] = u
    if any(v is not None for v in b):
        kw['lower_limits'] = b
    c.target(t, **kw)
    for i in range(D):
        for j in range(D):
            x = ax[i, j]
            if j > i:
                env.check('upper-empty', not x.calls)
                continue
            if i == j:
                sides = [('h' if rotate and i == D - 1 else 'v', i)]
                q = x.lims['y' if rotate and i == D - 1 else 'x']
                env.eq('limits', env.np.array(list(q)), env.np.array(lim[i]))
            else:
                sides = [('v', j), ('h', i)]
                env.eq('limits', env.np.array(list(x.lims['x'])), env.np.array(lim[j]))
                env.eq('limits', env.np.array(list(x.lims['y'])), env.np.array(lim[i]))
            total = 0
            for s, k in sides:
                l = x.of('ax%sline' % s)
                env.check('lines', len(l) == (t[k] is not None))
                if l:
                    env.eq('target', l[0].args[0], t[k])
                sp = x.of('ax%sspan' % s)
                want = []
                if u[k] is not None:
                    want.append((lim[k][0], u[k]))
                if b[k] is not None:
                    want.append((b[k], lim[k][1]))
                env.check('spans', len(sp) == len(want))
                total += len(sp) + len(l)
                if len(sp) == len(want):
                    env.check('shaded', env.Or(*[env.And(*[env.And(p.args[0] == q[0], p.args[1] == q[1]) for p, q in zip(sp, o)])
                                                 for o in itertools.permutations(want)]))
            env.check('nothing-else', len([q for q in x.calls if q.name != 'grid']) == total)


def h_limits(env, D, how, n=3):
    """without given limits the panels show the range of the data (edges) and a tenth more of its half on each side; all calls together"""
    env.merge()
    data = [[env.real('x%d_%d' % (d, i), -5, 5) for i in range(n)] for d in range(D)] if how == 'plot_data' else None
    ax = _axes(env, D)
    c = env.kale.plot.Corner(D, axes=ax)
    d2 = dict(hist=False, contour=False, scatter=True, median=False, mask_dense=False, mask_below=False)
    d1 = dict(hist=False, density=False, confidence=False, carpet=True)
    rng = [[env.num(-1.0), env.num(3.0)], [env.num(0.0), env.num(2.0)]][:D]
    if how == 'plot_data':
        fixed = [[-1.0, 0.5, 3.0], [0.0, 2.0, 1.5]]
        sets = [env.arr(fixed[:D])]
        o = env.real('o', -10, 10)
        sets.append(env.np.array([[env.num(v) + (o if d == 0 else env.num(0.0)) for v in fixed[d]] for d in range(D)]))
        lim = []
        for d in range(D):
            lo, hi = env.num(min(fixed[d])), env.num(max(fixed[d]))
            r = (hi - lo) / 2 * 0.1
            lo, hi = lo - r, hi + r
            if d == 0:
                lo, hi = env.min(lo, lo + o), env.max(hi, hi + o)
            lim.append((lo, hi))
        for s in sets:
            c.plot_data(s, edges=[env.arr([-20.0, 0.0, 20.0])] * D, color='k', dist1d=dict(d1), dist2d=dict(d2))
    else:
        # estimates: the range of the edges
        fixed = [[-1.0, 0.5, 3.0], [0.0, 2.0, 1.5]]
        kd = env.kale.KDE(env.arr(fixed[:D]), bandwidth=1.0, covariance=env.arr([[1.0, 0.2], [0.2, 1.0]]))
        lo, hi, o = env.num(-10.0), env.num(12.0), env.real('o', -10, 10)
        e = [[lo, env.num(0.0), hi], [env.num(-4.0), env.num(1.0), env.num(6.0)]]
        sets = [e, [[v + o for v in e[0]], e[1]]]
        lim = []
        for d in range(D):
            a, b = e[d][0], e[d][-1]
            r = (b - a) / 2 * 0.1
            a, b = a - r, b + r
            if d == 0:
                a, b = env.min(a, a + o), env.max(b, b + o)
            lim.append((a, b))
        for q in sets:
            getattr(c, how)(kd, edges=[env.np.array(v) for v in q], color='k', dist1d=dict(d1), dist2d=dict(d2))
    for i in range(D):
        for j in range(i + 1):
            x = ax[i, j]
            if i == j:
                q = x.lims['y' if i == D - 1 else 'x']
                env.eq('range', env.np.array(list(q)), env.np.array(list(lim[i])), rtol=1e-7, atol=1e-9)
            else:
                env.eq('range', env.np.array(list(x.lims['x'])), env.np.array(list(lim[j])), rtol=1e-7, atol=1e-9)
                env.eq('range', env.np.array(list(x.lims['y'])), env.np.array(list(lim[i])), rtol=1e-7, atol=1e-9)


def h_given(env, D, form, limit, call='plot_data'):
    """given limits hold unless asked otherwise, when they are widened; the caller's own are left alone"""
    env.merge()
    ax = _axes(env, D)
    if form == 'shared':
        given = [env.real('lo', -3, 0), env.real('hi', 1, 3)]
        want = [given] * D
    else:
        given = [[env.real('lo%d' % d, -3, 0), env.real('hi%d' % d, 1, 3)] for d in range(D)]
        want = given
        if form == 'tuples':
            given = tuple(tuple(v) for v in given)
    before = list(given)
    c = env.kale.plot.Corner(D, axes=ax, limits=given)
    fixed = [[-1.0, 0.5, 2.0], [-0.5, 2.0, 1.5], [0.0, 0.5, 0.75]][:D]
    d2 = dict(hist=False, contour=False, scatter=True, median=False, mask_dense=False, mask_below=False)
    d1 = dict(hist=False, density=False, confidence=False, carpet=True)
    e = [env.arr([-4.0, 0.0, 4.0])] * D
    kw = {} if limit is None else dict(limit=limit)
    c.plot_data(env.arr(fixed), edges=e, color='k', dist1d=dict(d1), dist2d=dict(d2), **kw)
    lim = []
    for d in range(D):
        lo, hi = want[d]
        if limit:
            a, b = env.num(min(fixed[d])), env.num(max(fixed[d]))
            r = (b - a) / 2 * 0.1
            lo, hi = env.min(lo, a - r), env.max(hi, b + r)
        lim.append((lo, hi))
    for i in range(D):
        for j in range(i + 1):
            x = ax[i, j]
            q = [('y' if i == D - 1 else 'x', i)] if i == j else [('x', j), ('y', i)]
            for k, d in q:
                env.eq('range', env.np.array(list(x.lims[k])), env.np.array(list(lim[d])), rtol=1e-7, atol=1e-9)
    env.check('argument-unchanged', len(given) == len(before) and all(a is b for a, b in zip(given, before)))


def h_labels(env, D, rotate, origin=None):
    """labels and ticks stand at the axes of their own parameters"""
    env.merge()
    ax = _axes(env, D)
    labels = ['p%d' % d for d in range(D)]
    ticks = [[env.real('t%d_%d' % (d, k)) for k in range(2)] if d != 1 else None for d in range(D)]
    kw = {} if origin is None else dict(origin=origin)
    env.kale.plot.Corner(D, axes=ax, labels=list(labels), ticks=ticks, rotate=rotate, **kw)
    for i in range(D):
        for j in range(D):
            x = ax[i, j]
            if j > i:
                env.check('unused', not x.visible)
                continue
            env.check('used', x.visible)
            turned = rotate and i == j == D - 1
            own = dict(x=j, y=i) if i != j else dict(x=j, y=None) if not turned else dict(x=None, y=j)
            for k in 'xy':
                d = own[k]
                t = x.labels.get(k) or ''
                env.check('label', t in ('',) + ((labels[d],) if d is not None else ()))
                if (k == 'x' and i == D - 1 and not turned) or (k == 'y' and j == 0 and i > 0 and i != j):
                    env.check('label', t == labels[d])
                t = x.ticks.get(k)
                if d is None or ticks[d] is None:
                    env.check('no-ticks', t is None)
                else:
                    env.eq('ticks', env.np.array(list(t)), env.np.array(ticks[d]))


class _Box:
    def __init__(self, x0, y0):
        self.x0, self.y0 = x0, y0


class _Figure:
    transFigure = 'figure'

    def __init__(self):
        self.legends = []

    def legend(self, *a, **k):
        self.legends.append((a, k))
        return 'legend'


def h_legend(env, D, bbox=None, loc=None, index=None):
    """the legend holds the given entries, where asked for, otherwise at an unused panel"""
    env.merge()
    ax = _axes(env, D)
    fig = _Figure()
    pos = {}
    for i in range(D):
        for j in range(D):
            pos[i, j] = (env.real('x%d%d' % (i, j), 0, 1), env.real('y%d%d' % (i, j), 0, 1))
            ax[i, j].figure = fig
            ax[i, j].get_position = lambda original=False, b=_Box(*pos[i, j]): b
    c = env.kale.plot.Corner(D, axes=ax)
    kw = {}
    at = (env.real('u', 0, 1), env.real('v', 0, 1))
    if bbox:
        kw[bbox] = at
    if loc:
        kw['loc'] = loc
    if index is not None:
        kw['index'] = index
    h, l = ['h0', 'h1'], ['a', 'b']
    r = c.legend(h, l, ncol=2, **kw)
    env.check('one', r == 'legend' and len(fig.legends) == 1)
    a, k = fig.legends[0]
    a = list(a) + [k[n] for n in ('handles', 'labels') if n in k]
    env.check('entries', len(a) == 2 and list(a[0]) == h and list(a[1]) == l and k.get('ncol') == 2)
    got = list(k['bbox_to_anchor'])
    if loc:
        env.check('location', k.get('loc') == loc)
    if bbox or index is not None:
        w = at if bbox else pos[index]
        env.eq('position', got[0], w[0])
        env.eq('position', got[1], w[1])
    else:
        unused = [p for p in pos if p[1] > p[0]] or [(0, 0)]
        env.one_of('position', [lambda p=p: env.And(got[0] <= pos[p][0], got[0] >= pos[p][0], got[1] <= pos[p][1], got[1] >= pos[p][1]) for p in unused])


def h_bad(env):
    P = env.kale.plot
    d2 = env.arr([X[0][:3], X[1][:3]])
    k2 = env.kale.KDE(d2)
    w = env.arr([1.0, 2.0, 3.0])
    env.raises('weights-of-a-kde', lambda: P.dist2d(k2, ax=Axes(), color='k', weights=w), (ValueError,))
    env.raises('weights-of-a-kde', lambda: P.Corner(k2, axes=_axes(env, 2), weights=w), (ValueError,))
    env.raises('params', lambda: P.dist2d(k2, ax=Axes(), color='k', params=[0]), (ValueError,))
    env.raises('scatter', lambda: P.dist2d(k2, ax=Axes(), color='k', scatter=-1), (ValueError,))
    env.raises('size', lambda: P.Corner(2.5, axes=_axes(env, 2)), (ValueError,))
    env.raises('origin', lambda: P.Corner(2, axes=_axes(env, 2), origin='xx'), (ValueError,))
    env.raises('nothing', lambda: P.Corner(2, axes=_axes(env, 2)).plot(), (ValueError,))
    env.raises('nothing', lambda: P.Corner(2, axes=_axes(env, 2)).hist(), (ValueError,))
    env.raises('nothing', lambda: P.Corner(2, axes=_axes(env, 2)).clean(), (ValueError,))
    env.raises('dimensions', lambda: P.Corner(3, axes=_axes(env, 3)).plot_data(d2), (ValueError,))
    env.raises('dimensions', lambda: P.Corner(3, axes=_axes(env, 3)).plot_kde(k2), (ValueError,))
    c = P.Corner(2, axes=_axes(env, 2), limits=[[0.0, 1.0], [0.0, 1.0]])
    env.raises('targets', lambda: c.target([0.5]), (ValueError,))
    env.raises('upper', lambda: c.target([0.5, 0.5], upper_limits=[1.0]), (ValueError,))
    env.raises('lower', lambda: c.target([0.5, 0.5], lower_limits=[1.0]), (ValueError,))


def cases(tier):
    out = [Case('bad', h_bad)]
    for wt in (False, True):
        for src, ps in (('kde', (None, [0, 1], [1, 0])), ('kde3', (None, [2, 0], [1, 2])), ('data', (None,))):
            for p in ps:
                out.append(Case('dist-%s-%s-%s' % (wt, src, p), h_dist, dict(n=4, source=src, params=p, weighted=wt and 'one')))
        for kw in (dict(hist=False), dict(scatter=False), dict(median=False), dict(scatter=2), dict(scatter=9), dict(mask='sym'), dict(mask=0.1), dict(edges='list')):
            out.append(Case('dist-%s-%s' % (wt, sorted(kw.items())), h_dist, dict(n=3, source='kde', params=[0, 1], weighted=wt and (True if tier != 'quick' or kw.get('mask') == 0.1 else 'one'), **kw)))
        for ed in ('array', 'list'):
            out.append(Case('hist2d-%s-%s' % (wt, ed), h_hist2d, dict(n=4, weighted=wt, edges=ed)))
        for sc in (1.0, 0.0625, 64.0):
            out.append(Case('mask-%s-%s' % (wt, sc), h_mask, dict(n=4, weighted=wt, scale=sc)))
        out.append(Case('mask-value-%s' % wt, h_mask, dict(n=3, weighted=wt, scale=2.0, mask=0.07)))
        for src, ps in (('kde', (None, [1, 0])), ('kde3', ([2, 0],))):
            for p in ps:
                out.append(Case('contour-%s-%s-%s' % (wt, src, p), h_contour, dict(source=src, params=p, weighted=wt), weight=3))
        for D in (2, 3):
            for how in ('plot', 'plot_kde', 'plot_data', 'hist'):
                for src in ('kde', 'data', 'later'):
                    if src == 'later' and how == 'plot_data':
                        continue
                    for r in (True, False):
                        if r is False and src != 'kde' or D == 3 and wt and tier == 'quick' and (not r or src != ('data' if how == 'plot_data' else 'kde')):
                            continue
                        out.append(Case('corner-%s-%d-%s-%s-%s' % (wt, D, how, src, r), h_corner, dict(D=D, n=3, how=how, weighted=wt and 'one', rotate=r, source=src), weight=2, max_paths=12 if tier == 'quick' and wt else None))
            for how in ('plot', 'plot_kde', 'clean'):
                out.append(Case('density-%s-%d-%s' % (wt, D, how), h_density, dict(D=D, n=3, weighted=wt and 'one', how=how), opts=dict(fold_sqrt=True), weight=2))
    for D in (2, 3):
        for r in (True, False):
            for none in ((), (('t', 0),), (('u', 1), ('b', 0)), (('u', 0), ('u', 1), ('u', 2)), (('b', 0), ('b', 1), ('b', 2), ('t', 1))):
                out.append(Case('target-%d-%s-%s' % (D, r, none), h_target, dict(D=D, rotate=r, none=none)))
    for how, what in (('plot', 'hist'), ('plot_data', 'hist'), ('plot_kde', 'contour'), ('plot', 'contour'), ('plot_kde', 'confidence'), ('plot_data', 'confidence')):
        for q in ((0.3,), (0.6, 0.95)):
            for wt in (False, 'one'):
                if wt and what == 'contour':
                    continue
                out.append(Case('quantiles-%s-%s-%s-%s' % (how, what, q, wt), h_quantiles, dict(D=2, n=4, how=how, q=q, weighted=wt, what=what)))
    out.append(Case('limits', h_limits, dict(D=2, how='plot_data')))
    for D, form in ((2, 'lists'), (2, 'tuples'), (3, 'shared')):
        for limit in (None, False, True):
            out.append(Case('given-%d-%s-%s' % (D, form, limit), h_given, dict(D=D, form=form, limit=limit)))
    for D in (1, 2, 3, 5, 6, 7) if tier == 'thorough' else (1, 2, 5, 6):
        out.append(Case('legend-%d' % D, h_legend, dict(D=D)))
    for bb in (None, 'bbox', 'bbox_to_anchor'):
        for loc in (None, 'upper left'):
            out.append(Case('legend-%s-%s' % (bb, loc), h_legend, dict(D=3, bbox=bb, loc=loc)))
    out.append(Case('legend-panel', h_legend, dict(D=3, index=(0, 1))))
    for D in (1, 2, 3):
        for r in (True, False):
            out.append(Case('labels-%d-%s' % (D, r), h_labels, dict(D=D, rotate=r)))
    out.append(Case('labels-origin', h_labels, dict(D=2, rotate=True, origin='br')))
    out.append(Case('limits-kde', h_limits, dict(D=2, how='plot_kde')))
    out.append(Case('limits-plot', h_limits, dict(D=2, how='plot')))
    return out
