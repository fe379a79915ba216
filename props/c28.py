"""C28: what is drawn for one dimension: histograms, densities, confidence intervals, carpets."""
from symx.run import Case
from props import ref
from props.axes import Axes, masked
from props.c23 import _want

BOUNDS = "2-4 values, 1-3 bins; values, weights, edges, counts and scale factors symbolic; the calls made to the axes are observed"
OUTSIDE = "larger data sets, colours and styles, what matplotlib makes of the calls, rounding"


def _step(env, line, edges, hist, joints=True, rotate=False, label='step'):
    """the outline: every bin from its lower to its upper edge at the height of its value"""
    a, b = line.args[:2]
    if rotate:
        a, b = b, a
    x, mx = masked(env, a)
    y, my = masked(env, b)
    k = len(hist)
    step = 2 if joints else 3
    env.check(label + '-points', len(x) == len(y) == step * k)
    for j in range(k):
        for i in range(2):
            env.eq(label + '-edge', x[step * j + i], edges[j + i])
            env.eq(label + '-height', y[step * j + i], hist[j], rtol=1e-7, atol=1e-9)
            for m in (mx, my):
                env.check(label + '-shown', env.Or(env.Not(m[step * j + i]), hist[j] < 0))
        if not joints:
            env.check(label + '-gap', env.isnan(y[step * j + 2]))


def h_hist(env, n, weighted=False, density=False, probability=False, rotate=False, joints=True, renormalize=False, form='edges'):
    env.merge()
    x = env.vec('x', n, -6, 6)
    xs = list(x)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    ws = None if w is None else list(w)
    e = env.arr([-2.0, 0.5, 3.0])
    ax = Axes()
    kw = {}
    if weighted:
        kw['weights'] = w
    for k, v in (('density', density), ('probability', probability), ('rotate', rotate), ('renormalize', renormalize)):
        if v:
            kw[k] = v
    if not joints:
        kw['joints'] = False
    want = _want(env, xs, ws, [env.num(v) for v in (-2.0, 0.5, 3.0)])
    tot = env.num(float(n)) if ws is None else ref.tot(ws)
    if density:
        want = [want[0] / 2.5, want[1] / 2.5]
    if probability:
        want = [v / tot for v in want]
    if renormalize:
        env.assume(want[0] + want[1] > 0)
    hist, edges, line = env.kale.plot.hist1d(x, edges=e, ax=ax, **kw)
    for j in range(2):
        env.eq('counts', hist[j], want[j], rtol=1e-7, atol=1e-9)
    env.eq('edges', edges, e)
    calls = ax.of('plot')
    env.check('one-line', len(calls) == 1 and line is calls[0])
    drawn = want
    if renormalize:
        m = env.max(*want)
        r = env.num(1.0) if renormalize is True else env.num(renormalize)
        drawn = [v / m * r for v in want]
    _step(env, calls[0], list(e), drawn, joints, rotate)
    for a, b in zip(x, xs):
        env.eq('not-modified', a, b)


def h_draw(env, k, rotate=False, joints=True, renormalize=False, nonzero=False, positive=False):
    """outlines of any given histogram"""
    env.merge()
    e = env.sorted_vec('e', k + 1, gap=env.num(0.0))
    hh = env.vec('h', k, -10, 10)
    hs = list(hh)
    r = renormalize
    if r == 'sym':
        r = env.pos('r')
    m = env.max(*hs)
    if r:
        env.assume(m > 0)
    ax = Axes()
    env.kale.plot.draw_hist1d(ax, e, hh, renormalize=r, nonzero=nonzero, positive=positive, joints=joints, rotate=rotate)
    calls = ax.of('plot')
    env.check('one-line', len(calls) == 1)
    a, b = calls[0].args[:2]
    if rotate:
        a, b = b, a
    x, mx = masked(env, a)
    y, my = masked(env, b)
    step = 2 if joints else 3
    env.check('points', len(x) == len(y) == step * k)
    for j in range(k):
        v = hs[j]
        hide = env.Or(env.And(v < 0, env.num(1.0) > 0) if positive else False, v == 0 if nonzero else False)
        if r:
            v = v / m * (env.num(1.0) if r is True else r)
        for i in range(2):
            env.eq('edge', x[step * j + i], e[j + i])
            p = env.Or(mx[step * j + i], my[step * j + i])
            if bool(p):
                env.check('hidden', hide)
            else:
                env.check('shown', env.Not(hide))
                env.eq('height', y[step * j + i], v, rtol=1e-7, atol=1e-9)
        if not joints:
            env.check('gap', env.isnan(y[step * j + 2]))
    for p, q in zip(hh, hs):
        env.eq('not-modified', p, q)


def h_confidence(env, n, quants, weighted=False, median=True, rotate=False, data='symbolic', form='array', via='confidence'):
    """the bands are between the quantiles at (1 -+ q)/2 of the distribution, the line is at the median"""
    env.merge()
    if data == 'symbolic':
        s = env.sorted_vec('x', n, gap=env.num(0.0))
        perm = [1, 0, 2, 3][:n] if n > 1 else [0]
        x = env.np.array([s[i] for i in perm])
        s = list(s)
    else:
        s = [env.num(v) for v in [-1.0, 0.0, 2.5, 4.0][:n]]
        perm = [2, 0, 1, 3][:n] if n > 2 else [1, 0]
        x = env.np.array([s[i] for i in perm])
    kw = {}
    w = None
    if weighted:
        w = env.vec('w', n, 0.1, 10)
        sw = [None] * n
        for i, j in enumerate(perm):
            sw[j] = w[i]
        kw['weights'] = w if form == 'array' else w.tolist()
    q = quants
    if quants == 'symbolic':
        q = [env.real('q', 0, 1)]
    elif quants == 'default':
        q = [0.5, 0.9]
    if quants != 'default':
        kw['quantiles'] = q
    # quantile function: points at equal fractions (unweighted), or at the middle of the cumulative weights
    if w is None:
        pos = [env.num(i) / (n - 1) for i in range(n)]
    else:
        c, t = [], env.num(0.0)
        for v in sw:
            c.append(t + v / 2)
            t = t + v
        pos = [(v - c[0]) / (c[-1] - c[0]) for v in c]
    if not median:
        kw['median'] = False
    if rotate:
        kw['rotate'] = True
    ax = Axes()
    xs = list(x)
    h = env.kale.plot.confidence(x if form == 'array' else x.tolist(), ax=ax, color='k', **kw)

    def at(f):
        r = s[0]
        for i in range(n - 1):
            r = r + env.ite(f <= pos[i], env.num(0.0), env.ite(f >= pos[i + 1], s[i + 1] - s[i], (s[i + 1] - s[i]) * (f - pos[i]) / (pos[i + 1] - pos[i])))
        return r
    lines = ax.of('axhline' if rotate else 'axvline')
    spans = ax.of('axhspan' if rotate else 'axvspan')
    env.check('only-these', len(ax.calls) == len(lines) + len(spans))
    env.check('median', len(lines) == (1 if median else 0))
    for c in lines:
        env.eq('median', c.args[0], at(env.num(0.5)), rtol=1e-7, atol=1e-7)
    env.check('bands', len(spans) == len(q))
    if len(spans) != len(q):
        return
    for c, v in zip(spans, q):
        v = env.num(v)
        env.eq('band-lower', c.args[0], at((1 - v) / 2), rtol=1e-7, atol=1e-7)
        env.eq('band-upper', c.args[1], at((1 + v) / 2), rtol=1e-7, atol=1e-7)
    for a, b in zip(x, xs):
        env.eq('not-modified', a, b)


def h_carpet(env, n, weighted=False, rotate=False, random='normal', fancy=False, limit=None, shift=0.0, ave=False, std=False, form='array'):
    """every value is drawn (or as many different ones as allowed), at its own position"""
    x = env.vec('x', n, -50, 50)
    xs = list(x)
    kw = {}
    if weighted:
        w = env.arr([1.0, 2.0, 0.5, 4.0][:n])
        kw['weights'] = w.tolist() if form == 'list' else w
    yl = (env.real('y0', -10, 0), env.real('y1', 1, 10))
    ax = Axes(ylim=yl if not rotate else (0.0, 1.0), xlim=yl if rotate else (0.0, 1.0))
    if ave:
        kw['yave'] = env.real('a', -5, -1)
    if std:
        kw['ystd'] = env.pos('s')
    if limit is not None:
        kw['limit'] = limit
    for k, v in (('rotate', rotate), ('random', random), ('fancy', fancy), ('shift', shift)):
        if v:
            kw[k] = v
    if fancy:
        env.assume(env.Or(*[xs[0] != v for v in xs[1:]]))
    rv, extr = env.kale.plot.carpet(x.tolist() if form == 'list' else x, ax=ax, color='k', **kw)
    calls = ax.of('scatter')
    env.check('one-call', len(calls) == 1 and calls[0] is rv and len(ax.calls) == 1)
    a, b = calls[0].args[:2]
    if rotate:
        a, b = b, a
    a = list(env.np.reshape(a, (-1,)))
    b = list(env.np.reshape(b, (-1,)))
    k = n if limit is None or limit >= n else limit
    env.check('number', len(a) == len(b) == k)
    if k == n:
        for p, q in zip(a, xs):
            env.eq('positions', p, q)
    else:
        import itertools
        env.check('different-values', env.Or(*[env.And(*[p == xs[i] for p, i in zip(a, c)]) for c in itertools.permutations(range(n), k)]))
    # the strip is below zero, unless asked for otherwise
    lo, hi = env.min(*b), env.max(*b)
    env.eq('extent', extr[0] + shift, lo, rtol=1e-7, atol=1e-7)
    env.eq('extent', extr[1] + shift, hi, rtol=1e-7, atol=1e-7)
    if not std and not ave:
        sd = yl[1] * 0.02
        av = -5.0 * sd
    elif not std:
        av = kw['yave']
        sd = env.abs(av) / 5.0
    elif not ave:
        sd = kw['ystd']
        av = -5.0 * sd
    else:
        sd, av = kw['ystd'], kw['yave']
    if random == 'uniform':
        for p in b:
            env.le('in-strip', av - sd + shift - 1e-9 * (1 + env.abs(av) + sd), p)
            env.le('in-strip', p, av + sd + shift + 1e-9 * (1 + env.abs(av) + sd))
    elif not fancy:
        z = env.draws('z')
        if len(z) == k:
            for p, q in zip(b, z):
                env.eq('scatter', p, av + sd * q + shift, rtol=1e-7, atol=1e-7)
        else:
            env.reach('other-draws')
    for p, q in zip(x, xs):
        env.eq('not-modified', p, q)


def h_size(env, n, fancy=False):
    """heavier points are not smaller, equal weights are drawn alike"""
    env.merge()
    x = env.arr([0.0, 1.0, 3.0, 4.0][:n])
    w = env.vec('w', n, 1, 2)
    ax = Axes()
    env.kale.plot.carpet(x, weights=w, ax=ax, color='k')
    s = ax.of('scatter')[0].kw.get('s')
    env.check('sizes', tuple(env.np.shape(s)) == (n,))
    for i in range(n):
        env.check('size-positive', s[i] > 0)
        for j in range(n):
            if i != j:
                env.check('size-by-weight', env.implies(w[i] >= w[j], s[i] >= s[j] - 1e-9))


def h_dist(env, n, source='data', weighted=False, density=None, hist=None, carpet=None, confidence=None, probability=None, rotate=False,
           edges=None, param=None, limit=None):
    """each of the elements that are asked for (by default: density of estimates, histogram of data), of the right parameter, with the weights"""
    env.merge()
    cov = [[2.0, 0.5], [0.5, 1.0]]
    x = env.vec('x', n, -5, 5) if density else env.arr([0.5, -1.0, 2.0][:n])
    w = (env.vec('w', n, 0.1, 10) if density else env.arr([1.0, 2.5, 0.5][:n])) if weighted else None
    if type(edges) is int:
        x0 = env.real('x0', -5, 5)
        x = env.np.array([x0, x0 - env.num(1.5), x0 + env.num(1.25)][:n])
        w = None if w is None else env.arr([1.0, 2.5, 0.5][:n])
    wk = {} if w is None else dict(weights=w)
    kw = dict(wk)
    p = 0
    if source == 'kde':
        arg = env.kale.KDE(x, bandwidth=1.0, covariance=env.arr([[2.0]]), **wk)
        kw = {}
    elif source == 'kde2':
        o = env.arr([3.0, 1.0, 0.0][:n])
        p = param or 0
        arg = env.kale.KDE(env.np.array([list(x), list(o)][::-1 if p else 1]), bandwidth=1.0, covariance=env.arr(cov), **wk)
        kw = {}
    else:
        arg = x
    for k, v in (('density', density), ('hist', hist), ('carpet', limit if limit else carpet), ('confidence', confidence), ('probability', probability)):
        if v is not None:
            kw[k] = v
    if isinstance(confidence, list):
        kw.update(confidence=True, quantiles=confidence)
    e = None
    if type(edges) is int:
        kw['edges'] = edges
    elif edges:
        e = env.arr([-6.0, 0.25, 6.0]) if not density else env.sorted_vec('e', 3, gap=env.num(0.0)) if edges == 'sym' else env.arr([-6.0, 0.25, 6.0])
        kw['edges'] = e
    if rotate:
        kw['rotate'] = True
    if param is not None:
        kw['param'] = param
    is_kde = source != 'data'
    want_d = density if density is not None else is_kde
    want_h = hist if hist is not None else not is_kde
    want_c = carpet if carpet is not None else True
    ax = Axes()
    r = env.kale.plot.dist1d(arg, ax=ax, color='k', **kw)
    plots = ax.of('plot')
    env.check('lines', len(plots) == (1 if want_d is not False else 0) + (1 if want_h else 0))
    scat = ax.of('scatter')
    env.check('carpet', len(scat) == (1 if want_c else 0))
    spans = ax.of('axhspan' if rotate else 'axvspan')
    env.check('bands', bool(spans) == bool(confidence) and not ax.of('axvspan' if rotate else 'axhspan'))
    if confidence:
        ax2 = Axes()
        env.kale.plot.confidence(x, ax=ax2, color='k', quantiles=confidence if isinstance(confidence, list) else None, rotate=rotate, **wk)
        s2 = ax2.of('axhspan' if rotate else 'axvspan')
        env.check('bands', len(s2) == len(spans))
        for a, b in zip(spans, s2):
            env.eq('band-lower', a.args[0], b.args[0])
            env.eq('band-upper', a.args[1], b.args[1])
    env.check('median', len(ax.of('axhline' if rotate else 'axvline')) == (1 if confidence else 0))
    env.check('handle', r is not None or not (want_d or want_h or want_c or confidence))
    if scat:
        a = scat[0].args[1 if rotate else 0]
        xs = list(env.np.reshape(a, (-1,)))
        if limit and limit < n:
            env.check('carpet-limit', len(xs) == limit)
        else:
            env.check('carpet-number', len(xs) == n)
            for i in range(n):
                env.eq('carpet-positions', xs[i], x[i])
    ws = [env.num(1.0)] * n if w is None else list(w)
    tot = ref.tot(ws)
    prob = probability if probability is not None else True
    if want_h:
        line = plots[-1]
        if type(edges) is int:
            env.check('hist-bins', int(env.np.size(line.args[1 if rotate else 0])) == 2 * edges)
        if e is not None and not density:
            cnt = _want(env, list(x), ws, list(e))
            hh = [cnt[j] / (e[j + 1] - e[j]) / (tot if prob else env.num(1.0)) for j in range(2)]
            _step(env, line, list(e), hh, rotate=rotate, label='hist')
    if want_d is not False and plots:
        a, b = plots[0].args[:2]
        if rotate:
            a, b = b, a
        if type(edges) is int:
            # a number is one of bins of the histogram: the density is drawn all over the distribution
            k = arg if is_kde else env.kale.KDE(x, **wk)
            num = int(env.np.size(a))
            env.check('density-number', num > 2)
            if num <= 2:
                return
            env.check('density-increasing', [a[i] < a[i + 1] for i in range(num - 1)])
            env.check('density-covers', [a[0] <= v for v in x] + [v <= a[num - 1] for v in x])
            some = env.arr([a[0], a[1], a[num // 2], a[num - 1]])
            xx, yy = k.density(points=some, params=p, probability=prob)
            for i, j in enumerate((0, 1, num // 2, num - 1)):
                env.eq('density', b[j], yy[i], rtol=1e-7, atol=1e-9)
        elif source == 'data' or e is None:
            # the bandwidth is a matter of the estimate: same as asking it
            k = arg if is_kde else env.kale.KDE(x, **wk)
            xx, yy = k.density(points=e, params=p, probability=prob)
            env.eq('density-points', a, xx)
            env.eq('density', b, yy * (density if density not in (None, True) else 1.0), rtol=1e-7, atol=1e-9)
        else:
            M = [[cov[p][p] if source == 'kde2' else 2.0]]
            ref_d = ref.density(env, 'gaussian', [[v + env.num(0.0) for v in x]], [list(e)], [[env.num(v) for v in row] for row in M], ws)
            f = env.num(1.0) if density in (None, True) else env.num(density)
            env.check('density-number', len(b) == 3)
            for j in range(3):
                env.eq('density-points', a[j], e[j])
                env.eq('density', b[j] * (tot if prob else env.num(1.0)), ref_d[j] * f, rtol=1e-7, atol=1e-9)



def h_bad(env):
    P = env.kale.plot
    x = env.arr([1.0, 2.0, 4.0])
    env.raises('random', lambda: P.carpet(x, ax=Axes(), color='k', random='other'), (ValueError,))
    env.raises('weights-of-a-kde', lambda: P.dist1d(env.kale.KDE(x), ax=Axes(), color='k', weights=x), (ValueError,))
    env.raises('two-dimensional', lambda: P.dist1d(env.arr([[1.0, 2.0], [3.0, 5.0]]), ax=Axes(), color='k'), (ValueError,))
    for w in ([1.0, 2.0], [1.0, 2.0, 3.0, 4.0]):
        for fn in (P.confidence, P.hist1d):
            env.raises('weights', lambda: fn(x, ax=Axes(), color='k', weights=env.arr(w)), (ValueError, IndexError, TypeError))
        env.raises('weights', lambda: P.dist1d(x, ax=Axes(), color='k', confidence=True, hist=False, carpet=False, weights=env.arr(w)), (ValueError, IndexError, TypeError))
    for v in (0, -1, 'some'):
        env.raises('carpet', lambda: P.dist1d(x, ax=Axes(), color='k', carpet=v), (ValueError,))



def cases(tier):
    out = [Case('bad', h_bad)]
    for wt in (False, True):
        for d in (False, True):
            for p in (False, True):
                out.append(Case('hist-%s-%s-%s' % (wt, d, p), h_hist, dict(n=2, weighted=wt, density=d, probability=p)))
        out.append(Case('hist-rotate-%s' % wt, h_hist, dict(n=2, weighted=wt, rotate=True)))
        out.append(Case('hist-joints-%s' % wt, h_hist, dict(n=2, weighted=wt, joints=False)))
        for r in (True, 2.5):
            out.append(Case('hist-renormalize-%s-%s' % (r, wt), h_hist, dict(n=2, weighted=wt, renormalize=r)))
    for k in (1, 2, 3):
        for j in (True, False):
            for r in (False, True, 'sym'):
                out.append(Case('draw-%d-%s-%s' % (k, j, r), h_draw, dict(k=k, joints=j, renormalize=r)))
            out.append(Case('draw-nonzero-%d-%s' % (k, j), h_draw, dict(k=k, joints=j, nonzero=True)))
            out.append(Case('draw-positive-%d-%s' % (k, j), h_draw, dict(k=k, joints=j, positive=True)))
            out.append(Case('draw-both-rotate-%d-%s' % (k, j), h_draw, dict(k=k, joints=j, positive=True, nonzero=True, rotate=True)))
    for wt in (False, True):
        for q in ('default', 'symbolic', [0.9, 0.25, 0.0]):
            for n in (2, 3, 4):
                for r in (False, True):
                    if r and n != 3 or n == 4 and (tier == 'quick' and wt or q not in ('default', 'symbolic')):
                        continue
                    out.append(Case('confidence-%s-%s-%d-%s' % (wt, q, n, r), h_confidence, dict(
                        n=n, quants=q, weighted=wt, rotate=r, data='concrete' if wt and n > 2 else 'symbolic'), weight=2))
        out.append(Case('confidence-nomedian-%s' % wt, h_confidence, dict(n=3, quants='default', weighted=wt, median=False, data='concrete')))
        out.append(Case('confidence-list-%s' % wt, h_confidence, dict(n=3, quants='default', weighted=wt, data='concrete', form='list')))
        for src in ('data', 'kde', 'kde2'):
            for r in (False, True):
                out.append(Case('dist-number-%s-%s-%s' % (src, wt, r), h_dist, dict(
                    n=3, source=src, weighted=wt, rotate=r, edges=4, density=None if src != 'data' else True, hist=None if r else True,
                    param=1 if src == 'kde2' else None), opts=dict(fold_sqrt=True)))
        for r in (False, True):
            for rd in ('normal', 'uniform'):
                out.append(Case('carpet-%s-%s-%s' % (wt, r, rd), h_carpet, dict(n=3, weighted=wt, rotate=r, random=rd)))
                for a, s in ((True, False), (False, True), (True, True)):
                    out.append(Case('carpet-%s-%s-%s-%s-%s' % (wt, r, rd, a, s), h_carpet, dict(n=2, weighted=wt, rotate=r, random=rd, ave=a, std=s, shift=1.5)))
            for l in (1, 2, 3, 5):
                out.append(Case('carpet-limit-%s-%s-%d' % (wt, r, l), h_carpet, dict(n=3, weighted=wt, rotate=r, limit=l)))
            out.append(Case('carpet-fancy-%s-%s' % (wt, r), h_carpet, dict(n=3, weighted=wt, rotate=r, fancy=True)))
        out.append(Case('carpet-list-%s' % wt, h_carpet, dict(n=3, weighted=wt, form='list')))
    for wt in (False, True):
        for src in ('data', 'kde', 'kde2'):
            for r in (False, True):
                out.append(Case('dist-default-%s-%s-%s' % (src, wt, r), h_dist, dict(n=3, source=src, weighted=wt, rotate=r, edges=True), opts=dict(fold_sqrt=True)))
                out.append(Case('dist-all-%s-%s-%s' % (src, wt, r), h_dist, dict(n=3, source=src, weighted=wt, rotate=r, edges=True, density=None if src != 'data' else False,
                                                                                 hist=True, confidence=True), opts=dict(fold_sqrt=True)))
            out.append(Case('dist-none-%s-%s' % (src, wt), h_dist, dict(n=3, source=src, weighted=wt, density=False, hist=False, carpet=False)))
            out.append(Case('dist-carpet-%s-%s' % (src, wt), h_dist, dict(n=3, source=src, weighted=wt, density=False, hist=False, limit=2)))
            out.append(Case('dist-bands-%s-%s' % (src, wt), h_dist, dict(n=3, source=src, weighted=wt, density=False, hist=False, carpet=False, confidence=True)))
            out.append(Case('dist-quantiles-%s-%s' % (src, wt), h_dist, dict(n=3, source=src, weighted=wt, confidence=[0.8, 0.3], edges=True, density=None if src != 'data' else False), opts=dict(fold_sqrt=True)))
            for pr in (True, False):
                out.append(Case('dist-hist-%s-%s-%s' % (src, wt, pr), h_dist, dict(n=3, source=src, weighted=wt, density=False, hist=True, edges=True, probability=pr)))
                if src != 'data':
                    for p in ((0, 1) if src == 'kde2' else (None,)):
                        for d in (True, 2.0):
                            out.append(Case('dist-density-%s-%s-%s-%s-%s' % (src, wt, pr, p, d), h_dist, dict(
                                n=2, source=src, weighted=wt, density=d, carpet=False, edges='sym', probability=pr, param=p)))
                        out.append(Case('dist-param-%s-%s-%s-%s' % (src, wt, pr, p), h_dist, dict(n=3, source=src, weighted=wt, hist=True, edges=True, probability=pr, param=p), opts=dict(fold_sqrt=True)))
    for n in (2,):
        out.append(Case('size-%d' % n, h_size, dict(n=n)))
    return out
