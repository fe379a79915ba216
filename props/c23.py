"""C23: histograms."""
from symx.run import Case
from props import large
from props import ref

BOUNDS = "300 values in 40 bins with all but some weights fixed; otherwise 1-4 values, 1-4 bins; values, weights and edges symbolic; all forms of bins, density and probability"
OUTSIDE = "larger data sets, more than 12 automatic bins, rounding"


def _want(env, xs, w, e):
    """in [e_i, e_i+1), the last bin includes its upper edge"""
    n = len(e) - 1
    out = []
    for j in range(n):
        t = []
        for i, x in enumerate(xs):
            c = env.And(x >= e[j], x <= e[j + 1] if j == n - 1 else x < e[j + 1])
            t.append(env.ite(c, env.num(1.0) if w is None else w[i] + env.num(0.0), env.num(0.0)))
        out.append(ref.tot(t))
    return out


def h(env, n, bins, weighted=False, density=None, probability=None, form='array', inside=False):
    env.merge()
    if form == 'int':
        x = env.ivec('x', n, -6, 6)
    else:
        x = env.vec('x', n, -6, 6)
    if bins == 'auto':
        x = env.np.array([env.num(0.0), env.real('x1', 0, 8), env.num(8.0), env.num(3.0)][:n])
    xs = list(x)
    w = None
    if weighted:
        w = env.vec('w', n, 0, lo_strict=True) if bins != 'auto' else env.arr([1.0, 2.5, 0.5, 3.0][:n])
        if weighted == 'int':
            w = env.ivec('w', n, 1, 5)
    ws = None if w is None else list(w)
    kw = {}
    if bins == 'edges':
        e = env.sorted_vec('e', 4, gap=env.num(0.0))
        kw['bins'] = e
    elif bins == 'list':
        e = env.arr([-2.0, 0.5, 3.0])
        kw['bins'] = [-2.0, 0.5, 3.0]
    elif isinstance(bins, int):
        kw['bins'] = bins
        lo, hi = env.min(*xs), env.max(*xs)
        env.assume(lo < hi)
        e = None
    else:
        e = None
    if w is not None:
        kw['weights'] = w.tolist() if form == 'list' else w
    if density is not None:
        kw['density'] = density
    if probability is not None:
        kw['probability'] = probability
    hist, edges = env.utils.histogram(x.tolist() if form == 'list' else x, **kw)
    k = int(env.np.size(edges)) - 1
    env.check('one-per-bin', tuple(env.np.shape(hist)) == (k,))
    if e is not None:
        env.eq('edges-as-given', edges, e)
    elif isinstance(bins, int):
        env.check('number', k == bins)
        for i in range(k + 1):
            env.eq('evenly-spaced', edges[i], lo + (hi - lo) * i / k, rtol=1e-9, atol=1e-9)
    else:
        env.check('some-bins', k >= 1)
        env.le('covers-data', edges[0], env.min(*xs))
        env.le('covers-data', env.max(*xs), edges[-1])
        for i in range(k + 1):
            env.eq('evenly-spaced', edges[i], edges[0] + (edges[-1] - edges[0]) * i / k, rtol=1e-9, atol=1e-9)
    E = [edges[i] for i in range(k + 1)]
    want = _want(env, xs, ws, E)
    tot = env.num(float(n)) if ws is None else ref.tot(ws)
    for j in range(k):
        y = want[j]
        got = hist[j]
        if density:
            got = got * (E[j + 1] - E[j])
        if probability:
            got = got * tot
        env.eq('counts', got, y, rtol=1e-7, atol=1e-9)
    if bins == 'auto' or isinstance(bins, int):
        # nothing is lost
        s = ref.tot([hist[j] * (E[j + 1] - E[j]) if density else hist[j] for j in range(k)])
        env.eq('total', s, env.num(1.0) if probability else tot, rtol=1e-7, atol=1e-9)
    for a, b in zip(x, xs):
        env.eq('not-modified', a, b)
    for a, b in zip(w if w is not None else (), ws or ()):
        env.eq('not-modified', a, b)


def h_bad(env):
    f = env.utils.histogram
    env.raises('weights', lambda: f(env.arr([1.0, 2.0, 3.0]), bins=env.arr([0.0, 1.0, 4.0]), weights=env.arr([1.0, 2.0])), (ValueError, TypeError))
    env.raises('bins', lambda: f(env.arr([1.0, 2.0, 3.0]), bins=env.arr([0.0, 4.0, 1.0])), (ValueError,))
    env.raises('bins', lambda: f(env.arr([1.0, 2.0, 3.0]), bins=0), (ValueError,))


def h_large(env, n, bins, kw):
    """many values and bins: all but some weights fixed"""
    v = large.vec(env, 'v', n, -5, 5, free=[])
    w = large.vec(env, 'w', n, 0.1, 4)
    e = [env.num(-5 + 10 * ((i / bins) ** 1.5)) for i in range(bins + 1)]
    got, ed = env.utils.histogram(env.arr(v), bins=env.arr(e), weights=env.arr(w), **kw)
    env.check('number', tuple(env.np.shape(got)) == (bins,))
    tot = ref.tot(w)
    want = _want(env, v, w, e)
    for i in range(bins):
        x = want[i]
        if kw:
            x = x / tot
        if kw.get('density'):
            x = x / (e[i + 1] - e[i])
        env.eq('value', got[i], x)


def cases(tier):
    out = [Case('bad', h_bad)]
    for wt in (False, True, 'int'):
        for d in (None, True, False):
            for p in (None, True):
                for b in ('edges', 'list', 2, 3):
                    for f in ('array', 'list', 'int'):
                        if f != 'array' and (b != 'edges' or d is False):
                            continue
                        if d is False and (b != 'edges' or wt == 'int'):
                            continue
                        out.append(Case('%s-%s-%s-%s-%s' % (b, wt, d, p, f), h, dict(n=3, bins=b, weighted=wt, density=d, probability=p, form=f)))
                if d is not False and wt != 'int':
                    for n in (3, 4):
                        out.append(Case('auto%d-%s-%s-%s' % (n, wt, d, p), h, dict(n=n, bins='auto', weighted=wt, density=d, probability=p), weight=2))
    for kw in ({}, dict(probability=True), dict(density=True, probability=True)):
        out.append(Case('large-%s' % sorted(kw), h_large, dict(n=300, bins=40, kw=kw), opts=dict(fold_sqrt=True)))
    return out
