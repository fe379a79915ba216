"""C19: weighted quantiles."""
import itertools

from symx.run import Case
from props import large

BOUNDS = "60 values with all but some weights fixed; otherwise 1-4 values (2-D: up to 2x3), one or two symbolic fractions; values and weights symbolic"
OUTSIDE = "longer data, rounding"


def _sort(pairs):
    """insertion sort deciding every comparison (in both modes)"""
    out = []
    for p in pairs:
        i = len(out)
        while i > 0 and bool(p[0] < out[i - 1][0]):
            i -= 1
        out.insert(i, p)
    return out


def distinct(env, vals):
    """equal values with different weights have no defined order"""
    for a, b in itertools.combinations(list(vals), 2):
        env.assume(a != b)


def refq(env, vals, ws, f):
    """piecewise linear through (sum of lower weights + half its own)/total"""
    pr = _sort(list(zip(vals, ws)))
    tot = 0
    for _, w in pr:
        tot = tot + w
    acc, xs = 0, []
    for v, w in pr:
        xs.append((acc + w / 2, v))
        acc = acc + w
    t = f * tot
    if bool(t <= xs[0][0]):
        return xs[0][1]
    for (a, va), (b, vb) in zip(xs, xs[1:]):
        if bool(t <= b):
            return va + (vb - va) * (t - a) / (b - a)
    return xs[-1][1]


def h(env, n, weighted, form='array', nf=1):
    v = env.vec('v', n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    if weighted:
        distinct(env, v)
    fs = [env.real('f%d' % i, 0, 1) for i in range(nf)]
    kw = {} if w is None else dict(weights=w.tolist() if form == 'list' else w)
    snap = env.snapshot(v)
    snw = None if w is None else env.snapshot(w)
    vals = v.tolist() if form == 'list' else v
    p = fs[0] if form == 'scalar' else (env.np.array(fs) if form == 'array' else fs)
    got = env.utils.quantiles(vals, p, **kw)
    exp = [refq(env, list(v), list(w) if weighted else [1] * n, f) for f in fs]
    env.eq('quantile', env.np.reshape(got, (-1,)), env.np.array(exp))
    env.eq('values-unchanged', v, snap)
    if weighted:
        env.eq('weights-unchanged', w, snw)


def h_sorted(env, n):
    v = env.sorted_vec('v', n)
    w = env.vec('w', n, 0, lo_strict=True)
    f = env.real('f', 0, 1)
    a = env.utils.quantiles(v, [f], weights=w, values_sorted=True)
    b = env.utils.quantiles(v, [f], weights=w)
    env.eq('sorted', a, b)


def h_laws(env, n):
    """between the extremes, non-decreasing, unchanged by permutations and by scaling the weights"""
    v = env.vec('v', n)
    w = env.vec('w', n, 0, lo_strict=True)
    f = env.real('f', 0, 1)
    g = env.real('g', 0, 1)
    env.assume(f <= g)
    a = env.utils.quantiles(v, [f, g], weights=w)
    env.le('monotone', a[0], a[1])
    for x in a:
        env.check('not-below-the-minimum', env.Or(*[y <= x for y in v]))
        env.check('not-above-the-maximum', env.Or(*[x <= y for y in v]))
    perm = env.choice('perm', [list(range(n))[::-1], list(range(1, n)) + [0]])
    s = env.pos('s')
    distinct(env, v)
    b = env.utils.quantiles(v[perm], [f, g], weights=w[perm] * s)
    env.eq('permutation', a, b)


def h_axis(env, shape, axis, weighted):
    v = env.mat('v', *shape)
    w = env.mat('w', *shape, 0, lo_strict=True) if weighted else None
    f = env.choice('f', [0.0, 0.3, 0.5, 0.875, 1.0])
    kw = {} if w is None else dict(weights=w)
    ax = axis % 2
    if weighted:
        for k in range(shape[1 - ax]):
            distinct(env, [v[i, k] if ax == 0 else v[k, i] for i in range(shape[ax])])
    got = env.utils.quantiles(v, [env.num(f), env.num(0.6)], axis=axis, **kw)
    m = shape[1 - ax]
    env.check('shape', tuple(env.np.shape(got)) == (m, 2))
    for k in range(m):
        vals = [v[i, k] if ax == 0 else v[k, i] for i in range(shape[ax])]
        ws = [1] * len(vals) if w is None else [w[i, k] if ax == 0 else w[k, i] for i in range(shape[ax])]
        for j, ff in enumerate((f, 0.6)):
            env.eq('along-axis', got[k][j], refq(env, vals, ws, env.num(ff)))


def h_flat(env, weighted):
    v = env.mat('v', 2, 2)
    kw = dict(weights=env.mat('w', 2, 2, 0, lo_strict=True)) if weighted else {}
    f = env.real('f', 0, 1)
    if weighted:
        distinct(env, [x for r in v for x in r])
    got = env.utils.quantiles(v, [f], **kw)
    ws = [x for r in kw['weights'] for x in r] if weighted else [1] * 4
    env.eq('flattened', env.np.reshape(got, (-1,)), env.np.array([refq(env, [x for r in v for x in r], ws, f)]))


def h_sigma(env, n):
    v = env.vec('v', n)
    got = env.utils.quantiles(v, sigmas=[-1.0, 0.0, 2.0])
    exp = [refq(env, list(v), [1] * n, env.num(f)) for f in (0.15865525393145707, 0.5, 0.9772498680518208)]
    env.eq('sigmas', got, env.np.array(exp))


def h_iqr(env, n, weighted, log=False):
    v = env.vec('v', n, 0, lo_strict=True) if log else env.vec('v', n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    if weighted:
        distinct(env, v)
    got = env.utils.iqrange(v, log=log, weights=w)
    x = [env.log10(t) for t in v] if log else list(v)
    ws = list(w) if weighted else [1] * n
    env.eq('iqr', got, refq(env, x, ws, env.num(0.75)) - refq(env, x, ws, env.num(0.25)))
    env.le('iqr-not-negative', env.num(0.0), got)


def h_bad(env):
    v = env.vec('v', 2)
    env.raises('none', lambda: env.utils.quantiles(v), (ValueError,))
    f = env.real('f')
    env.assume(env.Or(f < 0, f > 1))
    env.raises('outside', lambda: env.utils.quantiles(v, [f]), (AssertionError, ValueError))
    for w in (env.vec('w', 1, 0.1, 10), env.vec('u', 3, 0.1, 10)):
        for fn in (lambda: env.utils.quantiles(v, [0.5], weights=w), lambda: env.utils.iqrange(v, weights=w)):
            env.raises('weights', fn, (ValueError, IndexError, TypeError))


def h_large(env, n, weighted):
    """many values: all but some weights fixed"""
    v = large.vec(env, 'v', n, -5, 5, free=[])
    w = large.vec(env, 'w', n, 1, 1.001) if weighted else None
    f = [0.0, 0.011, 0.25, 0.5, 0.503, 0.98, 1.0]
    got = env.utils.quantiles(env.arr(v), f, **({} if w is None else dict(weights=env.arr(w))))
    env.eq('quantile', env.np.reshape(got, (-1,)), env.np.array([refq(env, v, w or [1] * n, env.num(x)) for x in f]))


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for wt in (False, True):
            t = '%d%s' % (n, '-w' if wt else '')
            out.append(Case('q-' + t, h, dict(n=n, weighted=wt), weight=n))
            if n == 2:
                out.append(Case('q-list-' + t, h, dict(n=n, weighted=wt, form='list', nf=2)))
                out.append(Case('q-scalar-' + t, h, dict(n=n, weighted=wt, form='scalar')))
            if n > 1:
                out.append(Case('iqr-' + t, h_iqr, dict(n=n, weighted=wt)))
    out += [Case('iqr-log', h_iqr, dict(n=2, weighted=True, log=True)),
            Case('sorted', h_sorted, dict(n=3)), Case('laws-2', h_laws, dict(n=2)), Case('laws-3', h_laws, dict(n=3), weight=6),
            Case('sigma', h_sigma, dict(n=3)), Case('bad', h_bad), Case('flat', h_flat, dict(weighted=False)),
            Case('flat-w', h_flat, dict(weighted=True), weight=5)]
    for sh in ((2, 2), (2, 3), (3, 2)):
        for ax in (0, 1, -1):
            for wt in (False, True):
                out.append(Case('axis%d-%s%s' % (ax, 'x'.join(map(str, sh)), '-w' if wt else ''), h_axis,
                                dict(shape=sh, axis=ax, weighted=wt), weight=4))
    for wt in (False, True):
        out.append(Case('large-%s' % wt, h_large, dict(n=60, weighted=wt)))
    return out
