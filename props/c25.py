"""C25: contours are drawn of the right density, at the levels which enclose the given fractions."""
import itertools

from symx.run import Case
from props import ref
from props.axes import Axes

BOUNDS = "grids of 1-2 by 2-3 cells (density grids: up to 2x3 points); densities, weights and (one at a time) quantiles symbolic; the calls made to the axes are observed"
OUTSIDE = "larger grids, smoothed and upsampled densities, grids whose cells differ in area (fractions are those of the sum of the density values), rounding"


def _levels(env, vals, quants, levels, label='level'):
    """level of each quantile: the lowest value such that all the values at or above it (from the largest down) sum up to no more than the fraction;
    the largest value if there is none"""
    levels = list(env.np.reshape(levels, (-1,)))
    env.check(label + '-number', len(levels) == len(quants))
    if len(levels) != len(quants):
        return
    for a, b in zip(levels, levels[1:]):
        env.le(label + '-ascending', a, b)
    tot = ref.tot(vals)
    # larger fractions are enclosed by lower levels
    order = sorted(range(len(quants)), key=lambda i: -float(quants[i])) if all(isinstance(q, float) for q in quants) else [0]
    for lv, i in zip(levels, order):
        q = quants[i]
        q = env.num(q)
        env.check(label + '-a-value', env.Or(*[env.And(lv - v <= 1e-9, v - lv <= 1e-9) for v in vals]))
        top = env.max(*vals)
        above = ref.tot([env.ite(v > lv, v, env.num(0.0)) for v in vals])
        # what is enclosed by it is no more than the fraction (unless that is less than the largest value)
        env.check(label + '-encloses', env.Or(lv == top, above + lv <= q * tot * (1 + 1e-9)))
        # and with any lower value it would be more than it
        for v in vals:
            at = ref.tot([env.ite(u >= v, u, env.num(0.0)) for u in vals])
            env.check(label + '-largest', env.Or(v >= lv, at >= q * tot * (1 - 1e-9)))


def h_levels(env, sh, quants, form='float'):
    """levels of a given density"""
    n = sh[0] * sh[1]
    q = quants
    if quants == 'symbolic':
        q = [env.real('q', 0.01, 0.99)]
    if form == 'int':
        h = env.ivec('h', n, 0, 9)
        vals = [v + env.num(0.0) for v in h]
    else:
        h = env.vec('h', n, 0, 100)
        vals = list(h)
    env.assume(ref.tot(vals) > 0)
    # the cumulative sums are not exactly at the fractions, where rounding decides
    for m in range(1, n + 1):
        for c in itertools.combinations(range(n), m):
            for v in q:
                env.assume(ref.tot([vals[i] for i in c]) != env.num(v) * ref.tot(vals))
    e = [env.arr([0.0, 1.0, 2.0, 3.0][:s + 1]) for s in sh]
    ax = Axes()
    env.kale.plot.draw_contour2d(ax, e, env.np.reshape(h, sh), quantiles=q, pad=False, outline=False)
    c = ax.of('contour')
    env.check('one-contour', len(c) == 1)
    _levels(env, vals, q, c[0].kw['levels'])
    _grid(env, c[0], [[0.5, 1.5, 2.5][:s] for s in sh], vals)
    for a, b in zip(env.np.reshape(h, (-1,)), vals):
        env.eq('not-modified', a, b)


def _grid(env, c, xy, vals):
    """positions and values passed on, first dimension along x"""
    X, Y, Z = c.args[:3]
    sh = (len(xy[0]), len(xy[1]))
    env.check('shape', tuple(env.np.shape(X)) == tuple(env.np.shape(Y)) == tuple(env.np.shape(Z)) == sh)
    for i in range(sh[0]):
        for j in range(sh[1]):
            env.eq('position-x', X[i, j], xy[0][i], atol=1e-9)
            env.eq('position-y', Y[i, j], xy[1][j], atol=1e-9)
            env.eq('value', Z[i, j], vals[i * sh[1] + j], rtol=1e-7, atol=1e-9)


def h_pad(env, sh, pad, on='edges'):
    """padding surrounds the density by its lowest value, at positions which continue the grid"""
    env.merge()
    n = sh[0] * sh[1]
    h = env.vec('h', n, 0, 100)
    vals = list(h)
    extra = 1 if on == 'edges' else 0
    e = [env.sorted_vec('e%d_' % d, sh[d] + extra, gap=env.num(0.0)) for d in range(2)]
    ax = Axes()
    env.kale.plot.draw_contour2d(ax, e, env.np.reshape(h, sh), levels=[1.0], pad=pad, outline=False)
    c = ax.of('contour')[0]
    p = 1 if pad is True else int(pad or 0)
    low = env.min(*vals)
    want = []
    xy = []
    for d in range(2):
        v = list(e[d])
        v = [v[0] - k * (v[1] - v[0]) for k in range(p, 0, -1)] + v + [v[-1] + k * (v[-1] - v[-2]) for k in range(1, p + 1)]
        if on == 'edges':
            v = [(a + b) / 2 for a, b in zip(v, v[1:])]
        xy.append(v)
    for i in range(-p, sh[0] + p):
        for j in range(-p, sh[1] + p):
            want.append(vals[i * sh[1] + j] if 0 <= i < sh[0] and 0 <= j < sh[1] else low)
    _grid(env, c, xy, want)
    env.check('levels-as-given', list(c.kw['levels']) == [1.0])


def h_smooth(env, sh, width, upsample=None, form='float', via='edges'):
    """smoothing keeps the total of a peak and spreads it by its width (in bins of the histogram), by the same amount along both directions;
    what is constant stays constant"""
    a = env.real('a', 1, 100) if form == 'float' else env.int('a', 1, 100)
    b = env.real('b', -5, 5) if form == 'float' else env.int('b', -5, 5)
    c = [s // 2 for s in sh]
    rows = [[a + b if [i, j] == c else b for j in range(sh[1])] for i in range(sh[0])]
    n = [s + (1 if via == 'edges' else 0) for s in sh]
    e = [env.arr([0.5 * (d + 1) * k for k in range(n[d])]) for d in range(2)]
    ax = Axes()
    env.kale.plot.draw_contour2d(ax, e, env.np.array(rows), levels=[1.0], smooth=width, upsample=upsample, pad=False, outline=False)
    A, B, Z = ax.of('contour')[0].args[:3]
    f = 1 if upsample is None else 2 if upsample is True else upsample
    r = tuple(env.np.shape(Z))
    env.check('shape', r == tuple(s * f for s in sh) == tuple(env.np.shape(A)) == tuple(env.np.shape(B)))
    if r != tuple(s * f for s in sh):
        return
    a, b = a + env.num(0.0), b + env.num(0.0)
    tot, m = env.num(0.0), [env.num(0.0)] * 2
    x0 = [(c[d] + (0.5 if via == 'edges' else 0.0)) * 0.5 * (d + 1) for d in range(2)]
    for i in range(r[0]):
        for j in range(r[1]):
            z = Z[i, j] - b
            tot = tot + z
            for d, P in enumerate((A, B)):
                q = (P[i, j] - x0[d]) / (0.5 * (d + 1))
                m[d] = m[d] + z * q * q
            if f == 1:
                env.le('bounded', b, Z[i, j] + 1e-9)
                env.le('bounded', Z[i, j], a + b + 1e-9)
    area = tot
    for d in range(2):
        area = area * (sh[d] - 1.0) / (r[d] - 1.0)
    env.check('total', env.And(area >= 0.97 * a, area <= 1.03 * a))
    for d in range(2):
        env.check('width', env.And(m[d] >= 0.75 * width ** 2 * tot, m[d] <= 1.25 * width ** 2 * tot))


def h_upsample(env, sh, upsample, form='float', via='edges', smooth=None):
    """upsampled values belong to their positions: what is linear stays linear; the outermost positions stay"""
    if form == 'float':
        a, b, c = [env.real(v, -10, 10) for v in 'abc']
    else:
        a, b, c = [env.int(v, -10, 10) for v in 'abc']
    n = [s + (1 if via == 'edges' else 0) for s in sh]
    if form == 'float':
        e = [env.arr([0.5 * (d + 1) * k for k in range(n[d])]) for d in range(2)]
    else:
        e = [env.np.array([(2 * d + 2) * k for k in range(n[d])]) for d in range(2)]
    cen = []
    for v in e:
        v = [float(q) for q in v]
        cen.append([(p + q) / 2 for p, q in zip(v, v[1:])] if via == 'edges' else v)
    cast = (lambda v: int(v)) if form == 'int' else (lambda v: v)
    rows = [[a * cast(x) + b * cast(y) + c for y in cen[1]] for x in cen[0]]
    ax = Axes()
    h = env.np.array(rows)
    env.kale.plot.draw_contour2d(ax, e, h, levels=[1.0], upsample=upsample, smooth=smooth, pad=False, outline=False)
    A, B, Z = ax.of('contour')[0].args[:3]
    f = 2 if upsample is True else upsample
    r = tuple(s * f for s in sh)
    env.check('shape', tuple(env.np.shape(Z)) == tuple(env.np.shape(A)) == tuple(env.np.shape(B)) == r)
    if tuple(env.np.shape(Z)) != r:
        return
    for i in range(r[0]):
        for j in range(r[1]):
            d = Z[i, j] - (a * A[i, j] + b * B[i, j] + c)
            env.check('linear', env.And(d <= 1e-7, d >= -1e-7))
    for i, u in ((0, 0), (-1, -1)):
        for j, v in ((0, 0), (-1, -1)):
            env.eq('corner', A[i, j], cen[0][u], atol=1e-7)
            env.eq('corner', B[i, j], cen[1][v], atol=1e-7)
    for i in range(r[0]):
        for j in range(r[1]):
            env.le('ordered', A[max(i - 1, 0), j], A[i, j] + 1e-7)
            env.le('ordered', B[i, max(j - 1, 0)], B[i, j] + 1e-7)
    for i in range(sh[0]):
        for j in range(sh[1]):
            env.eq('not-modified', h[i, j], rows[i][j])


def h_data(env, n, weighted=False, quants=(0.5,), edges='array'):
    """contours of data points: of their weighted histogram"""
    pos = [[0.5, 1.5, 0.25, 1.75][:n], [0.1, 0.2, 1.2, 1.9][:n]]
    e = [[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]]
    w = env.vec('w', n, 0.1, 10) if weighted else None
    ws = list(w) if weighted else [env.num(1.0)] * n
    kw = dict(weights=w) if weighted else {}
    tot = ref.tot(ws)
    H = [[ref.tot([ws[k] for k in range(n) if i <= pos[0][k] < i + 1 and j <= pos[1][k] < j + 1] or [env.num(0.0)]) / tot for j in range(2)] for i in range(2)]
    vals = [v for r in H for v in r]
    if weighted:
        for m in range(1, n + 1):
            for c in itertools.combinations(range(n), m):
                for v in quants:
                    env.assume(ref.tot([ws[i] for i in c]) != env.num(v) * tot)
    ax = Axes()
    ed = [env.arr(v) for v in e] if edges == 'array' else e if edges == 'list' else env.arr(e[0])
    env.kale.plot.contour(env.arr(pos), edges=ed, ax=ax, color='k', quantiles=list(quants), smooth=None, upsample=None, pad=False, outline=False, **kw)
    c = ax.of('contour')
    env.check('one-contour', len(c) == 1)
    _grid(env, c[0], [[0.5, 1.5], [0.5, 1.5]], vals)
    L = list(c[0].kw['levels'])
    _levels(env, [x for x in vals], list(quants), env.np.array(L))


def h_sigmas(env):
    """without quantiles the levels are those of 0.5, 1, 1.5 and 2 sigmas (of a two-dimensional normal distribution)"""
    import math
    h = env.arr([[40.0, 20.0, 9.0], [15.0, 10.0, 6.0]])
    e = [env.arr([0.0, 1.0, 2.0]), env.arr([0.0, 1.0, 2.0, 3.0])]
    ax = Axes()
    env.kale.plot.draw_contour2d(ax, e, h, pad=False, outline=False)
    q = [1 - math.exp(-s * s / 2) for s in (0.5, 1.0, 1.5, 2.0)]
    _levels(env, list(env.np.reshape(h, (-1,))), q, ax.of('contour')[0].kw['levels'])


def h_ties(env, form):
    """a fraction which is reached exactly: the level which encloses it"""
    k = env.int('k', 1, 1000) if form == 'int' else env.num(0.5)
    h = env.np.array([[k * 1, k * 4], [k * 2, k * 1]])
    e = [env.arr([0.0, 1.0, 2.0])] * 2
    for q, m in (([0.5], [4]), ([0.75], [2]), ([0.875], [1]), ([0.5, 0.75], [2, 4]), ([0.625], [4]), ([0.8], [2]), ([0.25], [4])):
        ax = Axes()
        env.kale.plot.draw_contour2d(ax, e, h, quantiles=q, pad=False, outline=False)
        L = ax.of('contour')[0].kw['levels']
        env.eq('tied-level', env.np.reshape(L, (-1,)), env.np.array([k * v + env.num(0.0) for v in m]))


def h_bad(env):
    f = env.kale.plot.draw_contour2d
    h = env.arr([[1.0, 2.0], [3.0, 4.0]])
    env.raises('shape', lambda: f(Axes(), [env.arr([0.0, 1.0, 2.0, 3.0])] * 2, h, quantiles=[0.5], pad=False, outline=False), (ValueError,))
    env.raises('outline', lambda: f(Axes(), [env.arr([0.0, 1.0, 2.0])] * 2, h, quantiles=[0.5], pad=False, outline='x'), (ValueError,))


def cases(tier):
    out = [Case('bad', h_bad), Case('sigmas', h_sigmas), Case('ties-int', h_ties, dict(form='int')), Case('ties', h_ties, dict(form='float'))]
    for sh in ((1, 2), (2, 1), (1, 3), (2, 2)):
        for q in ([0.5], [0.9, 0.3], 'symbolic'):
            if sh == (2, 2) and q != [0.5] and tier == 'quick':
                continue
            out.append(Case('levels-%s-%s' % (sh, q), h_levels, dict(sh=sh, quants=q), weight=sh[0] * sh[1]))
            if sh != (2, 2):
                out.append(Case('levels-int-%s-%s' % (sh, q), h_levels, dict(sh=sh, quants=q, form='int'), weight=2))
    for sh in ((2, 2), (2, 3), (1, 2)):
        for p in (False, None, True, 1, 2):
            out.append(Case('pad-%s-%s' % (sh, p), h_pad, dict(sh=sh, pad=p)))
            if 1 not in sh:
                out.append(Case('pad-points-%s-%s' % (sh, p), h_pad, dict(sh=sh, pad=p, on='points')))
    for fm in ('float', 'int'):
        for via in ('edges', 'points'):
            for wd, up, sh in ((1.0, None, (9, 9)), (0.75, None, (9, 7)), (1.0, 2, (9, 9)), (1.0, True, (9, 9))):
                out.append(Case('smooth-%s-%s-%s-%s-%s' % (wd, up, sh, fm, via), h_smooth, dict(sh=sh, width=wd, upsample=up, form=fm, via=via), weight=2))
            for up, sh in ((2, (2, 3)), (3, (3, 2)), (2, (3, 4)), (True, (3, 3))):
                out.append(Case('upsample-%s-%s-%s-%s' % (up, sh, fm, via), h_upsample, dict(sh=sh, upsample=up, form=fm, via=via)))
    for wt in (False, True):
        for q in ((0.45,), (0.9, 0.3)):
            for n in (3, 4):
                for ed in ('array', 'list'):
                    if ed == 'list' and n == 3 or tier == 'quick' and wt and n == 4 and len(q) > 1:
                        continue
                    out.append(Case('data-%s-%s-%d-%s' % (wt, q, n, ed), h_data, dict(n=n, weighted=wt, quants=q, edges=ed), weight=3 if wt else 1))
    return out
