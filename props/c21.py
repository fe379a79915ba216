"""C21: grids: midpoints, bins, subdivisions and spacings."""
import itertools

from symx.run import Case
from props import ref

BOUNDS = "1-3 dimensions of 2-4 points, up to 7 subdivisions, up to 5 spaced points; all values symbolic (logarithmic number of points: spans of up to 2 decades)"
OUTSIDE = "larger arrays, rounding"


def h_mid(env, sh, axis, log=False, form='array', squeeze=False):
    env.merge()
    n = 1
    for s in sh:
        n *= s
    lo = 0 if log else None
    v = env.ivec('x', n, 1, 9) if form == 'int' else env.vec('x', n, lo, 100, lo_strict=True) if log else env.vec('x', n)
    arr = env.np.reshape(v, sh)
    vals = {i: arr[i] for i in itertools.product(*[range(s) for s in sh])}
    kw = {}
    if axis != 'default':
        kw['axis'] = axis
    if log:
        kw['log'] = True
    if squeeze:
        kw['squeeze'] = True
    D = len(sh)
    ax = [D - 1] if axis == 'default' else list(range(D)) if axis is None else [axis] if isinstance(axis, int) else list(axis)
    ax = [a % D for a in ax]
    r = env.utils.midpoints(arr.tolist() if form == 'list' else arr, **kw)
    out = tuple(s - (1 if d in ax else 0) for d, s in enumerate(sh))
    want_shape = tuple(s for s in out if s != 1) if squeeze else out
    env.check('shape', tuple(env.np.shape(r)) == want_shape)
    r = env.np.reshape(r, out)
    for i in itertools.product(*[range(s) for s in out]):
        c = [vals[tuple(a + b for a, b in zip(i, o))] for o in itertools.product(*[(0, 1) if d in ax else (0,) for d in range(D)])]
        if log:
            want = env.pow(10.0, ref.tot([env.log10(x) for x in c]) / len(c))
        else:
            want = ref.tot([x + env.num(0.0) for x in c]) / len(c)
        env.eq('middle', r[i], want)
    for i, x in vals.items():
        env.eq('not-modified', arr[i], x)


def h_short(env):
    env.raises('too-few', lambda: env.utils.midpoints(env.arr([1.0])), (RuntimeError, ValueError))
    env.raises('too-few', lambda: env.utils.midpoints(env.arr([[1.0, 2.0]]), axis=0), (RuntimeError, ValueError))


def h_bins(env, n, form):
    a, b = env.real('a'), env.real('b')
    r = env.utils.bins(a, b, n) if form == 'args' else env.utils.bins(a, b, num=n)
    env.check('three', len(r) == 3)
    e, c, w = r
    env.check('shapes', tuple(map(lambda x: tuple(env.np.shape(x)), (e, c, w))) == ((n,), (n - 1,), (n - 1,)))
    for i in range(n):
        env.eq('edges', e[i], a + (b - a) * i / (n - 1), atol=1e-9)
    for i in range(n - 1):
        env.eq('centers', c[i], (e[i] + e[i + 1]) / 2, atol=1e-9)
        env.eq('widths', w[i], e[i + 1] - e[i], atol=1e-9)


def h_sub(env, n, num, log, form):
    if form == 'int':
        x = env.ivec('x', n, -9, 9)
    else:
        x = env.vec('x', n, 0 if log else -100, 100, lo_strict=True)
    xs = list(x)
    kw = {}
    if num != 1:
        kw['num'] = num
    if log:
        kw['log'] = True
    r = env.utils.subdivide(x.tolist() if form == 'list' else x, **kw)
    m = 1 if num is None else num
    env.check('length', tuple(env.np.shape(r)) == ((n - 1) * (m + 1) + 1,))
    for i in range(n):
        env.eq('originals', r[i * (m + 1)], xs[i], rtol=1e-9, atol=1e-9)
    for i in range(n - 1):
        for j in range(1, m + 1):
            f = j / (m + 1)
            if log:
                want = env.log10(xs[i]) + (env.log10(xs[i + 1]) - env.log10(xs[i])) * f
                env.eq('between', env.log10(r[i * (m + 1) + j]), want, rtol=1e-9, atol=1e-9)
            else:
                want = xs[i] + (xs[i + 1] - xs[i]) * f
                env.eq('between', r[i * (m + 1) + j], want, rtol=1e-9, atol=1e-9)
    for a, b in zip(x, xs):
        env.eq('not-modified', a, b)


def h_spacing(env, scale, num, opt='', dex=None):
    env.merge(num is not None)
    log = scale is None or scale.startswith('log')
    n = 3
    x = env.vec('x', n, -1 if opt == 'positive' else 0.125, 8.0, lo_strict=True)
    if log and num is None:
        y = list(env.vec('y', 2, -1, 1))
        x = env.np.array([env.pow(10.0, t) for t in y])
    kw = {}
    vals = list(x)
    if opt == 'positive':
        kw['positive'] = True
        vals = [v for v in vals if bool(v > 0)]
        env.assume(len(vals) > 0)
        for v in vals:
            env.assume(v > 0.125)
    lo, hi = env.min(*vals), env.max(*vals)
    if log and num is None:
        lo, hi = [env.pow(10.0, t) for t in (y if bool(y[0] <= y[1]) else y[::-1])]
    if opt == 'limit':
        m = env.real('m', 0.125, 8.0)
        kw['limit'] = [m, None]
        lo = env.max(lo, m)
    if opt == 'stretch':
        c = (lo + hi) / 2
        s = env.real('s', 0, 1)
        kw['log_stretch' if log else 'stretch'] = s
        if log:
            c = (env.log10(lo) + env.log10(hi)) / 2
            lo, hi = env.pow(10.0, c - (1 + s) * (c - env.log10(lo))), env.pow(10.0, c + (1 + s) * (env.log10(hi) - c))
        else:
            lo, hi = c - (1 + s) * (c - lo), c + (1 + s) * (hi - c)
    if scale is not None:
        kw['scale'] = scale
    if num is not None:
        kw['num'] = num
    if dex is not None:
        kw['dex'] = dex
    r = env.utils.spacing(x, **kw)
    k = int(env.np.size(r))
    env.check('flat', len(env.np.shape(r)) == 1)
    if num is not None:
        env.check('number', k == int(num))
    elif not log:
        env.check('number', k > 1)
    else:
        # at least the given number of points per decade
        span = env.log10(hi) - env.log10(lo)
        env.check('per-decade', env.And((k - 1) >= span * (dex or 10) - 1e-9, (k - 2) <= span * (dex or 10) + 1e-9))
    if k == 1:
        return
    for i in range(k):
        f = i / (k - 1)
        if log:
            want = env.log10(lo) + (env.log10(hi) - env.log10(lo)) * f
            env.eq('even', env.log10(r[i]), want, rtol=1e-9, atol=1e-9)
        else:
            env.eq('even', r[i], lo + (hi - lo) * f, rtol=1e-9, atol=1e-9)


def h_scale(env):
    env.raises('unknown', lambda: env.utils.spacing(env.arr([1.0, 2.0]), 'cubic'), (RuntimeError, ValueError))


def h_mesh(env, sh, indexing=None):
    g = [env.vec('x%d' % d, s) for d, s in enumerate(sh)]
    kw = {} if indexing is None else dict(indexing=indexing)
    r = env.utils.meshgrid(*g, **kw)
    env.check('number', len(r) == len(sh))
    xy = indexing == 'xy'
    out = (sh[1], sh[0]) + tuple(sh[2:]) if xy else tuple(sh)
    for d in range(len(sh)):
        env.check('shape', tuple(env.np.shape(r[d])) == out)
        for i in itertools.product(*[range(s) for s in sh]):
            j = (i[1], i[0]) + i[2:] if xy else i
            env.eq('values', r[d][j], g[d][i[d]])


def cases(tier):
    q = tier == 'quick'
    out = [Case('short', h_short), Case('scale', h_scale)]
    A = {1: ['default', 0, -1, None, [0]], 2: ['default', 0, 1, -1, -2, None, [0, 1], [1]],
         3: ['default', 0, 1, 2, -1, -3, None, [0, 2], [1, 2], [0, 1, 2], (2, 0)]}
    SH = {1: (4,), 2: (3, 2), 3: (2, 3, 2)}
    for D in (1, 2, 3):
        for a in A[D]:
            out.append(Case('mid-%s' % ((D, a),), h_mid, dict(sh=SH[D], axis=a)))
            if D < 3 or not q:
                out.append(Case('mid-log-%s' % ((D, a),), h_mid, dict(sh=SH[D], axis=a, log=True)))
        for f in ('list', 'int'):
            out.append(Case('mid-%d-%s' % (D, f), h_mid, dict(sh=SH[D], axis='default', form=f)))
        out.append(Case('mid-%d-squeeze' % D, h_mid, dict(sh=SH[D], axis='default', squeeze=True)))
    for n in (2, 3, 5):
        for f in ('args', 'num'):
            out.append(Case('bins-%d-%s' % (n, f), h_bins, dict(n=n, form=f)))
    for num in (0, 1, 2, 3):
        for n in (2, 3):
            for log in (False, True):
                for f in ('array', 'list', 'int'):
                    if f == 'int' and log:
                        continue
                    out.append(Case('sub-%d-%d%s-%s' % (num, n, '-log' if log else '', f), h_sub, dict(n=n, num=num, log=log, form=f)))
    for num in (5, 7):
        out.append(Case('sub-%d' % num, h_sub, dict(n=3, num=num, log=False, form='array')))
    for sc in ('log', 'lin', None, 'linear', 'logarithmic'):
        for num in (2, 4, 3.0):
            out.append(Case('spacing-%s-%s' % (sc, num), h_spacing, dict(scale=sc, num=num)))
        for opt in ('positive', 'limit', 'stretch'):
            out.append(Case('spacing-%s-%s' % (sc, opt), h_spacing, dict(scale=sc, num=3, opt=opt)))
        if sc != 'logarithmic':
            out.append(Case('spacing-%s-number' % sc, h_spacing, dict(scale=sc, num=None, dex=None if sc == 'lin' else 3)))
    for sh in ((2,), (2, 3), (3, 2), (2, 3, 2)):
        out.append(Case('mesh-%s' % (sh,), h_mesh, dict(sh=sh)))
        if len(sh) > 1:
            out.append(Case('mesh-xy-%s' % (sh,), h_mesh, dict(sh=sh, indexing='xy')))
            out.append(Case('mesh-ij-%s' % (sh,), h_mesh, dict(sh=sh, indexing='ij')))
    return out
