"""C10: resampling with reflecting boundaries."""
from symx.run import Case
from props import ref
from props.c09 import cols, _data, COV

BOUNDS = "1-3 dimensions, 1-2 data points, 1-2 samples; data, weights, boundaries and all random draws of the first round of candidates symbolic"
OUTSIDE = "larger data sets, rounds of candidates after the first, images in the corners of several reflecting dimensions, " \
          "sources further than 5 sigma from the boundaries (Gaussian)"


def _bounds(env, D, sides):
    out = []
    for d in range(D):
        lo = env.real('lo%d' % d, -20, 20) if 'l' in sides[d] else None
        hi = env.real('hi%d' % d, -20, 20) if 'h' in sides[d] else None
        if lo is not None and hi is not None:
            env.assume(lo < hi)
        out.append([lo, hi])
    return out


def _mk(env, D, n, kernel, sides, weighted, where):
    data = _data(env, D, n)
    rows = [list(data)] if D == 1 else ref.rows(data)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    b = _bounds(env, D, sides)
    arg = [None if x == [None, None] else list(x) for x in b]
    if D == 1:
        arg = arg[0] if where != 'nested' else arg
    kw = dict(bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COV[D]))
    if where == 'call':
        kde = env.kale.KDE(data, **kw)

        def draw(size, **k):
            return kde.resample(size, reflect=arg, **k)
    elif where == 'override':
        kde = env.kale.KDE(data, reflect=[[env.num(-90.0), env.num(90.0)]] * D, **kw)

        def draw(size, **k):
            return kde.resample(size, reflect=arg, **k)
    elif where == 'function':
        def draw(size, **k):
            k.pop('squeeze', None)
            return env.kale.resample(data, size, reflect=arg, **k, **kw)
    else:
        kde = env.kale.KDE(data, reflect=arg, **kw)

        def draw(size, **k):
            return kde.resample(size, **k)
    return draw, rows, w, b


def _limit(env, kind, num, val=None):
    """only the first `num` draws of a kind are followed, paths which need more are left out"""
    k0 = len(env.draws(kind))

    def f(k):
        if k - k0 >= num:
            env.assume(False)
        if val is None and kind == 'z':
            return env.real('z%d' % (k - k0), -20, 20)
        return None if val is None else val(k - k0)
    env.set_rng(**{kind: f})


def _within(env, x, b, strict=False):
    c = []
    for t, (lo, hi) in zip(x, b):
        if lo is not None:
            c.append(t > lo if strict else t >= lo)
        if hi is not None:
            c.append(t < hi if strict else t <= hi)
    return env.And(*c) if c else (env.num(0.0) <= 0)


def _sources(env, rows, w, b, D):
    """the data and their images in each boundary: (position, weight)"""
    n = len(rows[0])
    out = []
    for k in range(n):
        wk = env.num(1.0) if w is None else w[k]
        x = [rows[d][k] for d in range(D)]
        out.append((x, wk))
        for d in range(D):
            for loc in b[d]:
                if loc is not None:
                    im = list(x)
                    im[d] = 2 * loc - im[d]
                    out.append((im, wk))
    return out


def _reach(env, src, b, hw, D):
    """whether the kernel of a source overlaps with the region (hw: half width per dimension)"""
    c = []
    for d in range(D):
        lo, hi = b[d]
        if lo is not None:
            c.append(src[d] >= lo - hw[d])
        if hi is not None:
            c.append(src[d] <= hi + hw[d])
    return env.And(*c) if c else (env.num(0.0) <= 0)


def h_law(env, kernel, D, n, sides, weighted, where='init', num=2, pick=0):
    """every sample is a source plus noise; sources are drawn by their weight among those which can reach the region"""
    env.merge()
    draw, rows, w, b = _mk(env, D, n, kernel, sides, weighted, where)
    hw = [env.num((COV[D][d][d] * 0.25) ** 0.5) for d in range(D)]
    srcs = _sources(env, rows, w, b, D)
    for x, _ in srcs:
        for d in range(D):
            # not within the numerical margin of the reach (and well within it, for the Gaussian)
            for s, loc in zip((-1, 1), b[d]):
                if loc is not None:
                    g = (x[d] - loc) * s
                    if kernel == 'gaussian':
                        env.assume(g <= 5 * hw[d])
                    else:
                        env.assume(env.Or(g <= hw[d], g >= hw[d] * (1 + 1e-6)))
    for d in range(D):
        if b[d] != [None, None]:
            for i in range(len(srcs)):
                for j in range(i):
                    env.assume(srcs[i][0][d] != srcs[j][0][d])
    env.assume(env.Or(*[_reach(env, x, b, hw, D) for x, _ in srcs]))
    _limit(env, 'i', num, lambda k: None if k == pick else 0)
    if kernel == 'gaussian':
        _limit(env, 'z', num * D)
    else:
        _limit(env, 'u', num)
    s = cols(env, draw(1, squeeze=False), D)[0]
    idx = env.draws('i')
    if kernel == 'gaussian' and D > 1:
        ys = None
    elif kernel == 'gaussian':
        ys = [[hw[0] * z] for z in env.draws('z')]
    elif D == 1:
        ys = [[hw[0] * (2 * u - 1)] for u in env.draws('u')]
    else:
        ys = None
    for d in range(D):
        lo, hi = b[d]
        if lo is not None:
            env.check('above-lower', s[d] >= lo)
        if hi is not None:
            env.check('below-upper', s[d] <= hi)
    if ys is None or len(ys) != len(idx):
        env.reach('other-draws')
        return
    ev = env.events.get('choice_p', [])
    rch = [env.num(1.0) if kernel == 'gaussian' else env.ite(_reach(env, x, b, hw, D), 1, 0) for x, _ in srcs]
    tot = ref.tot([r * wk for r, (x, wk) in zip(rch, srcs)])
    ok = []
    for j, i in enumerate(idx):
        for k, (x, wk) in enumerate(srcs):
            y = ys[j]
            c = [_close(env, s[0], x[0] + y[0]) if j == j else None]
            if ev:
                p = ev[0]
                c.append(_close(env, p[int(i)] * tot, wk))
            elif w is not None:
                continue
            ok.append(env.And(*c))
    env.check('source-and-share', env.Or(*ok))


def _close(env, a, b):
    return env.And(a - b <= 1e-7, b - a <= 1e-7)


def h_mirror(env, kernel, D, sides, weighted, where='init', n=None):
    """without noise: samples are data points within the region, or images which are within it"""
    env.merge()
    n = n or (2 if D == 1 else 1)
    draw, rows, w, b = _mk(env, D, n, kernel, sides, weighted, where)
    srcs = _sources(env, rows, w, b, D)
    num = 2 ** D
    env.assume(env.Or(*[_within(env, x, b) for x, _ in srcs[::len(srcs) // n]]))
    _limit(env, 'i', num, lambda k: None if k == 0 else 0)
    env.set_rng(z=lambda k: env.num(0.0) if kernel == 'gaussian' else env.num(0.75),
                u=lambda k: env.num(0.5 if D == 1 and kernel in ('box', 'parabola') else 0.0),
                b=lambda k: env.num(0.0))
    s = cols(env, draw(1, squeeze=False), D)[0]
    env.check('a-source', env.Or(*[env.And(*[_close(env, s[d], x[d]) for d in range(D)]) for x, _ in srcs]))
    for d in range(D):
        lo, hi = b[d]
        if lo is not None:
            env.check('above-lower', s[d] >= lo)
        if hi is not None:
            env.check('below-upper', s[d] <= hi)


COVX = {2: [[9.0, 0.0], [0.0, 0.25]], 3: [[0.25, 0.0, 0.0], [0.0, 9.0, 0.0], [0.0, 0.0, 1.0]]}


def h_share(env, kernel, D, sides, n=1):
    """without noise: the share of the source drawn is that among all which can reach the region, in dimensions of different widths"""
    env.merge()
    data = _data(env, D, n)
    rows = ref.rows(data)
    w = env.vec('w', n, 0.5, 2.0)
    b = _bounds(env, D, sides)
    hw = [env.num(0.5 * COVX[D][d][d] ** 0.5) for d in range(D)]
    srcs = _sources(env, rows, w, b, D)
    for x in srcs[::len(srcs) // n]:
        env.assume(_within(env, x[0], b, strict=True))
    for x, _ in srcs:
        for d in range(D):
            for s, loc in zip((-1, 1), b[d]):
                if loc is not None:
                    g = (x[d] - loc) * s
                    env.assume(g <= 5 * hw[d] if kernel == 'gaussian' else env.Or(g <= hw[d], g >= hw[d] * (1 + 1e-6)))
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), weights=w, kernel=kernel, covariance=env.arr(COVX[D]),
                       reflect=[None if x == [None, None] else list(x) for x in b])
    env.set_rng(i=lambda k: 0, z=lambda k: env.num(0.0) if kernel == 'gaussian' else env.num(0.75), u=lambda k: env.num(0.0), b=lambda k: env.num(0.0))
    s = cols(env, kde.resample(1, squeeze=False), D)[0]
    ev = env.events.get('choice_p', [])
    idx = env.draws('i')
    if len(ev) < 1 or int(idx[0]) != 0:
        env.reach('other-draws')
        return
    rch = [env.num(1.0) if kernel == 'gaussian' else env.ite(_reach(env, x, b, hw, D), 1, 0) for x, _ in srcs]
    tot = ref.tot([r * wk for r, (x, wk) in zip(rch, srcs)])
    env.check('source-and-share', env.Or(*[env.And(_close(env, s[0], x[0]), _close(env, s[1], x[1]), _close(env, ev[0][0] * tot, wk)) for x, wk in srcs]))


def h_inside(env, kernel, D, sides, size, keep=None, where='init'):
    """any noise: the right number of samples, all within the region, kept variables from the data"""
    env.merge()
    n = 2 if D == 1 else 1
    draw, rows, w, b = _mk(env, D, n, kernel, sides, True, where)
    for r in rows[:1] if n > 1 else []:
        env.assume(r[0] < r[1])
    for d in range(D):
        for s, loc in zip((-1, 1), b[d]):
            if loc is not None:
                env.assume(*[(x - loc) * s < 0 for x in rows[d]])
    k0 = len(env.draws('i'))
    env.set_rng(i=lambda k: k - k0)
    _limit(env, 'z', 2 ** D * size * D)
    if kernel != 'gaussian':
        _limit(env, 'u', 2 ** D * size)
    s = draw(size, squeeze=False, **({} if keep is None else dict(keep=keep)))
    c = cols(env, s, D)
    env.check('number', len(c) == size)
    if where != 'function':
        env.check('shape', tuple(env.np.shape(s)) == (D, size))
    for j in range(size):
        for d in range(D):
            lo, hi = b[d]
            if lo is not None:
                env.check('above-lower', c[j][d] >= lo)
            if hi is not None:
                env.check('below-upper', c[j][d] <= hi)
    if keep is not None:
        for d in ([keep] if not isinstance(keep, list) else keep):
            for j in range(size):
                env.check('kept', env.Or(*[c[j][d] == x for x in rows[d]]))


def h_chunks(env, kernel, chunk, size, sides, keep=None):
    """drawing in many small chunks: the right number of samples, all of them data points or images within the region"""
    env.merge()
    D = len(sides)
    rows = [[env.real('d%d' % d, -1, 1)] for d in range(D)]
    b = []
    for d in range(D):
        lo = env.real('lo%d' % d, -2, -1.25) if 'l' in sides[d] else None
        hi = env.real('hi%d' % d, 1.25, 2) if 'h' in sides[d] else None
        b.append([lo, hi])
    srcs = _sources(env, rows, None, b, D)
    cov = env.arr([[16.0 if i == j else 0.0 for j in range(D)] for i in range(D)])
    kde = env.kale.KDE(env.np.array(rows) if D > 1 else env.np.array(rows[0]), bandwidth=env.num(1.0), covariance=cov, kernel=kernel, chunk=chunk,
                       reflect=[None if x == [None, None] else list(x) for x in b])
    env.set_rng(i=lambda k: k % len(srcs), z=lambda k: env.num(0.0) if kernel == 'gaussian' else env.num(0.75),
                u=lambda k: env.num(0.5 if D == 1 and kernel in ('box', 'parabola') else 0.0), b=lambda k: env.num(0.0))
    c = cols(env, kde.resample(size, squeeze=False), D)
    env.check('number', len(c) == size)
    for s in c:
        env.check('the-source-inside', env.And(*[_close(env, s[d], rows[d][0]) for d in range(D)]))


def h_off(env, kernel, D):
    """False: the same samples as without boundaries"""
    env.merge()
    n = 2
    data = _data(env, D, n)
    kw = dict(bandwidth=env.num(0.5), kernel=kernel, covariance=env.arr(COV[D]))
    i0 = len(env.draws('i'))
    lim = [[env.num(-60.0), env.num(70.0)]] * D
    env.set_rng(i=lambda k: 0)
    fixed = {'z': 0.75, 'u': 0.25, 'b': 0.5}
    env.set_rng(**{k: (lambda m, v=v: env.num(v)) for k, v in fixed.items()})
    a = env.kale.KDE(data, reflect=lim, **kw).resample(2, reflect=False, squeeze=False)
    c = env.kale.KDE(data, **kw).resample(2, squeeze=False)
    e = env.kale.KDE(data, reflect=False, **kw).resample(2, squeeze=False)
    env.eq('off', a, c)
    env.eq('never', e, c)


def h_bad(env):
    env.merge()
    d1, d2 = env.arr([0.0, 1.0, 3.0]), env.arr([[0.0, 1.0, 3.0], [2.0, 0.5, 1.0]])
    lo = env.real('lo')
    hi = env.real('hi')
    env.assume(lo >= hi)
    K = env.kale.KDE
    k1, k2 = K(d1, bandwidth=env.num(0.5), covariance=env.arr(COV[1])), K(d2, bandwidth=env.num(0.5), covariance=env.arr(COV[2]))
    env.raises('order', lambda: k1.resample(2, reflect=[lo, hi]), (ValueError,))
    env.raises('order', lambda: k2.resample(2, reflect=[None, [lo, hi]]), (ValueError,))
    env.raises('number', lambda: k2.resample(2, reflect=[[0.0, 1.0]]), (ValueError,))
    b = [env.num(-50.0), env.num(50.0)]
    env.raises('keep-and-reflect', lambda: k1.resample(2, keep=0, reflect=b), (ValueError,))
    env.raises('keep-and-reflect', lambda: k1.resample(2, keep=True, reflect=b), (ValueError,))
    env.raises('keep-and-reflect', lambda: k2.resample(2, keep=1, reflect=[None, b]), (ValueError,))


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for k in ('box', 'gaussian'):
        for s in ('l', 'h', 'lh'):
            for wt in (False, True):
                out.append(Case('law-%s-%s%s' % (k, s, '-w' if wt else ''), h_law,
                                dict(kernel=k, D=1, n=2 if s != 'lh' and not (q and wt) else 1, sides=[s], weighted=wt), weight=5))
        for wh in ('call', 'override', 'function', 'nested'):
            out.append(Case('law-%s-%s' % (k, wh), h_law, dict(kernel=k, D=1, n=1, sides=['lh'], weighted=True, where=wh), weight=3))
    for k in ('box', 'gaussian', 'triweight'):
        for s in (['l', 'h'], ['lh', ''], ['', 'lh'], ['l', '', 'h']):
            out.append(Case('share-%s-%s' % (k, '_'.join(x or 'n' for x in s)), h_share, dict(kernel=k, D=len(s), sides=s), weight=3))
    for k in ref.KERNELS:
        for s in ('l', 'h', 'lh'):
            if k in ('parabola', 'triweight') and s != 'lh' and q:
                continue
            out.append(Case('mirror-1d-%s-%s' % (k, s), h_mirror, dict(kernel=k, D=1, sides=[s], weighted=True, n=1 if q and s == 'lh' else 2), weight=3))
        for s in (['l', ''], ['', 'lh'], ['h', 'l']):
            if k in ('parabola', 'triweight') and s != ['h', 'l'] and q:
                continue
            out.append(Case('mirror-2d-%s-%s' % (k, '_'.join(x or 'n' for x in s)), h_mirror, dict(kernel=k, D=2, sides=s, weighted=False), weight=3))
        if k != 'triweight':
            out.append(Case('inside-1d-%s' % k, h_inside, dict(kernel=k, D=1, sides=['lh'], size=1), weight=3))
        for D in (1, 2):
            out.append(Case('off-%dd-%s' % (D, k), h_off, dict(kernel=k, D=D)))
    for k in ('box', 'gaussian', 'triweight'):
        for s, ch, sz in ((['lh'], 1, 25), (['h'], 2, 45), (['l'], 3, 7), (['l', 'h'], 2, 24), (['', 'lh'], 1, 22)):
            if q and k == 'triweight' and len(s) == 1:
                continue
            out.append(Case('chunks-%s-%s-%d-%d' % (k, '_'.join(x or 'n' for x in s), ch, sz), h_chunks, dict(kernel=k, chunk=ch, size=sz, sides=s), weight=2))
    out.append(Case('inside-1d-two', h_inside, dict(kernel='gaussian', D=1, sides=['l' if q else 'lh'], size=2), weight=4))
    out.append(Case('inside-2d', h_inside, dict(kernel='gaussian', D=2, sides=['h', 'l'], size=1), weight=4))
    out.append(Case('inside-2d-call', h_inside, dict(kernel='gaussian', D=2, sides=['', 'l'], size=1, where='call'), weight=4))
    out.append(Case('inside-keep', h_inside, dict(kernel='gaussian', D=2, sides=['', 'lh'], size=1, keep=0), weight=4))
    out.append(Case('inside-keep-list', h_inside, dict(kernel='gaussian', D=2, sides=['l', ''], size=1, keep=[1]), weight=4))
    return out
