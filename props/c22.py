"""C22: edges of grids and histograms: given, of a given number, or chosen from the data."""
from symx.run import Case
from props import ref

BOUNDS = "1-3 dimensions of 3-4 data points (up to 1200 at fixed places); data, weights, extrema, padding, refinement and bandwidths symbolic (one dimension symbolic at a time for automatic numbers of bins)"
OUTSIDE = "larger data sets (more than 100 effective points: at fixed places), automatic numbers of bins above 12, rounding"


def _even(env, e, lo, hi, n):
    env.check('number', tuple(env.np.shape(e)) == (n + 1,))
    for i in range(n + 1):
        env.eq('even', e[i], lo + (hi - lo) * i / n, atol=1e-9)


def h_given(env, D, form):
    """edges that are given are used as they are, also for all of the dimensions"""
    env.merge()
    data = env.vec('d', 3, -50, 50) if D == 1 else env.mat('d', D, 3, -50, 50)
    f = env.utils.parse_edges
    if form == 'shared':
        g = env.sorted_vec('e', 5, gap=env.num(0.0))
        r = f(data, edges=g)
        r = [r] if D == 1 else r
        env.check('per-dimension', len(r) == D)
        for d in range(D):
            env.check('number', tuple(env.np.shape(r[d])) == (5,))
            for a, b in zip(r[d], g):
                env.eq('as-given', a, b)
        return
    g = [env.sorted_vec('e%d_' % d, 4 + (d if form != 'same' else 0), gap=env.num(0.0)) for d in range(D)]
    r = f(data, edges=[x.tolist() for x in g] if form == 'lists' else g)
    r = [r] if D == 1 else r
    env.check('per-dimension', len(r) == D)
    for d in range(D):
        env.check('number', tuple(env.np.shape(r[d])) == tuple(env.np.shape(g[d])))
        for a, b in zip(r[d], g[d]):
            env.eq('as-given', a, b)


def h_number(env, D, nums, extrema='', form='', pad=None, at=0):
    """a number of bins: evenly spaced edges, from the extrema if given, otherwise one bin width (or as given)
    beyond the data"""
    env.merge()
    n = 4
    base = [0.0, 1.0, 3.0, 7.0]
    rows = []
    for d in range(D):
        if d == at and extrema != 'lh':
            rows.append([env.num(0.0), env.real('d1', 0, 8), env.num(5.0), env.num(8.0)])
        else:
            rows.append([env.num(x + d) for x in base])
    data = env.np.array(rows[0]) if D == 1 else env.np.array(rows)
    b = []
    for d in range(D):
        lo = None if 'l' not in extrema else env.real('lo', -2, 1) if d == at else env.num(-1.0 - d)
        hi = None if 'h' not in extrema else env.real('hi', 6, 9) if d == at else env.num(9.0 + d)
        b.append([lo, hi])
    kw = {}
    if extrema:
        kw['extrema'] = b[0] if D == 1 else b
    if pad is not None:
        kw['pad'] = pad
    edges = nums if len(nums) > 1 else nums[0]
    if form == 'list':
        edges = list(nums) * (D if len(nums) == 1 else 1)
    r = env.utils.parse_edges(data, edges=edges, **kw)
    r = [r] if D == 1 else r
    env.check('per-dimension', len(r) == D)
    nn = list(nums) * D if len(nums) == 1 else list(nums)
    for d in range(D):
        lo, hi = b[d]
        e = r[d]
        mn, mx = env.min(*rows[d]), env.max(*rows[d])
        p = (0 if extrema else 1) if pad is None else pad
        if p == 0:
            _even(env, e, mn if lo is None else lo, mx if hi is None else hi, nn[d])
        else:
            _even(env, e, e[0], e[-1], nn[d])
            env.le('below-the-data', e[0], mn if lo is None else lo)
            env.le('above-the-data', mx if hi is None else hi, e[-1])
            env.eq('padding-alike', (mn if lo is None else lo) - e[0], e[-1] - (mx if hi is None else hi), rtol=1e-9, atol=1e-9)


def width(env, vals, w, span, bw, refine, D=1):
    """the rules of Sturges and Freedman-Diaconis (and the bandwidth), for the effective number of data points"""
    n = len(vals)
    neff = env.num(float(n)) if w is None else ref.tot(list(w)) ** 2 / ref.tot([x * x for x in w])
    w1 = span / (env.log2(neff) + 1)
    ws = [w1]
    iqr = env.utils.iqrange(env.np.array(vals), weights=None if w is None else w)
    w2 = 2 * iqr * env.pow(neff, -1.0 / 3.0)
    if bool(w2 > 0):
        ws.append(w2)
    if bw is not None:
        ws.append(bw / env.sqrt(neff))
    return env.min(*ws) / refine


def h_auto(env, n, weighted=False, extrema=False, refine=None, bw=False, lims=None, pad=None):
    """automatic number of bins"""
    vals = [env.num(0.0), env.real('d1', 0, 8), env.num(8.0)] + ([env.num(5.0)] if n == 4 else [])
    data = env.np.array(vals)
    w = env.arr([1.0, 3.0, 2.0, 0.5][:n]) if weighted else None
    kw = {}
    mn, mx = env.num(0.0), env.num(8.0)
    if extrema:
        mn, mx = env.real('lo', -2, 0), env.real('hi', 8, 10)
        kw['extrema'] = [mn, mx]
    f = env.num(1.0)
    if refine:
        f = env.real('f', 0.5, 2.0)
        kw['refine'] = f
    b = None
    if bw:
        b = env.real('b', 2.0, 9.0)
        kw['bw'] = env.np.array([[b]])
    if lims:
        kw['nmin'], kw['nmax'] = lims
    lo_n, hi_n = lims or (5, 1000)
    if pad is not None:
        kw['pad'] = pad
    if w is not None:
        kw['weights'] = w
    e = env.utils.parse_edges(data, **kw)
    k = int(env.np.size(e)) - 1
    env.check('limits', lo_n <= k <= hi_n)
    wd = width(env, vals, w, mx - mn, b, f)
    p = (0 if extrema else 1) if pad is None else pad
    # ceil(span / width), within the limits
    span = mx - mn
    if k > lo_n:
        env.le('not-too-many', (k - 1) * wd, span, tol=1e-9)
    if k < hi_n:
        env.le('not-too-few', span, k * wd * (1 + 1e-9), tol=1e-9)
    _even(env, e, mn - p * wd, mx + p * wd, k)


def h_multi(env, form):
    """dimensions do not affect each other, and may be specified in different ways"""
    env.merge()
    d0 = env.np.array([env.num(0.0), env.real('d1', 0, 8), env.num(8.0)])
    d1 = env.arr([1.0, 2.0, 5.0])
    data = env.np.array([list(d0), list(d1)])
    f = env.utils.parse_edges
    g = env.sorted_vec('e', 4, gap=env.num(0.0))
    kw = {}
    if form == 'weights':
        kw['weights'] = env.arr([1.0, 2.0, 0.5])
    if form == 'mixed':
        r = f(data, edges=[4, g])
        a, b = f(d0, edges=4), g
    elif form == 'none':
        r = f(data, edges=[None, g])
        a, b = f(d0), g
    elif form == 'extrema':
        ex = [env.real('lo', -9, -1), env.real('hi', 9, 20)]
        r = f(data, edges=4, extrema=ex)
        a, b = f(d0, edges=4, extrema=ex), f(d1, edges=4, extrema=ex)
    elif form == 'extrema-part':
        ex = [env.real('lo', -9, -1), None]
        r = f(data, edges=4, extrema=[None, ex])
        a, b = f(d0, edges=4, extrema=[None, None]), f(d1, edges=4, extrema=ex)
    elif form == 'params':
        ex = [[env.real('lo%d' % d, -9, -1), env.real('hi%d' % d, 9, 20)] for d in range(3)]
        r = f(data, edges=4, extrema=ex, params=[2, 0])
        a, b = f(d0, edges=4, extrema=ex[2]), f(d1, edges=4, extrema=ex[0])
    else:
        r = f(data, **kw)
        a, b = f(d0, **kw), f(d1, **kw)
    env.check('per-dimension', len(r) == 2)
    for x, y in zip(r, (a, b)):
        env.check('number', tuple(env.np.shape(x)) == tuple(env.np.shape(y)))
        env.eq('alike', env.np.asarray(x), env.np.asarray(y), atol=1e-9)


def h_many(env, D, n=360, weighted=False, what='pad'):
    """more than 100 effective data points: their number is reduced by the square of the dimensions, but not below 100"""
    import numpy
    rs = numpy.random.RandomState(3)
    rows = rs.uniform(0, 10, size=(D, n))
    rows[:, 0], rows[:, 1] = 0.0, 10.0
    w = rs.randint(1, 4, size=n).astype(float) if weighted else None
    data = env.arr(rows[0].tolist() if D == 1 else rows.tolist())
    p = env.real('p', 0.5, 2.0)
    kw = dict(edges=7, pad=p)
    if w is not None:
        kw['weights'] = env.arr(w.tolist())
    f, b = 1.0, None
    if what == 'refine':
        f = kw['refine'] = env.real('f', 0.95, 1.05)
    if what == 'bw':
        b = env.real('b', 8.0, 8.5)
        kw['bw'] = env.np.array([[b if i == j else env.num(100.0) for j in range(D)] for i in range(D)])
    e = env.utils.parse_edges(data, **kw)
    neff = float(n) if w is None else w.sum()**2 / (w**2).sum()
    if neff > 100:
        neff = max(neff / D**2, 100.0)
    for d in range(D):
        x = e if D == 1 else e[d]
        q = numpy.sort(rows[d])
        iqr = env.utils.iqrange(env.arr(rows[d].tolist()), weights=None if w is None else kw['weights'])
        wd = env.min(env.num(10.0 / (numpy.log2(neff) + 1)), 2.0 * iqr * env.num(neff ** (-1.0 / 3.0)))
        if b is not None:
            wd = env.min(wd, b / env.num(neff ** 0.5))
        env.eq('padding-lower', x[0], -p * wd / f, rtol=1e-9, atol=1e-9)
        env.eq('padding-upper', x[7], 10 + p * wd / f, rtol=1e-9, atol=1e-9)


def h_inf(env, how, num):
    """limits which are not finite are replaced by the extent of the data which is finite"""
    inf, nan = float('inf'), float('nan')
    lo, hi = env.real('lo', -3, -1), env.real('hi', 9, 11)
    vals = [lo, env.num(1.0), env.num(2.5), env.num(4.0), hi]
    ex = None
    if how == 'data-inf':
        vals.append(env.num(inf))
    elif how == 'data-neg':
        vals.insert(0, env.num(-inf))
    elif how == 'data-nan':
        vals.insert(2, env.num(nan))
    elif how == 'hi':
        ex = [None, env.num(inf)]
    elif how == 'lo':
        ex = [env.num(-inf), None]
    elif how == 'both':
        ex = [env.num(-inf), env.num(inf)]
    elif how == 'nan':
        ex = [env.num(nan), None]
    elif how == 'data-two':
        other = env.arr([0.0, 1.0, 2.0, 3.0, 5.0, 6.0])
        vals.append(env.num(inf))
    data = env.np.array(vals)
    if how == 'data-two':
        data = env.np.array([other, data])
    kw = dict(pad=0)
    if num is not None:
        kw['edges'] = num
    e = env.utils.parse_edges(data, extrema=ex, **kw)
    if how == 'data-two':
        _even(env, e[0], env.num(0.0), env.num(6.0), int(env.np.size(e[0])) - 1)
        e = e[1]
    k = int(env.np.size(e)) - 1
    env.check('some', k == num if num is not None else 5 <= k <= 1000)
    _even(env, e, lo, hi, k)


def h_bad(env):
    f = env.utils.parse_edges
    d = env.arr([[0.0, 1.0, 3.0], [1.0, 2.0, 5.0]])
    E = (ValueError,)
    env.raises('edges-dimensions', lambda: f(d, edges=[env.arr([0.0, 1.0, 2.0])] * 3), E)
    env.raises('edges-nested', lambda: f(d, edges=[[[0.0, 1.0]], [[1.0, 2.0]]]), E)
    env.raises('data-dimensions', lambda: f(env.np.zeros((2, 2, 2)), edges=4), E)
    env.raises('extrema-number', lambda: f(d, edges=4, extrema=[[0.0, 1.0]] * 3), E)
    env.raises('extrema-size', lambda: f(d, edges=4, extrema=[[0.0, 1.0, 2.0], None]), E)
    env.raises('weights-number', lambda: f(d, weights=env.arr([1.0, 2.0])), E)


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for D in (1, 2, 3):
        for f in ('arrays', 'lists', 'shared', 'same'):
            out.append(Case('given-%dd-%s' % (D, f), h_given, dict(D=D, form=f)))
        for n in ([5], [2], [1], [4, 3], [6, 2, 3]):
            if len(n) not in (1, D):
                continue
            for ex in ('', 'lh', 'l', 'h'):
                for p in (None, 0, 2):
                    if q and (len(n) > 1 or n[0] != 5) and (p is not None or ex not in ('', 'lh')):
                        continue
                    out.append(Case('number-%dd-%s-%s-%s' % (D, n, ex, p), h_number, dict(D=D, nums=n, extrema=ex, pad=p, at=D - 1 if p == 2 else 0)))
        out.append(Case('number-%dd-list' % D, h_number, dict(D=D, nums=[5], form='list')))
    for n in (3, 4):
        for wt in (False, True):
            for ex in (False, True):
                for r in (False, True):
                    for lims in (None, (3, 6)):
                        if q and (r and ex and n == 4 or lims and wt):
                            continue
                        out.append(Case('auto-%d%s%s%s%s' % (n, '-w' if wt else '', '-ex' if ex else '', '-refine' if r else '', '-lims' if lims else ''),
                                        h_auto, dict(n=n, weighted=wt, extrema=ex, refine=r, lims=lims), weight=2))
        out.append(Case('auto-%d-bw' % n, h_auto, dict(n=n, bw=True), weight=2))
        out.append(Case('auto-%d-pad' % n, h_auto, dict(n=n, pad=3), weight=2))
    for D in (1, 2, 3):
        for n in (90, 240, 1200):
            for wt in (False, True):
                if q and (n == 1200 and wt or n == 90 and D < 3):
                    continue
                for what in ('pad', 'refine', 'bw'):
                    if what != 'pad' and (q and n != 240 or wt):
                        continue
                    out.append(Case('many-%d-%d-%s-%s' % (D, n, wt, what), h_many, dict(D=D, n=n, weighted=wt, what=what)))
    for how in ('data-inf', 'data-neg', 'data-nan', 'hi', 'lo', 'both', 'nan', 'data-two'):
        for n in (4, None):
            if n is None and how.startswith('data'):
                continue
            out.append(Case('inf-%s-%s' % (how, n), h_inf, dict(how=how, num=n)))
    for f in ('mixed', 'none', 'extrema', 'extrema-part', 'params', 'auto', 'weights'):
        out.append(Case('multi-%s' % f, h_multi, dict(form=f)))
    return out
