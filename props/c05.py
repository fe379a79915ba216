"""C05: densities of a subset of the parameters (marginalisation)."""
import itertools

from symx.run import Case
from props import ref

BOUNDS = "2-3 dimensions, 1-2 data points, all subsets and orders of the parameters, all kernels; data, weights and points symbolic"
OUTSIDE = "more dimensions, larger data sets, symbolic covariance, rounding"

COV = {2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 0.5]]}


def h(env, kernel, D, params, weighted, refl=None, form='array', pdf=False, bw='scalar', where='init'):
    env.merge()
    n = 2 if D == 2 and not (refl is not None and kernel == 'triweight') else 1
    data = env.mat('d', D, n)
    w = env.vec('w', n, 0, lo_strict=True) if weighted else None
    scalar = not isinstance(params, (list, tuple))
    pl = [params] if scalar else list(params)
    m = len(pl)
    pts = env.mat('x', m, 1)
    if bw == 'scalar':
        b = env.num(0.5)
        B = [[0.25] * D for _ in range(D)]
    else:
        b = [0.5, 0.75, 1.25][:D]
        B = [[(b[i] * b[i] if i == j else 0) for j in range(D)] for i in range(D)]
    bounds = [[None, None] for _ in range(D)]
    arg = None
    if refl is not None:
        lo, hi = env.num(-0.5), env.num(1.5)
        arg = [None] * D
        arg[refl] = [lo, hi]
        bounds[refl] = [lo, hi]
    kw = dict(bandwidth=b, weights=w, kernel=kernel, covariance=env.arr(COV[D]))
    x = pts
    if form == 'flat':
        x = pts[0]
    elif form == 'list':
        x = pts.tolist()
    if where == 'call' and arg is not None:
        kde = env.kale.KDE(data, **kw)
        p, v = kde.density(x, params=params, reflect=[arg[k] for k in pl], probability=pdf)
    elif where == 'function':
        p, v = env.kale.density(data, x, params=params, reflect=arg, probability=pdf, **kw)
    else:
        kde = env.kale.KDE(data, reflect=arg, **kw)
        p, v = kde.density(x, params=params, probability=pdf)
    M = [[env.num(COV[D][i][j] * B[i][j]) for j in pl] for i in pl]
    rows = [list(data[k]) for k in pl]
    prow = ref.rows(pts)
    ws = None if w is None else list(w)
    tot = ref.density(env, kernel, rows, prow, M, ws)
    inside = []
    for i, k in enumerate(pl):
        for t in bounds[k]:
            if t is None:
                continue
            im = [list(r) for r in rows]
            im[i] = [2 * t - y for y in im[i]]
            tot = [a + c for a, c in zip(tot, ref.density(env, kernel, im, prow, M, ws))]
        if bounds[k][0] is not None:
            inside += [bounds[k][0] <= prow[i][0], prow[i][0] <= bounds[k][1]]
    if inside:
        tot = [env.ite(env.And(*inside), t, 0) for t in tot]
    if pdf:
        tot = [t / (n if w is None else ref.tot(ws)) for t in tot]
    env.eq('density', env.np.reshape(v, (-1,)), env.np.array(tot))
    env.eq('points', env.np.reshape(env.np.asarray(p), (-1,)), env.np.reshape(pts, (-1,)))
    if not scalar and form == 'array':
        env.check('shape', tuple(env.np.shape(p)) == (m, 1) and tuple(env.np.shape(v)) == (1,))


def h_default(env, D, params, refl=False):
    """without points: the grid of those parameters, in the order asked for"""
    env.merge()
    data = env.arr([[0.0, 1.0, 3.0], [0.5, -1.0, 2.0], [4.0, 5.0, 4.5]][:D])
    w = env.vec('w', 3, 0, 10, lo_strict=True)
    g = [env.arr([-1.0, 0.5]), env.arr([0.0, 1.0, 2.5]), env.arr([4.0, 4.25])][:D]
    kw = dict(bandwidth=env.num(0.5), weights=w, covariance=env.arr(COV[D]), points=g)
    kde = env.kale.KDE(data, **kw)
    p, v = kde.density(params=params)
    pl = [params] if not isinstance(params, (list, tuple)) else list(params)
    if isinstance(params, (list, tuple)) and len(pl) > 1:
        env.check('number-of-grids', len(p) == len(pl))
        for a, k in zip(p, pl):
            env.eq('grid', a, g[k])
        sh = tuple(len(g[k]) for k in pl)
        env.check('shape', tuple(env.np.shape(v)) == sh)
    else:
        env.eq('grid', env.np.reshape(p, (-1,)), g[pl[0]])
    combos = list(itertools.product(*[list(g[k]) for k in pl]))
    q = env.np.array([[c[i] for c in combos] for i in range(len(pl))])
    u = kde.density(q, params=pl)[1]
    env.eq('values', env.np.reshape(v, (-1,)), env.np.reshape(u, (-1,)))


def h_grid(env, D, params, kernel):
    """with grid edges for those parameters"""
    env.merge()
    data = env.mat('d', D, 1)
    sh = [2, 1, 2][:len(params)]
    e = [env.vec('e%d_' % i, sh[i]) for i in range(len(params))]
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), covariance=env.arr(COV[D]), kernel=kernel)
    p, v = kde.density(e, params=params, grid=True)
    env.check('shape', tuple(env.np.shape(v)) == tuple(sh))
    combos = list(itertools.product(*[list(x) for x in e]))
    q = env.np.array([[c[i] for c in combos] for i in range(len(params))])
    u = kde.density(q, params=params)[1]
    env.eq('values', env.np.reshape(v, (-1,)), env.np.reshape(u, (-1,)))


def h_1d(env, kernel):
    """1-D data: parameter 0 is all of it, others are refused"""
    env.merge()
    data = env.vec('d', 2)
    x = env.vec('x', 1)
    kde = env.kale.KDE(data, bandwidth=env.num(0.5), covariance=env.arr([[0.75]]), kernel=kernel)
    env.eq('all', kde.density(x, params=0)[1], kde.density(x)[1])
    env.raises('other', lambda: kde.density(x, params=1), (ValueError,))


def h_bad(env):
    env.merge()
    data = env.arr([[0.0, 1.0, 3.0], [0.5, -1.0, 2.0]])
    kde = env.kale.KDE(data)
    env.raises('number-of-parameters', lambda: kde.density(env.arr([[0.0], [1.0]]), params=[0]), (ValueError,))
    env.raises('number-of-parameters-2', lambda: kde.density(env.arr([[0.0]]), params=[0, 1]), (ValueError,))


def cases(tier):
    q = tier == 'quick'
    out = [Case('bad', h_bad)]
    for k in ref.KERNELS:
        for p in (0, 1, [0], [1], [0, 1], [1, 0], (1, 0)):
            nm = str(p).replace(' ', '')
            out.append(Case('2d-%s-%s' % (k, nm), h, dict(kernel=k, D=2, params=p, weighted=True, form='flat' if not isinstance(p, (list, tuple)) else 'array'), weight=3))
        for p in (2, [0, 2], [2, 0], [1, 2], [2, 0, 1], [1]):
            if q and k == 'triweight' and len(str(p)) > 6:
                continue
            out.append(Case('3d-%s-%s' % (k, str(p).replace(' ', '')), h, dict(kernel=k, D=3, params=p, weighted=False), weight=3))
        out.append(Case('3d-diag-%s' % k, h, dict(kernel=k, D=3, params=[2, 0], weighted=True, bw='diag', form='list', pdf=True)))
        for r in (0, 1):
            for p in (0, 1, [1, 0]):
                if q and k == 'triweight' and p == [1, 0]:
                    continue
                out.append(Case('reflect%d-2d-%s-%s' % (r, k, str(p).replace(' ', '')), h,
                                dict(kernel=k, D=2, params=p, weighted=True, refl=r, form='flat' if p != [1, 0] else 'array'), weight=4))
        out.append(Case('reflect-3d-%s' % k, h, dict(kernel=k, D=3, params=[2, 1] if k != 'triweight' else [2], weighted=False, refl=2), weight=4))
        out.append(Case('reflect-call-2d-%s' % k, h, dict(kernel=k, D=2, params=[1], weighted=True, refl=1, where='call'), weight=4))
        out.append(Case('function-2d-%s' % k, h, dict(kernel=k, D=2, params=[1], weighted=True, refl=1, where='function'), weight=4))
        out.append(Case('function-3d-%s' % k, h, dict(kernel=k, D=3, params=[2, 0], weighted=False, where='function'), weight=4))
        out.append(Case('1d-%s' % k, h_1d, dict(kernel=k)))
        out.append(Case('grid-%s' % k, h_grid, dict(D=3, params=[2, 0], kernel=k)))
    for D in (2, 3):
        for p in (0, 1, [1], [1, 0], [0, 1]) + (() if D == 2 else (2, [2, 0], [0, 2, 1])):
            out.append(Case('default-%dd-%s' % (D, str(p).replace(' ', '')), h_default, dict(D=D, params=p)))
    return out
