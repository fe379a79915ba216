"""C03: the kernel functions."""
import math

from symx.run import Case
from props import ref

BOUNDS = "1-4 dimensions, up to 3 points at symbolic places (all real values); norms for 1-8 dimensions"
OUTSIDE = "more than 8 dimensions, rounding"


def _dist(env, kernel):
    return env.kernels.get_distribution_class(kernel)


def h_eval(env, kernel, D, n=1, oned=False):
    env.merge()
    dist = _dist(env, kernel)
    pts = env.vec('y', n) if oned else env.mat('y', D, n)
    snap = env.snapshot(pts)
    v = dist.evaluate(pts)
    rows = [list(pts)] if oned else ref.rows(pts)
    exp = []
    for i in range(n):
        r2 = rows[0][i] * rows[0][i]
        for r in rows[1:]:
            r2 = r2 + r[i] * r[i]
        exp.append(ref.kval(env, kernel, r2) / env.num(ref.knorm(kernel, len(rows))))
    env.eq('value', env.np.reshape(v, (-1,)), env.np.array(exp))
    env.check('shape', tuple(env.np.shape(v)) == (n,))
    env.eq('points-unchanged', env.np.reshape(pts, (-1,)), env.np.array(snap))


def h_laws(env, kernel, D):
    """non-negative, symmetric and not increasing with the distance"""
    env.merge()
    dist = _dist(env, kernel)
    y = [env.real('y%d' % i) for i in range(D)]
    s = env.real('s', 0, 1)
    pts = env.np.array([[t, -t, t * s] for t in y])
    v = dist.evaluate(pts)
    env.le('not-negative', env.num(0.0), v)
    env.eq('symmetric', v[0], v[1])
    if D > 1:
        u = dist.evaluate(env.np.array([[t] for t in y[::-1]]))
        env.eq('isotropic', u[0], v[0])
    if kernel != 'gaussian':
        env.le('decreasing', v[0], v[2])
    else:
        z = dist.evaluate(env.np.array([[env.num(0.0)]] * D))
        env.le('decreasing', v[0], z[0])
    r2 = y[0] * y[0]
    for t in y[1:]:
        r2 = r2 + t * t
    if kernel != 'gaussian':
        env.check('bounded-support', env.implies(r2 > 1, v[0] <= 0))
        env.check('positive-inside', env.implies(r2 < 1, v[0] > 0))


def h_inside(env, kernel, D, n, oned=False):
    """membership of the support"""
    env.merge()
    dist = _dist(env, kernel)
    pts = env.vec('y', n) if oned else env.mat('y', D, n)
    rows = [list(pts)] if oned else ref.rows(pts)
    got = dist.inside(pts)
    env.check('shape', tuple(env.np.shape(got)) == (n,))
    for i in range(n):
        r2 = rows[0][i] * rows[0][i]
        for r in rows[1:]:
            r2 = r2 + r[i] * r[i]
        g = got[i]
        if kernel == 'gaussian':
            env.check('inside', g)
        else:
            env.check('inside', env.And(env.implies(r2 < 1, g), env.implies(r2 > 1, env.Not(g))))


def h_grid(env, kernel, D):
    """on a grid: the same as at each of its points"""
    env.merge()
    dist = _dist(env, kernel)
    sh = [2, 1, 2][:D] if D > 1 else [3]
    e = [env.vec('e%d_' % d, sh[d]) for d in range(D)]
    g = dist.grid(e)
    env.check('shape', tuple(env.np.shape(g)) == tuple(sh))
    import itertools
    for idx in itertools.product(*[range(k) for k in sh]):
        r2 = 0
        for d in range(D):
            r2 = r2 + e[d][idx[d]] * e[d][idx[d]]
        env.eq('value', g[idx], ref.kval(env, kernel, r2) / env.num(ref.knorm(kernel, D)))


def h_tail(env, D, lo, hi, scale):
    """the Gaussian decays without end (values near double precision's smallest are compared relative to their size)"""
    env.merge()
    y = env.real('y', lo, hi)
    pts = env.np.array([[y]] + [[env.num(0.5)]] * (D - 1))
    v = _dist(env, 'gaussian').evaluate(pts)
    r2 = y * y + env.num(0.25) * (D - 1)
    env.eq('value', v[0] * scale, ref.kval(env, 'gaussian', r2) / env.num(ref.knorm('gaussian', D)) * scale)


def h_norm(env, kernel):
    """the unnormalised profile integrates to the norm in every number of dimensions"""
    dist = _dist(env, kernel)
    for d in range(1, 9):
        env.eq('norm%d' % d, env.num(float(dist.norm(d))), env.num(ref.knorm(kernel, d)))


def h_names(env):
    """kernels by name (in any case), class or default"""
    k = env.kernels
    G = k.get_distribution_class(None)
    env.check('default-gaussian', G is k.get_distribution_class('gaussian'))
    env.check('default', G.name() == 'Gaussian')
    for name, cls in (('gaussian', 'Gaussian'), ('box', 'Box'), ('parabola', 'Parabola'), ('epanechnikov', 'Parabola'),
                      ('triweight', 'Triweight')):
        c = k.get_distribution_class(name)
        env.check(name, c.name() == cls)
        env.check(name + '-case', k.get_distribution_class(' ' + name.upper() + ' ') is c)
        env.check(name + '-class', k.get_distribution_class(c) is c)
        env.check(name + '-finite', bool(c().FINITE) == (cls != 'Gaussian'))
        kde = env.kale.KDE(env.arr([0.0, 1.0, 2.5]), kernel=name)
        env.check(name + '-kde', type(kde.kernel.distribution).__name__ == cls)
        env.check(name + '-kde-class', type(env.kale.KDE(env.arr([0.0, 1.0, 2.5]), kernel=c).kernel.distribution).__name__ == cls)
    for bad in ('nothing', '', 3, dict):
        env.raises('unknown', lambda: k.get_distribution_class(bad), (ValueError,))
    env.raises('unknown-kde', lambda: env.kale.KDE(env.arr([0.0, 1.0, 2.5]), kernel='nothing'), (ValueError,))


def cases(tier):
    out = [Case('names', h_names)]
    for k in ref.KERNELS:
        out.append(Case('norm-%s' % k, h_norm, dict(kernel=k)))
        for D in (1, 2, 3, 4):
            out.append(Case('evaluate-%dd-%s' % (D, k), h_eval, dict(kernel=k, D=D, n=2 if D < 3 else 1)))
            out.append(Case('inside-%dd-%s' % (D, k), h_inside, dict(kernel=k, D=D, n=2)))
        out.append(Case('evaluate-flat-%s' % k, h_eval, dict(kernel=k, D=1, n=3, oned=True)))
        out.append(Case('inside-flat-%s' % k, h_inside, dict(kernel=k, D=1, n=3, oned=True)))
        for D in (1, 2, 3):
            out.append(Case('laws-%dd-%s' % (D, k), h_laws, dict(kernel=k, D=D)))
            out.append(Case('grid-%dd-%s' % (D, k), h_grid, dict(kernel=k, D=D)))
    for D in (1, 2, 3):
        for lo, hi, scale in ((5.0, 5.5, 10**6), (9.0, 9.25, 10**18), (14.2, 14.5, 10**45), (20.0, 20.2, 10**87), (37.0, 37.1, 10**297)):
            out.append(Case('tail-%dd-%g' % (D, lo), h_tail, dict(D=D, lo=lo, hi=hi, scale=scale)))
    return out
