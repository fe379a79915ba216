"""C11: samples of the kernel functions follow the kernels."""
import itertools

from symx.run import Case
from props import ref

BOUNDS = "1-4 dimensions, 1-2 samples; all random draws symbolic (triweight in 1-D: within +-0.002 of eleven quantiles)"
OUTSIDE = "quality of numpy's generators; independence of more than two samples; rounding"


def _sample(env, kernel, D, size=1, **kw):
    dist = env.kernels.get_distribution_class(kernel)
    s = dist.sample(size, ndim=D, **kw)
    return s


def h_shape(env, kernel, D):
    env.merge()
    dist = env.kernels.get_distribution_class(kernel)
    env.set_rng(u=lambda k: env.num(0.5), z=lambda k: env.num(0.5), b=lambda k: env.num(0.5))
    env.check('squeeze-default', tuple(env.np.shape(dist.sample(3, ndim=D))) == ((3,) if D == 1 else (D, 3)))
    env.check('not-squeezed', tuple(env.np.shape(dist.sample(3, ndim=D, squeeze=False))) == (D, 3))
    if D == 1:
        env.check('one-dimension-default', tuple(env.np.shape(dist.sample(3))) == (3,))


def _rec(env):
    return {k: len(env.draws(k)) for k in 'zub'}


def h_support(env, kernel, D, size=1):
    env.merge()
    dist = env.kernels.get_distribution_class(kernel)
    s = dist.sample(size, ndim=D, squeeze=False)
    for j in range(size):
        r2 = ref.tot([s[d, j] * s[d, j] for d in range(D)])
        env.le('within-unit-ball', r2, env.num(1.0))


def h_radius(env, kernel, D):
    """the radius of a sample has the radial distribution of the kernel, in every direction alike"""
    env.merge()
    dist = env.kernels.get_distribution_class(kernel)
    s = dist.sample(1, ndim=D, squeeze=False)
    y = [s[d, 0] for d in range(D)]
    r2 = ref.tot([t * t for t in y])
    z, u, b = env.draws('z'), env.draws('u'), env.draws('b')
    if kernel == 'gaussian':
        if len(z) != D:
            env.reach('other-draws')
            return
        if D == 1:
            env.eq('normal', y[0] * y[0], z[0] * z[0])
        for p in [0]:
            env.eq('radius', r2, ref.tot([t * t for t in z]), atol=1e-9)
        return
    if D == 1:
        if kernel == 'box':
            if len(u) == 1 and not z:
                env.eq('uniform', y[0], 2 * u[0] - 1, atol=1e-9)
            else:
                env.reach('other-draws')
        elif kernel == 'parabola':
            if len(u) == 3 and not z:
                # the median of three uniform values has the density 3/4 (1 - y**2)
                v = [2 * t - 1 for t in u]
                med = env.max(env.min(v[0], v[1]), env.min(env.max(v[0], v[1]), v[2]))
                env.eq('median', y[0], med, atol=1e-9)
            else:
                env.reach('other-draws')
        return
    # direction: that of the normal draws
    if len(z) == D:
        for i in range(D):
            for j in range(i):
                env.eq('direction', y[i] * z[j], y[j] * z[i], atol=1e-9)
        for i in range(D):
            env.check('same-side', y[i] * z[i] >= 0)
    if kernel == 'box' and len(u) == 1:
        # the volume within radius r is r**D
        if D % 2 == 0:
            env.eq('radius', r2 ** (D // 2), u[0], atol=1e-9)
        else:
            env.eq('radius', r2 ** D, u[0] * u[0], atol=1e-9)
    elif kernel in ('parabola', 'triweight') and len(b) == 1:
        # r**2 of a kernel (1 - r**2)**p is a beta variate (D/2, p + 1)
        env.eq('radius', r2, b[0], atol=1e-9)
        e = env.events['beta_ab'][-1]
        env.eq('beta-a', e[0], env.num(D / 2))
        env.eq('beta-b', e[1], env.num({'parabola': 2.0, 'triweight': 4.0}[kernel]))
    else:
        env.reach('other-draws')


def h_triweight1(env, at, half=0.002):
    """1-D triweight: the inverse of its cumulative distribution"""
    u0 = env.real('u', max(at - half, 0), min(at + half, 1), lo_strict=True, hi_strict=True)
    env.set_rng(u=lambda k: u0)
    y = env.kernels.get_distribution_class('triweight').sample(1, ndim=1, squeeze=False)[0, 0]
    z, u = env.draws('z'), env.draws('u')
    if len(u) != 1 or len(z) > 1:
        env.reach('other-draws')
        return
    if z:
        # sign by a normal draw, absolute value from the distribution of absolute values
        r = env.abs(y)
        env.check('sign', y * z[0] >= 0)
        F = (r - r ** 3 + r ** 5 * 3 / 5 - r ** 7 / 7) * 35 / 16
    else:
        F = (1 + (y - y ** 3 + y ** 5 * 3 / 5 - y ** 7 / 7) * 35 / 16) / 2
    env.le('within-support', env.abs(y), env.num(1.0))
    env.le('distribution', env.abs(F - u[0]), env.num(2e-5))


def h_iso(env, kernel, D):
    """exchanging or mirroring the normal draws does the same to the sample; samples do not depend on each other"""
    env.merge()
    dist = env.kernels.get_distribution_class(kernel)
    if kernel == 'triweight' and D == 1:
        env.set_rng(u=lambda k: env.num(0.3))
    b0 = _rec(env)
    a = dist.sample(1, ndim=D, squeeze=False)
    rec = {k: env.draws(k)[b0[k]:] for k in 'zub'}
    if len(rec['z']) != D:
        env.reach('other-draws')
        return
    perm = list(env.choice('perm', list(itertools.permutations(range(D)))))
    sg = env.choice('sign', [1, -1])
    b1 = _rec(env)
    env.set_rng(z=lambda m: rec['z'][perm[m - b1['z']]] * sg, u=lambda m: rec['u'][m - b1['u']], b=lambda m: rec['b'][m - b1['b']])
    c = dist.sample(1, ndim=D, squeeze=False)
    for d in range(D):
        env.eq('isotropic', c[d, 0], a[perm[d], 0] * sg, atol=1e-9)


def cases(tier):
    out = []
    for k in ref.KERNELS:
        for D in (1, 2, 3, 4):
            out.append(Case('shape-%dd-%s' % (D, k), h_shape, dict(kernel=k, D=D)))
            if k != 'gaussian' and not (k == 'triweight' and D == 1):
                out.append(Case('support-%dd-%s' % (D, k), h_support, dict(kernel=k, D=D, size=2 if D < 3 else 1)))
            if not (k == 'triweight' and D == 1):
                out.append(Case('radius-%dd-%s' % (D, k), h_radius, dict(kernel=k, D=D)))
            if D < 4:
                out.append(Case('iso-%dd-%s' % (D, k), h_iso, dict(kernel=k, D=D)))
    if tier != 'quick':
        for i in range(20):
            out.append(Case('triweight-1d-all-%d' % i, h_triweight1, dict(at=i / 20 + 0.025, half=0.025), opts=dict(exact_interp=True)))
    for i in range(11):
        out.append(Case('triweight-1d-%d' % i, h_triweight1, dict(at=i / 10), opts=dict(exact_interp=True)))
    return out
